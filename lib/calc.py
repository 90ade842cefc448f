"""Multivector fields on charts: sessions on the real code and their traces (judged by CalcTrace.tla)."""
import sympy
from sympy import S, sympify, Matrix

import gf
import vlib
import alg
from alg import SYM, FUN, ex, Cfg, eval_mv, index_maps, BuildError


class Chart:
    def __init__(self, id, basis, coords, g, nu=None, flat=False, rank=1, kw=None):
        self.id, self.basis, self.coords = id, basis, coords.split()
        self.n = len(self.coords)
        if not isinstance(g[0], list):
            g = [[g[i] if i == j else '0' for j in range(len(g))] for i in range(len(g))]
        self.raw = g
        self.G = [[ex(e) for e in r] for r in g]
        self.nu = [ex(e) for e in (nu or ['1'] * self.n)]
        self.normed = nu is not None
        self.flat = flat
        self.heavy = rank
        self.kw = kw or {}
        self.ortho = all(self.G[i][j] == 0 for i in range(self.n) for j in range(self.n) if i != j)
        self.const = not any(e.free_symbols & {SYM[c] for c in self.coords} for r in self.G for e in r)

    def syms(self):
        return [SYM[c] for c in self.coords]

    def build(self):
        from galgebra.ga import Ga
        kw = dict(self.kw)
        if self.ortho:
            g = [self.G[i][i] for i in range(self.n)]
        else:
            g = self.G
        if self.normed:
            kw['norm'] = True
        return Ga(self.basis, g=g, coords=tuple(self.syms()), **kw)

    def values(self, pt):
        n = self.n
        return dict(n=n, g=[[pt.ev(self.G[i][j]) for j in range(n)] for i in range(n)],
                    dg=[[[pt.ev(sympy.diff(self.G[i][j], x)) for x in self.syms()] for j in range(n)] for i in range(n)],
                    nu=[pt.ev(e) for e in self.nu], normed=1 if self.normed else 0, maps=[])


CH = {}


def _c(*a, **k):
    c = Chart(*a, **k)
    CH[c.id] = c


_c('cart2', 'ex ey', 'x y', ['1', '1'], flat=True)
_c('cart3', 'ex ey ez', 'x y z', ['1', '1', '1'], flat=True)
_c('mink', 'e0 e1', 't x', ['1', '-1'], flat=True)
_c('mink3', 'e0 e1 e2', 't x y', ['1', '-1', '-1'], flat=True)
_c('st4', 'e0 e1 e2 e3', 't x y z', ['1', '-1', '-1', '-1'], flat=True, rank=2)
_c('affine2', 'e1 e2', 'x y', [['2', '1'], ['1', '3']], flat=True)
_c('affine3', 'e1 e2 e3', 'x y z', [['1', '1', '0'], ['1', '3', '-1'], ['0', '-1', '1']], flat=True)
_c('symb2', 'e1 e2', 'x y', [['u', 'w'], ['w', 'v']], flat=True)
_c('diag2', 'e1 e2', 'x y', ['u', 'v'], flat=True)
_c('line', 'e1,', 'x', ['x**2'], flat=True)
_c('polar', 'er et', 'r th', ['1', 'r**2'], flat=True)
_c('polarn', 'er et', 'r th', ['1', 'r**2'], nu=['1', 'r'], flat=True)
_c('cyl', 'er et ez', 'r th z', ['1', 'r**2', '1'], flat=True)
_c('cyln', 'er et ez', 'r th z', ['1', 'r**2', '1'], nu=['1', 'r', '1'], flat=True)
_c('sph', 'er et ep', 'r th phi', ['1', 'r**2', 'r**2*sin(th)**2'], flat=True, rank=2)
_c('sphn', 'er et ep', 'r th phi', ['1', 'r**2', 'r**2*sin(th)**2'], nu=['1', 'r', 'r*sin(th)'], flat=True, rank=2)
_c('sphere', 'et ep', 'th phi', ['1', 'sin(th)**2'])
_c('spheren', 'et ep', 'th phi', ['1', 'sin(th)**2'], nu=['1', 'sin(th)'])
_c('rindler', 'e0 e1', 't x', ['x**2', '-1'], flat=True)
_c('rindlern', 'e0 e1', 't x', ['x**2', '-1'], nu=['x', '1'], flat=True)
_c('frw', 'e0 e1 e2', 't x y', ['1', '-t**2', '-t**2'])
_c('frwn', 'e0 e1 e2', 't x y', ['1', '-t**2', '-t**2'], nu=['1', 't', 't'])
_c('hyp', 'e1 e2', 'x y', ['1/y**2', '1/y**2'])
_c('hypn', 'e1 e2', 'x y', ['1/y**2', '1/y**2'], nu=['1/y', '1/y'])
_c('para', 'eu ev', 'u v', ['u**2+v**2', 'u**2+v**2'], flat=True)
_c('paran', 'eu ev', 'u v', ['u**2+v**2', 'u**2+v**2'], nu=['sqrt(u**2+v**2)', 'sqrt(u**2+v**2)'], flat=True)
_c('shear', 'eu ev', 'x y', [['1', 'x'], ['x', '1+x**2+y**2']])
_c('null', 'eu ev', 'u v', [['0', 'u'], ['u', '0']], flat=True)
_c('null3', 'eu ev ez', 'u v z', [['0', 'u', '0'], ['u', '0', '0'], ['0', '0', '1']], flat=True)
_c('skew3', 'e1 e2 e3', 'x y z', [['1', '0', 'z'], ['0', '1', '0'], ['z', '0', '1+x**2']], rank=3)
_c('func', 'e1 e2', 'x y', ['f1(x,y)', 'f2(x,y)'], rank=2)
_c('schw', 'e0 e1 e2 e3', 't r th phi', ['1-b/r', '-r/(r-b)', '-r**2', '-r**2*sin(th)**2'], rank=3)
_c('frw4n', 'e0 e1 e2 e3', 't x y z', ['1', '-t**2', '-t**2', '-t**2'], nu=['1', 't', 't', 't'], rank=2)
_c('obl4', 'e1 e2 e3 e4', 't x y z', [['1', 'x', '0', '0'], ['x', '2+x**2', '0', '0'], ['0', '0', '0', 't'], ['0', '0', 't', '0']], rank=2)
_c('cart5', 'e1 e2 e3 e4 e5', 'x y z u v', ['1', '1', '-1', '1', '-1'], flat=True, rank=2)


class Sub(Chart):
    """a submanifold of a chart (or of a submanifold): coordinates of the parent as functions of these"""

    def __init__(self, id, parent, coords, maps, nu=None, style='map', flat=False):
        self.id, self.parent = id, CH[parent]
        self.coords = coords.split()
        self.n = len(self.coords)
        self.basis = None
        self.map = [ex(e) for e in maps]
        self.style, self.flat, self.heavy, self.kw = style, flat, 2 if self.n > 2 else 1, {}
        self.nu = [ex(e) for e in (nu or ['1'] * self.n)]
        self.normed = nu is not None
        P = self.parent
        J = Matrix([[sympy.diff(e, x) for x in self.syms()] for e in self.map])
        sub = dict(zip(P.syms(), self.map))
        self.G = sympy.simplify(J.T * Matrix(P.G).xreplace(sub) * J).tolist()
        self.ortho = all(self.G[i][j] == 0 for i in range(self.n) for j in range(self.n) if i != j)
        self.const = not any(e.free_symbols & set(self.syms()) for r in self.G for e in r)

    def build(self):
        kw = dict(norm=True) if self.normed else {}
        if self.style == 'X':
            from galgebra.ga import Ga
            return Ga(' '.join('e_%d' % i for i in range(self.n)) + (',' if self.n == 1 else ''), X=list(self.map), coords=tuple(self.syms()), **kw)
        amb = self.parent.build()
        if self.style == 'mv':
            u = amb.mv(sum((e * b for e, b in zip(self.map, amb.basis)), S.Zero))
        elif self.style == 'tuple':
            u = tuple(self.map)
        else:
            u = list(self.map)
        cs = self.syms()
        return amb.sm(u, cs if self.style == 'list' else tuple(cs), **kw)

    def values(self, pt):
        chain, c = [], self
        while isinstance(c, Sub):
            chain.insert(0, c)
            c = c.parent
        D = lambda e, x: sympy.diff(e, x)
        # images of the coordinates of every level as functions of the last coordinates
        sub, subs = {}, []
        for s in reversed(chain):
            subs.insert(0, sub)
            sub = {x: e.xreplace(subs[0]) for x, e in zip(s.parent.syms(), s.map)}
        n, G, cx = c.n, c.G, c.syms()
        ev = lambda e, sb: pt.ev(sympy.sympify(e).xreplace(sb))
        R = dict(n=n, g=[[ev(e, sub) for e in r] for r in G], dg=[[[ev(D(e, x), sub) for x in cx] for e in r] for r in G],
                 nu=[1] * n, normed=0, maps=[])
        for s, sb in zip(chain, subs):
            ys = s.syms()
            last = s is self
            R['maps'].append(dict(k=s.n, J=[[ev(D(e, y), sb) for y in ys] for e in s.map],
                                  H=[[[ev(D(D(e, y), z), sb) for z in ys] for y in ys] for e in s.map],
                                  nu=[pt.ev(e) for e in s.nu] if last else [1] * s.n, normed=1 if last and s.normed else 0))
        return R


PARAM = 'a'              # the parameter of curves


class Env:
    def __init__(self, charts):
        self.cfgs = charts
        self.ga = [c.build() for c in charts]
        self.maps = [index_maps(g) for g in self.ga]
        self.reg = {}


def blade(g, mask):
    ix = tuple(i for i in range(g.n) if mask >> i & 1)
    return g.blades.flat[g.indexes.flat.index(ix)]


def run_step(env, st):
    import galgebra.mv as gmv
    al = st.get('al', 1) - 1
    g, ch = env.ga[al], env.cfgs[al]
    A, B = env.reg.get(st.get('a', 0)), env.reg.get(st.get('b', 0))
    op, v = st['op'], st.get('var', 0)
    x = ch.syms()
    if op == 'new':
        obj = S.Zero
        for m, e in st['coef'].items():
            obj += ex(e) * blade(g, int(m))
        r = g.mv(obj)
        return r.base_rep() if st.get('rep') == 'base' else r
    if op in ('same', 'zero', 'obs'):
        return A
    if op == 'add':
        return A + B
    if op == 'sub':
        return A - B
    if op == 'prod':
        return gmv.Mv.Mul(A, B, st['s'])
    if op == 'diff':
        return [lambda: A.diff(x[st['k'] - 1]), lambda: g.pDiff(A, x[st['k'] - 1]),
                lambda: g.pDiff(A, [1 if i == st['k'] - 1 else 0 for i in range(g.n)])][v]()
    if op == 'tdiff':
        return A.diff(SYM[PARAM])
    if op == 'mdiff':
        return g.pDiff(A, st['orders'])
    if op in ('grad', 'rgrad'):
        D = [g.grad, g.grads()[0], None][v % 2] if op == 'grad' else [g.rgrad, g.grads()[1]][v % 2]
        if v >= 2:
            return gmv.Dop.Mul(D, A, op=st['s']) if op == 'grad' else gmv.Dop.Mul(A, D, op=st['s'])
        if op == 'grad':
            return {'*': lambda: D * A, '^': lambda: D ^ A, '|': lambda: D | A, '<': lambda: D < A, '>': lambda: D > A}[st['s']]()
        return {'*': lambda: A * D, '^': lambda: A ^ D, '|': lambda: A | D, '<': lambda: A < D, '>': lambda: A > D}[st['s']]()
    if op == 'opapp':        # an operator built from grad, applied
        return st['f'](env, g, A)
    if op == 'bder':
        return g.mv(g.blade_derivation(blade(g, st['b']), st['k'] - 1 if v == 0 else x[st['k'] - 1]))
    if op == 'rvec':
        return [r if not g.norm else r / e for r, e in zip(g.mvr(), g.e_norm or [1] * g.n)]
    if op == 'christ':
        return g.Christoffel_symbols(mode=st['k'])
    if op == 'de':
        return g.de
    if op == 'metric':
        return g.g.tolist()
    if op == 'graw':
        return g.g_raw.tolist()
    if op == 'free':
        return st['f'](env, g, A, B)
    if op == 'noise':
        st['f'](env, g, A)
        return None
    raise KeyError(op)


KIND = dict(rvec='vecs', christ='list', metric='list', graw='list', de='vecs', noise='none')


def frz(v, kind):
    from galgebra.mv import Mv
    if kind == 'vecs':
        return [(t.obj if isinstance(t, Mv) else sympify(t)) for t in flat(v)]
    if kind == 'list':
        return [sympify(t) for t in flat(v)]
    if kind == 'none':
        return None
    if isinstance(v, Mv):
        return (v.obj, v)
    return (sympify(v), None)


def flat(v):
    if isinstance(v, (list, tuple)):
        return [y for t in v for y in flat(t)]
    return [v]


def execute(sess):
    try:
        env = Env([CH[c] if isinstance(c, str) else c for c in sess['algs']])
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    rec = []
    for st in sess['steps']:
        for w, q in st.get('warm', ()):
            alg.warm(env.reg.get(w), q)
        try:
            val, status = run_step(env, st), 'ok'
            fv = frz(val, KIND.get(st['op'], 'mv'))
        except vlib.Timeout:
            raise
        except Exception as e:
            fv, status = '%s: %s' % (type(e).__name__, e), 'exc'
        rec.append((st, status, fv))
        if st.get('dst'):
            if status != 'ok':
                break
            env.reg[st['dst']] = val
    else:
        for r, v in sorted(env.reg.items()):
            a_ = next(s_['al'] for s_ in sess['steps'] if s_.get('dst') == r)
            rec.append((dict(op='obs', al=a_, a=r), 'ok', frz(v, 'mv')))
    return env, rec


def trace(sess, seed, lim):
    with vlib.time_limit(lim):
        env, rec = execute(sess)
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return _evaluate(sess, env, rec, pt)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def jets(pt, env, al, v):
    """derivatives of the blade coefficients of an observed field"""
    obj, m = v
    if m is not None:
        obj = m.blade_rep().obj
    n = env.cfgs[al].n
    mb = env.maps[al][0]
    return [pt.vec(sympy.diff(obj, x), mb, n) for x in env.cfgs[al].syms() + [SYM[PARAM]]]


def _evaluate(sess, env, rec, pt):
    algs = [c.values(pt) for c in env.cfgs]
    lines, skipped = [], 0
    for st, status, val in rec:
        al = st.get('al', 1) - 1
        ch = env.cfgs[al]
        n = ch.n
        ln = dict(op=st['op'], al=al + 1, a=st.get('a', 0), b=st.get('b', 0), k=st.get('k', 0), s=st.get('s', ''),
                  dst=st.get('dst', 0), st=status, obs=[], obsb=[], obsd=[], df=[],
                  u=[pt.ev(sympy.diff(ex(e), SYM[PARAM])) for e in st.get('u', ())])
        if st['op'] in ('opapp', 'mdiff'):
            ln['op'] = 'free'
        if st['op'] == 'noise':
            ln['st'] = status = 'ok'
        if st['op'] == 'new':
            d = [0] * (1 << n)
            for m, e in st['coef'].items():
                d[int(m)] = pt.ev(ex(e))
            ln['df'] = d
        if status == 'ok':
            kind = KIND.get(st['op'], 'mv')
            try:
                if kind == 'mv':
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[0], env.maps[al], n)
                    if st.get('dst'):
                        ln['obsd'] = jets(pt, env, al, val) if st['op'] != 'new' else [
                            [pt.ev(sympy.diff(ex(st['coef'].get(str(m), 0)), x)) for m in range(1 << n)] for x in ch.syms() + [SYM[PARAM]]]
                elif kind == 'vecs':
                    ln['obs'] = [y for t in val for y in eval_mv(pt, t, env.maps[al], n)[0]]
                elif kind == 'list':
                    ln['obs'] = [pt.ev(t) for t in val]
            except gf.Unsupported:
                ln['st'] = 'skip'
                skipped += 1
            except gf.NonFinite:
                ln['st'] = 'nf'
            except gf.Malformed:
                ln['st'] = 'malformed'
        lines.append(ln)
        if ln['st'] == 'skip' and st.get('dst'):
            break
    return dict(lines=lines, algs=algs, skipped=skipped)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='CalcTrace', cfg='CalcTrace.cfg', tracer=trace, **kw)
