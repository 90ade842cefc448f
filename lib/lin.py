"""Linear transformations: sessions on the real code and their traces (judged by LinTrace.tla)."""
import sympy
from sympy import S, sympify, Matrix

import gf
import vlib
import alg
from alg import SYM, ex, eval_mv, index_maps, BuildError, CFGS
from calc import CH, blade


def cfg(c):
    return CH[c] if c in CH else CFGS[c]


def metric(c):
    """bilinear form of the (normalised) basis"""
    if getattr(c, 'normed', False):
        return [[c.G[i][j] / (c.nu[i] * c.nu[j]) for j in range(c.n)] for i in range(c.n)]
    return c.G


class Env:
    def __init__(self, cfgs):
        self.cfgs = cfgs
        self.ga = [c.build() for c in cfgs]
        self.maps = [index_maps(g) for g in self.ga]
        self.reg = {}


def mkmv(g, coef, rep=''):
    obj = S.Zero
    for m, e in coef.items():
        obj += ex(e) * blade(g, int(m))
    r = g.mv(obj)
    return r.base_rep() if rep == 'base' else r


def run_step(env, st):
    import galgebra.lt as lt
    al = st.get('al', 1) - 1
    g = env.ga[al]
    n = g.n
    A, B = env.reg.get(st.get('a', 0)), env.reg.get(st.get('b', 0))
    op, v = st['op'], st.get('var', 0)
    e = list(g.basis)
    if op == 'newf':
        return mkmv(g, st['coef'], st.get('rep', ''))
    if op == 'newl':
        X = [[ex(t) for t in row] for row in st['mat']]
        cols = [sum((X[i][j] * e[i] for i in range(n)), S.Zero) for j in range(n)]
        make = g.lt if st.get('ctor', 0) == 0 else (lambda x: lt.Lt(x, ga=g))
        how = st['how']
        if how == 'matrix':
            return make(Matrix(X))
        if how == 'immutable':
            return make(sympy.ImmutableMatrix(X))
        if how == 'lists':
            return make([[X[i][j] for i in range(n)] for j in range(n)])
        if how == 'mvlist':
            return make([g.mv(c) for c in cols])
        if how == 'dict':
            return make({e[j]: cols[j] for j in st.get('order', range(n))})
        if how == 'dictx':                     # values that are not collected
            return make({e[j]: sum((X[i][j] * e[i] + ex('a') * e[i] - ex('a') * e[i] for i in range(n)), S.Zero) if v == 0 else
                         sympy.Add(*[sympy.Mul(t, e[i], evaluate=False) for i in range(n) for t in (X[i][j] - 1, S.One)])
                         for j in range(n)})
        if how == 'dictmv':
            return make({e[j]: g.mv(cols[j]) for j in range(n)})
        if how == 'partial':
            return make({e[j]: cols[j] for j in range(n) if any(X[i][j] != 0 for i in range(n))})
        if how == 'func':
            return make(lambda x: sum((x.get_coefs(1)[j] * g.mv(cols[j]) for j in range(n)), g.mv(S.Zero)))
        if how == 'funcb':
            return make(lambda x: sum((x.get_coefs(1)[j] * g.mv(cols[j]) for j in range(n)), g.mv(S.Zero)).base_rep())
        raise KeyError(how)
    if op == 'lfun':
        c = ex(st.get('c', 1))
        f = {'dyad': lambda x: (x | A) * B + c * x, 'sand': lambda x: A * x * A, 'contr': lambda x: x < A,
             'scal': lambda x: c * x}[st['s']]
        return g.lt(f)
    if op == 'sym':
        kw = {}
        if st['s'] != 'g' or v:
            kw['mode'] = st['s']
        if st.get('k'):
            kw['f'] = True
        return g.lt(st.get('name', 'A'), **kw)
    if op == 'vprod':
        return A * B
    if op == 'versor':
        return g.lt(A)
    if op == 'ladd':
        return A + B
    if op == 'lsub':
        return A - B
    if op == 'lmul':
        return A * B
    if op == 'lscale':
        c = ex(st['c'])
        return c * A if v == 0 else A * c
    if op == 'ladj':
        return A.adj()
    if op == 'linv':
        return A.inv()
    if op == 'same':
        return {'matrix': lambda: g.lt(A.matrix()), 'dict': lambda: g.lt(dict(A.lt_dict)), 'func': lambda: g.lt(lambda x: A(x)),
                'lt': lambda: g.lt([A(x) for x in g.mv()]), 'adjadj': lambda: A.adj().adj(), 'invinv': lambda: A.inv().inv(),
                'plus0': lambda: A + g.lt(sympy.zeros(n, n)), 'id': lambda: A * g.lt(sympy.eye(n)),
                'idl': lambda: g.lt(sympy.eye(n)) * A}[st['s']]()
    if op == 'appl':
        if v == 1:
            return g.mv(A(B, obj=True))
        if v == 2:
            return A(B.blade_rep().obj)
        if v == 3:
            return A(B.scalar())
        return A(B)
    if op == 'det':
        return A.det() if v == 0 else lt.det(A)
    if op == 'tr':
        return A.tr()
    if op == 'sing':
        return A.is_singular()
    if op == 'raise':
        return st['f'](env, g, A, B)
    raise KeyError(op)


def frz(env, al, v, st):
    from galgebra.lt import Lt
    from galgebra.mv import Mv
    g = env.ga[al]
    if isinstance(v, Lt):
        m = v.matrix()
        # the matrix is asked for before or after the images: the order must not matter
        img = [v(x) for x in g.mv()]
        return ('mat', [[m[i, j] for j in range(g.n)] for i in range(g.n)], [alg.mvval(x) for x in img])
    if st['op'] in ('det', 'tr', 'sing'):
        if isinstance(v, Mv):
            raise TypeError('multivector')
        return ('num', v if st['op'] != 'sing' else (S.One if v is True or v == True else S.Zero))  # noqa: E712
    return ('fld', alg.mvval(v))


def execute(sess):
    try:
        env = Env([cfg(c) for c in sess['algs']])
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    rec = []
    for st in sess['steps']:
        for w, q in st.get('warm', ()):
            alg.warm(env.reg.get(w), q)
        try:
            val, status = run_step(env, st), 'ok'
            fv = frz(env, st.get('al', 1) - 1, val, st)
        except vlib.Timeout:
            raise
        except Exception as e:
            fv, status = '%s: %s' % (type(e).__name__, e), 'exc'
        rec.append((st, status, fv))
        if st.get('dst'):
            if status != 'ok':
                break
            env.reg[st['dst']] = val
    else:
        for r, v in sorted(env.reg.items()):
            a_ = next(s_.get('al', 1) for s_ in sess['steps'] if s_.get('dst') == r)
            st = dict(op='obs', al=a_, a=r)
            rec.append((st, 'ok', frz(env, a_ - 1, v, st)))
    return env, rec


def trace(sess, seed, lim):
    with vlib.time_limit(lim):
        env, rec = execute(sess)
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return _evaluate(sess, env, rec, pt)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def _evaluate(sess, env, rec, pt):
    algs = [dict(n=c.n, g=[[pt.ev(e) for e in r] for r in metric(c)]) for c in env.cfgs]
    lines, skipped = [], 0
    for st, status, val in rec:
        al = st.get('al', 1) - 1
        n = env.cfgs[al].n
        ln = dict(op=st['op'], al=al + 1, a=st.get('a', 0), b=st.get('b', 0), s=st.get('s', ''), c=0, dst=st.get('dst', 0),
                  st=status, kind='', obs=[], obsb=[], mat=[], img=[], df=[], cnt=0)
        if 'c' in st:
            ln['c'] = pt.ev(ex(st['c']))
        if st['op'] == 'newf':
            d = [0] * (1 << n)
            for m, e in st['coef'].items():
                d[int(m)] = pt.ev(ex(e))
            ln['df'] = d
        if st['op'] == 'newl':
            ln['df'] = [pt.ev(ex(t)) for row in st['mat'] for t in row]
        if status == 'ok':
            try:
                ln['kind'] = val[0]
                if val[0] == 'fld':
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[1], env.maps[al], n)
                elif val[0] == 'mat':
                    ln['mat'] = [[pt.ev(sympify(t)) for t in row] for row in val[1]]
                    for t in val[2]:
                        lo, hi = eval_mv(pt, t, env.maps[al], n)
                        if hi:
                            raise gf.Malformed('image in base representation')
                        ln['img'].append(lo)
                    if st['op'] == 'sym':
                        X = Matrix(val[1])
                        if env.cfgs[al].n and st['s'] in 'sa':
                            X = (Matrix(metric(env.cfgs[al])) * X).applyfunc(sympy.simplify)
                        at = X.atoms(sympy.core.function.AppliedUndef) if st.get('k') else \
                            {t for t in X.free_symbols if st.get('name', 'A') in str(t)}
                        ln['cnt'] = len(at)
                elif val[0] == 'num':
                    ln['obs'] = [pt.ev(sympify(val[1]))]
            except gf.Unsupported:
                ln['st'] = 'skip'
                skipped += 1
            except gf.NonFinite:
                ln['st'] = 'nf'
            except gf.Malformed:
                ln['st'] = 'malformed'
        lines.append(ln)
        if ln['st'] == 'skip' and st.get('dst'):
            break
    return dict(lines=lines, algs=algs, skipped=skipped)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='LinTrace', cfg='LinTrace.cfg', tracer=trace, **kw)
