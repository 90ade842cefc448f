"""Algebra factories: sessions on the real code (judged by FactTrace.tla).  The mode of the dual is shared by all calls."""
import sympy
from sympy import S, Symbol, Matrix, ImmutableMatrix, Function

import gf
import vlib
import alg
from alg import index_maps, eval_mv


def syms(text):
    return sympy.symbols(text, real=True, seq=True) if text else None


def expr(s, coords):
    ns = {str(c): c for c in coords or ()}
    ns.update({k: Symbol(k, real=True) for k in ('a', 'b', 'c')})
    return sympy.sympify(s, locals=ns)


def forms(st, coords):
    G = [[expr(s, coords) for s in r] for r in st['G']]
    f = st['form']
    if f == 'list':
        return [G[i][i] for i in range(len(G))]
    if f == 'tuple':
        return tuple(G[i][i] for i in range(len(G)))
    if f == 'nested':
        return G
    return {'matrix': Matrix, 'imatrix': ImmutableMatrix}[f](G)


def make(st, coords):
    from galgebra.ga import Ga
    kw = dict(st.get('kw', {}))
    if coords:
        kw['coords'] = coords
    op = st['op']
    if op == 'ga':
        if st['form'] == 'str':
            kw['g'] = st['text']
    elif op == 'values':
        kw['g'] = 'g' if st['form'] == 'g' else forms(st, coords)
    elif op == 'chart':
        if st['form'] == 'preset':
            return Ga.preset(st['name'], **({'root': st['root']} if 'root' in st else {}))
        if st['form'] == 'X':
            kw['X'] = [expr(s, coords) for s in st['X']]
        else:
            kw['g'] = [expr(s, coords) for s in st['g']]
    via = st.get('via', 'Ga')
    if via == 'build':
        r = Ga.build(st['basis'], **kw)
        if not isinstance(r, tuple) or len(r) != r[0].n + 1 or any(v.obj != b for v, b in zip(r[1:], r[0].basis)):
            raise ValueError('build')
        return r[0]
    return Ga(st['basis'], **kw)


def run_step(env, st):
    from galgebra.ga import Ga
    op = st['op']
    if op == 'mode':
        return Ga.dual_mode(st['conv'])
    if op == 'cl':
        from galgebra.interop import Cl
        from galgebra.interop.kingdon import Cl as KCl
        kw = dict(st.get('kw', {}))
        if st['root'] != 'e':
            kw['root'] = st['root']
        if st.get('coords'):
            kw['coords'] = syms(st['coords'])
        f = KCl if st['conv'] == 'kingdon' else Cl
        a = [st['p'], st['q'], st['r']]
        while st.get('short') and len(a) > 1 and a[-1] == 0:
            a.pop()
        r = f(*a, **kw)
        if any(v.obj != b for v, b in zip(r[1:], r[0].basis)):
            raise ValueError('basis vectors returned in another order')
        env['ga'], env['count'] = r[0], len(r) - 1
        return r[0]
    if op in ('ga', 'values', 'chart'):
        env['coords'] = syms(st.get('coords'))
        env['ga'] = make(st, env['coords'])
        return env['ga']
    g = env['ga']
    if op == 'blades':
        return g
    if op == 'sig':
        return tuple(int(s) for s in g.sig)
    raise KeyError(op)


def trace(sess, seed, lim):
    from galgebra.ga import Ga
    rec = []
    env = dict(ga=None)
    with vlib.time_limit(lim):
        Ga.dual_mode('I+')
        for st in sess['steps']:
            try:
                val, status = run_step(env, st), 'ok'
            except vlib.Timeout:
                raise
            except Exception as e:
                val, status = '%s: %s' % (type(e).__name__, e), 'exc'
            snap = dict(n=env['ga'].n, count=env.get('count', 0)) if env['ga'] is not None else {}
            rec.append((st, status, val, Ga.dual_mode_value, snap, env.get('coords')))
            if status != 'ok':
                break
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return dict(lines=[_line(pt, *r) for r in rec], algs=[], skipped=0)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def _seen(pt, g):
    n = g.n
    maps = index_maps(g)
    dots = []
    v = g.mv()
    for i in range(n):
        for j in range(n):
            lo, hi = eval_mv(pt, (v[i] * v[j] + v[j] * v[i]) / 2, maps, n)
            if any(lo[1:]) or any(hi):
                raise gf.Malformed('product of vectors')
            dots.append(lo[0])
    return dict(names=[b.name for b in g.basis], rnames=[b.name for b in g.r_symbols],
                g=[pt.ev(sympy.sympify(g.g[i, j])) for i in range(n) for j in range(n)], dots=dots)


def _ix(coords):
    return [list(str(c)) for c in coords or ()]


def _line(pt, st, status, val, mode, snap, coords):
    from galgebra.mv import Mv
    from galgebra.atoms import DotProductSymbol
    op = st['op']
    ln = dict(op=op, st=status, mode=mode, basis=list(st.get('basis', '')), ix=_ix(coords), text=['?'], n=st.get('n', 0), D=[], G=[],
              p=st.get('p', 0), q=st.get('q', 0), r=st.get('r', 0), conv=st.get('conv', ''), root=st.get('root', 'e'), names=[], wedge=1,
              digits=0, hint='', sq=[], norm=0, prefix=st.get('prefix', 'e'), obs={})
    if op == 'ga' and st['form'] == 'str':
        ln['text'] = list(st['text'])
    if op == 'values':
        if st['form'] == 'g':
            ln['G'] = [[pt.ev(Function('g_%s_%s' % (coords[min(i, j)], coords[max(i, j)]))(*coords)) for j in range(st['n'])] for i in range(st['n'])]
        else:
            ln['G'] = [[pt.ev(expr(s, coords)) for s in r] for r in st['G']]
    if op == 'chart':
        ln['G'] = [[pt.ev(sympy.diff(expr(x, coords), c)) for x in st['X']] for c in coords]
        ln['norm'] = st.get('norm', 0)
    if op == 'blades':
        ln.update(names=st['names'], wedge=st.get('wedge', 1), digits=st.get('digits', 0), ix=[list(x) if False else x for x in st['ix']])
    if op == 'sig':
        ln.update(hint=st['hint'], sq=st.get('sq', []), p=st.get('p', 0))
    if status != 'ok':
        ln['text_'] = str(val)[:200]
        if op == 'ga':
            ln['D'] = [[0] * st['n']] * st['n']
        return ln
    try:
        if op in ('ga', 'values', 'cl', 'chart'):
            g = val
            ln['obs'] = _seen(pt, g)
            if op == 'chart':
                ln['obs']['raw'] = [pt.ev(sympy.sympify(g.g_raw[i, j])) for i in range(g.n) for j in range(g.n)]
            if op == 'cl':
                ln['obs']['count'] = snap['count']
            if op == 'ga':
                B = g.basis
                ln['D'] = [[pt.ev(DotProductSymbol(B[i], B[j])) for j in range(g.n)] for i in range(g.n)] if g.n == st['n'] else [[0] * st['n']] * st['n']
        elif op == 'blades':
            g, n = val, val.n
            maps = index_maps(g)
            flat = g.blades.flat
            obs = dict(index=[list(i) for i in g.indexes.flat], text=[str(b) for b in flat],
                       grades=[k for k, gr in enumerate(g.blades) for _ in gr],
                       mvs=[x for m in g.mv_blades.flat for x in eval_mv(pt, m, maps, n)[0]])
            if ln['digits']:
                d = g.bases_dict(st['prefix']) if 'prefix' in st else g.bases_dict()
                obs['dict'] = list(d)
                obs['dictv'] = [x for v in d.values() for x in eval_mv(pt, v if isinstance(v, Mv) else g.mv(v), maps, n)[0]]
            obs['digits'] = ln['digits']
            ln['obs'] = obs
        elif op == 'sig':
            ln['obs'] = dict(sig=list(val))
        elif op == 'mode':
            ln['obs'] = dict(ok=1)
    except gf.Malformed as e:
        ln['st'] = 'malformed'
    except gf.NonFinite:
        ln['st'] = 'nf'
    except gf.Unsupported:
        ln['st'] = 'skip'
    return ln


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='FactTrace', cfg='FactTrace.cfg', tracer=trace, **kw)
