"""Multilinear transformations: sessions on the real code and their traces (judged by MltTrace.tla)."""
import itertools

import sympy
from sympy import S, sympify, Matrix

import gf
import vlib
import alg
import calc
from alg import ex, eval_mv, index_maps, BuildError
from calc import CH, blade


def slot(g, i):
    """coefficients of the vector variable of slot i"""
    pd = getattr(g, '_mlt_pdiffs', None)
    return pd[i] if pd is not None else g.mv('a_%d' % (i + 1), 'vector').get_coefs(1)


def run_step(env, st):
    import galgebra.lt as lt
    Mlt = lt.Mlt
    al = st.get('al', 1) - 1
    g, ch = env.ga[al], env.cfgs[al]
    n = g.n
    A, B = env.reg.get(st.get('a', 0)), env.reg.get(st.get('b', 0))
    X = [env.reg[r] for r in st.get('args', [])]
    op, v = st['op'], st.get('var', 0)
    if op == 'newf':
        obj = S.Zero
        for m, e in st['coef'].items():
            obj += ex(e) * blade(g, int(m))
        r = g.mv(obj)
        return r.base_rep() if st.get('rep') == 'base' else r
    if op == 'str':
        return Mlt(st.get('name', 'T'), g, nargs=st['k'], fct=bool(st.get('fct')))
    if op == 'comp':
        Mlt.increment_slots(st['k'], g)
        acs = [slot(g, i) for i in range(st['k'])]
        e = S.Zero
        for c, ix in zip(st['coefs'], itertools.product(range(n), repeat=st['k'])):
            t = ex(c)
            for s, i in enumerate(ix):
                t = t * acs[s][i]
            e += t
        if v:
            e = sympy.expand(e) if v == 1 else sympy.factor(e)
        return Mlt(e, g, nargs=st['k'])
    if op == 'vec':
        return Mlt(X[0], g)
    if op == 'lin':
        return Mlt(g.lt(Matrix([[ex(t) for t in r] for r in st['mat']])), g)
    if op == 'fun':
        x, y = (X + [None, None])[:2]
        f = {'id': lambda a: a, 'dyad': lambda a: (a | x) * y, 'met': lambda a, b: a | b, 'biv': lambda a, b: x | (a ^ b),
             'forms': lambda a, b: (a | x) * (b | y), 'vv': lambda a, b: (a | b) * x + (b | y) * a, 'prod': lambda a, b: a * b,
             'tri': lambda a, b, c: x | (a ^ b ^ c), 'mix': lambda a, b, c: (a | c) * (b | x)}[st['s']]
        return Mlt(f, g)
    if op == 'eval':
        return A(*X)
    if op == 'slots':
        e = A()
        sub = [(s, c) for i, x in enumerate(X) for s, c in zip(slot(g, i), x.get_coefs(1))]
        return e.subs(sub, simultaneous=True)
    if op == 'tadd':
        return A + B
    if op == 'tsub':
        return A - B
    if op == 'tscale':
        return A * ex(st['c'])
    if op == 'tprod':
        return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B}[st['s']]()
    if op == 'contract':
        return A.contract(st['k'], st['k2'])
    if op == 'pdiff':
        r = A.pdiff(st['k'])
        return r.subs([(s, c) for i, x in enumerate(X) for s, c in zip(slot(g, i), x.get_coefs(1))], simultaneous=True)
    if op == 'dd':
        return A.dd()
    if op == 'cderiv':
        return A.cderiv()
    if op == 'same':
        if st['s'] == 'expand':
            return A.expand()
        if st['s'] == 'copy':
            return Mlt(A(), g, nargs=A.nargs)
        if st['s'] == 'fun':                        # a function that calls the tensor
            return Mlt({1: lambda a: A(a), 2: lambda a, b: A(a, b), 3: lambda a, b, c: A(a, b, c)}[A.nargs], g)
    if op == 'raise':
        return st['f'](env, g, A, B)
    raise KeyError(op)


def frz(env, al, v):
    from galgebra.lt import Mlt
    g = env.ga[al]
    if isinstance(v, Mlt):
        return ('ten', v.nargs, [bobj(v(*e) if e else v()) for e in itertools.product(g.mv(), repeat=v.nargs)])
    return ('fld', alg.mvval(v))


def execute(sess):
    try:
        env = calc.Env([CH[c] for c in sess['algs']])
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    rec = []
    for st in sess['steps']:
        for w, q in st.get('warm', ()):
            alg.warm(env.reg.get(w), q)
        try:
            val, status = run_step(env, st), 'ok'
            fv = frz(env, st.get('al', 1) - 1, val)
        except vlib.Timeout:
            raise
        except Exception as e:
            fv, status = '%s: %s' % (type(e).__name__, e), 'exc'
        rec.append((st, status, fv))
        if st.get('dst'):
            if status != 'ok':
                break
            env.reg[st['dst']] = val
    else:
        for r, v in sorted(env.reg.items()):
            a_ = next(s_.get('al', 1) for s_ in sess['steps'] if s_.get('dst') == r)
            rec.append((dict(op='obs', al=a_, a=r), 'ok', frz(env, a_ - 1, v)))
    return env, rec


def trace(sess, seed, lim):
    with vlib.time_limit(lim):
        env, rec = execute(sess)
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return _evaluate(sess, env, rec, pt)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def atoms(ch, vals):
    """number of distinct components, each of which must be a symbol or a function of the coordinates"""
    seen = set()
    for v in vals:
        e = sympify(v)
        if not (e.is_Symbol or (isinstance(e, sympy.core.function.AppliedUndef) and e.args == tuple(ch.syms()))):
            return -1
        if e.is_real is not True:
            return -1
        seen.add(e)
    return len(seen)


def _evaluate(sess, env, rec, pt):
    algs = [c.values(pt) for c in env.cfgs]
    lines, skipped = [], 0
    for st, status, val in rec:
        al = st.get('al', 1) - 1
        ch = env.cfgs[al]
        n, mb = ch.n, env.maps[al][0]
        ln = dict(op=st['op'], al=al + 1, a=st.get('a', 0), b=st.get('b', 0), s=st.get('s', ''), c=0, k=st.get('k', 0),
                  k2=st.get('k2', 0), dst=st.get('dst', 0), args=st.get('args', []), st=status, kind='', rank=-1,
                  obs=[], obsb=[], ten=[], dten=[], df=[], cnt=0)
        if 'c' in st:
            ln['c'] = pt.ev(ex(st['c']))
        if st['op'] == 'newf':
            d = [0] * (1 << n)
            for m, e in st['coef'].items():
                d[int(m)] = pt.ev(ex(e))
            ln['df'] = d
        if st['op'] == 'comp':
            ln['df'] = [pt.ev(ex(t)) for t in st['coefs']]
        if st['op'] == 'lin':
            ln['df'] = [pt.ev(ex(t)) for r in st['mat'] for t in r]
        if status == 'ok':
            try:
                ln['kind'] = val[0]
                if val[0] == 'fld':
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[1], env.maps[al], n)
                else:
                    ln['rank'] = val[1]
                    if st['op'] == 'str':
                        ln['cnt'] = atoms(ch, val[2])
                    for t in val[2]:
                        lo, hi = eval_mv(pt, t, env.maps[al], n)
                        if hi:
                            raise gf.Malformed('component in base representation')
                        ln['ten'].append(lo)
                    if st.get('dst'):
                        ln['dten'] = [[pt.vec(sympy.diff(t, x), mb, n) for t in val[2]] for x in ch.syms()]
            except gf.Unsupported:
                ln['st'] = 'skip'
                skipped += 1
            except gf.NonFinite:
                ln['st'] = 'nf'
            except gf.Malformed:
                ln['st'] = 'malformed'
        lines.append(ln)
        if ln['st'] == 'skip' and st.get('dst'):
            break
    return dict(lines=lines, algs=algs, skipped=skipped)


def bobj(v):
    from galgebra.mv import Mv
    return v.blade_rep().obj if isinstance(v, Mv) else sympify(v)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='MltTrace', cfg='MltTrace.cfg', tracer=trace, **kw)
