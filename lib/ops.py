"""Differential operators over constant metrics: sessions on the real code and their traces (judged by OpTrace.tla)."""
import itertools
import sympy
from sympy import S, sympify

import gf
import vlib
import alg
from alg import SYM, ex, eval_mv, index_maps, BuildError
from calc import CH, Env, blade

KMAX = {1: 5, 2: 4, 3: 3, 4: 2}


def mis(n):
    K = KMAX[n]
    return sorted([t for t in itertools.product(range(K + 1), repeat=n) if sum(t) <= K], key=lambda t: (sum(t), tuple(-x for x in t)))


def mkpd(ch, mi, rev=False):
    from galgebra.dop import Pdop
    it = [(x, k) for x, k in zip(ch.syms(), mi) if k]
    if len(it) == 1 and it[0][1] == 1 and rev:
        return Pdop(it[0][0])
    return Pdop(dict(it[::-1] if rev else it))


def mkmv(g, coef, rep=''):
    obj = S.Zero
    for m, e in coef.items():
        obj += ex(e) * blade(g, int(m))
    r = g.mv(obj)
    return r.base_rep() if rep == 'base' else r


def bin_(s, X, Y):
    return {'*': lambda: X * Y, '^': lambda: X ^ Y, '|': lambda: X | Y, '<': lambda: X < Y, '>': lambda: X > Y}[s]()


def binop(s, X, Y, v):
    from galgebra.mv import Dop, Mv
    if v == 1 and (isinstance(X, Dop) or isinstance(Y, Dop)):
        return Dop.Mul(X, Y, op=s)
    if s in '<>' and not isinstance(X, (Mv, Dop)):
        return Dop.Mul(X, Y, op=s)
    return bin_(s, X, Y)


def run_step(env, st):
    from galgebra.mv import Dop, Mv
    from galgebra.dop import Sdop, Pdop
    al = st.get('al', 1) - 1
    g, ch = env.ga[al], env.cfgs[al]
    A, B = env.reg.get(st.get('a', 0)), env.reg.get(st.get('b', 0))
    op, v, s = st['op'], st.get('var', 0), st.get('s', '*')
    if op == 'newf':
        if st.get('rep') == 'expr':
            return ex(st['coef']['0'])
        return mkmv(g, st['coef'], st.get('rep', ''))
    if op == 'newop':
        ts = [(mi, c) for mi, c in st['terms']]
        cmp = bool(st.get('k', 0))
        how = st.get('how', 0)
        kw = dict(ga=g)
        if cmp:
            kw['cmpflg'] = True
        if how == 0:
            return Dop([(mkmv(g, c, st.get('rep', '')), mkpd(ch, mi, v)) for mi, c in ts], **kw)
        if how == 1:
            return Dop([mkmv(g, c, st.get('rep', '')) for mi, c in ts], [mkpd(ch, mi, v) for mi, c in ts], **kw)
        if how == 2:        # (Sdop, Mv) pairs
            by = {}
            for mi, c in ts:
                for m, e in c.items():
                    by.setdefault(int(m), []).append((ex(e), mkpd(ch, mi, v)))
            return Dop([(Sdop(t), mkmv(g, {m: 1})) for m, t in sorted(by.items(), reverse=bool(v))], **kw)
        if how == 3:        # Mv times operator with unit coefficient
            out = Dop([], **kw)
            for mi, c in ts:
                one = Dop([(g.mv(S.One), mkpd(ch, mi, v))], **kw)
                out = out + (one * mkmv(g, c) if cmp else mkmv(g, c) * one)
            return out
        if how == 4:
            return Sdop([(ex(c['0']), mkpd(ch, mi, v)) for mi, c in ts])
        if how == 5:
            return Sdop([ex(c['0']) for mi, c in ts], [mkpd(ch, mi, v) for mi, c in ts])
        if how == 6:
            out = None
            for mi, c in ts:
                t = ex(c['0']) * mkpd(ch, mi, v)
                out = t if out is None else out + t
            return out
        if how == 7:
            return mkpd(ch, ts[0][0], v)
        if how == 8:
            return Sdop(ch.syms()[ts[0][0].index(1)])
    if op == 'gradop':
        if s == 'parts':
            return g.grads()[st.get('k', 0)]
        return [g.grad, g.rgrad][st.get('k', 0)]
    if op == 'fadd':
        return A + B
    if op == 'fmul':
        return bin_(s, A, B)
    if op == 'apply':
        if isinstance(A, (Sdop, Pdop)):
            return A(B) if v == 0 else A * B
        return binop(s, B, A, v) if A.cmpflg else binop(s, A, B, v)
    if op == 'oprod':
        if isinstance(A, (Sdop, Pdop)):
            return A * B if v == 0 else A(B)
        return binop(s, A, B, v)
    if op == 'succ':
        F = env.reg[st['k']]
        if isinstance(A, (Sdop, Pdop)):
            return A(B(F)) if v == 0 else A * (B * F)
        return bin_(s, bin_(s, F, A), B) if A.cmpflg else bin_(s, A, bin_(s, B, F))
    if op == 'oder':
        p = mkpd(ch, mis(ch.n)[st['k'] - 1], v)
        return p(A)
    if op == 'oadd':
        return A + B
    if op == 'osub':
        return A - B
    if op == 'oneg':
        return -A
    if op == 'oscale':
        c = ex(st['c'])
        if isinstance(A, Dop) and A.cmpflg:
            return [lambda: A * c, lambda: A ^ c, lambda: A * g.mv(c)][v % 3]()
        if isinstance(A, Dop):
            return [lambda: c * A, lambda: c ^ A, lambda: g.mv(c) * A][v % 3]()
        return c * A
    if op == 'odiv':
        return A / ex(st['c'])
    if op == 'oaddf':
        return A + B if v == 0 else B + A
    if op == 'osubf':
        return A - B
    if op == 'ofsub':
        return B - A
    if op == 'mvop':
        return binop(s, A, B, v)
    if op == 'opmv':
        return binop(s, A, B, v)
    if op == 'same':
        if isinstance(A, Pdop):
            return {'rebuild': lambda: Pdop(dict(A.pdiffs))}.get(s, lambda: Sdop([(S.One, A)]))()
        if isinstance(A, Sdop):
            return {'simplify': lambda: A.simplify(), 'tsimp': lambda: A.TSimplify(), 'cons': lambda: Sdop.consolidate_coefs(A),
                    'modes': lambda: A.simplify(modes=[sympy.expand, sympy.factor]), 'rebuild': lambda: Sdop(A.terms),
                    'neg': lambda: -(-A), 'zero': lambda: A + 0, 'rev': lambda: Sdop(tuple(A.terms)[::-1]),
                    'comp': lambda: Sdop(Sdop.consolidate_coefs(A.terms)), 'expand': lambda: A + (A - A)}[s]()
        return {'simplify': lambda: A.simplify(), 'tsimp': lambda: A.TSimplify(), 'cons': lambda: A.consolidate_coefs(),
                'modes': lambda: A.simplify(modes=[sympy.expand, sympy.factor]),
                'rebuild': lambda: Dop(A.terms, ga=g, cmpflg=A.cmpflg), 'neg': lambda: -(-A), 'zero': lambda: A + 0,
                'rev': lambda: Dop([t[0] for t in A.terms][::-1], [t[1] for t in A.terms][::-1], ga=g, cmpflg=A.cmpflg),
                'comp': lambda: sum(A.components(), Dop([], ga=g, cmpflg=A.cmpflg)),
                'expand': lambda: Dop([(sd, Mv(b, ga=g)) for sd, b in A.Dop_mv_expand()], ga=g, cmpflg=A.cmpflg)}[s]()
    if op == 'comps':
        out = g.mv(S.Zero)
        for c in A.components():
            out = out + (bin_(s, B, c) if A.cmpflg else bin_(s, c, B))
        return out
    if op == 'oeq':
        return bool(A == B) if v == 0 else not (A != B)
    if op == 'oscal':
        return A.is_scalar()
    if op == 'raise':
        return st['f'](env, g, A, B)
    if op == 'noise':
        return st['f'](env, g, A, B)
    raise KeyError(op)


KIND = dict(oeq='bool', oscal='bool', noise='none')


def frz(v, kind):
    from galgebra.mv import Mv, Dop
    from galgebra.dop import Sdop, Pdop
    if kind == 'none':
        return ('none',)
    if kind == 'bool':
        return ('bool', v)
    if isinstance(v, Dop):
        return ('opr', 1 if v.cmpflg else 0, [(alg.mvval(c), dict(p.pdiffs)) for c, p in v.terms])
    if isinstance(v, Sdop):
        return ('opr', 2, [(alg.mvval(c), dict(p.pdiffs)) for c, p in v.terms])
    if isinstance(v, Pdop):
        return ('opr', 2, [(S.One, dict(v.pdiffs))])
    return ('fld', alg.mvval(v))


def execute(sess):
    try:
        env = Env([CH[c] for c in sess['algs']])
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    rec = []
    for st in sess['steps']:
        for w, q in st.get('warm', ()):
            alg.warm(env.reg.get(w), q)
        try:
            val, status = run_step(env, st), 'ok'
            fv = frz(val, KIND.get(st['op']))
        except vlib.Timeout:
            raise
        except Exception as e:
            fv, status = '%s: %s' % (type(e).__name__, e), 'exc'
        rec.append((st, status, fv))
        if st.get('dst'):
            if status != 'ok':
                break
            env.reg[st['dst']] = val
    else:
        for r, v in sorted(env.reg.items()):
            rec.append((dict(op='obs', al=1, a=r), 'ok', frz(v, None)))
    return env, rec


def trace(sess, seed, lim):
    with vlib.time_limit(lim):
        env, rec = execute(sess)
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return _evaluate(sess, env, rec, pt)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def jet(pt, ch, coef, memo):
    n, N = ch.n, 1 << ch.n
    out = []
    for mi in mis(n):
        row = [0] * N
        for m, e in coef.items():
            k = (str(e), mi)
            if k not in memo:
                d = ex(e)
                for x, c in zip(ch.syms(), mi):
                    if c:
                        d = sympy.diff(d, x, c)
                memo[k] = pt.ev(d)
            row[int(m)] = pt.red(row[int(m)] + memo[k])
        out.append(row)
    return out


def _evaluate(sess, env, rec, pt):
    algs = []
    for c in env.cfgs:
        algs.append(dict(n=c.n, g=[[pt.ev(e) for e in r] for r in c.G], mi=[list(t) for t in mis(c.n)]))
    ch, n = env.cfgs[0], env.cfgs[0].n
    T = {t: i for i, t in enumerate(mis(n))}
    memo = {}
    lines, skipped = [], 0
    for st, status, val in rec:
        ln = dict(op=st['op'], al=1, a=st.get('a', 0), b=st.get('b', 0), k=st.get('k', 0), s=st.get('s', '*'), c=0,
                  dst=st.get('dst', 0), st=status, kind='', cmp=2, obs=[], obsb=[], df=[])
        if 'c' in st:
            ln['c'] = pt.ev(ex(st['c']))
        if st['op'] == 'newf':
            ln['df'] = jet(pt, ch, st['coef'], memo)
        if st['op'] == 'newop':
            ln['df'] = [dict(i=T[tuple(mi)] + 1, j=jet(pt, ch, c, memo)) for mi, c in st['terms']]
        if status == 'ok':
            try:
                ln['kind'] = val[0]
                if val[0] == 'fld':
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[1], env.maps[0], n)
                elif val[0] == 'bool':
                    if val[1] not in (True, False):
                        raise gf.Malformed(repr(val[1]))
                    ln['obs'] = [1 if val[1] else 0]
                elif val[0] == 'opr':
                    ln['cmp'] = val[1]
                    N = 1 << n
                    lo = [[0] * N for _ in T]
                    hi = [[] for _ in T]
                    for c, pd in val[2]:
                        pd = {x: k for x, k in pd.items() if k}
                        if any(x not in ch.syms() for x in pd):
                            raise gf.Malformed('derivative by %s' % list(pd))
                        mi = tuple(pd.get(x, 0) for x in ch.syms())
                        o, ob = eval_mv(pt, c, env.maps[0], n)
                        if mi not in T:
                            if any(o) or ob:
                                raise gf.Unsupported('order')
                            continue
                        i = T[mi]
                        lo[i] = [pt.red(x + y) for x, y in zip(lo[i], o)]
                        if ob:
                            hi[i] = [pt.red(x + y) for x, y in zip(hi[i] or [0] * N, ob)]
                    ln['obs'], ln['obsb'] = lo, hi
            except gf.Unsupported:
                ln['st'] = 'skip'
                skipped += 1
            except gf.NonFinite:
                ln['st'] = 'nf'
            except gf.Malformed:
                ln['st'] = 'malformed'
        lines.append(ln)
    return dict(lines=lines, algs=algs, skipped=skipped)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='OpTrace', cfg='OpTrace.cfg', tracer=trace, **kw)
