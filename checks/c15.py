"""C15: the algebra of differential operators and its action."""
import sympy
import alg, calc, ops, gens, vlib
from calc import CH
from gens import Sess
from c13 import fcoef

ALLS = ['*', '^', '|', '<', '>']
IDS = [c for c, ch in CH.items() if ch.const and not ch.normed and ch.flat and ch.n < 5]
FLATC = ['polar', 'polarn', 'cyl', 'cyln', 'rindler', 'rindlern', 'para', 'null', 'sph', 'sphn', 'affine2', 'cart3', 'line']


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Jets', 'MC_Jets_q.cfg'))
    if deep:
        rep.add_tlc(vlib.model_check('MC_Jets', 'MC_Jets_t.cfg'))
    ss = []
    for cid in IDS:
        k = {1: 3, 2: 4, 3: 2, 4: 1}[CH[cid].n] * (6 if deep else 1)
        for t in range(k):
            ss += [linear(cid, t, 0), linear(cid, t, 1), products(cid, t, 0), products(cid, t, 1), grads(cid, t),
                   scalars(cid, t), forms(cid, t)]
    ops.check(rep, ss, lim=40 if deep else 25)
    cs = []
    for cid in FLATC:
        for t in range(4 if deep else 1):
            cs.append(curvi(cid, t))
    calc.check(rep, cs, lim=40 if deep else 25)


def coefs(r, ch, shape=None, rich=True):
    n = ch.n
    m = gens.mv(r, n, shape or r.choice(['vector', 'sparse', 'blade', 'scalar', 'homog']), 'int')
    return {str(k): (fcoef(r, ch, rich) if r.random() < .7 else gens.coef(r, 'int')) for k in list(m)[:3]}


def terms(r, ch, order, k=None, scalar=False, rich=True):
    n = ch.n
    pool = [m for m in ops.mis(n) if sum(m) <= order]
    k = k or r.randint(1, 3)
    out = []
    for mi in (r.sample(pool, min(k, len(pool))) if r.random() < .7 else [r.choice(pool) for _ in range(k)]):
        out.append([mi, {'0': fcoef(r, ch, rich)} if scalar else coefs(r, ch, rich=rich)])
    return out


def fld(s, r, ch, rep=None, shape=None, rich=True):
    c = coefs(r, ch, shape, rich)
    s.d['steps'].append(dict(op='newf', al=1, coef=c, dst=s.reg(), rep=rep if rep is not None else r.choice(['', '', 'base'])))
    return s.n


def expr(s, r, ch, rich=True):
    s.d['steps'].append(dict(op='newf', al=1, coef={'0': fcoef(r, ch, rich)}, dst=s.reg(), rep='expr'))
    return s.n


def dop(s, r, ch, order, cmp, k=None, rich=True, rep=None, **kw):
    how = kw.pop('how', r.randrange(4))
    s.d['steps'].append(dict(op='newop', al=1, terms=terms(r, ch, order, k, rich=rich), k=cmp, how=how, var=r.randrange(2),
                             rep=rep if rep is not None else r.choice(['', '', 'base']), dst=s.reg(), **kw))
    return s.n


def sdop(s, r, ch, order, k=None, how=None, rich=True):
    s.d['steps'].append(dict(op='newop', al=1, terms=terms(r, ch, order, k, scalar=True, rich=rich),
                             how=how or r.choice([4, 5, 6]), var=r.randrange(2), dst=s.reg()))
    return s.n


def pdop(s, r, ch, order):
    mi = r.choice([m for m in ops.mis(ch.n) if sum(m) <= order])
    if sum(mi) == 1 and r.random() < .3:
        s.d['steps'].append(dict(op='newop', al=1, terms=[[mi, {'0': '1'}]], how=8, dst=s.reg()))
    else:
        s.d['steps'].append(dict(op='newop', al=1, terms=[[mi, {'0': '1'}]], how=7, var=r.randrange(2), dst=s.reg()))
    return s.n


def half(cid):
    return ops.KMAX[CH[cid].n] // 2


def appl(s, r, o, f, k=2):
    for x in r.sample(ALLS, k):
        s.op('apply', o, f, s=x, var=r.randrange(2))


def linear(cid, t, cmp):
    """sums, differences, negations, multiples: the combination of the actions"""
    ch = CH[cid]
    r = vlib.rng('C15l', cid, t, cmp)
    s = Sess('C15/linear%d/%s/%d' % (cmp, cid, t), cid)
    h = half(cid)
    F = fld(s, r, ch)
    G = fld(s, r, ch, shape=r.choice(['scalar', 'vector', 'blade']))
    e = expr(s, r, ch)
    D = dop(s, r, ch, h, cmp)
    E = dop(s, r, ch, h, cmp)
    a = s.op('oadd', D, E, keep=True)
    b = s.op('osub', D, E, keep=True)
    c = s.op('oneg', D, keep=True)
    d = s.op('oscale', D, c=r.choice(['3', '-2', '5/7', 'a', 'a*b+1']), var=r.randrange(3), keep=True)
    f = s.op('odiv', E, c=r.choice(['2', '-3', 'a', '7/2']), keep=True)
    for o in (a, b, c, d, f):
        appl(s, r, o, F, 1)
    g = s.op('oaddf', D, G, var=r.randrange(2), keep=True)
    i = s.op('oaddf', E, e, var=r.randrange(2), keep=True)
    j = s.op(r.choice(['osubf', 'ofsub']), D, r.choice([G, e]), keep=True)
    for o in (g, i, j):
        appl(s, r, o, F, 1)
    appl(s, r, D, F, 3)
    appl(s, r, D, e, 2)
    for x in r.sample(ALLS, 3):
        if cmp:
            s.op('opmv', D, G, s=x, var=r.randrange(2))
        else:
            s.op('mvop', G, D, s=x, var=r.randrange(2))
    m = s.op('opmv', E, G, s='*', keep=True) if cmp else s.op('mvop', G, E, s='*', keep=True)
    appl(s, r, m, F, 1)
    n = s.op('opmv', E, e, s=r.choice(['*', '^']), keep=True) if cmp else s.op('mvop', e, E, s=r.choice('*^<'), keep=True)
    appl(s, r, n, F, 1)
    z = s.op('osub', D, D, keep=True)
    appl(s, r, z, F, 1)
    s.op('oadd', z, E)
    return s.d


def products(cid, t, cmp):
    """products of operators act by succession"""
    ch = CH[cid]
    r = vlib.rng('C15p', cid, t, cmp)
    s = Sess('C15/products%d/%s/%d' % (cmp, cid, t), cid)
    K = ops.KMAX[ch.n]
    h = half(cid)
    F = fld(s, r, ch)
    D = dop(s, r, ch, h, cmp, k=2, rich=ch.n < 3)
    E = dop(s, r, ch, h, cmp, k=2, rich=ch.n < 3)
    for x in ('*', '^'):
        p = s.op('oprod', D, E, s=x, var=r.randrange(2), keep=True)
        s.op('apply', p, F, s=x, var=r.randrange(2))
        s.op('succ', D, E, k=F, s=x)
    for x in r.sample(['|', '<', '>'], 2):
        p = s.op('oprod', D, E, s=x, var=r.randrange(2), keep=True)
        s.op('apply', p, F, s=r.choice(ALLS))
        s.op('succ', D, E, k=F, s=x)
    if K >= 3:
        lo = dop(s, r, ch, 1, cmp, k=1, rich=False)
        l2 = dop(s, r, ch, 1, cmp, k=2, rich=False)
        l3 = dop(s, r, ch, 1, cmp, k=1, rich=False)
        q = s.op('oprod', lo, l2, s='*', keep=True)
        q2 = s.op('oprod', q, l3, s='*', keep=True)
        s.op('apply', q2, F, s='*')
        q3 = s.op('oprod', l2, l3, s='*', keep=True)
        s.op('oprod', lo, q3, s='*')
    for k in range(2, ch.n + 2):
        s.op('oder', D, k=k, var=r.randrange(2))
    return s.d


def grads(cid, t):
    """the gradient operators: second order operators, directional derivatives, brackets"""
    ch = CH[cid]
    r = vlib.rng('C15g', cid, t)
    s = Sess('C15/grad/%s/%d' % (cid, t), cid)
    F = fld(s, r, ch, rich=ch.n < 4)
    v = fld(s, r, ch, shape='vector', rich=False)
    B = fld(s, r, ch, rich=False)
    gr = s.op('gradop', s=r.choice(['', 'parts']), keep=True)
    rg = s.op('gradop', k=1, s=r.choice(['', 'parts']), keep=True)
    appl(s, r, gr, F, 2)
    appl(s, r, rg, F, 2)
    for x in r.sample(ALLS, 2):
        p = s.op('mvop', v, gr, s=x, var=r.randrange(2), keep=True)
        appl(s, r, p, F, 2)
    q = s.op('opmv', rg, v, s=r.choice(ALLS), var=r.randrange(2), keep=True)
    appl(s, r, q, F, 2)
    m = s.op('mvop', B, gr, s='*', keep=True)
    appl(s, r, m, F, 1)
    x = r.choice(ALLS)
    l = s.op('oprod', gr, gr, s=x, keep=True)
    s.op('apply', l, F, s='*')
    l2 = s.op('oprod', rg, rg, s=r.choice(ALLS), keep=True)
    s.op('apply', l2, F, s='*')
    if ops.KMAX[ch.n] > 2:
        z = s.op('oprod', p, gr, s='*', keep=True)
        s.op('apply', z, F, s='*')
        z2 = s.op('oprod', gr, p, s='*', keep=True)
        w = s.op('osub', z, z2, keep=True)
        s.op('apply', w, F, s='*')
    w2 = s.op('oscale', gr, c='2', keep=True)
    s.op('oadd', w2, m)
    s.op('oaddf', gr, v, var=r.randrange(2))
    s.op('comps', gr, F, s=r.choice(ALLS))
    s.op('comps', rg, F, s=r.choice(ALLS))
    s.op('same', l, s='comp')
    s.op('oscal', l)
    s.op('noise', gr, F, f=lambda env, g, A, B: [str(A), str(g.rgrad), g.r_symbols, g.grads(), (g.grad * g.grad).simplify()])
    s.op('gradop', k=0)
    s.op('gradop', k=1)
    return s.d


def scalars(cid, t):
    """scalar operators"""
    ch = CH[cid]
    r = vlib.rng('C15s', cid, t)
    s = Sess('C15/scalar/%s/%d' % (cid, t), cid)
    h = half(cid)
    F = fld(s, r, ch)
    e, e2 = expr(s, r, ch), expr(s, r, ch)
    P, Q = pdop(s, r, ch, h), pdop(s, r, ch, h)
    X, Y = sdop(s, r, ch, h), sdop(s, r, ch, h)
    D = dop(s, r, ch, h, 0, k=2, rich=False)
    for o in (P, Q, X, Y):
        s.op('apply', o, r.choice([F, e]), var=r.randrange(2))
    a = s.op('oadd', X, Y, keep=True)
    b = s.op('osub', X, Y, keep=True)
    n = s.op('oneg', a, keep=True)
    c = s.op('oaddf', X, e, var=r.randrange(2), keep=True)
    d = s.op(r.choice(['osubf', 'ofsub']), Y, e2, keep=True)
    for o in (a, b, n, c, d):
        s.op('apply', o, r.choice([F, e]), var=r.randrange(2))
    i = s.op('oprod', X, Y, var=r.randrange(2), keep=True)
    s.op('apply', i, r.choice([F, e2]))
    s.op('succ', X, Y, k=F, var=r.randrange(2))
    j = s.op('mvop', e, X, keep=True)
    s.op('apply', j, e2)
    k = s.op('oprod', P, Q, keep=True)
    s.op('apply', k, e)
    l = s.op('oprod', P, X, keep=True)
    s.op('apply', l, F)
    s.op('oprod', X, P)
    m = s.op('oprod', X, D, keep=True)
    s.op('apply', m, F, s=r.choice(ALLS))
    s.op('oprod', P, D)
    s.op('mvop', e, P)
    s.op('mvop', F, X)
    z = s.op('osub', X, X, keep=True)
    s.op('apply', z, F)
    s.op('apply', z, e)
    s.op('oscale', X, c=r.choice(['3', '-1', 'a', '1/2']))
    for w in r.sample(['simplify', 'tsimp', 'cons', 'modes', 'rebuild', 'neg', 'zero', 'rev', 'comp', 'expand'], 4):
        s.op('same', i, s=w)
    s.op('oeq', X, X, s='must')
    s.op('oeq', X, Y, var=r.randrange(2))
    q = s.op('same', X, s='rev', keep=True)
    s.op('oeq', X, q, s='must', var=r.randrange(2))
    s.op('oeq', P, Q)
    s.op('oeq', P, P, s='must', var=1)
    return s.d


def forms(cid, t):
    """simplification, splitting into components and equality respect the action"""
    ch = CH[cid]
    r = vlib.rng('C15e', cid, t)
    s = Sess('C15/forms/%s/%d' % (cid, t), cid)
    h = half(cid)
    F = fld(s, r, ch)
    cmp = r.randrange(2)
    rep = r.choice(['', 'base'])
    D = dop(s, r, ch, h, cmp, rep=rep)
    E = dop(s, r, ch, h, cmp, k=2, rich=False)
    O = dop(s, r, ch, h, 1 - cmp, k=2, rich=False)
    x = r.choice(ALLS)
    for w in ('simplify', 'tsimp', 'cons', 'comp', 'expand'):
        q = s.op('same', D, s=w, keep=True)
        s.op('apply', q, F, s=x)
    for w in ('modes', 'rebuild', 'neg', 'zero', 'rev'):
        s.op('same', D, s=w)
    s.op('comps', D, F, s=r.choice(ALLS))
    s.op('comps', O, F, s=r.choice(ALLS))
    p = s.op('oprod', D, E, s='*', keep=True)
    for w in r.sample(['simplify', 'tsimp', 'cons', 'comp', 'expand'], 2):
        s.op('same', p, s=w)
    s.op('oscal', D)
    s.op('oscal', E)
    a = s.op('oadd', D, E, keep=True)
    b = s.op('oadd', E, D, keep=True)
    s.op('oeq', a, b, s='must', var=r.randrange(2))
    s.op('oeq', D, D, s='must', var=r.randrange(2))
    s.op('oeq', D, E, var=r.randrange(2))
    s.op('oeq', D, O, var=r.randrange(2))
    q = s.op('same', E, s='rev', keep=True)
    s.op('oeq', E, q, s='must')
    k = s.op('oscale', E, c='2', keep=True)
    s.op('oeq', E, k)
    s.op('raise', D, O, f=lambda env, g, A, B: A + B)
    s.op('raise', D, O, f=lambda env, g, A, B: A * B)
    s.op('noise', D, E, f=lambda env, g, A, B: [str(A), str(B), A.Fmt(3), str(A.components()), A == B])
    return s.d


def curvi(cid, t):
    """flat spaces in curvilinear, oblique and normalised bases: products of first order operators act by succession"""
    ch = CH[cid]
    r = vlib.rng('C15c', cid, t)
    s = Sess('C15/curvilinear/%s/%d' % (cid, t), cid)
    F = s.new({m: fcoef(r, ch, False) for m in list(gens.mv(r, ch.n, 'vector' if ch.heavy > 1 else r.choice(['vector', 'blade', 'sparse'])))[:3]})
    u = s.new({1 << i: fcoef(r, ch, False) for i in range(ch.n)})
    light = ch.heavy < 2 and ch.n < 3
    x = r.choice(['*', '^']) if light else '^'
    k1, k2 = r.randrange(2), r.randrange(1, 4)

    def D1(g, U):
        return ops.bin_('|', U, g.grad) if k1 else k2 * g.grad

    def L(env, g, A, B):
        return ops.bin_(x, ops.bin_(x, g.grad, D1(g, B)), A)

    def R(env, g, A, B):
        return ops.bin_(x, g.grad, ops.bin_(x, D1(g, B), A))
    a = s.op('free', F, u, f=L, keep=True)
    b = s.op('free', F, u, f=R, keep=True)
    s.op('same', a, b)
    a = s.op('free', F, u, f=lambda env, g, A, B: ((B | g.grad) + 2 * g.grad) * A, keep=True)
    b = s.op('free', F, u, f=lambda env, g, A, B: (B | g.grad) * A + 2 * (g.grad * A), keep=True)
    s.op('same', a, b)
    a = s.op('free', F, u, f=lambda env, g, A, B: A * (g.rgrad * B) + A * g.rgrad, keep=True)
    b = s.op('free', F, u, f=lambda env, g, A, B: (A * g.rgrad) * B + A * g.rgrad, keep=True)
    s.op('same', a, b)
    a = s.op('free', F, u, f=lambda env, g, A, B: sum([c * A for c in g.grad.components()], g.mv(0)), keep=True)
    b = s.op('free', F, u, f=lambda env, g, A, B: g.grad * A, keep=True)
    s.op('same', a, b)
    return s.d
