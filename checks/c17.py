"""C17: multilinear transformations (tensors)."""
import alg, calc, mlt, gens, vlib
from calc import CH
from gens import Sess
from c13 import fcoef, COEF

NUM = ['1', '-2', '3', 'a', 'b-1', '1/2']


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Tensors', 'MC_Tensors_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid, ch in CH.items():
        if cid in ('st4', 'obl4'):
            ss += [algebra(cid, 0), deriv(cid, 0)]
        if ch.n > 3 or cid == 'line' or (ch.heavy > 2 and not deep):
            continue
        k = (5 if ch.heavy < 2 else 2) if deep else 1
        for t in range(k):
            ss.append(algebra(cid, t))
            ss.append(slots(cid, t))
            ss.append(contr(cid, t))
            ss.append(deriv(cid, t))
            if ch.heavy < 2 or deep:
                ss.append(forms(cid, t))
            if ch.n < 3 and ch.heavy < 2:
                ss.append(chain(cid, t))
    for cid in ('cart2', 'affine2', 'polar', 'mink'):
        ss.append(big(cid))
    mlt.check(rep, ss, lim=60 if deep else 30)


def vec(s, r, cid, rich=False, const=False, rep=''):
    ch = CH[cid]
    n = ch.n
    ms = [1 << i for i in range(n) if r.random() < .85] or [1]
    return fnew(s, {m: (r.choice(NUM) if const else fcoef(r, ch, rich)) for m in ms}, rep=rep)


def fnew(s, coef, rep=''):
    reg = s.reg()
    s.d['steps'].append(dict(op='newf', al=1, coef={str(k): str(v) for k, v in coef.items()}, dst=reg, rep=rep))
    return reg


def comp(s, r, cid, k, rich=False, const=False, **kw):
    ch = CH[cid]
    cs = [(r.choice(NUM) if const else fcoef(r, ch, rich)) if r.random() < .7 else '0' for _ in range(ch.n ** k)]
    return s.op('comp', k=k, coefs=cs, keep=True, **kw)


def tensor(s, r, cid, k, rich=False, scalar=True):
    """a tensor of rank k given in one of the ways"""
    ch = CH[cid]
    how = r.choice(['str', 'comp', 'fct', 'fun'] + (['vec'] if k == 1 else ['lin'] if k == 2 else []))
    if how == 'str':
        return s.op('str', k=k, name=r.choice(['T', 'A', 'Q']), fct=0, keep=True)
    if how == 'fct':
        return s.op('str', k=k, name=r.choice(['T', 'A', 'Q']), fct=1, keep=True)
    if how == 'vec':
        return s.op('vec', args=[vec(s, r, cid, rich)], keep=True)
    if how == 'lin':
        return s.op('lin', mat=[[fcoef(r, ch, False) if r.random() < .7 else '0' for _ in range(ch.n)] for _ in range(ch.n)], keep=True)
    if how == 'fun' and k == 2:
        f = r.choice(['met', 'biv', 'forms'])
        if f == 'met':
            return s.op('fun', s=f, args=[], keep=True)
        if f == 'biv':
            return s.op('fun', s=f, args=[fnew(s, {3: fcoef(r, ch, rich)})], keep=True)
        return s.op('fun', s=f, args=[vec(s, r, cid), vec(s, r, cid)], keep=True)
    if how == 'fun' and k == 3 and ch.n == 3:
        return s.op('fun', s='tri', args=[fnew(s, {7: fcoef(r, ch, rich)})], keep=True)
    return comp(s, r, cid, k, rich)


def algebra(cid, t):
    """values, multilinearity, sums, multiples and products of scalar valued tensors"""
    ch = CH[cid]
    r = vlib.rng('C17a', cid, t)
    s = Sess('C17/algebra/%s/%d' % (cid, t), cid)
    x = [vec(s, r, cid, rep=r.choice(['', 'base'])) for _ in range(2)] + [vec(s, r, cid, const=True)]
    A, B = tensor(s, r, cid, 2), tensor(s, r, cid, 2)
    V = tensor(s, r, cid, 1)
    s.op('eval', A, args=x[:2])
    s.op('eval', A, args=[x[2], x[0]])
    s.op('eval', V, args=[x[1]])
    s.op('slots', A, args=[x[1], x[2]])
    C = s.op('tadd', A, B, keep=True)
    s.op('eval', C, args=x[1:])
    s.op('tsub', A, B)
    s.op('tsub', A, A)
    s.op('tscale', B, c=r.choice(NUM))
    p = s.op('tprod', V, A, s='*', keep=True)
    s.op('eval', p, args=[x[2], x[0], x[1]])
    q = s.op('tprod', A, V, s='*', keep=True)
    s.op('eval', q, args=[x[2], x[0], x[1]])
    s.op('tprod', V, V, s='*')
    s.op('same', r.choice([A, C, p]), s=r.choice(['expand', 'copy', 'fun']), keep=True)
    s.op('raise', A, V, f=lambda env, g, A, B: A + B)
    s.op('raise', V, A, f=lambda env, g, A, B: A - B)
    return s.d


def slots(cid, t):
    """slot symbols as arguments, slots exchanged, products with themselves"""
    ch = CH[cid]
    r = vlib.rng('C17s', cid, t)
    s = Sess('C17/slots/%s/%d' % (cid, t), cid)
    A = tensor(s, r, cid, 2)
    x, y = vec(s, r, cid), vec(s, r, cid)
    w = s.op('tprod', A, A, s='*', keep=ch.n < 3)
    s.op('slots', A, args=[x, y])
    s.op('slots', A, args=[y, x])
    for k in (1, 2):
        s.op('pdiff', A, k=k, args=[x, y])
    s.op('contract', A, k=1, k2=2)
    if w:
        s.op('contract', w, k=r.choice([1, 2]), k2=r.choice([3, 4]))
        s.op('contract', w, k=4, k2=1)
        s.op('contract', w, k=2, k2=1)
        s.op('contract', w, k=3, k2=4)
    V = tensor(s, r, cid, 1)
    s.op('pdiff', V, k=1, args=[x])
    return s.d


def big(cid):
    """tensors of rank four and five"""
    r = vlib.rng('C17b', cid)
    s = Sess('C17/big/%s' % cid, cid)
    x = [vec(s, r, cid, const=True) for _ in range(5)]
    A = comp(s, r, cid, 4)
    s.op('eval', A, args=x[:4])
    s.op('slots', A, args=x[:4])
    for k in (3, 4):
        s.op('pdiff', A, k=k, args=x[:4])
    for i, j in ((1, 3), (4, 2), (3, 4)):
        c = s.op('contract', A, k=i, k2=j, keep=True)
        s.op('eval', c, args=x[1:3])
    B = s.op('tprod', comp(s, r, cid, 2), comp(s, r, cid, 3), s='*', keep=True)
    s.op('eval', B, args=x)
    c = s.op('contract', B, k=2, k2=5, keep=True)
    s.op('eval', c, args=x[:3])
    s.op('contract', c, k=3, k2=1)
    s.op('cderiv', comp(s, r, cid, 3, const=True))
    return s.d


def contr(cid, t):
    ch = CH[cid]
    r = vlib.rng('C17c', cid, t)
    s = Sess('C17/contract/%s/%d' % (cid, t), cid)
    A = tensor(s, r, cid, 3)
    x = [vec(s, r, cid, const=True) for _ in range(3)]
    cs = {}
    for i, j in ((1, 2), (1, 3), (2, 3)):
        if r.random() < .5:
            i, j = j, i
        cs[i, j] = s.op('contract', A, k=i, k2=j, keep=True)
    for c in cs.values():
        s.op('eval', c, args=[r.choice(x)])
        s.op('pdiff', c, k=1, args=[x[0]])
    for k in (1, 2, 3):
        s.op('pdiff', A, k=k, args=x)
    s.op('slots', A, args=x)
    V = tensor(s, r, cid, 1)
    U = tensor(s, r, cid, 1)
    P = s.op('tprod', V, U, s='*', keep=True)
    s.op('contract', P, k=1, k2=2)
    return s.d


def deriv(cid, t):
    """directional and covariant derivatives of tensor fields"""
    ch = CH[cid]
    r = vlib.rng('C17d', cid, t)
    s = Sess('C17/deriv/%s/%d' % (cid, t), cid)
    V, A = tensor(s, r, cid, 1, rich=ch.heavy < 2), tensor(s, r, cid, 2)
    x = [vec(s, r, cid, const=True) for _ in range(3)]
    dV = s.op('cderiv', V, keep=True)
    s.op('dd', V)
    s.op('cderiv', A)
    s.op('dd', A)
    s.op('eval', dV, args=x[:2])
    s.op('contract', dV, k=1, k2=2)
    s.op('slots', dV, args=x[:2])
    m = s.op('fun', s='met', args=[], keep=True)
    s.op('cderiv', m)
    s.op('contract', m, k=1, k2=2)
    return s.d


def chain(cid, t):
    """derivatives of derivatives and of products; contraction of derivatives"""
    ch = CH[cid]
    r = vlib.rng('C17h', cid, t)
    s = Sess('C17/chain/%s/%d' % (cid, t), cid)
    V = s.op('vec', args=[vec(s, r, cid)], keep=True) if r.random() < .5 else comp(s, r, cid, 1)
    U = comp(s, r, cid, 1)
    d = s.op('cderiv', V, keep=True)
    s.op('cderiv', d)
    s.op('dd', d)
    p = s.op('tprod', V, U, s='*', keep=True)
    q = s.op('cderiv', p, keep=True)
    s.op('contract', q, k=r.choice([1, 2]), k2=3)
    s.op('contract', q, k=2, k2=1)
    e = s.op('tadd', d, p, keep=True)
    s.op('cderiv', e)
    s.op('tprod', d, U, s='*')
    f = s.op('same', q, s='fun', keep=True)
    s.op('contract', f, k=1, k2=3)
    return s.d


def forms(cid, t):
    """multivector valued multilinear functions"""
    ch = CH[cid]
    r = vlib.rng('C17m', cid, t)
    s = Sess('C17/mv/%s/%d' % (cid, t), cid)
    x = [vec(s, r, cid, const=True) for _ in range(3)]
    u, v = vec(s, r, cid), vec(s, r, cid)
    I = s.op('fun', s='id', args=[], keep=True)
    D = s.op('fun', s='dyad', args=[u, v], keep=True)
    W = s.op('fun', s='vv', args=[u, v], keep=True)
    P = s.op('fun', s='prod', args=[], keep=True)
    s.op('eval', W, args=x[:2])
    e = s.op('tadd', I, D, keep=True)
    s.op('eval', e, args=x[:1])
    s.op('slots', e, args=x[:1])
    z = s.op('tsub', W, P, keep=True)
    s.op('slots', z, args=x[:2])
    s.op('tscale', e, c=r.choice(NUM))
    o = r.choice(['*', '^', '|'])
    q = s.op('tprod', e, D, s=o, keep=True)
    s.op('slots', q, args=x[:2])
    s.op('tprod', I, I, s=r.choice(['*', '^', '|']))
    V = tensor(s, r, cid, 1)
    s.op('tprod', V, I, s='*')
    s.op('tprod', I, V, s='*')
    s.op('pdiff', e, k=1, args=x[:1])
    s.op('pdiff', W, k=2, args=x[:2])
    s.op('pdiff', P, k=1, args=x[:2])
    s.op('dd', D)
    s.op('cderiv', D)
    s.op('cderiv', I)
    s.op('cderiv', e)
    if ch.n < 3:
        s.op('cderiv', W)
        s.op('cderiv', P)
    return s.d
