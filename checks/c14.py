"""C14: the vector derivative grad and the right vector derivative rgrad."""
import sympy
import alg, calc, gens, vlib
from calc import CH
from gens import Sess
from c13 import field, fcoef

OPS = ['*', '^', '|', '<', '>']


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Calculus', 'MC_Calculus_%s.cfg' % ('t' if deep else 'q')))
    rep.add_tlc(vlib.model_check('MC_Coords', 'MC_Coords_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid, ch in CH.items():
        k = (6 if ch.heavy < 3 else 2) if deep else (2 if ch.heavy < 2 else 1)
        for t in range(k):
            ss.append(all_ops(cid, t))
            ss.append(scal(cid, t))
            if ch.heavy < 3:
                ss.append(second(cid, t))
                if ch.flat:
                    ss.append(lap(cid, t))
            ss.append(variants(cid, t))
    calc.check(rep, ss, lim=40 if deep else 25, budget=None)


def all_ops(cid, t):
    """every product of grad and rgrad with a field, in every form of the call"""
    ch = CH[cid]
    r = vlib.rng('C14a', cid, t)
    s = Sess('C14/ops/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, rich=ch.heavy < 3)
    G = field(s, r, cid, rich=False)
    for o in OPS:
        s.op('grad', F, s=o, var=r.choice([0, 1, 3]))
        s.op('rgrad', F, s=o, var=r.randrange(4))
        s.op('grad', G, s=o, var=r.choice([0, 1, 3]))
        s.op('rgrad', G, s=o, var=r.randrange(4))
    return s.d


def scal(cid, t):
    """gradients of scalar fields given as multivectors and as expressions; product rule"""
    ch = CH[cid]
    r = vlib.rng('C14s', cid, t)
    s = Sess('C14/scalar/%s/%d' % (cid, t), cid)
    e = fcoef(r, ch)
    f = s.new({0: e})
    g1 = s.op('grad', f, s='*', keep=True)
    g2 = s.op('free', f=lambda env, g, A, B: g.grad * alg.ex(e), keep=True)
    s.op('same', g2, g1)
    s.op('rgrad', f, s='*')
    s.op('grad', f, s='^')
    F = field(s, r, cid, shape='vector', rich=False)
    p = s.op('prod', f, F, s='*', keep=True)
    s.op('grad', p, s='*')
    s.op('rgrad', p, s='^')
    s.op('grad', p, s='|')
    return s.d


def second(cid, t):
    """grad ^ (grad ^ F) = 0 and grad < (grad < F) = 0 everywhere, with the values of both steps checked"""
    ch = CH[cid]
    r = vlib.rng('C14z', cid, t)
    s = Sess('C14/second/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, shape=r.choice(['vector', 'sparse']), rich=ch.n < 3)
    a = s.op('grad', F, s='^', keep=True)
    b = s.op('grad', a, s='^', keep=True)
    s.op('zero', b)
    c = s.op('grad', F, s='<', keep=True)
    d = s.op('grad', c, s='<', keep=True)
    s.op('zero', d)
    e = s.op('rgrad', F, s='*', keep=True)
    s.op(r.choice(['grad', 'rgrad']), e, s=r.choice(OPS))
    return s.d


def lap(cid, t):
    """in flat space the second order operator grad*grad is grad applied twice, for fields of any grade"""
    ch = CH[cid]
    r = vlib.rng('C14l', cid, t)
    s = Sess('C14/laplacian/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, shape=r.choice(['vector', 'scalar', 'sparse'] if ch.n < 3 else ['vector', 'scalar', 'blade']), rich=False)
    o1, o2 = r.choice([('*', '*'), ('^', '*'), ('|', '^'), ('*', '^')]) if t else ('*', '*')
    a = s.op('grad', F, s='*', keep=True)
    b = s.op('grad', a, s='*', keep=True)
    c = s.op('opapp', F, f=lambda env, g, A: (g.grad * g.grad) * A, keep=True)
    s.op('same', c, b)
    if ch.heavy < 2 and ch.n < 3:
        d = s.op('rgrad', F, s='*', keep=True)
        e = s.op('rgrad', d, s='*', keep=True)
        f = s.op('opapp', F, f=lambda env, g, A: A * (g.rgrad * g.rgrad), keep=True)
        s.op('same', f, e)
    return s.d


def mixnoise(env, g, A):
    """other uses of the algebra: tensors, submanifold-free derivations, substitutions"""
    from galgebra.lt import Mlt
    T = Mlt('T', g, nargs=2)
    T.pdiff(1)
    T.contract(1, 2)
    g.grads()
    g.make_grad([alg.SYM[c] for c in "abcd"[:g.n]])


def variants(cid, t):
    """gradient operators obtained otherwise are the same operator; nothing done in between matters"""
    ch = CH[cid]
    r = vlib.rng('C14v', cid, t)
    s = Sess('C14/variants/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, shape='vector' if ch.heavy > 1 else None, rich=ch.heavy < 2)
    a = s.op('grad', F, s='*', keep=True)
    s.op('noise', F, f=mixnoise)
    s.op('grad', F, s='*', var=r.choice([0, 1]))
    if not ch.normed:
        b = s.op('opapp', F, f=lambda env, g, A: g.make_grad(g.mv(g.coord_vec)) * A, keep=True)
        s.op('same', b, a)
        c = s.op('opapp', F, f=lambda env, g, A: g.make_grad(list(g.coords)) * A, keep=True)
        s.op('same', c, a)
        q = s.op('rgrad', F, s='*', keep=True)
        d = s.op('opapp', F, f=lambda env, g, A: A * g.make_grad(g.mv(g.coord_vec), cmpflg=True), keep=True)
        s.op('same', d, q)
    k = vlib.rng('C14vk', cid, t).randrange(1, 6)
    e = s.op('opapp', F, f=lambda env, g, A: (k * g.grad) * A, keep=True)
    f = s.op('opapp', F, f=lambda env, g, A: k * (g.grad * A), keep=True)
    s.op('same', e, f)
    s.op('noise', F, f=lambda env, g, A: [str(g.grad), str(g.rgrad), g.grad.simplify()])
    s.op('grad', F, s='^', var=0)
    s.op('rgrad', F, s='|', var=0)
    return s.d
