import alg, gens, vlib
from gens import Sess


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    for cid in gens.IDS3 + gens.IDS4:
        ss += gens.pairs('C02', 'wedge', cid, 4, chunk=4)
    ss += gens.pairs_sampled('C02', 'wedge', 'm6', vlib.rng('C02m'), 12 if deep else 4, 4)
    ss += gens.pairs_sampled('C02', 'wedge', 'd5', vlib.rng('C02'), 16 if deep else 4, 4)
    for cid in gens.ALL:
        for t in range(20 if deep else 3):
            r = vlib.rng('C02', cid, t)
            s = Sess('C02/rand/%s/%d' % (cid, t), cid)
            A, B, C = (gens.rmv(s, r, cid) for _ in range(3))
            AB = s.op('wedge', A, B, keep=True)
            BC = s.op('wedge', B, C, keep=True)
            s.op('wedge', AB, C, var=r.randrange(2))
            s.op('wedge', A, BC)
            s.op('wedge', B, A, var=r.randrange(4))
            v = s.new(gens.vec(r, alg.CFGS[cid].n))
            w = s.new(gens.vec(r, alg.CFGS[cid].n))
            s.op('wedge', v, v, var=r.randrange(4))
            vw = s.op('wedge', v, w, keep=True)
            s.op('wedge', vw, v)
            s.op('wedge', A, AB)
            k = gens.kind_for(cid)
            s.op('wedge_as', A, c=gens.coef(r, k), var=0)
            s.op('wedge_as', A, c=gens.coef(r, k), var=1)
            s.op('wedge_as', AB, c=3, pyint=1, var=r.randrange(2))
            z = s.new({0: gens.coef(r, k)})
            s.op('wedge', z, A)
            s.op('wedge', A, z, var=1)
            zz = s.new({})
            s.op('wedge', zz, A)
            ss.append(s.d)
    alg.check_sessions(rep, gens.with_floats(ss))
