import alg, gens, vlib
from gens import Sess


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    for cid in gens.IDS3 + gens.IDS4:
        n = alg.CFGS[cid].n
        for op, nv in (('hdot', 4), ('lc', 4), ('rc', 4), ('sprod', 1)):
            if n <= 3:
                ss += gens.pairs('C03', op, cid, nv, chunk=8)
            else:
                ss += gens.pairs('C03', op, cid, nv, chunk=8) if deep else \
                    gens.pairs_sampled('C03', op, cid, vlib.rng('C03', op, cid), 4, nv)
    for op in ('hdot', 'lc', 'rc', 'sprod'):
        ss += gens.pairs_sampled('C03', op, 'd5', vlib.rng('C03', op), 10 if deep else 2, 4 if op != 'sprod' else 1)
    for op in ('hdot', 'lc', 'rc', 'sprod'):
        ss += gens.pairs_sampled('C03', op, 'm6', vlib.rng('C03m', op), 10 if deep else 2, 4 if op != 'sprod' else 1)
    for cid in gens.ALL:
        for t in range(16 if deep else 2):
            r = vlib.rng('C03', cid, t)
            n = alg.CFGS[cid].n
            s = Sess('C03/rand/%s/%d' % (cid, t), cid)
            A, B, C = (gens.rmv(s, r, cid) for _ in range(3))
            regs = [A, B, C, s.new(gens.vec(r, n)), s.new({0: 2}), s.new({})]
            for op, nv in (('hdot', 4), ('lc', 4), ('rc', 4), ('sprod', 1), ('sp', 2), ('sprev', 2)):
                for _ in range(4):
                    s.op(op, r.choice(regs), r.choice(regs), var=r.randrange(nv))
                s.op(op, A, B)
            D = s.op('lc', A, B, keep=True)
            F = s.op('rc', B, C, keep=True)
            H = s.op('hdot', A, C, keep=True)
            for op in ('hdot', 'lc', 'rc', 'sp', 'sprev'):
                s.op(op, D, F)
                s.op(op, C, H)
            k = gens.kind_for(cid)
            for op, nv in (('hdot_as', 2), ('lc_as', 1), ('rc_as', 1), ('lc_sa', 2), ('rc_sa', 2)):
                for v in range(nv):
                    s.op(op, A, c=gens.coef(r, k), var=v)
                    s.op(op, B, c=2, pyint=1, var=v)
            modes = ['|', '<', '>', '|', '<']
            r.shuffle(modes)
            for m in modes:
                s.op('dotmode', s=m)
                s.op('gadot', A, B)
                s.op('gadot', r.choice(regs), r.choice(regs))
            ss.append(s.d)
    alg.check_sessions(rep, gens.with_floats(ss))
