import alg, gens, vlib
from alg import CFGS
from gens import Sess

INT = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'm4b', 'e4', 's22', 'pga2', 'pga3', 'nul2', 'dgm3', 'o2', 'o2n', 'o2d', 'o3', 'o3z', 'o2h', 'o3h', 'o4',
       'o4c', 'q3', 'one', 'd5', 'sd3', 'y2', 'y3p', 'p4o', 'o3p']
LIN = ['a', 'b', '2*a', '-b', '3', '-1', '2', 'a+1', 'c', 'a-b', '1', '-2']


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss, si = [], []
    for cid in INT:
        n = CFGS[cid].n
        for t in range(10 if deep else 3):
            r = vlib.rng('C09', cid, t)
            s = Sess('C09/int/%s/%d' % (cid, t), cid, ints=True)
            num = t == 0 or n > 3
            pool = ['1', '-1', '2', '-3', '3'] if num else LIN
            regs = []
            for sh in ('vector', 'blade', r.choice(['homog', 'even']), 'sparse', 'sparse'):
                co = {m: r.choice(pool) for m in gens.mv(r, n, sh, 'int')}
                regs.append(s.new(co, rep=r.choice(['', 'base'])))
            regs += [s.new({}), s.new({0: '-3'}), s.new({0: 'a'}), s.new({1: 'a'}), s.new({(1 << n) - 1: 'a'})]
            if n <= 3 and not num:
                regs.append(s.op('mul', regs[0], regs[0], keep=True))
            for R in regs:
                s.op('qformz', R, var=r.randrange(2))
                for op in ('norm2', 'norm'):
                    for h in ['', '0', '+', '-']:
                        s.op(op, R, s=h, var=r.randrange(2))
                s.op('norm', R, var=2)
                s.op('mag2', R, var=r.randrange(2))
                s.op('mag', R, var=r.randrange(2))
            (si if True else ss).append(s.d)
    for cid in ['rat3', 'sd3', 'o3n', 'y2', 'y3', 'sph', 'sphn', 'obc', 'o3w', 'm3', 'd5']:
        for t in range(6 if deep else 2):
            r = vlib.rng('C09', 'q', cid, t)
            n = CFGS[cid].n
            s = Sess('C09/q/%s/%d' % (cid, t), cid)
            for _ in range(4):
                R = gens.rmv(s, r, cid)
                s.op('qform', R, var=r.randrange(2))
                s.op('sprev', R, R, var=r.randrange(2))
                for g in range(n + 1):
                    G = s.op('grade', R, k=g, keep=True) if n < 4 else 0
                    if G:
                        s.op('qform', G, var=r.randrange(2))
            ss.append(s.d)
    alg.check_sessions(rep, si, modulus=-1, lim=15)
    alg.check_sessions(rep, ss, lim=15)
