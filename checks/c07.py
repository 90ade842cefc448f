import alg, gens, vlib
from alg import CFGS
from gens import Sess

MODES = ['I+', '+I', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']
BAD = ['', 'I', '+', '-', 'Iinv', '+I-', 'xyz', '++I', 'i+', '-iinv']
IDS = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'm4b', 'e4', 's22', 'rat3', 'sd3', 'o2', 'o2n', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'o4', 'o4c', 'y2',
       'sph', 'sphn', 'q3', 'o3w', 'one', 'd5', 'e5', 'm6', 'e6', 'sp2', 'sp3', 'yp2', 'mpol', 'sm2']


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Duality', 'MC_Duality_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid in IDS:
        n = CFGS[cid].n
        big = n >= 5 or cid in ('sph', 'y2', 'sd3', 'yp2', 'sp3')
        for t in range(10 if deep else 2):
            r = vlib.rng('C07', cid, t)
            s = Sess('C07/%s/%d' % (cid, t), cid)
            J = s.op('I', keep=True)
            s.op('Iinv', 0, J)
            s.op('E')
            s.op('esq')
            if t == 0 and n <= 3:
                regs = [s.new({m: 1}) for m in range(1 << n)]
            else:
                regs = [gens.rmv(s, r, cid, kind='int' if big else None, shape='sparse' if big else None) for _ in range(3)]
                regs += [s.new({m: 1}) for m in r.sample(range(1 << n), min(1 << n, 4))]
            ms = MODES + r.sample(BAD, 3) + r.sample(MODES, 3)
            r.shuffle(ms)
            if t == 0:            # before any mode is selected
                for R in regs[:3]:
                    s.op('dual', R, J)
            D = None
            for i, m in enumerate(ms):
                s.op('dualmode', s=m)
                if i % 5 == 2:
                    s.op('build', s=r.choice(['p2', 'm3', 'o2']))
                for R in (regs if t == 0 and i % 2 == 0 else r.sample(regs, min(3, len(regs)))):
                    s.op('dual', R, J, var=r.randrange(2))
                    s.op('undual', R, J, var=r.randrange(2))
                if i in (1, 6, 10):
                    R = r.choice(regs)
                    D = s.op('dual', R, J, keep=True)
                    s.op('undual', D, J)
                    U = s.op('undual', R, J, keep=True)
                    s.op('dual', U, J)
                if n == 3:
                    s.op('cross', r.choice(regs), r.choice(regs), k=J)
            if n == 3:
                v = [s.new(gens.vec(r, n, 'int' if big else 'mix'), rep=r.choice(['', 'base'])) for _ in range(2)]
                for x, y in ((v[0], v[1]), (v[1], v[0]), (v[0], v[0]), (v[1], regs[0])):
                    s.op('cross', x, y, k=J)
            s.op('dualdef')
            s.op('dual', regs[0], J)
            s.op('dual', regs[-1], J)
            ss.append(s.d)
    pairs = [('p3', 'm3'), ('o3', 'p2'), ('m4', 'o2n'), ('p3', 'p3'), ('rat3', 'one')]
    for i, (x, y) in enumerate(pairs):        # the mode is one for all algebras
        for t in range(4 if deep else 1):
            r = vlib.rng('C07', 'two', i, t)
            s = Sess('C07/two/%s-%s/%d' % (x, y, t), x, y)
            J = [s.op('I', keep=True, al=1), s.op('I', keep=True, al=2)]
            regs = [[s.new(gens.mv(r, CFGS[c].n, None, 'int'), al=k + 1) for _ in range(3)] for k, c in enumerate((x, y))]
            for _ in range(14):
                k = r.randrange(2)
                s.op('dualmode', s=r.choice(MODES + BAD[:3]), al=k + 1)
                for _ in range(3):
                    k = r.randrange(2)
                    s.op(r.choice(['dual', 'undual']), r.choice(regs[k]), J[k], al=k + 1)
            ss.append(s.d)
    alg.check_sessions(rep, gens.with_floats(ss, 'C07/', 4))
