import alg, gens, vlib
from gens import Sess


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    UN = [('rev', 4), ('ginvol', 2), ('ccon', 2), ('even', 3), ('odd', 3), ('scalar', 4), ('noscalar', 2),
          ('gradesum', 1), ('grades', 1)]
    for cid in gens.IDS3 + gens.IDS4 + ['d5', 'e5', 'm6', 'e6']:      # every blade, every operation, every entry point
        n = alg.CFGS[cid].n
        ms = list(range(1 << n))
        if n >= 5 and not deep:
            ms = vlib.rng('C04', cid).sample(ms, 12)
        for c in range(0, len(ms), 8):
            s = Sess('C04/blades/%s/%d' % (cid, c), cid)
            for m in ms[c:c + 8]:
                R = s.new({m: 1})
                for op, nv in UN:
                    for v in range(nv):
                        s.op(op, R, var=v)
                for k in range(n + 1):
                    s.op('grade', R, k=k, var=(k + m) % 6)
            ss.append(s.d)
    for cid in gens.ALL:
        for t in range(20 if deep else 3):
            r = vlib.rng('C04', cid, t)
            n = alg.CFGS[cid].n
            s = Sess('C04/rand/%s/%d' % (cid, t), cid)
            small = cid in gens.HEAVY
            A, B = (gens.rmv(s, r, cid, rep='', shape='sparse' if small else r.choice(['full', 'sparse', 'even']),
                             kind='int' if small else r.choice(['mix', 'deep', 'mix'])) for _ in range(2))
            AB = s.op('mul', A, B, keep=True)
            W = s.op('wedge', A, B, keep=True)
            S_ = s.op('sub', AB, W, keep=True)
            Z = s.op('sub', A, A, keep=True)
            U = s.op('wedge_as', W, c=r.choice(['a', 'a+b', 'b-2']), keep=True)     # left unexpanded by the code
            for R in (A, AB, W, S_, Z, U):
                for op, nv in UN:
                    s.op(op, R, var=r.randrange(nv))
                for k in range(n + 1):
                    s.op('grade', R, k=k, var=r.randrange(6))
            # rev(AB) = rev(B) rev(A) and the other two, by recomputation on the real code
            rA, rB = s.op('rev', A, keep=True), s.op('rev', B, keep=True)
            gA, gB = s.op('ginvol', A, keep=True), s.op('ginvol', B, keep=True)
            cA, cB = s.op('ccon', A, keep=True), s.op('ccon', B, keep=True)
            s.op('mul', rB, rA)
            s.op('mul', gA, gB)
            s.op('mul', cB, cA)
            s.op('rev', rA)
            s.op('ginvol', gA)
            s.op('ccon', cA, var=1)
            e, o = s.op('even', AB, keep=True), s.op('odd', AB, keep=True)
            s.op('add', e, o)
            ss.append(s.d)
    alg.check_sessions(rep, gens.with_floats(ss))
