import alg, gens, vlib
from gens import Sess

BIN = [('mul', 2), ('wedge', 2), ('hdot', 2), ('lc', 2), ('rc', 2), ('add', 1), ('sub', 1), ('sp', 2), ('sprev', 2),
       ('com', 2), ('acom', 1)]
UN = [('rev', 4), ('ginvol', 2), ('ccon', 2), ('even', 2), ('odd', 2), ('scalar', 2), ('grades', 1), ('gradesum', 1),
      ('neg', 1), ('qform', 2), ('components', 1), ('complist', 1), ('canon', 1), ('iszero', 1), ('isscalar', 1),
      ('isvector', 1), ('isbase', 1), ('puregrade', 1)]
IDENT = ['blade_rep', 'base_rep', 'simplify', 'expand', 'trigsimp', 'func', 'collect', 'copy', 'rr', 'mul1', 'one*']


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    for cid in gens.OBL + ['m3', 'sph']:
        n = alg.CFGS[cid].n
        for c in range(0, 1 << n, 8):
            s = Sess('C05/blades/%s/%d' % (cid, c), cid)
            for m in range(c, min(1 << n, c + 8)):
                A = s.new({m: 1}, rep='base')
                for i in IDENT:
                    s.op('ident', A, s=i)
                for k in range(n + 1):
                    s.op('grade', A, k=k, var=k % 4)
                for op, nv in UN:
                    s.op(op, A, var=m % nv)
                s.op('eq', A, A)
            ss.append(s.d)
    for cid in gens.OBL + ['m3', 'sph']:
        for t in range(12 if deep else 2):
            r = vlib.rng('C05', cid, t)
            n = alg.CFGS[cid].n
            small = cid in gens.HEAVY + ('obc',)
            k = 'int' if small else r.choice(['int', 'mix'])
            co = [gens.mv(r, n, 'sparse' if small else None, k) for _ in range(2)]
            s = Sess('C05/rand/%s/%d' % (cid, t), cid)
            A, A2 = s.new(co[0], rep='base'), s.new(co[0])
            B, B2 = s.new(co[1], rep='base', var=1), s.new(co[1])
            for op, nv in BIN:
                for X, Y in ((A, B), (A, B2), (A2, B), (A, A2)):
                    s.op(op, X, Y, var=r.randrange(nv))
            for X in (A, B):
                for op, nv in UN:
                    s.op(op, X, var=r.randrange(nv))
                for i in IDENT:
                    s.op('ident', X, s=i)
                for g in range(n + 1):
                    s.op('grade', X, k=g, var=r.randrange(4))
                s.op('smul', X, c=gens.coef(r, k), var=r.randrange(4))
                s.op('sdiv', X, c=3, pyint=1)
                s.op('adds', X, c=gens.coef(r, k))
                s.op('rsubs', X, c=2, pyint=1)
                s.op('pow', X, k=2)
                s.op('coefsof', X, masks=r.sample(range(1 << n), min(3, 1 << n)))
                s.op('proj', X, masks=r.sample(range(1 << n), min(3, 1 << n)))
            s.op('eq', A, A2)
            s.op('eq', A2, A)
            s.op('eq', A, B)
            P = s.op('mul', A, B, keep=True)
            Q = s.op('ident', P, s='base_rep', keep=True)
            s.op('mul', Q, A2)
            s.op('ident', Q, s='blade_rep')
            s.op('add', Q, P)
            s.op('eq', Q, P)
            for i in range(2):       # a second round trip, and the operands are still what they were
                s.op('ident', A, s=r.choice(IDENT))
                s.op('obs', A)
                s.op('obs', A2)
            ss.append(s.d)
    alg.check_sessions(rep, gens.with_floats(ss))
