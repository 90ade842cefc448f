import alg, gens, vlib
from gens import Sess


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    ids3 = ['p2', 'm3', 'n3', 'pga2', 'nul2', 'rat3', 'sd3', 'o2', 'o2n', 'o2d', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'y2', 'y3', 'y3p', 'y3o',
            'sph', 'sphn', 'obc', 'q3', 'o3w', 'one']
    ids4 = ['m4', 'o4', 'pga3', 'o4c']
    for cid in ids3 + ids4:
        ss += gens.pairs('C01', 'mul', cid, 4)
    for cid in ['d5', 'm6']:
        ss += gens.pairs_sampled('C01', 'mul', cid, vlib.rng('C01', cid), 12 if deep else 4, 4)
    for cid in ids3 + ids4 + ['e4', 'm4b', 's22', 'p3', 'dgm3', 'd5', 'm6', 'e6']:
        ss += rand(cid, (12 if deep else 3))
    alg.check_sessions(rep, gens.with_floats(ss))


def rand(cid, cnt):
    out = []
    for t in range(cnt):
        r = vlib.rng('C01', cid, t)
        n = alg.CFGS[cid].n
        kd = gens.kind_for(cid)
        s = Sess('C01/rand/%s/%d' % (cid, t), cid)
        small = cid in gens.HEAVY
        shp = (lambda: r.choice(['blade', 'vector', 'sparse'])) if small else (lambda: None)
        A = s.new(gens.mv(r, n, shp(), kd), var=r.choice([0, 0, 1, 2]), rep=r.choice(['', '', 'base']))
        B = s.new(gens.mv(r, n, shp(), kd), var=r.choice([0, 0, 1, 2]), rep=r.choice(['', '', 'base']))
        C = s.new(gens.mv(r, n, 'sparse', 'int'), var=1)
        AB = s.op('mul', A, B, keep=True)
        s.op('mul', AB, C, var=0)
        s.op('mul', A, A)
        s.op('mul', A, B, var=r.randrange(4))
        s.op('mul', B, A, var=r.randrange(4))
        s.op('com', A, B, var=r.randrange(2))
        s.op('acom', A, B)
        s.op('com_as', A, c=gens.coef(r, 'int'), var=r.randrange(2))
        s.op('acom_as', A, c=gens.coef(r, kd), var=r.randrange(2))
        for v in range(4):
            s.op('smul', A, c=gens.coef(r, kd), var=v)
        s.op('smul', B, c=3, pyint=1, var=r.randrange(2))
        s.op('smul', B, c=0, pyint=1, var=r.randrange(2))
        s.op('sdiv', A, c=gens.coef(r, 'mix'), var=r.randrange(2))
        s.op('sdiv', B, c=4, pyint=1)
        s.op('pow', A, k=0)
        s.op('pow', B, k=1)
        s.op('pow', B, k=2)
        s.op('pow', A, k=3 if small else 4)
        if cid in ('p2', 'm3', 'n3', 'one', 'o2', 'pga2', 'nul2', 'p3'):
            s.op('pow', C, k=5 + t % 4)
        for o in ('add', 'sub'):
            s.op(o, A, B)
            s.op(o, AB, C)
        s.op('adds', A, c=gens.coef(r, kd), var=r.randrange(2))
        s.op('subs', AB, c=gens.coef(r, 'int'))
        s.op('rsubs', B, c=2, pyint=1)
        s.op('neg', AB)
        v = s.new(gens.vec(r, n))
        s.op('mul', v, v)
        s.op('mul', v, AB)
        out.append(s.d)
    return out
