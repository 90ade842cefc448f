import alg, gens, vlib
from alg import CFGS
from gens import Sess

IDS = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'm4b', 'e4', 's22', 'rat3', 'sd3', 'o2', 'o2n', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'o4', 'o4c',
       'y2', 'y3', 'y3p', 'y3o', 'sph', 'sphn', 'obc', 'obc3', 'q3', 'o3w', 'one', 'd5', 'e5', 'p4o', 'o3p', 'e_2', 'gs3', 'gsy2',
       'd5o', 'sp2', 'sp3', 'yp2', 'mpol', 'sm2']
FRAMES = IDS + ['pga2', 'nul2', 'o2d', 'dgm3', 'pga3']
HARD = ('y3', 'y3o', 'd5', 'e5', 'd5o')


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Frames', 'MC_Frames_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid in IDS:
        if cid in ('e5', 'd5o') and not deep:
            continue
        ss.append(tensors(cid))
    for cid in FRAMES:
        if cid.startswith('gs') or cid in ('e5', 'd5o') and not deep:
            continue
        for t in range(8 if deep else 2):
            ss.append(frames(cid, t))
    for cid in ('d5', 'e5', 'e4', 'o4', 'm4'):
        ss.append(whole(cid))
    alg.check_sessions(rep, ss, lim=60)


def tensors(cid):
    r = vlib.rng('C12', cid)
    c = CFGS[cid]
    s = Sess('C12/tensors/%s' % cid, cid)
    steps = [dict(op='gmat'), dict(op='ginvm'), dict(op='mvr', s='norm', var=0), dict(op='mvr', s='norm', var=1),
             dict(op='mvr', s='raw', var=0), dict(op='mvr', s='raw', var=1), dict(op='mvr', s='raw', var=2),
             dict(op='mvr', s='raw', var=3)]
    if not c.kw.get('gsym'):
        steps += [dict(op='esq'), dict(op='gadj')]
        if not c.norm:
            steps.append(dict(op='ginvm', var=1))
        if cid not in HARD:
            steps.append(dict(op='mvr', s='norm', var=2))
    else:
        steps = [x for x in steps if x['op'] != 'ginvm']
    if c.n < 4 or not c.const or c.ortho:
        steps.append(dict(op='rblades'))
    r.shuffle(steps)            # the tensors are computed lazily: any order must do
    for st in steps:
        s.op(st.pop('op'), **st)
    if not c.kw.get('gsym'):
        s.op('I')
        j = s.op('I', keep=True)
        s.op('Iinv', b=j)
    return s.d


def frames(cid, t):
    r = vlib.rng('C12f', cid, t)
    c = CFGS[cid]
    s = Sess('C12/frame/%s/%d' % (cid, t), cid)
    kind = 'int' if cid in gens.HEAVY or c.n >= 4 or not c.const else r.choice(['int', 'rat', 'sym'])
    V = [s.new(gens.vec(r, c.n, kind), rep=r.choice(['', '', 'base'])) for _ in range(min(c.n, 3 if cid in HARD else 4))]
    for k in range(1, len(V) + 1):
        if cid in HARD and k > 2:
            continue
        W = r.sample(V, k)
        s.op('rframe', masks=W, s='norm')
        s.op('rframe', masks=W, s='append')
    s.op('rframe', masks=[V[0], V[0]] if t % 2 else V[:1], s='append')
    s.op('rframe', masks=V[:1], s='norm', var=1)
    return s.d


def whole(cid):
    """frames of as many vectors as there are dimensions"""
    r = vlib.rng('C12w', cid)
    n = CFGS[cid].n
    s = Sess('C12/whole/%s' % cid, cid)
    p = list(range(n))
    r.shuffle(p)
    V = [s.new({1 << p[i]: gens.coef(r, 'int'), 1 << p[(i + 1) % n]: gens.coef(r, 'int')} if i % 2 else {1 << p[i]: gens.coef(r, 'int')})
         for i in range(n)]
    for k in range(n - 1, n + 1):
        s.op('rframe', masks=V[:k], s='norm')
        s.op('rframe', masks=V[:k], s='append')
    return s.d
