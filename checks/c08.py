import alg, gens, vlib
from alg import CFGS
from gens import Sess

IDS = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'e4', 's22', 'pga2', 'pga3', 'nul2', 'dgm3', 'rat3', 'o2', 'o2n', 'o2d', 'o3', 'o3n',
       'o3z', 'o2h', 'o3h', 'o4', 'o4c', 'q3', 'o3w', 'one', 'd5', 'e5', 'm6', 'sd3', 'y2', 'y3p', 'sph', 'sphn', 'obc']
SYMB = ('sd3', 'y2', 'y3p', 'sph', 'sphn', 'obc')


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Inverse', 'MC_Inverse_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid in IDS:
        for t in range(12 if deep else 3):
            ss.append(one(cid, t))
    alg.check_sessions(rep, ss, lim=20)


def one(cid, t):
    r = vlib.rng('C08', cid, t)
    n = CFGS[cid].n
    s = Sess('C08/%s/%d' % (cid, t), cid)
    symb = cid in SYMB
    k = 'int' if symb or n >= 4 else r.choice(['int', 'rat', 'sym'])
    v = [s.new(gens.vec(r, n, k), rep=r.choice(['', '', 'base'])) for _ in range(2 if n >= 4 or symb else 3)]
    A = s.new(gens.mv(r, n, 'sparse', 'int'), rep=r.choice(['', 'base']))
    sc = s.new({0: gens.coef(r, k)})
    z = s.new({})
    b1 = s.new({r.randrange(1 << n): gens.coef(r, k)})
    bl = s.op('wedge', v[0], v[1], keep=True)
    ve = s.op('mul', v[0], v[1], keep=True)
    cov = v + [sc, b1, bl, ve]
    if len(v) > 2:
        cov.append(s.op('mul', ve, v[2], keep=True))
        cov.append(s.op('wedge', bl, v[2], keep=True))
    # known inverse pairs: idempotents, nilpotents, Study numbers, null vectors
    i = r.randrange(n)
    m = r.randrange(1, 1 << n)
    cov.append(s.new({0: '1', m: r.choice(['1', '-1', '2'])}))
    cov.append(s.new({1 << i: '1', 1 << r.randrange(n): r.choice(['1', '-1'])}))
    cov += [z]
    for x in cov:
        s.op('inv', x, var=r.randrange(3))
    s.op('inv', A)
    for x in r.sample(cov, 4):
        s.op('div', A, x)
        s.op('rdivs', x, c=gens.coef(r, 'int'))
    s.op('div', v[0], v[0])
    s.op('rdivs', v[1], c=1, pyint=1)
    for kk in (1, 2, 3):
        s.op('powneg', r.choice(cov[:-1]), k=kk)
    # the general inverses (closed form up to 5 dimensions and iterative)
    if not symb:
        gen = [x for x in cov] + [A]
        if k == 'sym' and n > 2:
            gen = [v[0], ve, z]
        for x in gen:
            if k != 'sym':
                s.op('ginv', x, var=0 if n < 5 else 2)
            s.op('ginv', x, var=1 if r.random() < .5 else 3)
        for _ in range(2 if n < 5 else 1):
            G = s.new(gens.mv(r, n, 'full' if n < 4 else 'sparse', 'int'))
            s.op('ginv', G, var=0)
            s.op('ginv', G, var=1)
            s.op('inv', G)
        # idempotents and zero divisors (1 + e)(1 - e)
        for m in r.sample(range(1, 1 << n), min(3, (1 << n) - 1)):
            G = s.new({0: '1', m: '1'})
            s.op('ginv', G, var=0)
            s.op('ginv', G, var=1)
            s.op('inv', G)
    else:
        s.op('ginv', v[0], var=1)
        s.op('ginv', ve, var=1)
    X = s.op('inv', v[0], keep=True)
    if n > 5:        # the closed form is limited to five dimensions
        for st in s.d['steps']:
            if st['op'] == 'ginv':
                st['var'] -= st['var'] % 2
    return s.d
