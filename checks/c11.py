import sympy
import alg, gens, gf, vlib
from alg import CFGS
from gens import Sess

IDS = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'm4b', 'e4', 's22', 'pga2', 'pga3', 'nul2', 'dgm3', 'rat3', 'o2', 'o2n', 'o2d', 'o3',
       'o3n', 'o3z', 'o2h', 'o3h', 'o3p', 'o4', 'o4c', 'p4o', 'q3', 'o3w', 'one']
SYMB = ['sd3', 'y2', 'y3p', 'sph', 'sphn', 'obc']


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Reflect', 'MC_Reflect_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid in IDS:
        for t in range(12 if deep else 3):
            ss.append(refl(cid, t))
        for t in range(8 if deep else 2):
            ss.append(expo(cid, t))
    for cid in SYMB:
        for t in range(4 if deep else 1):
            ss.append(expo(cid, t))
    alg.check_sessions(rep, ss)


def refl(cid, t):
    """every grade of blade against operands of every grade"""
    r = vlib.rng('C11', cid, t)
    n = CFGS[cid].n
    s = Sess('C11/refl/%s/%d' % (cid, t), cid)
    xs = [s.new(gens.vec(r, n), rep=r.choice(['', 'base'])),
          s.new(gens.mv(r, n, 'full' if n < 4 else 'sparse', 'int'), rep=r.choice(['', 'base'])),
          s.new({m: 1 for m in [(1 << k) - 1 for k in range(n + 1)]})]
    bl = [s.new({0: gens.coef(r, 'int')})]
    for g in range(1, n + 1):
        x = s.new(gens.vec(r, n))
        for _ in range(g - 1):
            x = s.op('wedge', x, s.new(gens.vec(r, n)), keep=True)
        bl.append(x)
        if s.n > 16:
            break
    if s.n < 22:
        bl.append(s.new({r.randrange(1 << n): r.choice(['1', '-2'])}, rep=r.choice(['', 'base'])))
        bl.append(s.new({0: '1', r.randrange(1, 1 << n): '1'}))
    for b in bl:
        for x in xs:
            s.op('refl', x, b, var=r.randrange(2))
            s.op('projb', x, b, var=r.randrange(2))
    s.op('refl', bl[1], bl[1])
    s.op('projb', bl[-1], bl[1])
    return s.d


def nice(cid, r, k):
    """vectors (k of them) whose Gram determinant has square roots that can be evaluated"""
    c = CFGS[cid]
    G = sympy.Matrix(c.G)
    for _ in range(60):
        vs = [{1 << i: r.choice(['1', '-1', '2', '-2', '3', '0', '1/2']) for i in range(c.n)} for _ in range(k)]
        V = sympy.Matrix([[sympy.Rational(v[1 << i]) for i in range(c.n)] for v in vs])
        d = (V * G * V.T).det()
        try:
            for q in list(sympy.factorint(abs(d.p))) + list(sympy.factorint(d.q)):
                if q > 1:
                    gf.prime_root(q)
            if any(x != '0' for v in vs for x in v.values()):
                return vs
        except gf.Unsupported:
            pass
    return [{1 << i: '1'} for i in range(k)]


def expo(cid, t):
    r = vlib.rng('C11e', cid, t)
    n = CFGS[cid].n
    symb = cid in SYMB
    s = Sess('C11/exp/%s/%d' % (cid, t), cid)
    ks = ['int'] if symb or n > 3 else ['int', 'rat', 'sym']
    B = [s.new({r.randrange(1 << n): gens.coef(r, r.choice(ks))}, rep=r.choice(['', 'base'])) for _ in range(2)]
    if not symb:
        B.append(s.new({0: gens.coef(r, 'int')}))
        B.append(s.new(gens.vec(r, n, 'sym') if t and n < 4 else nice(cid, r, 1)[0], rep=r.choice(['', 'base'])))
        if n > 1:
            B.append(s.op('wedge', *[s.new(v) for v in nice(cid, r, 2)], keep=True))
        if n > 2:
            B.append(s.op('wedge', s.op('wedge', *[s.new(v) for v in nice(cid, r, 2)], keep=True), s.new({4: '1'}), keep=True))
    good = list(B)
    if not symb:
        if n == 2 or n == 3:
            B.append(s.new({m: gens.coef(r, 'sym') for m in gens.masks_of(n, 2)}))
        if n == 4:
            B.append(s.new({3: '1', 12: '1'}))           # no scalar square
            B.append(s.new({m: gens.coef(r, 'int') for m in gens.masks_of(n, 3)}))
        B.append(s.new({0: '1', r.randrange(1, 1 << n): '1'}))
        B.append(s.new({}))
    else:
        B.append(s.new({r.choice(gens.masks_of(n, 2)): '1'}))
    x = s.new(gens.mv(r, n, 'sparse', 'int'), rep=r.choice(['', 'base']))
    y = s.new(gens.vec(r, n))
    for b in B:
        h = r.choice(['', '+', '-'])
        s.op('exp', b, s=h, var=r.randrange(2))
    for b in r.sample(good, min(3, len(good))):
        if s.n > 22:
            break
        h = r.choice(['', '+', '-'])
        R = s.op('exph', b, s=h, keep=True, var=r.randrange(2))
        s.op('rot', x, R, bb=b, s=h)
        s.op('rot', y, R, bb=b, s=h, var=1)
    return s.d
