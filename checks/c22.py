"""C22: submanifolds carry the pulled-back metric."""
import sympy
import alg, calc, gens, vlib
from alg import ex, SYM
from calc import CH, Sub
from gens import Sess
import c13
from c13 import fcoef

OPS = ['*', '^', '|', '<', '>']


def _s(*a, **k):
    s = Sub(*a, **k)
    CH[s.id] = s
    NAMED.append(s.id)


NAMED = []
# the usual ones, then: oblique and indefinite ambients, curves, sub-submanifolds, names used on both sides, every call form
_s('S2', 'cart3', 'th phi', ['sin(th)*cos(phi)', 'sin(th)*sin(phi)', 'cos(th)'])
_s('S2n', 'cart3', 'th phi', ['sin(th)*cos(phi)', 'sin(th)*sin(phi)', 'cos(th)'], nu=['1', 'sin(th)'])
_s('S2mv', 'cart3', 'th phi', ['sin(th)*cos(phi)', 'sin(th)*sin(phi)', 'cos(th)'], style='mv')
_s('S2X', 'cart3', 'th phi', ['a*sin(th)*cos(phi)', 'a*sin(th)*sin(phi)', 'a*cos(th)'], style='X')
_s('S2Xn', 'cart3', 'th phi', ['sin(th)*cos(phi)', 'sin(th)*sin(phi)', 'cos(th)'], style='X', nu=['1', 'sin(th)'])
_s('sphR', 'sph', 'u v', ['2', 'u', 'v'])
_s('sphRn', 'sphn', 'u v', ['a', 'u', 'v'], nu=['a', 'a*sin(u)'])
_s('cone', 'sph', 'r phi', ['r', 'a', 'phi'])
_s('helix', 'cyl', 't', ['a', 't', 'b*t'])
_s('helixc', 'cart3', 't', ['a*cos(t)', 'a*sin(t)', 'b*t'], style='tuple')
_s('latit', 'S2', 's', ['a', 's'])
_s('latit2', 'sphR', 's', ['a', 's'])
_s('loop3', 'sphR', 's t', ['s+t', 's-t'])
_s('swap', 'polar', 'r th', ['th', 'r'])
_s('swap2', 'polarn', 'th r', ['th', 'r+th'])
_s('self', 'polar', 'r th', ['r*th', 'th**2'])
_s('pmink', 'mink', 'u v', ['(u+v)/2', '(u-v)/2'])
_s('hyperb', 'mink', 't', ['sinh(t)', 'cosh(t)'], style='tuple')
_s('hyp2', 'mink3', 'u v', ['cosh(u)', 'sinh(u)*cos(v)', 'sinh(u)*sin(v)'])
_s('hyp2n', 'mink3', 'u v', ['cosh(u)', 'sinh(u)*cos(v)', 'sinh(u)*sin(v)'], nu=['1', 'sinh(u)'])
_s('obl', 'affine3', 'u v', ['u', 'v', 'u*v'])
_s('oblmv', 'affine3', 'u v', ['u', 'v**2', 'u+v'], style='mv')
_s('obl1', 'affine2', 't', ['t', 't**2'], style='mv')
_s('symb', 'symb2', 'x y', ['x+y', 'x*y'])
_s('symbmv', 'symb2', 'x y', ['x**2', 'x-y'], style='mv')
_s('shearY', 'shear', 'x y', ['y', 'x'])
_s('shear1', 'shear', 't', ['t', '2*t'], style='list')
_s('nullS', 'null', 'x y', ['x+y', 'x-y'])
_s('torus', 'cart3', 'u v', ['(a+b*cos(u))*cos(v)', '(a+b*cos(u))*sin(v)', 'b*sin(u)'])
_s('rind', 'rindler', 'x t', ['x', 't'])
_s('rind2', 'rindlern', 't x', ['x', 'x+t'])
_s('graph', 'cart3', 'x y', ['x', 'y', 'x**2-y**2'])
_s('graphX', 'cart3', 'x y', ['x', 'y', 'x*y'], style='X')
_s('frwS', 'frw', 'x y', ['x', 'x', 'y'])
_s('frwc', 'frwn', 't x', ['t', 'x', 'a*x'])
_s('hypc', 'hyp', 'y x', ['x', 'y'])
_s('hypg', 'hypn', 's', ['s', 'a'])
_s('st2', 'st4', 'r th', ['a*th', 'r*cos(th)', 'r*sin(th)', 'b'])
_s('chain1', 'graph', 'u v', ['u+v', 'u'])
_s('chain2', 'torus', 't', ['t', '2*t'])
_s('chain3', 'obl', 'x', ['x', 'a*x'])
_s('chain4', 'swap', 'th r', ['r', 'th'])
_s('vol', 'sph', 'x y z', ['x', 'y', 'z'])
_s('flat2', 'cart3', 'u v', ['a*u', 'b*v', '1'])
_s('st3', 'st4', 't r th', ['t', 'r*cos(th)', 'r*sin(th)', 'a*t'])
_s('hyp3', 'st4', 'u v w', ['2*u', 'v', 'w', 'u+v'])
_s('ob3', 'obl4', 'u v w', ['u', 'v', 'w', 'v+u'])
_s('ob3b', 'obl4', 'y t x', ['x', 't', 'y', 'x+y'], style='list')
_s('photon', 'schw', 'phi t', ['t', 'a', 'b', 'phi'])
_s('equat', 'schw', 't r phi', ['t', 'r', 'a', 'phi'])
_s('slice', 'frw4n', 'z x y', ['a', 'x', 'y', 'z'], nu=['a', 'a', 'a'])
_s('c5', 'cart5', 'u v w', ['u', 'v', 'w', 'u*v', 'w**2'])
_s('c5X', 'cart5', 's t', ['s*t', 's', 't', 's+t', 't**2'], style='tuple')

BASES = ['cart2', 'cart3', 'mink', 'mink3', 'affine2', 'affine3', 'symb2', 'diag2', 'polar', 'polarn', 'cyl', 'cyln', 'sph', 'sphn',
         'sphere', 'spheren', 'rindler', 'rindlern', 'frw', 'frwn', 'hyp', 'hypn', 'para', 'paran', 'shear', 'null', 'null3', 'skew3', 'st4', 'obl4', 'cart5']
FORMS1 = ['{0}', '2*{0}', '{0}+a', '{0}**2', 'a*{0}', '-{0}', '{0}+1', '3', 'a', 'b-{0}', '{0}**3', 'sin({0})', 'cos({0})', '1/{0}']
FORMS2 = FORMS1[:10] + ['{0}+{1}', '{0}*{1}', '{0}-{1}', '{1}', '2*{0}+{1}', '{0}*{1}**2', '{1}-a*{0}', 'sin({0})', '{0}*cos({1})', 'exp({0})']


def random_sub(t, deep):
    """a random map; the coordinates may have the names of ambient coordinates, in any order"""
    r = vlib.rng('C22r', t)
    while True:
        base = r.choice(BASES)
        P = CH[base]
        k = r.choice([1, 2, 2, P.n]) if P.n <= 3 else r.choice([1, 2, 2, 3])
        k = min(k, P.n)
        names = r.choice([list(P.coords), ['u', 'v', 'w'], ['s', 't', 'q'], list(P.coords) + ['s', 't']])
        used = {str(x) for row in P.G for e in row for x in e.free_symbols}          # constants of the ambient metric
        names = [x for x in names if x in P.coords or x not in used]
        r.shuffle(names)
        cs = names[:k]
        if len(cs) < k:
            continue
        simple = P.heavy > 1 or k > 2 or not P.const
        fm = FORMS1 if k == 1 else FORMS2
        maps = []
        for i in range(P.n):
            a = r.sample(cs, 2) if k > 1 else cs * 2
            f = r.choice(fm[:5] + fm[10:13] if simple and k > 1 else fm[:10] if simple else fm)
            maps.append(f.format(*a))
        style = r.choice(['map', 'list', 'tuple'])
        const = P.const and not P.normed
        if const and r.random() < .3:
            style = 'mv'
        elif base.startswith('cart') and r.random() < .3:
            style = 'X'
        try:
            s = Sub('rs%d' % t, base, ' '.join(cs), maps, style=style)
        except Exception:
            continue
        d = sympy.Matrix(s.G).det()
        if sympy.simplify(d) == 0 or d.has(sympy.nan, sympy.zoo):
            continue
        return s


def field(s, r, cid, shape=None, rich=True):
    ch = CH[cid]
    m = gens.mv(r, ch.n, shape or r.choice(['vector', 'sparse', 'homog', 'full' if ch.n < 3 else 'sparse', 'blade']), 'int')
    return s.new({k: fcoef(r, ch, rich) for k in list(m)[:6]}, rep=r.choice(['', '', 'base']))


def metric(cid):
    ch = CH[cid]
    r = vlib.rng('C22m', cid)
    s = Sess('C22/metric/%s' % cid, cid)
    s.op('graw')
    s.op('metric')
    x = field(s, r, cid, rich=False)
    y = field(s, r, cid, rich=False)
    for o in OPS:
        s.op('prod', x, y, s=o)
    s.op('metric')
    return s.d


def connection(cid):
    ch = CH[cid]
    r = vlib.rng('C22c', cid)
    s = Sess('C22/connection/%s' % cid, cid)
    s.op('rvec')
    if not ch.const:
        s.op('de')
        if not ch.normed:
            s.op('christ', k=1)
            s.op('christ', k=2)
    F = field(s, r, cid, rich=False)
    for k in range(1, ch.n + 1):
        s.op('diff', F, k=k, var=r.randrange(3))
    return s.d


def grads(cid, t):
    ch = CH[cid]
    r = vlib.rng('C22g', cid, t)
    s = Sess('C22/grad/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, rich=ch.n < 3)
    v = [2, 3, 4]
    for o in r.sample(OPS, 3):
        s.op('grad', F, s=o, var=r.choice([0, 1, 3]))
        s.op('rgrad', F, s=o, var=r.randrange(4))
    a = s.op('opapp', F, f=lambda env, g, A: (g.vpds()[0] if hasattr(g, 'vpds') else g.grad) * A, keep=True)
    b = s.op('grad', F, s='*', keep=True)
    s.op('same', a, b)
    a = s.op('opapp', F, f=lambda env, g, A: A * (g.vpds()[1] if hasattr(g, 'vpds') else g.rgrad), keep=True)
    b = s.op('rgrad', F, s='*', keep=True)
    s.op('same', a, b)
    c = s.op('grad', F, s='^', keep=True)
    s.op('grad', c, s='^')
    return s.d


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Submanifold', 'MC_Submanifold_%s.cfg' % ('t' if deep else 'q'), timeout=600))
    ids = list(NAMED)
    for t in range(400 if deep else 60):
        s = random_sub(t, deep)
        CH[s.id] = s
        ids.append(s.id)
    ss = []
    for cid in ids:
        ss.append(metric(cid))
        ss.append(connection(cid))
        ss += [grads(cid, t) for t in range(3 if deep else 1)]
    calc.check(rep, ss, lim=40 if deep else 20, budget=400 if deep else 150)
