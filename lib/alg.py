"""Catalogue of algebras, execution of multivector sessions on the real code, and their traces."""
import json
import os
import sys
import tempfile
import time
import traceback

import sympy
from sympy import S, Symbol, sympify, Matrix

import gf
import vlib


def _names(s):
    return {n: Symbol(n, real=True) for n in s.split()}


SYM = _names('a b c d p q r s t u v w x y z alpha beta th phi rho k0 k1 k2 k3 k4 k5 k6 k7 eps')
FUN = {n: sympy.Function(n, real=True) for n in 'f1 f2 f3 f4 f5 f6 f7 f8'.split()}


def ex(s):
    """sympy expression from a string over the fixed symbols"""
    if isinstance(s, sympy.Basic):
        return s
    return sympify(str(s), locals={**SYM, **FUN, 'sqrt': sympy.sqrt})


class Cfg:
    """One algebra: how to build it, and (independently) the bilinear form of its basis."""

    def __init__(self, id, basis, g, G=None, coords=None, norm=False, n=None, ginput=None, **kw):
        self.id, self.basis, self.g, self.coords, self.norm, self.kw = id, basis, g, coords, norm, kw
        if G is None:
            if isinstance(g, list) and not isinstance(g[0], list):
                G = [[g[i] if i == j else 0 for j in range(len(g))] for i in range(len(g))]
            elif isinstance(g, list):
                G = g
            else:
                rows = [r.split() for r in g.split(',')]
                if len(rows) == 1 and len(rows[0]) > 1:
                    G = [[rows[0][i] if i == j else 0 for j in range(len(rows[0]))] for i in range(len(rows[0]))]
                else:
                    G = rows
        bn = basis.split()
        self.G = [[self._entry(G[i][j], bn, i, j) for j in range(len(G))] for i in range(len(G))]
        self.n = len(self.G)
        self.ortho = all(self.G[i][j] == 0 for i in range(self.n) for j in range(self.n) if i != j)
        self.const = not any(e.free_symbols for r in self.G for e in r)

    @staticmethod
    def _entry(e, bn, i, j):
        if e == '#':
            i, j = min(i, j), max(i, j)
            return Symbol('(%s.%s)' % (bn[i], bn[j]))
        return ex(e)

    def build(self, **over):
        from galgebra.ga import Ga
        kw = dict(self.kw)
        g = self.g
        if isinstance(g, list):
            g = [[ex(e) for e in r] for r in g] if isinstance(g[0], list) else [ex(e) for e in g]
        if self.coords:
            kw['coords'] = tuple(SYM[c] for c in self.coords.split())
        if self.norm:
            kw['norm'] = True
        kw.update(over)
        cls = kw.pop('cls', Ga)
        if cls is not Ga:
            kw.pop('wedge', None)
        return cls(self.basis, g=g, **kw)

    def gvals(self, pt):
        return [[pt.ev(e) for e in row] for row in self.G]

    def isq(self):
        """1 if the square of the pseudoscalar is positive, or declared to be when it is not a number"""
        d = sympy.simplify(Matrix(self.G).det()) * (-1) ** (self.n * (self.n - 1) // 2)
        return int(bool(d > 0)) if d.is_number else int(self.kw.get('Isq') == '+')

    def nondegenerate(self):
        return sympy.simplify(Matrix(self.G).det()) != 0


CFGS = {}


def _c(*a, **k):
    c = Cfg(*a, **k)
    CFGS[c.id] = c


E = ['e1', 'e2', 'e3', 'e4', 'e5', 'e6']


def _b(n):
    return ' '.join(E[:n])


_c('p2', _b(2), [1, 1])
_c('p3', _b(3), [1, 1, 1])
_c('m2', _b(2), [1, -1])
_c('m3', _b(3), [1, 1, -1])
_c('n3', _b(3), [-1, -1, -1])
_c('m4', _b(4), [1, -1, -1, -1])
_c('m4b', _b(4), [-1, 1, 1, 1])
_c('e4', _b(4), [1, 1, 1, 1])
_c('s22', _b(4), [1, 1, -1, -1])
_c('pga2', _b(3), [0, 1, 1])
_c('pga3', _b(4), [1, 1, 1, 0])
_c('nul2', _b(2), [0, 0])
_c('dgm3', _b(3), [1, 0, -1])
_c('rat3', _b(3), ['2', '1/3', '-5'])
_c('sd3', _b(3), ['u', 'v', 'w'])                       # symbolic orthogonal
_c('o2', _b(2), '2 1,1 3')
_c('o2n', _b(2), '0 1,1 0')                             # null basis
_c('o2d', _b(2), '1 1,1 1')                             # degenerate oblique
_c('o3', _b(3), '1 2 0,2 5 1,0 1 3')
_c('o3n', _b(3), [['1', '1/2', '-1'], ['1/2', '-2', '0'], ['-1', '0', '2']])
_c('o3z', _b(3), '0 1 0,1 0 0,0 0 1')                   # CGA-like plane, null pair
_c('o2h', _b(2), '1 2,2 1')                             # indefinite, positive squares
_c('o3h', _b(3), '1 2 0,2 1 0,0 0 1')
_c('o4', _b(4), '1 1 0 0,1 3 1 0,0 1 2 -1,0 0 -1 -1')
_c('o4c', _b(4), '1 0 0 0,0 1 0 0,0 0 0 -1,0 0 -1 0')   # CGA of the plane
_c('y2', _b(2), '# #,# #')
_c('y3', _b(3), '# # #,# # #,# # #')
_c('y3p', _b(3), '1 # 0,# 1 #,0 # -1')
_c('y3o', _b(3), '0 # #,# 0 #,# # 0')                   # null vectors, symbolic products
_c('sph', 'er et ep', [1, 'r**2', 'r**2*sin(th)**2'], coords='r th phi')
_c('sphn', 'er et ep', [1, 'r**2', 'r**2*sin(th)**2'], G=[[1, 0, 0], [0, 1, 0], [0, 0, 1]],
   coords='r th phi', norm=True)
_c('obc', 'eu ev', [['1', 'x'], ['x', '1+x**2+y**2']], coords='x y')
_c('d5', _b(5), [1, 1, 1, -1, -1])
_c('e5', _b(5), [1, 1, 1, 1, 1])
_c('q3', 'e_1 e_2 e_3', [1, -1, 2], wedge=False)
_c('o3w', 'e_1 e_2 e_3', '1 1 0,1 3 1,0 1 -2', wedge=False)
_c('p4o', _b(4), '2 1 0 0,1 2 0 0,0 0 1 0,0 0 0 1')        # positive definite, oblique
_c('o3p', _b(3), '3 1 -1,1 2 0,-1 0 2')
_c('one', 'e1,', ['2'])
_c('gs3', _b(3), '1 2 0,2 5 1,0 1 3', gsym='g')
_c('gsy2', _b(2), '# #,# #', gsym='h')
_c('obc3', 'eu ev ew', [['1', '0', 'z'], ['0', '1', '0'], ['z', '0', '1+x**2']], coords='x y z')
_c('e_2', 'e_u e_v', [['1', 'x'], ['x', '1+x**2+y**2']], coords='x y')
_c('d5o', _b(5), '1 1 0 0 0,1 3 0 0 0,0 0 1 0 0,0 0 0 -1 1,0 0 0 1 2')
_c('sp2', _b(2), ['u', 'v'], Isq='+')
_c('sp3', _b(3), ['u', 'v', 'w'], Isq='+')
_c('yp2', _b(2), '# #,# #', Isq='+')
_c('mpol', 'et ep', [1, '-r**2'], coords='r th', Isq='+')
_c('sm2', _b(2), ['u', 'v'], Isq='-')
_c('e6', _b(6), [1, 1, 1, 1, 1, 1])
_c('m6', _b(6), [1, -1, 1, -1, 2, -1])

MAXREG = 24


class BuildError(Exception):
    """an algebra could not be constructed"""


class Env:
    """The real objects of one session."""

    def __init__(self, cfgs):
        from galgebra.ga import Ga
        Ga.dual_mode('I+')
        self.cfgs = cfgs
        self.ga = [c.build() for c in cfgs]
        self.maps = [index_maps(g) for g in self.ga]
        self.reg = {}

    def maskblade(self, al, mask):
        g = self.ga[al]
        ix = tuple(i for i in range(g.n) if mask >> i & 1)
        return g.blades.flat[g.indexes.flat.index(ix)]


def index_maps(g):
    """symbol -> mask for blade symbols, and for base symbols where these are different"""
    mb, ms = {}, {}
    for sym, ix in zip(g.blades.flat, g.indexes.flat):
        mb[sym] = sum(1 << i for i in ix)
    if not g.is_ortho:
        for sym, ix in zip(g.bases.flat, g.indexes.flat):
            if sym not in mb:
                ms[sym] = sum(1 << i for i in ix)
    mb.pop(S.One, None)
    ms.pop(S.One, None)
    return mb, ms


def mvval(v):
    from galgebra.mv import Mv
    if isinstance(v, Mv):
        return v.obj
    return sympify(v)


def eval_mv(pt, v, maps, n):
    """(blade coefficients, base coefficients or [])"""
    mb, ms = maps
    obj = mvval(v)
    if not ms:
        return pt.vec(obj, mb, n), []
    idx = dict(mb)
    for s_, m in ms.items():
        idx[s_] = m + (1 << n)
    w = pt.vec(obj, idx, n + 1)
    lo, hi = w[:1 << n], w[1 << n:]
    return lo, (hi if any(hi) else [])


# --- operations on the real code --------------------------------------------------------------
def _mk(env, st):
    al = st['al'] - 1
    g = env.ga[al]
    items = [(m, ex(e)) for m, e in st['coef'].items()]
    var = st.get('var', 0)
    if var == 1:
        items = items[::-1]
    if var == 2:
        out = g.mv(S.Zero)
        for m, e in items:
            out = out + e * g.mv(env.maskblade(al, int(m)))
        return out
    obj = S.Zero
    for m, e in items:
        obj += e * env.maskblade(al, int(m))
    out = g.mv(obj)
    if st.get('rep') == 'base':
        out = out.base_rep()
    return out


def _ops():
    import galgebra.mv as gmv
    from galgebra.ga import Ga
    O = {}

    def op(name):
        def deco(f):
            O[name] = f
            return f
        return deco

    O['new'] = _mk
    O['obs'] = lambda e, s: e.A
    O['mul'] = lambda e, s: [lambda: e.A * e.B, lambda: gmv.Mv.Mul(e.A, e.B, '*'),
                             lambda: e.G.mv(e.G.mul(e.A.blade_rep().obj, e.B.blade_rep().obj)),
                             lambda: e.G.mv(e.G.Mul(e.A.blade_rep().obj, e.B.blade_rep().obj))][s.get('var', 0)]()
    O['wedge'] = lambda e, s: [lambda: e.A ^ e.B, lambda: gmv.Mv.Mul(e.A, e.B, '^'),
                               lambda: e.G.mv(e.G.wedge(e.A.blade_rep().obj, e.B.blade_rep().obj)),
                               lambda: e.G.mv(e.G.Mul(e.A.blade_rep().obj, e.B.blade_rep().obj, '^'))][s.get('var', 0)]()
    O['hdot'] = lambda e, s: [lambda: e.A | e.B, lambda: gmv.Mv.Mul(e.A, e.B, '|'),
                              lambda: e.G.mv(e.G.hestenes_dot(e.A.blade_rep().obj, e.B.blade_rep().obj)),
                              lambda: e.G.mv(e.G.Mul(e.A.blade_rep().obj, e.B.blade_rep().obj, '|'))][s.get('var', 0)]()
    O['lc'] = lambda e, s: [lambda: e.A < e.B, lambda: gmv.Mv.Mul(e.A, e.B, '<'),
                            lambda: e.G.mv(e.G.left_contract(e.A.blade_rep().obj, e.B.blade_rep().obj)),
                            lambda: e.G.mv(e.G.Mul(e.A.blade_rep().obj, e.B.blade_rep().obj, '<'))][s.get('var', 0)]()
    O['rc'] = lambda e, s: [lambda: e.A > e.B, lambda: gmv.Mv.Mul(e.A, e.B, '>'),
                            lambda: e.G.mv(e.G.right_contract(e.A.blade_rep().obj, e.B.blade_rep().obj)),
                            lambda: e.G.mv(e.G.Mul(e.A.blade_rep().obj, e.B.blade_rep().obj, '>'))][s.get('var', 0)]()
    O['sprod'] = lambda e, s: e.G.mv(e.G.scalar_product(e.A.blade_rep().obj, e.B.blade_rep().obj))
    O['neg'] = lambda e, s: -e.A
    O['add'] = lambda e, s: e.A + e.B
    O['sub'] = lambda e, s: e.A - e.B
    O['adds'] = lambda e, s: e.A + e.c if s.get('var', 0) == 0 else e.c + e.A
    O['subs'] = lambda e, s: e.A - e.c
    O['rsubs'] = lambda e, s: e.c - e.A
    O['smul'] = lambda e, s: [lambda: e.A * e.c, lambda: e.c * e.A, lambda: e.G.mv(e.c) * e.A,
                              lambda: e.A * e.G.mv(e.c)][s.get('var', 0)]()
    O['sdiv'] = lambda e, s: [lambda: e.A / e.c, lambda: e.A / e.G.mv(e.c)][s.get('var', 0)]()
    O['com'] = lambda e, s: [lambda: e.A >> e.B, lambda: Ga.com(e.A, e.B)][s.get('var', 0)]()
    O['acom'] = lambda e, s: e.A << e.B
    O['pow'] = lambda e, s: e.A ** s['k']
    O['wedge_as'] = lambda e, s: e.A ^ e.c if s.get('var', 0) == 0 else e.c ^ e.A
    O['hdot_as'] = lambda e, s: e.A | e.c if s.get('var', 0) == 0 else e.c | e.A
    O['lc_as'] = lambda e, s: e.A < e.c
    O['rc_as'] = lambda e, s: e.A > e.c
    O['lc_sa'] = lambda e, s: [lambda: gmv.Mv.Mul(e.c, e.A, '<'), lambda: e.G.mv(e.c) < e.A][s.get('var', 0)]()
    O['rc_sa'] = lambda e, s: [lambda: gmv.Mv.Mul(e.c, e.A, '>'), lambda: e.G.mv(e.c) > e.A][s.get('var', 0)]()
    O['com_as'] = lambda e, s: [lambda: e.A >> e.c, lambda: e.A >> e.G.mv(e.c)][s.get('var', 0)]()
    O['acom_as'] = lambda e, s: [lambda: e.A << e.c, lambda: e.A << e.G.mv(e.c)][s.get('var', 0)]()
    O['sp'] = lambda e, s: e.A.sp(e.B) if s.get('var', 0) == 0 else gmv.sp(e.A, e.B)
    O['sprev'] = lambda e, s: e.A.sp(e.B, 'rev') if s.get('var', 0) == 0 else gmv.sp(e.A, e.B, 'rev')

    @op('dotmode')
    def _(e, s):
        e.G.dot_mode = s['s']
    O['gadot'] = lambda e, s: e.G.mv(e.G.dot(e.A.blade_rep().obj, e.B.blade_rep().obj))
    O['rev'] = lambda e, s: [lambda: e.A.rev(), lambda: ~e.A, lambda: gmv.rev(e.A),
                             lambda: e.G.mv(e.G.reverse(e.A.blade_rep().obj))][s.get('var', 0)]()
    O['ginvol'] = lambda e, s: [lambda: e.A.g_invol(), lambda: gmv.g_invol(e.A)][s.get('var', 0)]()
    O['ccon'] = lambda e, s: [lambda: e.A.ccon(), lambda: gmv.ccon(e.A)][s.get('var', 0)]()
    O['even'] = lambda e, s: [lambda: e.A.even(), lambda: gmv.even(e.A),
                              lambda: e.G.mv(e.G.even_odd(e.A.blade_rep().obj, True))][s.get('var', 0)]()
    O['odd'] = lambda e, s: [lambda: e.A.odd(), lambda: gmv.odd(e.A),
                             lambda: e.G.mv(e.G.even_odd(e.A.blade_rep().obj, False))][s.get('var', 0)]()
    O['grade'] = lambda e, s: [lambda: e.A.grade(s['k']), lambda: e.A.get_grade(s['k']), lambda: e.A[s['k']],
                               lambda: gmv.grade(e.A, s['k']),
                               lambda: e.G.mv(e.G.grade_decomposition(e.A.blade_rep()).get(s['k'], S.Zero)),
                               lambda: e.G.mv(e.G.get_grade(e.A.blade_rep().obj, s['k']))][s.get('var', 0)]()
    O['scalar'] = lambda e, s: [lambda: e.A.scalar(), lambda: gmv.scalar(e.A),
                                lambda: e.G.scalar_part(e.A),
                                lambda: e.G.split_multivector(e.A)[0]][s.get('var', 0)]()
    O['noscalar'] = lambda e, s: [lambda: e.G.remove_scalar_part(e.A),
                                  lambda: e.G.split_multivector(e.A)[1]][s.get('var', 0)]()
    O['grades'] = lambda e, s: e.G.grades(e.A.obj)
    O['gradesum'] = lambda e, s: sum(e.G.grade_decomposition(e.A.blade_rep()).values(), e.G.mv(0))
    O['canon'] = lambda e, s: e.A.blade_coefs()
    O['canongrade'] = lambda e, s: [lambda: e.A.blade_coefs(list(e.G.mv_blades[s['k']])),
                                    lambda: e.A.grade(s['k']).get_coefs(s['k'])][s.get('var', 0)]()
    O['coefsof'] = lambda e, s: e.A.blade_coefs([e.G.mv(e.env.maskblade(e.al, m)) for m in s['masks']])
    O['proj'] = lambda e, s: e.A.proj([e.G.mv(e.env.maskblade(e.al, m)) for m in s['masks']])
    O['listvec'] = lambda e, s: e.A.list()
    O['components'] = lambda e, s: sum(e.A.components(), e.G.mv(0))
    O['complist'] = lambda e, s: e.A.components()

    @op('setcoef')
    def _(e, s):
        ix = tuple(i for i in range(e.G.n) if s['k'] >> i & 1)
        e.A.set_coef(len(ix), e.G.indexes[len(ix)].index(ix), e.c)
        return e.A
    O['setcoefb'] = O['setcoef']
    O['ident'] = lambda e, s: {
        'blade_rep': lambda: e.A.blade_rep(), 'base_rep': lambda: e.A.base_rep(),
        'simplify': lambda: e.A.simplify(), 'expand': lambda: e.A.expand(), 'trigsimp': lambda: e.A.trigsimp(),
        'func': lambda: e.A.func(lambda x: x), 'collect': lambda: e.A.collect(),
        'collectd': lambda: e.A.collect(deep=True),
        'copy': lambda: e.G.mv(e.A), 'factor': lambda: e.A.simplify(modes=[sympy.expand, sympy.factor]),
        'rr': lambda: e.A.base_rep().blade_rep(),
        'mul1': lambda: e.A * e.G.mv(1), 'one*': lambda: e.G.mv(1) * e.A,
    }[s['s']]()
    O['given'] = lambda e, s: {
        'subs': lambda: e.A.subs({SYM[k]: ex(v) for k, v in s['map'].items()}),
        'subs2': lambda: e.A.subs(*[(SYM[k], ex(v)) for k, v in s['map'].items()][0]),
        'func': lambda: e.A.func(lambda cc: 3 * cc - 1 if cc != 0 else cc),
        'diff': lambda: e.A.diff(SYM[s['map']]),
        'modes': lambda: e.A.simplify(modes=[lambda x: 2 * x, lambda x: x + 1]),
        'expr': lambda: s['f'](e),
    }[s['s']]()
    O['iszero'] = lambda e, s: [lambda: e.A.is_zero()][s.get('var', 0)]()
    O['isscalar'] = lambda e, s: e.A.is_scalar()
    O['isvector'] = lambda e, s: e.A.is_vector()
    O['isblade'] = lambda e, s: e.A.is_blade()
    O['isversor'] = lambda e, s: e.A.is_versor()
    O['isbase'] = lambda e, s: e.A.is_base()
    O['puregrade'] = lambda e, s: e.A.pure_grade()
    O['eq'] = lambda e, s: [lambda: e.A == e.B, lambda: not (e.A != e.B)][s.get('var', 0)]()
    O['eqs'] = lambda e, s: [lambda: e.A == e.c, lambda: not (e.A != e.c)][s.get('var', 0)]()
    O['ratio'] = lambda e, s: gmv.compare(e.A, e.B)
    O['cross'] = lambda e, s: gmv.cross(e.A, e.B)
    O['hasheq'] = lambda e, s: hash(e.A) == hash(e.B)
    O['E'] = lambda e, s: e.G.E()
    O['I'] = lambda e, s: e.G.I()
    O['Iinv'] = lambda e, s: e.G.i_inv
    O['esq'] = lambda e, s: e.G.e_sq

    @op('dualmode')
    def _(e, s):
        Ga.dual_mode(s['s'])
        return []

    @op('dualdef')
    def _(e, s):
        Ga.dual_mode()
        return []
    O['dual'] = lambda e, s: [lambda: e.A.dual(), lambda: gmv.dual(e.A)][s.get('var', 0)]()
    O['undual'] = lambda e, s: [lambda: e.A.undual(), lambda: gmv.undual(e.A)][s.get('var', 0)]()
    O['inv'] = lambda e, s: [lambda: e.A.inv(), lambda: gmv.inv(e.A), lambda: e.A ** -1][s.get('var', 0)]()
    O['ginv'] = lambda e, s: [lambda: e.A.shirokov_inverse(), lambda: e.A.hitzer_inverse(),
                              lambda: gmv.shirokov_inverse(e.A), lambda: gmv.hitzer_inverse(e.A)][s.get('var', 0)]()
    O['div'] = lambda e, s: e.A / e.B
    O['rdivs'] = lambda e, s: e.c / e.A
    O['powneg'] = lambda e, s: e.A ** (-s['k'])
    O['qform'] = lambda e, s: [lambda: e.A.qform(), lambda: gmv.qform(e.A)][s.get('var', 0)]()
    O['qformz'] = O['qform']
    O['norm2'] = lambda e, s: [lambda: e.A.norm2(*hint(s)), lambda: gmv.norm2(e.A, *hint(s))][s.get('var', 0)]()
    O['norm'] = lambda e, s: [lambda: e.A.norm(*hint(s)), lambda: gmv.norm(e.A, *hint(s)),
                              lambda: abs(e.A)][s.get('var', 0)]()
    O['mag2'] = lambda e, s: [lambda: e.A.mag2(), lambda: gmv.mag2(e.A)][s.get('var', 0)]()
    O['mag'] = lambda e, s: [lambda: e.A.mag(), lambda: gmv.mag(e.A)][s.get('var', 0)]()
    O['refl'] = lambda e, s: [lambda: e.A.reflect_in_blade(e.B), lambda: gmv.refl(e.B, e.A)][s.get('var', 0)]()
    O['projb'] = lambda e, s: [lambda: e.A.project_in_blade(e.B), lambda: gmv.proj(e.B, e.A)][s.get('var', 0)]()

    TAU = Symbol('tau', positive=True)

    @op('exp')
    def _(e, s):
        E_ = [lambda: (TAU * e.A).exp(*hint(s)), lambda: gmv.exp(TAU * e.A, *hint(s))][s.get('var', 0)]()
        o = E_.blade_rep().obj
        return [E_, e.G.mv(sympy.diff(o, TAU)), e.G.mv(sympy.expand(o).subs(TAU, 0))]

    @op('exph')
    def _(e, s):
        o = (TAU * e.A).exp(*hint(s)).blade_rep().obj.subs(TAU, S.Half)
        return [(e.A / 2).exp(*hint(s)) if s.get('var', 0) == 0 else gmv.exp(e.A / S(2), *hint(s)), e.G.mv(o)]

    @op('expraise')
    def _(e, s):
        return e.A.exp(*hint(s))

    @op('rot')
    def _(e, s):
        B = e.env.reg[s['bb']]
        return [lambda: e.A.rotate_multivector(B, *hint(s)), lambda: gmv.rot(B, e.A, *hint(s))][s.get('var', 0)]()

    @op('fromlist')
    def _(e, s):
        cl = [ex(x) for x in s['list']]
        v = s.get('var', 0)
        cat = {1: 'vector', 2: 'bivector', e.G.n: 'pseudo'}.get(s['k'])
        if s['k'] == 0:
            return [lambda: e.G.mv(cl[0], 'scalar'), lambda: e.G.mv(cl[0]), lambda: e.G.mv(cl[0], 0)][v % 3]()
        if v == 1 and cat:
            return e.G.mv(cl, cat)
        if v == 2:
            return e.G.mv(tuple(cl), 'grade', s['k'])
        return e.G.mv(cl, s['k'])

    @op('named')
    def _(e, s):
        kw = {}
        if s.get('fn') == 'coords':
            kw['f'] = True
        elif s.get('fn'):
            kw['f'] = tuple(SYM[x] for x in s['fn'].split())
        args = (s['s'], s['k']) if s['s'] == 'grade' else (s['k'],) if s['s'] == 'int' else (s['s'],)
        r = e.G.mv(s['name'], *args, **kw)
        return r if 'sel' not in s else r[s['sel']]

    @op('build')
    def _(e, s):
        e.env.extra = getattr(e.env, 'extra', []) + [CFGS[s['s']].build()]

    def degsym(e, v):
        """the unevaluated determinant of the symbolic metric, evaluated"""
        from galgebra.atoms import Determinant
        D = Matrix(e.env.cfgs[e.al].G).det()
        o = v.obj if isinstance(v, gmv.Mv) else sympify(v)
        return o.replace(lambda t: isinstance(t, Determinant), lambda t: D)

    @op('mvr')
    def _(e, s):
        v = s.get('var', 0)
        if s['s'] == 'norm':
            r = [lambda: e.G.mvr(), lambda: e.G.mvr(norm=True), lambda: e.G.ReciprocalFrame(list(e.G.mv()))][v]()
        else:
            r = [lambda: e.G.mvr(norm=False), lambda: e.G.r_basis_mv, lambda: e.G.r_basis,
                 lambda: [e.G.r_basis_dict[x] for x in e.G.r_symbols]][v]()
        return [degsym(e, x) for x in r]
    @op('rblades')
    def _(e, s):
        D = getattr(e.G, '_reciprocal_blade_dict', None)
        if D is None:           # an internal table: the blades of the reciprocal vectors otherwise
            D = {}
            for m in range(1, 1 << e.G.n):
                x = e.G.mv(1)
                for i in reversed(range(e.G.n)):
                    if m >> i & 1:
                        x = x ^ e.G.mvr()[i]
                D[e.env.maskblade(e.al, m)] = x
        return [degsym(e, D[e.env.maskblade(e.al, m)]) if m else S.One for m in range(1 << e.G.n)]
    O['rframe'] = lambda e, s: [x.blade_rep() if isinstance(x, gmv.Mv) else x for x in
                                e.G.ReciprocalFrame([e.env.reg[k] for k in s['masks']],
                                                    **({} if s.get('var') else {'mode': s['s']}))]
    O['gmat'] = lambda e, s: list(e.G.g)
    O['gadj'] = lambda e, s: list(e.G.g_adj)

    @op('ginvm')
    def _(e, s):
        from galgebra.metric import Metric
        if s.get('var', 0) == 0:
            return list(e.G.g_inv)
        return list(e.env.cfgs[e.al].build(cls=Metric).g_inv)

    @op('toomany')
    def _(e, s):
        return e.G.mv([S.One] * (len(e.G.blades[s['k']]) + 1), s['k'])
    return O


def hint(s):
    return (s['s'],) if s.get('s') else ()


_OPS = None
# observation kind of each operation (default: a multivector)
KIND = {k: 'list' for k in ('grades', 'canon', 'canongrade', 'coefsof', 'listvec', 'dualmode', 'dualdef')}
KIND.update({k: 'scalar' for k in ('sp', 'sprev', 'ratio', 'scalar', 'qform', 'esq', 'qformz', 'norm2', 'mag2')})
KIND.update(norm='nonneg', mag='nonneg')
KIND.update({k: 'bool' for k in ('iszero', 'isscalar', 'isvector', 'isblade', 'isversor', 'isbase', 'eq', 'eqs',
                                 'hasheq')})
KIND.update(mvr='mvseq', rblades='mvseq', rframe='mvseq', gmat='list', ginvm='list', gadj='list')
KIND.update(puregrade='int', dotmode='none', build='none', complist='mvlist', exp='exp', exph='exp')
OBSERVED_RESULT = {'I', 'Iinv', 'undual', 'inv', 'ginv', 'div', 'rdivs', 'powneg', 'exph'}   # register := observation
MASKS_DEF = {'coefsof', 'proj'}


class View:
    def __init__(self, env, st):
        self.env = env
        self.al = st.get('al', 1) - 1
        self.G = env.ga[self.al]
        self.A = env.reg.get(st.get('a', 0))
        self.B = env.reg.get(st.get('b', 0))
        self.c = None
        if 'c' in st:
            c = st['c']
            self.c = c if isinstance(c, int) and st.get('pyint') else ex(c)


def execute(sess, rec=None, lim=None):
    """Run the steps on the real code.  Returns list of (step, status, value)."""
    global _OPS
    if _OPS is None:
        _OPS = _ops()
    try:
        env = Env([CFGS[c] if isinstance(c, str) else c for c in sess['algs']])
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    LAST_ENV[0] = env
    rec = [] if rec is None else rec
    t0 = time.process_time()
    for st in sess['steps']:
        if lim and time.process_time() - t0 > lim:      # judge what was done so far
            break
        for r, q in st.get('warm', ()):
            warm(env.reg.get(r), q)
        try:
            val = _OPS[st['op']](View(env, st), st) if st['op'] != 'new' else _mk(env, st)
            status = 'ok'
        except vlib.Timeout:
            raise
        except Exception as e:
            status, val = 'exc', '%s: %s' % (type(e).__name__, e)
        # evaluate immediately what could be aliased and changed later: keep the expression, not the object
        rec.append((st, status, freeze(val, KIND.get(st['op'], 'mv')) if status == 'ok' else val))
        if st.get('dst'):
            if status == 'ok':
                env.reg[st['dst']] = val[0] if KIND.get(st['op']) == 'exp' else val
            else:
                env.reg.pop(st['dst'], None)
                break
    else:
        for r, v in sorted(env.reg.items()):
            al = next(s_['al'] for s_ in sess['steps'] if s_.get('dst') == r)
            st = dict(op='obs', al=al, a=r, final=1)
            rec.append((st, 'ok', freeze(v, 'mv')))
    return env, rec


def warm(v, q):
    """a query whose answer is thrown away: a stuttering step of the specification"""
    try:
        WARM[q](v)
    except vlib.Timeout:
        raise
    except Exception:
        pass


WARM = dict(scalar=lambda v: v.is_scalar(), vector=lambda v: v.is_vector(), base=lambda v: v.is_base(), zero=lambda v: v.is_zero(),
            pure=lambda v: v.pure_grade(), hash=lambda v: hash(v), bladerep=lambda v: v.blade_rep(), baserep=lambda v: v.base_rep(),
            coefs=lambda v: v.blade_coefs(), comps=lambda v: v.components(), rev=lambda v: v.rev(), same=lambda v: v == v,
            str=lambda v: str(v), blade=lambda v: v.is_blade(), versor=lambda v: v.is_versor(), norm2=lambda v: v.norm2(),
            square=lambda v: v * v, char=lambda v: v.characterise_Mv())
PLAIN = sorted(WARM)
# on fields, linear transformations, tensors and operators
WARM.update(grad=lambda v: v.Ga.grad * v, rgrad=lambda v: v * v.Ga.rgrad, diff=lambda v: [v.diff(x) for x in v.Ga.coords],
            matrix=lambda v: v.matrix(), det=lambda v: v.det(), tr=lambda v: v.tr(), adj=lambda v: v.adj(), inv=lambda v: v.inv(),
            singular=lambda v: v.is_singular(), call=lambda v: [v(e) for e in v.Ga.mv()], table=lambda v: v.mv_dict,
            neg=lambda v: -v, plus=lambda v: v + v, times=lambda v: 2 * v, minus=lambda v: v - v, comp=lambda v: v * v,
            parts=lambda v: v.components(), scal=lambda v: v.is_scalar(), expand=lambda v: v.expand(), pdiff=lambda v: v.pdiff(1),
            dd=lambda v: v.dd(), comps=lambda v: v.comps(), contract=lambda v: v.contract(1, 2), apply=lambda v: v(*v.Ga.mv()[:1] * v.nargs))
WARM_OF = dict(CalcTrace=('scalar', 'zero', 'pure', 'bladerep', 'baserep', 'coefs', 'rev', 'char', 'grad', 'rgrad', 'diff', 'str', 'neg', 'plus'),
               LinTrace=('matrix', 'det', 'tr', 'adj', 'inv', 'singular', 'call', 'table', 'plus', 'times', 'minus', 'comp', 'str', 'same'),
               MltTrace=('str', 'neg', 'plus', 'times', 'minus', 'comps'),
               OpTrace=('str', 'neg', 'plus', 'times', 'minus', 'parts', 'scal', 'same'))
CHEAP = ('scalar', 'vector', 'base', 'zero', 'pure', 'hash', 'bladerep', 'baserep', 'coefs', 'comps', 'rev', 'same', 'char')
TWINS = ('mul', 'wedge', 'hdot', 'lc', 'rc', 'com', 'acom', 'add', 'sub', 'sp', 'sprev')


def enrich_other(sess, words):
    if sess.get('rich'):
        return
    sess['rich'] = 1
    r = vlib.rng('rich', sess['id'])
    for st in sess['steps']:
        regs = [x for x in (st.get('a'), st.get('b')) if x]
        if regs and r.random() < .2:
            st['warm'] = [[r.choice(regs), r.choice(words)]]


def enrich(sess):
    """queries on the operands before some steps, and some binary operations repeated with both operands the same object"""
    if sess.get('rich') or not all(isinstance(c, str) and c in CFGS for c in sess['algs']):
        return
    sess['rich'] = 1
    r = vlib.rng('rich', sess['id'])
    heavy = any(c in ('y3', 'd5', 'sph', 'y3o', 'sd3', 'm6', 'e6', 'e5', 'd5o') for c in sess['algs'])
    new = {st['dst'] for st in sess['steps'] if st.get('dst') and st['op'] == 'new'}
    out = []
    for st in sess['steps']:
        regs = [x for x in (st.get('a'), st.get('b')) if x]
        if regs and r.random() < .3:
            st['warm'] = [[r.choice(regs), r.choice(CHEAP if heavy else PLAIN)] for _ in range(r.choice([1, 1, 2]))]
        out.append(st)
        if st['op'] in TWINS and st.get('a') in new and st.get('b') and not heavy and r.random() < .08:
            out.append({**{k: v for k, v in st.items() if k not in ('dst', 'warm')}, 'b': st['a']})
    sess['steps'] = out


def freeze(v, kind):
    from galgebra.mv import Mv
    if kind == 'mv':
        if isinstance(v, Mv):
            return ('mv', v.obj, v.Ga)
        return ('mv', sympify(v), None)
    if kind in ('mvlist', 'exp'):
        return [('mv', x.obj, x.Ga) for x in v]
    if kind in ('list', 'mvseq'):
        return [x.obj if isinstance(x, Mv) else sympify(x) for x in v]
    if kind == 'scalar':
        return v.obj if isinstance(v, Mv) else sympify(v)
    return v


LAST_ENV = [None]


def trace(sess, seed, lim=25):
    """Execute and evaluate one session -> dict(lines, algs) or raises."""
    rec = []
    try:
        with vlib.time_limit(lim):
            env, rec = execute(sess, rec, lim * .7)
    except vlib.Timeout:
        while rec and rec[-1][1] != 'ok':  # the Timeout itself, swallowed and raised as something else
            rec.pop()
        if not rec:
            raise
        env = LAST_ENV[0]
    with vlib.time_limit(lim):
        return evaluate(sess, env, rec, seed)


def evaluate(sess, env, rec, seed):
    lcm = 1
    last = None
    if sess.get('ints'):
        return _evaluate(sess, env, rec, gf.IntPoint(seed))
    for attempt in range(40):
        pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
        try:
            return _evaluate(sess, env, rec, pt)
        except gf.NeedRoots as e:
            lcm = 12
            last = e
        except gf.BadPoint as e:
            last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def deflt(step, **kw):
    st = step
    d = dict(op=st['op'], al=st.get('al', 1), a=st.get('a', 0), b=st.get('b', 0), k=st.get('k', 0), c=0,
             s=st.get('s', ''), dst=st.get('dst', 0), st='ok', obs=[], obsb=[], df=[], df2=[])
    d.update(kw)
    return d


def _evaluate(sess, env, rec, pt):
    algs = []
    for c in env.cfgs:
        algs.append(dict(n=c.n, g=c.gvals(pt)))
    lines = []
    skipped = 0
    for st, status, val in rec:
        al = st.get('al', 1) - 1
        n = env.cfgs[al].n
        ln = deflt(st, st=status)
        if st['op'] == 'new':
            d = [0] * (1 << n)
            for m, e in st['coef'].items():
                d[int(m)] = pt.red(d[int(m)] + pt.ev(ex(e)))
            ln['df'] = d
        if 'want' in st:               # expected coefficients given by the generator
            d = [0] * (1 << n)
            for m, e in st['want'].items():
                d[int(m)] = pt.red(d[int(m)] + pt.ev(ex(e)))
            ln['df'] = d
        if 'list' in st:
            ln['df'] = [pt.ev(ex(e)) for e in st['list']]
        if "masks" in st:
            ln['df'] = list(st['masks'])
        if 'c' in st:
            ln['c'] = pt.ev(ex(st['c']))
        if st['op'] == 'I':
            ln['k'] = env.cfgs[al].isq()
        if status == 'ok':
            kind = KIND.get(st['op'], 'mv')
            try:
                if kind == 'mv':
                    if val[2] is not None and val[2] is not env.ga[al]:
                        ln['st'] = 'alien'
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[1], env.maps[al], n)
                elif kind == 'exp':
                    ln['obs'], ln['obsb'] = eval_mv(pt, val[0][1], env.maps[al], n)
                    ln['df'] = eval_mv(pt, val[1][1], env.maps[al], n)[0]
                    if len(val) > 2:
                        ln['df2'] = eval_mv(pt, val[2][1], env.maps[al], n)[0]
                elif kind == 'mvlist':
                    tot = []
                    for v in val:
                        o, ob = eval_mv(pt, v[1], env.maps[al], n)
                        nz = [i for i, t in enumerate(o) if t]
                        if ob or len(nz) > 1:
                            raise gf.Malformed('component')
                        if nz:
                            tot += [nz[0], o[nz[0]]]
                    ln['obs'] = tot
                elif kind == 'list':
                    ln['obs'] = [pt.ev(x) for x in val]
                elif kind == 'mvseq':
                    ln['obs'] = [eval_mv(pt, x, env.maps[al], n)[0] for x in val]
                elif kind == 'scalar':
                    ln['obs'] = [pt.ev(val)]
                elif kind == 'nonneg':        # [value**2, sign]: a nonnegative square root
                    x = pt.val(val)
                    y = sympy.N(x, 30)
                    if not y.is_real:
                        raise gf.Malformed('not real')
                    ln['obs'] = [pt.ev(x ** 2), -1 if y < -1e-12 else 1]
                elif kind == 'bool':
                    if val not in (True, False):
                        raise gf.Malformed(repr(val))
                    ln['obs'] = [1 if val else 0]
                elif kind == 'int':
                    ln['obs'] = [int(val)]
            except gf.Unsupported as e:
                ln['st'] = 'skip'
                skipped += 1
            except gf.NonFinite:
                ln['st'] = 'nf'
            except gf.Malformed as e:
                ln['st'] = 'malformed'
        lines.append(ln)
        if ln['st'] == 'skip' and st['op'] in OBSERVED_RESULT and st.get('dst'):
            break
    return dict(lines=lines, algs=algs, skipped=skipped)


def run_session(job):
    """worker entry: job = (session, seed, time limit, tracer)"""
    sess, seed, lim, tracer = job
    try:
        out = tracer(sess, seed, lim)
    except vlib.Timeout:
        return dict(id=sess['id'], lines=[], algs=[], skipped=len(sess['steps']), note='timeout')
    except gf.Unsupported as e:
        return dict(id=sess['id'], lines=[], algs=[], skipped=len(sess['steps']), note='unsupported %s' % e)
    except BuildError as e:
        return dict(id=sess['id'], lines=[], algs=[], crash='%s: %s' % (type(e).__name__, e),
                    tb=traceback.format_exc()[-1500:], skipped=0)
    except Exception as e:
        # a value outside everything the specification knows
        return dict(id=sess['id'], lines=[], algs=[], crash='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:], skipped=0)
    out['id'] = sess['id']
    return out


def check_sessions(rep, sessions, module='AlgTrace', cfg='AlgTrace.cfg', lim=25, budget=400, modulus=None,
                   key=None, tracer=None, extra=None):
    """Execute the sessions on the real code, let TLC judge the traces, file the divergences."""
    seed = 'pt%d' % vlib.SEED
    t0 = time.time()
    if (tracer or trace) is trace:
        for s in sessions:
            enrich(s)
    elif module in WARM_OF:
        for s in sessions:
            enrich_other(s, WARM_OF[module])
    res, dropped = vlib.pmap(run_session, [(s, seed, lim, tracer or trace) for s in sessions], budget=budget)
    t1 = time.time()
    algix, algs, sess = {}, [], []
    skipped = 0
    notes = {}
    for s, r in zip(sessions, res):
        if r is None:
            continue
        skipped += r.get('skipped', 0)
        if r.get('note'):
            if r['note'] == 'timeout':
                rep.extra.setdefault('timed_out', []).append(s['id'])
            notes[r['note'][:40]] = notes.get(r['note'][:40], 0) + 1
        if r.get('crash'):
            rep.violation('%s/crash' % s['id'], r['crash'], dict(session=strip(s), error=r['crash'], tb=r['tb']))
            continue
        if not r['lines']:
            continue
        mapping = []
        for a in r['algs']:
            k = json.dumps(a)
            if k not in algix:
                algix[k] = len(algs) + 1
                algs.append(a)
            mapping.append(algix[k])
        for ln in r['lines']:
            if 'al' in ln and mapping:
                ln['al'] = mapping[ln['al'] - 1]
        sess.append(dict(id=s['id'], lines=r['lines']))
    bysid = {s['id']: s for s in sessions}
    assert len(bysid) == len(sessions), 'duplicate session ids'
    nlines = sum(len(s['lines']) for s in sess)
    rep.extra['operations_checked'] = rep.extra.get('operations_checked', 0) + nlines
    rep.extra['operations_not_evaluated'] = rep.extra.get('operations_not_evaluated', 0) + skipped
    rep.extra['sessions_dropped'] = rep.extra.get('sessions_dropped', 0) + dropped
    if notes:
        rep.extra.setdefault('notes', {}).update(notes)
    if not sess:
        return
    m = gf.P if modulus is None else max(0, modulus)       # -1: exact integers
    fd, path = tempfile.mkstemp(suffix='.json', prefix='trace_')
    with os.fdopen(fd, 'w') as f:
        json.dump(dict(m=m, algs=algs, sess=sess, **(extra or {})), f)
    try:
        r = vlib.run_tlc(module, cfg, env=dict(TRACE=path))
    finally:
        if os.environ.get('KEEPTRACE'):
            os.rename(path, os.environ['KEEPTRACE'])
        else:
            os.unlink(path)
    rep.extra['exec_s'] = round(rep.extra.get('exec_s', 0) + t1 - t0, 1)
    rep.extra['tlc_s'] = round(rep.extra.get('tlc_s', 0) + time.time() - t1, 1)
    rep.add_tlc(r)
    verdicts = {v['sess']: v for v in r['lines'] if v.get('tag') in ('DONE', 'DIVERGE')}
    if not r['ok'] or len(verdicts) != len(sess):
        raise vlib.TlcError('%d verdicts of %d\n%s' % (len(verdicts), len(sess), r['text'][-4000:]))
    rep.traces += len(sess)
    for s in sess:
        v = verdicts[s['id']]
        if v['tag'] == 'DONE':
            if len(rep.samples) < 5 and hash(s['id']) % 7 == 0 or len(rep.samples) < 1:
                rep.sample(dict(session=s['id'], algebra=[c if isinstance(c, str) else c.id for c in bysid[s['id']]['algs']],
                                steps=[step_text(x) for x in bysid[s['id']]['steps'][:8]]))
            continue
        src = bysid[s['id']]
        ln = s['lines'][v['line'] - 1]
        st = src['steps'][v['line'] - 1] if v['line'] <= len(src['steps']) else dict(op='obs(final)', a=ln['a'])
        k = (key(src, st) if key else '%s/%s' % (s['id'], st['op']))
        algn = [c if isinstance(c, str) else c.id for c in src['algs']]
        rep.violation(k, 'algebra %s step %d: %s status %s observed %s expected %s'
                      % (','.join(algn), v['line'], step_text(st), ln['st'], short(ln.get('text') or ln['obs']), short(v['want'])),
                      dict(session=strip(src), failing_step=v['line'], step=step_text(st), status=ln['st'],
                           observed=ln.get('text') or ln['obs'], expected=v['want'], modulus=m,
                           value=[str(x) for x in [src.get('info', '')]]))


def strip(s):
    return dict(id=s['id'], algs=[c if isinstance(c, str) else c.id for c in s['algs']],
                steps=[step_text(x) for x in s['steps']])


def step_text(st):
    return ' '.join('%s=%s' % (k, v) for k, v in st.items() if k not in ('f',))


def short(x):
    t = json.dumps(x)
    return t if len(t) < 160 else t[:157] + '...'
