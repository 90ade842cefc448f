"""Combinations of objects of several live algebras: sessions on the real code and their traces (MixTrace.tla)."""
import operator

from sympy import S, Symbol

import vlib
import alg

X = [Symbol(n, real=True) for n in ('x', 'y', 'z')]
U = [Symbol(n, real=True) for n in ('u', 'v')]
MV = ['zero', 'scalar', 'vector', 'bivector', 'mixed', 'field', 'base', 'blade', 'product', 'inverse', 'dual', 'lt_image']
OPR = ['grad', 'rgrad', 'dop', 'ldop', 'dopsum']
LT = ['lt', 'ltsym', 'ltprod']
ML = ['mlt', 'mltfun', 'mltprod']
INFIX = {'+': operator.add, '-': operator.sub, '*': operator.mul, '^': operator.xor, '|': operator.or_, '<': operator.lt,
         '>': operator.gt, '<<': operator.lshift, '>>': operator.rshift, '/': operator.truediv}
NAMES = ['euclid', 'twin', 'oblique', 'surface', 'surface twin', 'curved']


def algebras():
    """live algebras: an algebra, one just like it, one with the same names and another metric, submanifolds, ..."""
    from galgebra.ga import Ga
    from sympy import sin, cos
    a = Ga('e_x e_y e_z', g=[1, 1, 1], coords=X)
    b = Ga('e_x e_y e_z', g=[1, 1, 1], coords=X)
    c = Ga('e_x e_y e_z', g='1 1 0,1 3 0,0 0 -1', coords=X)
    m = [cos(U[0]) * U[1], sin(U[0]) * U[1], U[1]]
    d = a.sm(m, U)
    e = a.sm(m, U)
    f = Ga('e_x e_y e_z', g=[1, X[0] ** 2, 2], coords=X)
    return [a, b, c, d, e, f]


def make(g, kind):
    from galgebra import mv, dop, lt
    e = g.mv()
    v, w = e[0] + 2 * e[1], e[0] - 3 * e[1]
    x, y = g.coords[0], g.coords[1]
    return {
        'zero': lambda: g.mv(0), 'scalar': lambda: g.mv(S(3)), 'vector': lambda: v, 'bivector': lambda: v ^ e[1],
        'mixed': lambda: 2 + v + 3 * (e[0] ^ e[1]), 'field': lambda: x * e[0] + y ** 2, 'base': lambda: (1 + v * w).base_rep(),
        'blade': lambda: e[0] ^ e[1], 'product': lambda: v * w, 'inverse': lambda: v.inv(),
        'dual': lambda: v.dual(), 'lt_image': lambda: make(g, 'lt')(v),
        'grad': lambda: g.grad, 'rgrad': lambda: g.rgrad,
        'dop': lambda: g.dop([(v, dop.Pdop({x: 1})), (g.mv(y), dop.Pdop({}))]),
        'ldop': lambda: mv.Dop([(w, dop.Pdop({y: 1})), (v, dop.Pdop({}))], ga=g, cmpflg=True),
        'dopsum': lambda: g.grad + g.mv(2),
        'lt': lambda: g.lt([v] + [w] + list(e[2:])), 'ltsym': lambda: g.lt('f'), 'ltprod': lambda: make(g, 'lt') * make(g, 'lt'),
        'mlt': lambda: lt.Mlt('T', g, nargs=2), 'mltfun': lambda: lt.Mlt(lambda a_1, a_2: (a_1 | a_2) * v, g),
        'mltprod': lambda: lt.Mlt('T', g, nargs=1) * lt.Mlt('R', g, nargs=1),
    }[kind]()


def combine(op, a, b):
    from galgebra import mv
    from galgebra.ga import Ga
    if op in INFIX:
        return INFIX[op](a, b)
    return {
        '==': lambda: a == b, 'sp': lambda: a.sp(b), 'spf': lambda: mv.sp(a, b), 'com': lambda: Ga.com(a, b),
        'MvMul': lambda: mv.Mv.Mul(a, b, '*'), 'DopMul': lambda: mv.Dop.Mul(a, b, op='*'), 'DopAdd': lambda: mv.Dop.Add(a, b),
        'reflect': lambda: a.reflect_in_blade(b), 'refl': lambda: mv.refl(a, b), 'project': lambda: a.project_in_blade(b),
        'proj': lambda: mv.proj(a, b), 'projlist': lambda: a.proj([b]), 'coefs': lambda: a.blade_coefs([b]),
        'rotate': lambda: a.rotate_multivector(b), 'rot': lambda: mv.rot(b, a), 'cross': lambda: mv.cross(a, b), 'compare': lambda: mv.compare(a, b),
        'frame': lambda: a.Ga.ReciprocalFrame([a, b]), 'apply': lambda: a(b), 'apply2': lambda: a.nargs and a(a.Ga.mv()[0], b),
    }[op]()


def algebra_of(r, gas):
    """index of the algebra the result belongs to, 0: none, -1: something else"""
    if isinstance(r, (list, tuple)):
        s = {algebra_of(x, gas) for x in r}
        return s.pop() if len(s) == 1 else 0 if not s else -1
    g = getattr(r, 'Ga', None)
    if g is None:
        return 0
    # the coefficients of an operator belong to the same algebra
    for c, _ in getattr(r, 'terms', ()):
        if getattr(c, 'Ga', g) is not g:
            return -1
    fv = getattr(r, 'fvalue', None)
    if getattr(fv, 'Ga', g) is not g:
        return -1
    return next((i + 1 for i, h in enumerate(gas) if h is g), -1)


def kind_of(r):
    from galgebra import mv, lt
    return 'product' if isinstance(r, mv.Mv) else 'dopsum' if isinstance(r, mv.Dop) else \
        'ltprod' if isinstance(r, lt.Lt) else 'mltprod' if isinstance(r, lt.Mlt) else ''


def trace(sess, seed, lim):
    from galgebra.ga import Ga
    Ga.dual_mode('I+')
    with vlib.time_limit(lim):
        gas = algebras()
    pool, lines = [], []
    skipped = 0
    for st in sess['steps']:
        op = st['op']
        ln = dict(op=op, al=st.get('al', 0), a=st.get('a', 0), b=st.get('b', 0), s=st.get('s', ''), st='ok', obs=[], dst=0)
        try:
            with vlib.time_limit(20 if op == 'make' else st.get('lim', 5)):
                if op == 'make':
                    r = make(gas[st['al'] - 1], st['s'])
                    pool.append(r)
                    ln['obs'] = [algebra_of(r, gas)]
                elif op == 'algeq':
                    p, q = gas[st['a'] - 1], gas[st['b'] - 1]
                    ln['obs'] = [1 if (p == q) is True and (p != q) is False and hash(p) == hash(q) else
                                 0 if (p == q) is False and (p != q) is True else 2]
                else:
                    a, b = ((st.get('a', 0) - 1) % len(pool), (st.get('b', 0) - 1) % len(pool))
                    ln['a'], ln['b'] = a + 1, b + 1
                    r = combine(op, pool[a], pool[b])
                    ln['obs'] = [algebra_of(r, gas)]
                    ln['s'] = kind_of(r)
                    if st.get('keep') and ln['s'] and len(pool) < 40:
                        ln['dst'] = 1
                        pool.append(r)
        except vlib.Timeout:
            ln['st'] = 'skip'
            skipped += 1
            if op == 'make':
                break
        except Exception as e:
            ln['st'] = 'exc'
            if op == 'make':
                lines.append(ln)
                break
        lines.append(ln)
    return dict(lines=lines, algs=[], skipped=skipped)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='MixTrace', cfg='MixTrace.cfg', tracer=trace, **kw)
