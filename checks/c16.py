import alg
import calc
import gens
import lin
import vlib
from alg import CFGS
from gens import Sess

CHARTS = ['cart2', 'cart3', 'mink', 'mink3', 'st4', 'affine2', 'affine3', 'symb2', 'diag2', 'polar', 'polarn', 'sphn', 'sph',
          'shear', 'null', 'null3', 'rindlern', 'hypn', 'func', 'frw']
CFG_IDS = ['p2', 'p3', 'm2', 'm3', 'e4', 's22', 'o2', 'o2n', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'o4', 'o4c', 'rat3', 'sd3', 'y2', 'y3p', 'd5']
DEG = ['pga2', 'nul2', 'o2d', 'dgm3', 'pga3']
HOWS = ['matrix', 'immutable', 'lists', 'mvlist', 'dict', 'dictx', 'dictmv', 'partial', 'func', 'funcb']


def n_of(c):
    return lin.cfg(c).n


def heavy(c):
    return c in ('sph', 'func', 'y3p', 'sd3', 'y2', 'symb2', 'gsy2', 'shear', 'o4', 'st4', 'e4', 's22', 'o4c', 'pga3', 'd5')


def coords(c):
    c = lin.cfg(c)
    return c.coords if isinstance(c, calc.Chart) else (c.coords or '').split()


def entry(r, c, kind):
    if kind == 'int':
        return r.choice(['0', '1', '-1', '2', '3', '-2'])
    if kind == 'fld' and coords(c):
        x = coords(c)
        return r.choice(['0', '1', r.choice(x), r.choice(x) + '**2', 'a*' + r.choice(x), r.choice(x) + '+2', '-1'])
    return r.choice(['0', '1', '-1/2', 'a', 'b', '2*c', 'a+b', 'a*b', '3'])


def mat(r, c, kind, shape='full'):
    n = n_of(c)
    X = [[entry(r, c, kind) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if shape == 'diag' and i != j or shape == 'upper' and i > j or shape == 'sparse' and (i + j) % 2:
                X[i][j] = '0'
    if shape == 'sing':
        k = r.randrange(n)
        for i in range(n):
            X[i][k] = '0' if n == 1 or r.random() < .2 else '2*(%s)' % X[i][(k + 1) % n]
        if n > 1 and r.random() < .5:
            for i in range(n):
                X[i][k] = '0'
    if shape == 'perm':
        p = list(range(n))
        r.shuffle(p)
        X = [[('1' if p[i] == j else '0') for j in range(n)] for i in range(n)]
    return X


def newl(s, r, c, kind=None, shape='full', how=None):
    how = how or r.choice(HOWS)
    kind = kind or ('int' if heavy(c) else r.choice(['int', 'sym', 'fld']))
    st = dict(mat=mat(r, c, kind, shape), how=how, ctor=r.randrange(2), var=r.randrange(2))
    if how == 'dict':
        st['order'] = r.sample(range(n_of(c)), n_of(c))
    return s.op('newl', keep=True, **st)


def fld(s, r, c, rep=None):
    n = n_of(c)
    k = 'int' if heavy(c) else r.choice(['int', 'sym'])
    cf = {str(m): str(e) for m, e in gens.mv(r, n, r.choice(['blade', 'vector', 'sparse', 'homog', 'full'] if n < 4 else ['blade', 'sparse']), k).items()}
    return s.op('newf', keep=True, coef=cf, rep=r.choice(['', '', 'base']) if rep is None else rep)


def nonnull(r, c, k):
    """integer vectors whose squares do not vanish (identically)"""
    C = lin.cfg(c)
    G = lin.metric(C)
    import sympy
    out = []
    for _ in range(60):
        v = [r.choice([0, 1, -1, 2]) for _ in range(C.n)]
        q = sympy.simplify(sum(v[i] * v[j] * G[i][j] for i in range(C.n) for j in range(C.n)))
        if q != 0:
            out.append({str(1 << i): str(x) for i, x in enumerate(v) if x})
        if len(out) == k:
            break
    return out


def ctor(cid, deep):
    """every constructor on the same matrix, then on others"""
    r = vlib.rng('C16c', cid)
    out = []
    for t in range(4 if deep else 1):
        s = Sess('C16/ctor/%s/%d' % (cid, t), cid)
        X = mat(r, cid, 'int' if heavy(cid) else r.choice(['sym', 'fld']), r.choice(['full', 'sparse']))
        for how in HOWS:
            a = s.op('newl', keep=True, mat=X, how=how, ctor=r.randrange(2), var=r.randrange(2))
        F = fld(s, r, cid, '')
        s.op('appl', a, F)
        for sh in ('diag', 'perm', 'upper'):
            newl(s, r, cid, shape=sh)
        out.append(s.d)
    return out


def action(cid, t):
    r = vlib.rng('C16a', cid, t)
    n = n_of(cid)
    s = Sess('C16/action/%s/%d' % (cid, t), cid)
    A = newl(s, r, cid, shape=r.choice(['full', 'full', 'sparse', 'upper', 'sing']))
    if n < 4:
        for m in range(1 << n):
            b = s.op('newf', keep=True, coef={str(m): '1'}, rep=r.choice(['', 'base']))
            s.op('appl', A, b, var=r.choice([0, 1, 2]))
    for _ in range(3):
        s.op('appl', A, fld(s, r, cid), var=r.choice([0, 0, 1, 2]))
    z = s.op('newf', keep=True, coef={'0': r.choice(['5', 'a', 'a*b'])}, rep='')
    s.op('appl', A, z, var=3)
    return s.d


def algebra(cid, t):
    r = vlib.rng('C16g', cid, t)
    s = Sess('C16/algebra/%s/%d' % (cid, t), cid)
    h = heavy(cid)
    A, B = newl(s, r, cid), newl(s, r, cid, shape=r.choice(['full', 'sparse', 'sing', 'perm']))
    c = r.choice(['2', '-1', '1/3', 'a', 'b+1'] + ([coords(cid)[0]] if coords(cid) else []))
    C = s.op('ladd', A, B, keep=True)
    D = s.op('lsub', A, B, keep=True)
    M = s.op('lmul', A, B, keep=True)
    N = s.op('lmul', B, A, keep=True)
    K = s.op('lscale', A, c=c, keep=True, var=r.randrange(2))
    pool = [A, B, C, D, M, N, K]
    if not h:
        pool.append(s.op('lmul', r.choice(pool), r.choice(pool), keep=True))
        pool.append(s.op('lsub', r.choice(pool), r.choice(pool), keep=True))
    for x in r.sample(pool, 4):
        s.op('det', x, var=r.randrange(2))
        s.op('tr', x)
    for x in r.sample(pool, 2):
        s.op('sing', x)
    s.op('appl', M, fld(s, r, cid))
    for w in r.sample(['matrix', 'dict', 'func', 'lt', 'plus0', 'id', 'idl'], 4):
        s.op('same', r.choice(pool), s=w)
    s.op('lsub', A, A)
    return s.d


def adjoint(cid, t):
    r = vlib.rng('C16j', cid, t)
    s = Sess('C16/adj/%s/%d' % (cid, t), cid)
    A = newl(s, r, cid, kind='int' if t % 2 or heavy(cid) else None)
    B = newl(s, r, cid, kind='int')
    a = s.op('ladj', A, keep=True)
    b = s.op('ladj', B, keep=True)
    m = s.op('lmul', A, B, keep=True)
    s.op('ladj', m)
    s.op('lmul', b, a)
    if not heavy(cid):
        s.op('same', B, s='adjadj')
        s.op('appl', a, fld(s, r, cid))
    s.op('tr', a)
    s.op('det', b)
    s.op('ladd', a, A)
    return s.d


def inverse(cid, t, deg=False):
    r = vlib.rng('C16i', cid, t)
    s = Sess('C16/inv/%s/%d' % (cid, t), cid)
    for sh in ['full', 'upper', 'sing', 'perm', 'diag']:
        A = newl(s, r, cid, kind='int' if t % 2 or heavy(cid) else 'sym', shape=sh)
        s.op('sing', A)
        s.op('det', A)
        s.op('tr', A)
        s.op('linv', A)
    A = newl(s, r, cid, kind='int', shape='perm')
    i = s.op('linv', A, keep=True)
    s.op('lmul', A, i)
    s.op('same', A, s='invinv')
    s.op('appl', i, fld(s, r, cid))
    return s.d


def symbolic(cid):
    s = Sess('C16/sym/%s' % cid, cid)
    r = vlib.rng('C16s', cid)
    for md in 'gsa':
        for f in (0, 1):
            A = s.op('sym', s=md, k=f, name='A' if not f else 'B', keep=True, var=r.randrange(2))
            if n_of(cid) < 3 and not heavy(cid):
                s.op('tr', A)
                s.op('det', A)
                b = s.op('newf', keep=True, coef={'3': '1', '1': '2'}, rep='')
                s.op('appl', A, b)
                if md != 'g' and not f:
                    s.op('ladj', A)
    return s.d


def functions(cid, t):
    r = vlib.rng('C16f', cid, t)
    n = n_of(cid)
    s = Sess('C16/func/%s/%d' % (cid, t), cid)

    def v(rep=None):
        return s.op('newf', keep=True, coef={str(k): str(e) for k, e in gens.vec(r, n).items()}, rep=rep if rep is not None else r.choice(['', 'base']))
    u, w = v(), v()
    L = s.op('lfun', u, w, s='dyad', c=r.choice(['0', '1', '-2', 'a']), keep=True)
    s.op('tr', L)
    s.op('det', L)
    K = s.op('lfun', u, s='sand', keep=True)
    s.op('lfun', s='scal', c=r.choice(['0', '1', '-3', 'a']))
    if n > 1:
        bv = {str(m): r.choice(['1', '2', '-1']) for m in range(1 << n) if gens.grade(m) == 2}
        B = s.op('newf', keep=True, coef=bv, rep='')
        Z = s.op('lfun', B, s='contr', keep=True)
        s.op('tr', Z)
        s.op('appl', Z, B)
        s.op('lmul', K, Z)
    s.op('lmul', L, K)
    # functions which are not linear, or do not return vectors
    s.op('raise', u, f=lambda env, g, A, B: g.lt(lambda x: x + A))
    if cid != 'nul2':
        s.op('raise', u, f=lambda env, g, A, B: g.lt(lambda x: (x | x) * x))
        s.op('raise', u, f=lambda env, g, A, B: g.lt(lambda x: (x | x) * A))
    s.op('raise', u, f=lambda env, g, A, B: g.lt(lambda x: x + g.mv(1)))
    if n > 1:
        s.op('raise', u, f=lambda env, g, A, B: g.lt(lambda x: x ^ g.mv()[0]))
    s.op('raise', u, f=lambda env, g, A, B: g.lt(5))
    s.op('raise', u, f=lambda env, g, A, B: g.lt(__import__('sympy').zeros(g.n + 1, g.n + 1)))
    return s.d


def versors(cid, t):
    r = vlib.rng('C16v', cid, t)
    n = n_of(cid)
    vs = nonnull(r, cid, 2)
    s = Sess('C16/versor/%s/%d' % (cid, t), cid)
    regs = [s.op('newf', keep=True, coef=v, rep='') for v in vs]
    if not regs:
        return s.d
    L1 = s.op('versor', regs[0], keep=True)
    s.op('det', L1)
    s.op('tr', L1)
    s.op('sing', L1)
    s.op('lmul', L1, L1)
    A = newl(s, r, cid, kind='int')
    s.op('ladd', L1, A)
    s.op('lsub', A, L1)
    s.op('lmul', A, L1)
    s.op('lscale', L1, c='3', var=t % 2)
    s.op('appl', L1, fld(s, r, cid))
    s.op('linv', L1)
    if len(regs) > 1:
        # product of the two vectors: an even versor, given by its coefficients through the code's own product
        V = s.op('vprod', regs[0], regs[1], keep=True)
        L2 = s.op('versor', V, keep=True)
        s.op('det', L2)
        s.op('appl', L2, fld(s, r, cid))
        s.op('lmul', L1, L2)
        if not heavy(cid) and cid not in DEG:
            s.op('ladj', L2)
    s.op('raise', regs[0], f=lambda env, g, A, B: g.lt(A + 1))
    return s.d


def mixed(a, b):
    s = Sess('C16/mixed/%s-%s' % (a, b), a, b)
    r = vlib.rng('C16m', a, b)
    A = s.op('newl', keep=True, mat=mat(r, a, 'int'), how='matrix', al=1)
    B = s.op('newl', keep=True, mat=mat(r, b, 'int'), how='matrix', al=2)
    F = s.op('newf', keep=True, coef={'1': '1'}, rep='', al=2)
    for f in (lambda env, g, x, y: x + y, lambda env, g, x, y: x - y, lambda env, g, x, y: x * y, lambda env, g, x, y: y + x):
        s.op('raise', A, B, f=f)
    s.op('raise', A, F, f=lambda env, g, x, y: x(y))
    return s.d


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Linear', 'MC_Linear_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid in CHARTS + CFG_IDS + DEG:
        deg = cid in DEG
        ss += ctor(cid, deep)
        for t in range(6 if deep else 1):
            ss.append(action(cid, t))
            ss.append(algebra(cid, t))
            if not deg:
                ss.append(adjoint(cid, t))
            ss.append(inverse(cid, t))
            ss.append(functions(cid, t))
            ss.append(versors(cid, t))
        if coords(cid) and cid not in ('func', 'st4', 'sph'):
            ss.append(symbolic(cid))
    ss += [mixed('cart2', 'polar'), mixed('p3', 'o3'), mixed('p2', 'cart2'), mixed('o2', 'o2n')]
    lin.check(rep, ss, lim=40)
