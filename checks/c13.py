import alg, calc, gens, vlib
from calc import CH
from gens import Sess

COEF = ['{0}', '{1}', '{0}*{1}', '{0}**2', '{1}**2-{0}', '3', '-2*{0}', 'a*{1}', '{0}+2', '{0}**2*{1}']
RICH = COEF + ['sin({0})', 'cos({1})*{0}', '1/{0}', 'f3({0},{1})', 'f4({1})*{0}', 'exp({0})']


def fcoef(r, ch, rich=True):
    xs = list(ch.coords)
    if len(xs) == 1:
        xs = xs * 2
    r.shuffle(xs)
    return r.choice(RICH if rich else COEF).format(*xs)


def field(s, r, cid, shape=None, rich=True, **kw):
    ch = CH[cid]
    m = gens.mv(r, ch.n, shape or r.choice(['vector', 'sparse', 'homog', 'full' if ch.n < 3 else 'sparse', 'blade']), 'int')
    rep = kw.pop('rep', r.choice(['', '', 'base']))
    return s.new({k: fcoef(r, ch, rich) for k in list(m)[:6]}, rep=rep, **kw)


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Calculus', 'MC_Calculus_%s.cfg' % ('t' if deep else 'q')))
    ss = []
    for cid, ch in CH.items():
        ss.append(conn(cid))
        k = (6 if ch.heavy < 3 else 2) if deep else (2 if ch.heavy < 2 else 1)
        for t in range(k):
            ss.append(fields(cid, t))
            ss.append(chain(cid, t))
        ss.append(curve(cid, 0))
        if deep and ch.heavy < 3:
            ss.append(curve(cid, 1))
    calc.check(rep, ss, lim=30)


def conn(cid):
    ch = CH[cid]
    r = vlib.rng('C13c', cid)
    s = Sess('C13/conn/%s' % cid, cid)
    if not ch.const:
        s.op('de')
        if not ch.normed:
            s.op('christ', k=1)
            s.op('christ', k=2)
        bl = [(m, k) for m in range(1 << ch.n) for k in range(1, ch.n + 1)]
        r.shuffle(bl)
        for m, k in bl[:30]:
            s.op('bder', b=m, k=k, var=r.randrange(2))
    else:
        x = field(s, r, cid)
        for k in range(1, ch.n + 1):
            s.op('diff', x, k=k)
    return s.d


def fields(cid, t):
    ch = CH[cid]
    r = vlib.rng('C13f', cid, t)
    s = Sess('C13/fields/%s/%d' % (cid, t), cid)
    F = [field(s, r, cid, rich=ch.heavy < 3) for _ in range(3)]
    for x in F:
        for k in range(1, ch.n + 1):
            s.op('diff', x, k=k, var=r.randrange(3))
    # product rule: derivatives of products and sums
    ops = r.sample(['*', '^', '|', '<', '>'], 2)
    for o in ops:
        p = s.op('prod', F[0], F[1], s=o, keep=True)
        s.op('diff', p, k=r.randrange(1, ch.n + 1), var=r.randrange(2))
    q = s.op(r.choice(['add', 'sub']), F[1], F[2], keep=True)
    s.op('diff', q, k=r.randrange(1, ch.n + 1))
    return s.d


def chain(cid, t):
    """derivatives of derivatives, repeated orders, and order of differentiation in flat space"""
    ch = CH[cid]
    r = vlib.rng('C13h', cid, t)
    s = Sess('C13/chain/%s/%d' % (cid, t), cid)
    F = field(s, r, cid, shape='sparse' if ch.n < 3 else 'vector', rich=False, rep=r.choice(['', 'base']))
    i, j = [r.randrange(1, ch.n + 1) for _ in range(2)]
    if i > j:
        i, j = j, i
    A = s.op('diff', F, k=i, keep=True)
    B = s.op('diff', A, k=j, keep=True)
    o = [0] * ch.n
    o[i - 1] += 1
    o[j - 1] += 1
    C = s.op('mdiff', F, orders=o, keep=True)
    s.op('same', C, B)
    if ch.flat:
        D = s.op('diff', F, k=j, keep=True)
        E = s.op('diff', D, k=i, keep=True)
        s.op('same', E, B)
    if ch.heavy < 2 and ch.n < 4:                       # higher orders, one derivative at a time
        o = [0] * ch.n
        for _ in range(r.choice([3, 3, 4]) if ch.n < 3 else 3):
            o[r.choice([0, r.randrange(ch.n)])] += 1
        if t % 2 == 0:
            o = [0] * (ch.n - 1) + [sum(o)]
        G = s.new({k: '{0}**4*a+{1}**3*{0}**3'.format(ch.coords[-1], ch.coords[0]) for k in (0, 1)}) if t % 2 == 0 else F
        H = s.op('mdiff', G, orders=o, keep=True)
        for k in range(ch.n):
            for _ in range(o[k]):
                G = s.op('diff', G, k=k + 1, keep=True)
        s.op('same', H, G)
    return s.d


CURVE = ['a', 'a**2', 'cos(a)', '3', 'b*a', '0', '2-a', 'exp(a)*b', 'a**3+c']


def curve(cid, t):
    """derivatives along curves: before a curve is set, along it, and after another one is set"""
    ch = CH[cid]
    r = vlib.rng('C13p', cid, t)
    s = Sess('C13/curve/%s/%d' % (cid, t), cid)
    F = [field(s, r, cid, shape=sh, rich=ch.heavy < 3, rep=rp) for sh, rp in (('sparse', ''), (None, r.choice(['', 'base'])))]
    G = s.op('prod', F[0], F[1], s=r.choice(['*', '^', '|']), keep=True) if ch.heavy < 2 else F[1]
    s.op('tdiff', F[0], u=['0'] * ch.n)
    for rnd in range(2):
        u = [r.choice(CURVE) for _ in range(ch.n)]
        u[r.randrange(ch.n)] = r.choice(CURVE[:3])
        s.op('noise', F[0], f=lambda env, g, A, u=u: g.parametric([alg.ex(e) for e in u]))
        x = s.op('tdiff', F[rnd], u=u, keep=True)
        s.op('tdiff', G if rnd else x, u=u)
        s.op('diff', F[1 - rnd], k=r.randrange(1, ch.n + 1))
    return s.d
