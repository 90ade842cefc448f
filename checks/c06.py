import sympy
import alg, gens, vlib
from alg import CFGS, ex
from gens import Sess
from itertools import combinations
from math import comb

CATS = ['scalar', 'vector', 'bivector', 'pseudo', 'mv', 'even', 'spinor', 'odd', 'grade2', 'grade', 'int']


def scripts(cid):
    c = CFGS[cid]
    return c.coords.split() if c.coords else [str(i + 1) for i in range(c.n)]


def named(cid, name, cat, k, fn):
    """the coefficients a named multivector must have: one distinct symbol per blade of the wanted grades"""
    c = CFGS[cid]
    sc = scripts(cid)
    gr = {'scalar': [0], 'vector': [1], 'bivector': [2], 'grade2': [2], 'pseudo': [c.n], 'mv': range(c.n + 1),
          'even': range(0, c.n + 1, 2), 'spinor': range(0, c.n + 1, 2), 'odd': range(1, c.n + 1, 2),
          'grade': [k], 'int': [k]}[cat]
    out = {}
    for g in gr:
        for m in gens.masks_of(c.n, g):
            nm = name + ('__' + ''.join(sc[i] for i in range(c.n) if m >> i & 1) if m else '')
            if fn == '':
                out[m] = sympy.Symbol(nm, real=True)
            else:
                vs = (c.coords if fn == 'coords' else fn).split()
                out[m] = sympy.Function(nm, real=True)(*[alg.SYM[v] for v in vs])
    return out


def run(rep):
    deep = vlib.TIER == 'thorough'
    gens.clifford_laws(rep)
    ss = []
    ids = gens.IDS3 + gens.IDS4 + ['d5', 'e5']
    for cid in ids:
        r = vlib.rng('C06', 'mk', cid)
        n = CFGS[cid].n
        s = Sess('C06/make/%s' % cid, cid)
        last = None
        for cat in CATS:
            if n == 1 and cat in ('bivector', 'grade2'):
                continue
            for fn in ([''] + (['coords'] if CFGS[cid].coords else []) + ['s t']):
                k = r.randrange(n + 1)
                want = named(cid, 'A', cat, k, fn)
                keep = fn == '' and cat in ('vector', 'mv', 'odd', 'even') and n < 5
                q = s.op('named', s=cat, name='A', k=k, fn=fn, want=want, keep=keep)
                if keep:
                    s.op('grades', q)
                    s.op('canon', q)
                    s.op('puregrade', q)
        s.op('named', s='vector', name='A B', k=0, sel=1, want=named(cid, 'B', 'vector', 0, ''))
        s.op('named', s='mv odd', name='A B', k=0, sel=0, want=named(cid, 'A', 'mv', 0, ''))
        s.op('named', s='mv odd', name='A B', k=0, sel=1, want=named(cid, 'B', 'odd', 0, ''))
        for g in range(n + 1):
            for ln in sorted({1, comb(n, g), r.randint(1, comb(n, g))}):
                for v in range(3):
                    s.op('fromlist', k=g, list=[gens.coef(r, 'mix') for _ in range(ln)], var=v)
            if g:
                s.op('toomany', k=g)
        ss.append(s.d)
    for cid in gens.ALL:
        for t in range(14 if deep else 3):
            r = vlib.rng('C06', cid, t)
            ss.append(rand(cid, t, r))
    alg.check_sessions(rep, gens.with_floats(ss))


def rand(cid, t, r):
    c = CFGS[cid]
    n = c.n
    small = cid in gens.HEAVY + ('obc',)
    k = 'int' if small else r.choice(['mix', 'sym', 'deep'])
    s = Sess('C06/rand/%s/%d' % (cid, t), cid)
    co = gens.mv(r, n, 'sparse' if small else r.choice(['full', 'sparse', 'homog', 'vector', 'blade']), k)
    A = s.new(co, var=r.choice([0, 1, 2]))
    B = gens.rmv(s, r, cid, rep='')
    U = s.op('wedge_as', A, c='a+1', keep=True)           # stays unexpanded
    D = s.op('sub', A, B, keep=True)
    P = s.op('mul', A, B, keep=True)

    def read(R):
        s.op('canon', R)
        s.op('complist', R)
        s.op('components', R)
        ms = r.sample(range(1 << n), min(4, 1 << n))
        s.op('coefsof', R, masks=ms)
        s.op('proj', R, masks=ms)
        s.op('listvec', R)
        g = r.randrange(n + 1)
        s.op('canongrade', R, k=g, var=r.randrange(2))
        s.op('grade', R, k=g, var=r.randrange(4))

    for R in (A, U, D, P):
        read(R)
    for R in (A, U, D) + (() if small else (P,)):
        for i in ('simplify', 'expand', 'trigsimp', 'func', 'collect', 'collectd', 'copy', 'factor'):
            s.op('ident', R, s=i)
    F = s.op('ident', D, s='collect', keep=True)
    read(F)
    ec = {m: ex(v) for m, v in co.items()}
    mp = {'a': r.choice(['2', 'c+1', 'b*c', 'd']), 'b': r.choice(['-1', 'd/2', 'd+3'])}
    rp = {alg.SYM[x]: ex(y) for x, y in mp.items()}
    s.op('given', A, s='subs', map=mp, want={m: v.subs(rp) for m, v in ec.items()})
    S_ = s.op('given', A, s='subs2', map={'a': mp['a']},
              want={m: v.subs(alg.SYM['a'], ex(mp['a'])) for m, v in ec.items()}, keep=True)
    read(S_)
    s.op('given', A, s='func', want={m: (3 * v - 1 if v != 0 else v) for m, v in ec.items()})
    s.op('given', A, s='modes', want={m: 2 * v + 1 for m, v in ec.items()})
    if not c.coords:
        s.op('given', A, s='diff', map='a', want={m: v.diff(alg.SYM['a']) for m, v in ec.items()})
    # coefficient assignment in between queries: later answers concern the new value
    num = all(e.is_number for row in c.G for e in row)
    V = s.new(gens.mv(r, n, 'blade', 'int'))
    preds = ['iszero', 'isscalar', 'isvector', 'puregrade', 'isbase'] + (['isblade', 'isversor'] if num and n < 5 else [])
    for _ in range(3):
        for p in r.sample(preds, len(preds)):
            s.op(p, V)
        if r.random() < .5:
            s.op('eq', V, A)
        s.op('setcoef', V, k=r.randrange(1 << n), c=r.choice(['1', '-2', '3', '0', '1/2']), dst=V)
        s.op('obs', V)
        for p in r.sample(preds, len(preds)):
            s.op(p, V)
        read(V)
    if cid in gens.OBL and n > 1:     # coefficients of ordered products; the highest stays, so that the representation is kept
        top = (1 << n) - 1
        W = s.new({**gens.mv(r, n, 'sparse', 'int'), top: r.choice(['1', '-2'])}, rep='base')
        for _ in range(3):
            s.op('setcoefb', W, k=r.randrange(top), c=r.choice(['1', '-2', '3', '0', '1/2']), dst=W)
            s.op('obs', W)
            s.op(r.choice(['canon', 'grades', 'puregrade']), W)
            s.op('ident', W, s='blade_rep')
    # the same by successive assignments from zero
    Z = s.new({})
    for m, v in co.items():
        s.op('setcoef', Z, k=m, c=v, dst=Z)
    read(Z)
    return s.d
