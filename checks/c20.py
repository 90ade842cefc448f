"""C20: objects of different algebras are never combined; equality is value equality; equal values hash alike."""
import gens
import mix
import vlib
from alg import CFGS
from gens import Sess
from mix import MV, OPR, LT, ML, INFIX


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_Mixing', 'MC_Mixing_q.cfg', timeout=800)
    rep.add_tlc(r)
    pairs = [v for v in r['lines'] if v.get('tag') == 'PAIR']
    if deep:
        rep.add_tlc(vlib.model_check('MC_Mixing', 'MC_Mixing_t.cfg', timeout=800))
    mix.check(rep, table(pairs, deep) + [history(t) for t in range(160 if deep else 24)] + [identity()], lim=60 if deep else 30)
    ids = gens.IDS3 + (gens.IDS4 if deep else [])
    import alg
    alg.check_sessions(rep, [equality(c, t) for c in ids for t in range(4 if deep else 1)]
                       + [ratios(c, t) for c in ids if c not in HARD for t in range(3 if deep else 1)]
                       + [forms(c, t) for c in ids for t in range(3 if deep else 1)])


HARD = ()
RELS = [(1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (4, 5), (1, 6), (6, 3), (5, 4), (3, 4)]


def table(pairs, deep):
    """every pair of kinds and every operation of the model, for several pairs of algebras"""
    out = []
    by = {}
    for p in pairs:
        by.setdefault((p['x'][0], p['y'][0], p['must']), set()).update(p['ops'])
    rels = RELS if deep else [RELS[vlib.SEED % 2], (1, 3), (4, 5), (4, 1)]
    kinds = MV + OPR + LT + ML
    for a, b in rels:
        for k in kinds:
            steps = [dict(op='make', al=a, s=k)] + [dict(op='make', al=b, s=q) for q in kinds]
            for j, q in enumerate(kinds):
                for op in sorted(by[(k, q, True)]):
                    steps.append(dict(op=op, a=1, b=j + 2, lim=3))
            out.append(dict(id='mix/%d%d/%s' % (a, b, k), algs=[], steps=steps))
    # operations within one algebra stay in it
    for a in ([1, 3, 4, 6] if deep else [1]):
        for k in kinds:
            steps = [dict(op='make', al=a, s=k)] + [dict(op='make', al=a, s=q) for q in kinds]
            n = 0
            for j, q in enumerate(kinds):
                ops = sorted(by[(k, q, False)])
                r = vlib.rng('c20/%s/%s' % (k, q))
                for op in ops if deep else r.sample(ops, 3):
                    steps.append(dict(op=op, a=1, b=j + 2, lim=2))
            out.append(dict(id='in/%d/%s' % (a, k), algs=[], steps=steps))
    return out


def history(t):
    r = vlib.rng('c20h/%d' % t)
    algs = r.sample([1, 2, 3, 4, 5, 6], 3)
    steps = []
    for i in range(8):
        steps.append(dict(op='make', al=r.choice(algs), s=r.choice(MV if r.random() < .6 else OPR + LT + ML)))
    for i in range(30):
        op = r.choice(list(INFIX) + ['sp', 'com', 'reflect', 'project', 'projlist', 'coefs', 'rotate', 'frame', 'apply', 'apply',
                                     'apply2', 'DopMul', 'DopAdd', 'MvMul', 'cross'])
        steps.append(dict(op=op, a=r.randint(1, 100), b=r.randint(1, 100), keep=r.random() < .5, lim=2))
    return dict(id='hist/%d' % t, algs=[], steps=steps)


def identity():
    return dict(id='algebras', algs=[], steps=[dict(op='algeq', a=i, b=j) for i in range(1, 7) for j in range(1, 7)])


SAME = [('(a+b)**2', 'a**2+2*a*b+b**2'), ('sin(a)**2+cos(a)**2', '1'), ('a/(a*b)', '1/b'), ('(a**2-b**2)/(a-b)', 'a+b'),
        ('2*a', 'a+a'), ('1/3', '2/6'), ('a*(b-c)', 'a*b-a*c'), ('cos(2*a)', '1-2*sin(a)**2'), ('1/(1+a)-1/(1-a)', '-2*a/(1-a**2)'),
        ('0', 'a-a'), ('exp(a)*exp(b)', 'exp(a+b)'), ('-(a-b)', 'b-a')]
NEAR = [('(a+b)**2', 'a**2+a*b+b**2'), ('sin(a)**2-cos(a)**2', '1'), ('a/b', 'b/a'), ('a', '-a'), ('1/3', '333/1000'), ('a+b', 'a-b'),
        ('0', 'a'), ('sin(a)', 'sin(b)'), ('1', '-1'), ('a**2', 'a'), ('2', '2*a/b')]


def equality(cid, t):
    """pairs of equal and of unequal multivectors, in either representation, with rewritten coefficients"""
    r = vlib.rng('c20e/%s/%d' % (cid, t))
    n = CFGS[cid].n
    s = Sess('eq/%s/%d' % (cid, t), cid)
    for i in range(7):
        c = gens.mv(r, n)
        m = r.choice(list(c) + [r.randrange(1 << n)])
        d = dict(c)
        k = r.random()
        if k < .5:
            c[m], d[m] = r.choice(SAME)[::r.choice([1, -1])]
        elif k < .85:
            c[m], d[m] = r.choice(NEAR)[::r.choice([1, -1])]
        a = s.new(c, var=r.choice([0, 0, 1, 2]), **({'rep': 'base'} if r.random() < .25 else {}))
        b = s.new(d, var=r.choice([0, 0, 1, 2]), **({'rep': 'base'} if r.random() < .25 else {}))
        s.op('eq', a, b, var=r.choice([0, 1]))
        s.op('eq', b, a)
        if i % 2:
            s.op('eq', a, a)
        x = r.choice(['3', '0', 'a', '-1/2', '1'])
        s.op('eqs', a, c=x, var=r.choice([0, 1]))
    z = s.new({0: r.choice(['3', 'a', '-1/2', '0', '1', 'a'])})
    for x in ['3', 'a', '-1/2', '0', '1', 'a']:
        s.op('eqs', z, c=x, var=r.choice([0, 1]))
    return s.d


def ratios(cid, t):
    """multiples and almost multiples"""
    r = vlib.rng('c20r/%s/%d' % (cid, t))
    n = CFGS[cid].n
    s = Sess('ratio/%s/%d' % (cid, t), cid)
    z = s.new({})
    for i in range(4):
        c = gens.mv(r, n, r.choice(['sparse', 'full' if n < 4 else 'sparse', 'vector', 'blade', 'even']))
        f = [r.choice(['2', '-1', '1/3', 'a', 'a+b', '-3/2*b', 'a/b', '7']) for _ in range(3)]
        a = s.new(c, var=r.choice([0, 0, 1, 2]), rep=r.choice(['', '', 'base']))
        regs = [a, z]
        for x in f:
            d = {m: '(%s)*(%s)' % (x, v) for m, v in c.items()}
            if i % 2 and x == f[2]:
                m = r.choice(list(d) + [r.randrange(1 << n)])
                d[m] = '(%s)+1' % d.get(m, '0')
            regs.append(s.new(d, var=r.choice([0, 0, 1, 2]), rep=r.choice(['', '', 'base'])))
        for x in regs:
            for y in regs:
                if x != y or x == a:
                    s.op('ratio', x, y)
    return s.d


def forms(cid, t):
    """one value reached by different computations is equal to itself and hashes alike (numeric coefficients)"""
    r = vlib.rng('c20f/%s/%d' % (cid, t))
    n = CFGS[cid].n
    s = Sess('forms/%s/%d' % (cid, t), cid)
    num = not any(e.free_symbols for row in CFGS[cid].G for e in row)
    a, b, c = (s.new(gens.mv(r, n, kind='int')) for _ in range(3))
    p = s.op('add', a, b, keep=True)
    q = s.op('add', b, a, keep=True)
    p2 = s.op('add', p, c, keep=True)
    q1 = s.op('add', c, b, keep=True)
    q2 = s.op('add', q1, a, keep=True)
    u = s.op('ident', a, keep=True, s='base_rep')
    v = s.op('ident', u, keep=True, s='rr')
    w = s.op('neg', a, keep=True)
    w2 = s.op('neg', w, keep=True)
    m = s.op('mul', a, b, keep=True)
    ms = s.op('mul', a, c, keep=True)
    d1 = s.op('add', m, ms, keep=True)
    bc = s.op('add', b, c, keep=True)
    d2 = s.op('mul', a, bc, keep=True)
    pairs = [(p, q), (p2, q2), (a, u), (a, v), (a, w2), (a, w), (d1, d2), (p, p2), (m, d2), (a, b)]
    for x, y in pairs:
        s.op('eq', x, y)
    for x, y in pairs if num else pairs[:6]:
        s.op('hasheq', x, y)
    return s.d
