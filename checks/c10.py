import alg, gens, vlib
from alg import CFGS
from gens import Sess

IDS = ['p2', 'p3', 'm2', 'm3', 'n3', 'm4', 'm4b', 'e4', 's22', 'pga2', 'pga3', 'dgm3', 'rat3', 'o2', 'o2n', 'o2d', 'o3', 'o3n',
       'o3z', 'o2h', 'o3h', 'o4', 'o4c', 'q3', 'o3w', 'one', 'nul2', 'd5', 'e5', 'm6', 'e6']
PRED = [('isblade', 1), ('isversor', 1), ('isscalar', 1), ('isvector', 1), ('iszero', 1), ('isbase', 1), ('puregrade', 1)]


def preds(s, r, R, cid, rounds=2):
    """the predicates in a random order, with other queries in between, twice"""
    todo = [p for p, _ in PRED if not (p == 'isversor' and cid == 'nul2')] * rounds
    r.shuffle(todo)
    n = CFGS[cid].n
    for i, p in enumerate(todo):
        s.op(p, R)
        if i % 5 == 3:
            q = r.choice(['rev', 'grades', 'even', 'obs', 'mul', 'canon', 'gradesum', 'ginvol'])
            s.op(q, R, R if q == 'mul' else 0)


def run(rep):
    deep = vlib.TIER == 'thorough'
    rep.add_tlc(vlib.model_check('MC_Versor', 'MC_Versor_t.cfg'))
    ss = []
    for cid in IDS:
        n = CFGS[cid].n
        for t in range(14 if deep else 3):
            r = vlib.rng('C10', cid, t)
            s = Sess('C10/%s/%d' % (cid, t), cid)
            v = [s.new(gens.vec(r, n), rep=r.choice(['', 'base'])) for _ in range(3)]
            regs = list(v)
            regs.append(s.op('wedge', v[0], v[1], keep=True))
            if n >= 3 and n < 5:
                regs.append(s.op('wedge', regs[-1], v[2], keep=True))
            V = s.op('mul', v[0], v[1], keep=True)
            regs.append(V)
            W = s.op('mul', V, v[2], keep=True)
            regs.append(W)
            regs.append(s.op('add', V, s.new({0: r.choice(['1', '-2'])}), keep=True))
            regs.append(s.op('sub', W, v[2], keep=True))
            if n >= 4:       # simple and non-simple bivectors, complementary planes, the null ones included
                regs.append(s.new({3: '1', 12: r.choice(['1', '-1', '2'])}))
                m = r.sample(gens.masks_of(n, 2), 3)
                regs.append(s.new({x: gens.coef(r, 'int') for x in m}))
                if n == 4:
                    regs.append(s.new({x: gens.coef(r, 'int') for x in gens.masks_of(n, 3)}))
            if n == 6:       # even, V rev(V) scalar, and still no versor
                regs.append(s.new({0: r.choice(['1', '2', '-3']), 63: '1'}))
            regs.append(s.new({0: '1', r.randrange(1, 1 << n): '1'}))
            regs.append(s.new({x: gens.coef(r, 'int') for x in gens.masks_of(n, n - 1)}))
            regs.append(s.new({r.randrange(1 << n): '1'}, rep=r.choice(['', 'base'])))
            regs.append(s.new({r.randrange(1 << n): '-2'}, rep=r.choice(['', 'base'])))
            regs.append(s.new({0: gens.coef(r, 'rat')}))
            regs.append(s.new({}))
            regs.append(s.op('sub', V, V, keep=True))
            if n < 5:
                regs.append(s.new(gens.mv(r, n, 'even', 'int')))
            for R in regs:
                preds(s, r, R, cid)
            for X in r.sample(regs, 3):
                c = s.op('ident', X, s=r.choice(['base_rep', 'rr', 'copy', 'expand']), keep=True) if s.n < 24 else X
                preds(s, r, c, cid, 1)
            ss.append(s.d)
    alg.check_sessions(rep, ss)
