"""Generators of multivector sessions."""
import vlib
from alg import CFGS

INTS = ['1', '-1', '2', '-2', '3', '-3', '5', '-4', '7']
RATS = ['1/2', '-1/3', '2/5', '-7/3', '3/4', '5/6']
SYMS = ['a', '-b', 'c', '2*d', 'a+b', 'a-2*c', 'a*b', '-d/3', 'a**2', 'b+1']
DEEP = ['(a+b)**2', 'a*(b-c)', '1/(1+a)', 'sin(a)', 'cos(a)*b', 'sin(a)**2', 'a/b', '(a-1)*(b+2)', 'exp(a)']


class Sess:
    def __init__(self, id, *algs, **kw):
        self.d = dict(id=id, algs=list(algs), steps=[], **kw)
        self.n = 0

    def reg(self):
        self.n += 1
        assert self.n <= 24, 'too many registers'
        return self.n

    def new(self, coef, al=1, **kw):
        r = self.reg()
        self.d['steps'].append(dict(op='new', al=al, coef={str(k): str(v) for k, v in coef.items()}, dst=r, **kw))
        return r

    def op(self, op, a=0, b=0, keep=False, al=1, **kw):
        st = dict(op=op, al=al, a=a, b=b, **kw)
        if keep:
            st['dst'] = self.reg()
        self.d['steps'].append(st)
        return st.get('dst')


def coef(r, kind):
    if kind == 'mix':
        kind = r.choice(['int', 'int', 'rat', 'sym', 'sym'])
    return r.choice(dict(int=INTS, rat=RATS, sym=SYMS, deep=DEEP)[kind])


def grade(m):
    return bin(m).count('1')


def masks_of(n, gr):
    return [m for m in range(1 << n) if grade(m) == gr]


def mv(r, n, shape=None, kind='mix'):
    """random coefficient dictionary"""
    N = 1 << n
    shape = shape or r.choice(['blade', 'vector', 'homog', 'sparse', 'sparse', 'even', 'full'])
    if shape == 'blade':
        ms = [r.randrange(N)]
    elif shape == 'vector':
        ms = [1 << i for i in range(n) if r.random() < .8] or [1]
    elif shape == 'homog':
        k = r.randrange(n + 1)
        ms = [m for m in range(N) if grade(m) == k and r.random() < .7] or [(1 << k) - 1]
    elif shape == 'sparse':
        ms = r.sample(range(N), min(N, r.randint(2, 4)))
    elif shape == 'even':
        ms = [m for m in range(N) if grade(m) % 2 == 0 and r.random() < .6] or [0]
    elif shape == 'scalar':
        ms = [0]
    else:
        ms = [m for m in range(N) if r.random() < (.8 if n < 4 else .4)] or [0, N - 1]
    r.shuffle(ms)
    return {m: coef(r, kind) for m in ms}


def kind_for(cid):
    """coefficients that keep the expressions of an algebra manageable"""
    return 'int' if cid in ('y3', 'sph', 'sd3', 'y3o', 'obc') else 'mix'


def vec(r, n, kind='int'):
    return {1 << i: coef(r, kind) for i in range(n) if r.random() < .85} or {1: '1'}


FLOATS = {'1': '0.5', '-1': '-1.5', '2': '2.5', '-2': '-0.25', '3': '3.0', '-3': '-2.0', '5': '1.25', '-4': '0.75', '7': '-3.5'}
FLOAT_OPS = set('new obs mul wedge hdot lc rc sprod neg add sub adds subs rsubs smul com acom pow wedge_as hdot_as lc_as rc_as lc_sa rc_sa '
                'com_as acom_as sp sprev rev ginvol ccon even odd grade scalar noscalar grades gradesum canon canongrade coefsof proj listvec '
                'components complist setcoef dualmode dual undual refl qformz gadot dotmode'.split())
FLOAT_IDS = ('p2', 'm3', 'n3', 'o2', 'o3', 'o2n', 'm4', 'o4', 'pga3', 'q3')


def floated(sess):
    """the session with floating point coefficients, all of them exact"""
    d = dict(sess, id=sess['id'] + '/float', steps=[])
    have = set()
    for st in sess['steps']:
        if st['op'] not in FLOAT_OPS or any(st.get(k) and st[k] not in have for k in 'ab'):
            continue
        st = dict(st)
        if 'coef' in st:
            st['coef'] = {m: FLOATS.get(v, '-0.5') for m, v in st['coef'].items()}
        if 'c' in st and not st.get('pyint'):
            st['c'] = FLOATS.get(str(st['c']), '1.5')
        st.pop('warm', None)
        d['steps'].append(st)
        if 'dst' in st:
            have.add(st['dst'])
    return d


def with_floats(ss, pat='/rand/', every=1):
    pick = [s for s in ss if pat in s['id'] and len(s['algs']) == 1 and s['algs'][0] in FLOAT_IDS]
    return ss + [floated(s) for s in pick[::every]]


def pairs(pid, op, cid, nvar=1, chunk=2):
    """all ordered pairs of basis blades under one operation"""
    n = CFGS[cid].n
    N = 1 << n
    out = []
    for lo in range(0, N, chunk):
        s = Sess('%s/%s/%s/pairs%d' % (pid, op, cid, lo), cid)
        if N <= 16:
            regs = [s.new({m: 1}) for m in range(N)]
            for i in range(lo, min(N, lo + chunk)):
                for j in range(N):
                    s.op(op, regs[i], regs[j], var=(i + j) % nvar)
        out.append(s.d)
    return out


def pairs_sampled(pid, op, cid, r, k, nvar=1):
    n = CFGS[cid].n
    N = 1 << n
    out = []
    for t in range(k):
        s = Sess('%s/%s/%s/spairs%d' % (pid, op, cid, t), cid)
        A = [s.new({m: 1}) for m in r.sample(range(N), 5)]
        B = [s.new({m: 1}) for m in r.sample(range(N), 5)]
        for i in A:
            for j in B:
                s.op(op, i, j, var=r.randrange(nvar))
        out.append(s.d)
    return out


IDS3 = ['p2', 'm3', 'n3', 'pga2', 'nul2', 'rat3', 'sd3', 'o2', 'o2n', 'o2d', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'y2', 'y3', 'y3p', 'y3o',
        'sph', 'sphn', 'obc', 'q3', 'o3w', 'one']
IDS4 = ['m4', 'o4', 'pga3', 'o4c']
ALL = IDS3 + IDS4 + ['e4', 'm4b', 's22', 'p3', 'dgm3', 'd5', 'm6', 'e6']
OBL = ['o2', 'o2n', 'o2d', 'o3', 'o3n', 'o3z', 'o2h', 'o3h', 'y2', 'y3', 'y3p', 'y3o', 'obc', 'o3w', 'o4', 'o4c']
HEAVY = ('y3', 'd5', 'sph', 'y3o', 'sd3', 'm6', 'e6')


def clifford_laws(rep):
    rep.add_tlc(vlib.model_check('MC_Clifford', 'MC_Clifford.cfg' if vlib.TIER == 'thorough' else 'MC_Clifford_q.cfg'))


def shape(r, cid):
    return r.choice(['blade', 'vector', 'sparse']) if cid in HEAVY else None


def rmv(s, r, cid, rep=None, **kw):
    n = CFGS[cid].n
    if rep is None:
        rep = r.choice(['', '', 'base'])
    return s.new(mv(r, n, kw.pop('shape', None) or shape(r, cid), kw.pop('kind', None) or kind_for(cid)),
                 var=r.choice([0, 0, 1, 2]) if rep != 'base' else r.choice([0, 1]), rep=rep, **kw)
