"""C21: what is printed denotes what was printed."""
import itertools
import random

import prt, vlib
import gens
from prt import PC

TEXT = ['str', 'repr', 'format', 'ostr', 'print', 'list', 'sstr']
TEX = ['latex', 'printer', 'latex/omitargs', 'latex/omitargs/omitfrac', 'latex/omitfrac', 'slatex']
FMT = [a + '/fmt%d' % k + t for a in ('str', 'print', 'latex', 'latex/omitargs/omitfrac') for k in (1, 2, 3) for t in ('', '/T')]


def modes(r, k):
    return r.sample(TEXT + TEX, k // 2) + r.sample(FMT, k - k // 2)


NUM = ['1', '-1', '2', '-3', '1/2', '-2/3', '5/7', '12', '3/2']
ATO = ['a', 'b', '-c', 'k0', 'x', 'alpha', '-rho']
PRO = ['a*b', '-a*c', '2*a', 'a**2', '-a**3*b', 'a/b', '1/a', '-1/a**2', 'a*b/2', '-3*a/(2*b)', 'x**2*a', '2/b']
ADD = ['a+b', '-a-b', 'a-b', '1-a', 'a**2-1', '2*a+3*b-c', 'a/2-b/3', 'a+b+c+1', '1/a+b', '-a**2-b**2']
MIX = ['(a+b)/(a-c)', '(a+b)**2', '1/(a+b)', '-(a+b)/c', 'a*(b+c)', '(a-b)*(a+b)', '-2*(a+1)/(3*b)', 'a/(b*(c+1))', '(a+b)**3/c', '1/(a-b)**2']
TRI = ['sin(x)', '-cos(y)', 'sin(x)**2', 'sin(x)*cos(y)/2', 'cos(x)/a', '-a*sin(y)', 'tan(x)', 'sinh(x)']
RAD = ['sqrt(a)', '-sqrt(2)*a', 'sqrt(3)/2', '1/sqrt(a)', 'a*sqrt(b)', 'sqrt(a)+1']
EXP = ['exp(x)', '-exp(y)', 'a*exp(x+y)', 'exp(-x)', 'exp(x)/2', 'exp(x)-1']
FLD = ['f1(x,y)', '-f2(x,y)', 'a*f1(x,y)', 'f1(x,y)**2', 'f1(x,y)+f2(x,y)', 'f1(x,y)*f2(x,y)', 'diff(f1(x,y),x)', '-diff(f1(x,y),x,y)',
       'diff(f1(x,y),x,x)', '2*diff(f2(x,y),y)/3', 'diff(f1(x,y),x)*f2(x,y)', 'diff(f1(x,y),x)**2', 'x*diff(f1(x,y),y,y)-1', 'f1(x,y)/a',
       'diff(f1(x,y),x,x,y)', 'a+diff(f2(x,y),x)', '1/f1(x,y)', 'f1(x,y)/f2(x,y)', 'sin(x)*f1(x,y)', 'diff(f1(x,y),x)/f2(x,y)']
KINDS = [NUM, ATO, PRO, ADD, MIX, TRI, RAD, EXP, FLD]
CLASSES = {'one': ['1'], 'mone': ['-1'], 'num': NUM[2:], 'atom': ATO, 'prod': PRO, 'sum': ADD, 'mix': MIX + TRI + RAD + EXP, 'fld': FLD}


def coef(r, kinds=KINDS):
    return r.choice(r.choice(kinds))


def rnd_mv(r, n, kinds=KINDS):
    k = r.choice([1, 1, 2, 3, 4, 6])
    ms = r.sample(range(1 << n), min(k, 1 << n))
    if r.random() < .2:
        g = r.randint(0, n)
        ms = [m for m in range(1 << n) if bin(m).count('1') == g]
    if r.random() < .08:
        ms = list(range(1 << n))
    if r.random() < .03:
        ms = []
    return {str(m): coef(r, kinds) for m in ms}


class B:
    def __init__(self, sid, cid):
        self.s = dict(id=sid, algs=[cid], steps=[])
        self.k = 0

    def new(self, op, **kw):
        self.k += 1
        self.s['steps'].append(dict(op=op, dst=self.k, **kw))
        return self.k

    def do(self, op, a, mode):
        self.s['steps'].append(dict(op=op, a=a, mode=mode))


def obl(cid):
    return not PC[cid].ortho


def values(cid, t, k):
    """random values, printed in random ways, some of them again"""
    r = vlib.rng('C21', 'v', cid, t)
    s = B('C21/v/%s/%d' % (cid, t), cid)
    n = PC[cid].n
    kinds = r.choice([KINDS, [NUM], [NUM, ATO, PRO], [ADD, MIX], [TRI, RAD, EXP], [FLD], [FLD, ADD]])
    for i in range(k):
        a = s.new('new', coef=rnd_mv(r, n, kinds), rep='base' if obl(cid) and r.random() < .4 else '', var=r.choice([0, 0, 1]))
        if i and r.random() < .3 and kinds in ([NUM], [NUM, ATO, PRO]):
            a = s.new('calc', a=a - 1, b=a, s=r.choice('+-*^'))
        ms = [m for m in modes(r, 6) if m != 'slatex' or not any(k in kinds for k in (FLD, TRI, EXP, RAD))]
        for m in ms + r.sample(ms, 2):
            s.do('print', a, m)
        if s.k >= 10:
            break
    return s.s


def shapes(cid, t, lines):
    """one value for every assignment of a kind of coefficient to the blades (enumerated by the model)"""
    out = []
    for j in range(0, len(lines), 8):
        s = B('C21/m/%s/%d/%d' % (cid, t, j), cid)
        r = vlib.rng('C21', 'm', cid, t, j)
        for ln in lines[j:j + 8]:
            cf = {str(m): r.choice(CLASSES[c]) for m, c in zip(ln['masks'], ln['cls'])}
            a = s.new('new', coef=cf, rep='base' if ln['rep'] == 'base' and obl(cid) else '')
            s.do('print', a, ln['mode'])
        out.append(s.s)
    return out


def operator(cid, t, k):
    r = vlib.rng('C21', 'o', cid, t)
    s = B('C21/o/%s/%d' % (cid, t), cid)
    n = PC[cid].n
    import ops
    mis = [m for m in ops.mis(n) if sum(m) <= 3]
    for i in range(k):
        kind = r.choice(['dop', 'dop', 'dop', 'sdop', 'pdop'])
        kinds = r.choice([[NUM], [NUM, ATO, PRO], [ADD, MIX], KINDS])
        nt = r.choice([1, 1, 2, 3, 4])
        ds = r.sample(mis, min(nt, len(mis)))
        if r.random() < .3:
            ds[0] = mis[0]
        ds = list(dict.fromkeys(ds))
        if kind == 'pdop':
            terms = [(list(ds[0]), {'0': '1'})]
        elif kind == 'sdop':
            terms = [(list(d), {'0': coef(r, kinds)}) for d in ds]
        else:
            terms = [(list(d), {str(m): coef(r, kinds) for m in r.sample(range(1 << n), r.choice([1, 1, 2, 3]) if n > 1 else 1)}) for d in ds]
        a = s.new('newop', kind=kind, terms=terms, cmp=r.choice([0, 0, 1]) if kind == 'dop' else 0,
                  rep='base' if kind == 'dop' and obl(cid) and r.random() < .3 else '', var=r.choice([0, 1]))
        ms = r.sample(['str', 'repr', 'format', 'sstr', 'print', 'list'], 2) + r.sample(['latex', 'printer', 'latex/omitargs', 'latex/omitargs/omitfrac']
                                                                                                      + (['slatex'] if kinds is not KINDS else []), 2)
        for m in ms + [ms[0], ms[2]]:
            s.do('printop', a, m)
    return s.s


def transf(cid, t, k):
    r = vlib.rng('C21', 'l', cid, t)
    s = B('C21/l/%s/%d' % (cid, t), cid)
    n = PC[cid].n
    for i in range(k):
        kinds = r.choice([[NUM], [NUM, ATO, PRO], KINDS])
        rows = [{str(1 << i): coef(r, kinds) for i in range(n) if r.random() < .6} for _ in range(n)]
        a = s.new('newlt', rows=rows, var=r.choice([0, 1]))
        for m in ['str', 'latex', r.choice(['repr', 'format', 'sstr', 'printer', 'latex/omitargs'])]:
            s.do('printlt', a, m)
    return s.s


def tensor(cid, t):
    r = vlib.rng('C21', 't', cid, t)
    s = B('C21/t/%s/%d' % (cid, t), cid)
    n = PC[cid].n
    k = r.choice([1, 2, 2, 3] if n < 4 else [1, 2])
    kinds = r.choice([[NUM], [NUM, ATO, PRO], [ATO, ADD, PRO, MIX], KINDS])
    a = s.new('newmlt', k=k, coefs=[coef(r, kinds) if r.random() < .6 else '0' for _ in range(n ** k)])
    for m in ['str', 'latex', 'repr', 'latex/fmt2', 'latex/fmt3', 'latex/fmt1/T', 'str/fmt2']:
        s.do('printmlt', a, m)
    return s.s


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_Printing', 'MC_Printing_%s.cfg' % ('t' if deep else 'q'), timeout=800)
    rep.add_tlc(r)
    lines = [v for v in r['lines'] if v.get('tag') == 'SHAPE']
    rep.extra['shapes_of_the_model'] = len(lines)
    rr = vlib.rng('C21', 'pick')
    ss = []
    for cid in ('pr3', 'pob3', 'pnw3', 'pgr2'):
        pick = [l for l in lines if max(l['masks'] + [0]) < 1 << PC[cid].n]
        ss += shapes(cid, 0, rr.sample(pick, min(len(pick), 8000 if deep else 400)))
    for cid in PC:
        for t in range(60 if deep else 8):
            ss.append(values(cid, t, 5))
        if PC[cid].coords and PC[cid].n < 5 and cid not in ('pst4',):
            ss += [operator(cid, t, 5) for t in range(40 if deep else 6)]
        if PC[cid].n < 5:
            ss += [transf(cid, t, 3) for t in range(20 if deep else 3)]
        if PC[cid].coords and PC[cid].n < 4:
            ss += [tensor(cid, t) for t in range(30 if deep else 4)]
    prt.check(rep, ss, lim=40, budget=600 if deep else 200)
