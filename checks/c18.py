"""C18: operator precedence of GAeval."""
import prec, vlib
from gens import Sess
import gens
from prec import GROUPS, NAMES


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_Prec', 'MC_Prec_%s.cfg' % ('t' if deep else 'q'), timeout=800)
    rep.add_tlc(r)
    prec.replay(rep, [v for v in r['lines'] if v.get('tag') == 'EXPR'])
    ss = [trees(t, 40) for t in range(200 if deep else 40)]
    ss += [broken(t) for t in range(40 if deep else 8)]
    ss += [values(cid, t) for cid in gens.IDS3 if cid not in gens.HEAVY for t in range(6 if deep else 1)]
    prec.check(rep, ss, lim=30)


def order(r):
    o = [1, 2, 3]
    r.shuffle(o)
    return dict(op='prec', ord=o, s=','.join(GROUPS[i - 1] for i in o), d=r.choice([1, 2]))


BAD = ['', 'x', '<>|,^,/', '<>|,^,+', '<,>,|', '^,*,<>|,&', '*^', '<>|;^', ' ^']


def expr(r, depth, methods=True, calls=True, numbers=True):
    """a random expression"""
    toks = []
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 8] if depth else [1, 1, 2, 3])
    if r.random() < .15:
        toks.append('-')
    last = None
    ops = [r.choice(['+', '-', '*', '*', '^', '^', '|', '|', '<', '>']) for _ in range(n - 1)] + [None]
    for i in range(n):
        k = r.random()
        if i and ops[i - 1] not in (None,) and r.random() < .06:
            toks.append('-')
        prev = ops[i - 1] if i else None
        if depth and k < .3:
            sub = ['('] + expr(r, depth - 1, methods, calls, numbers) + [')']
            last = 'par'
        elif depth and calls and k < .42:
            sub = [r.choice(['f(', 'gg('])]
            for j in range(r.choice([1, 1, 2, 3])):
                sub += ([','] if j else []) + expr(r, depth - 1, methods, calls, numbers)
            sub += [')']
            last = 'par'
        elif numbers and n > 1 and k > .88 and last != 'num' and not ({prev, ops[i]} & {'<', '>'}):
            sub = [r.choice(['2', '3', '0.5', '17'])]
            last = 'num'
        else:
            sub = [r.choice(NAMES)]
            last = 'name'
        if methods and last != 'num' and r.random() < .1:
            sub = sub + [r.choice(prec.METHS)]
        toks += sub
        if ops[i]:
            toks.append(ops[i])
    return toks


def trees(t, k):
    r = vlib.rng('C18t', t)
    s = Sess('C18/trees/%d' % t)
    st = s.d['steps']
    st.append(order(r))
    for i in range(k):
        if r.random() < .15:
            st.append(dict(op='prec', ord=[1, 2, 3], s='', d=r.choice([1, 2]), default=1) if r.random() < .2 else order(r))
        if r.random() < .08:
            st.append(dict(op='prec', ord=[], s=r.choice(BAD), d=9))
        st.append(dict(op='eval', toks=expr(r, r.choice([0, 1, 1, 2, 3])), ws=r.choice([0, r.randrange(1, 10**6)]), pstr=r.random() < .2))
    return s.d


def broken(t):
    """expressions with a token lost or doubled: a value exactly when what is left is an expression"""
    r = vlib.rng('C18b', t)
    s = Sess('C18/broken/%d' % t)
    st = s.d['steps']
    st.append(order(r))
    for i in range(25):
        e = expr(r, r.choice([1, 2]), methods=False, numbers=False)
        for _ in range(r.choice([1, 1, 2])):
            j = r.randrange(len(e))
            if r.random() < .6 and len(e) > 1:
                e = e[:j] + e[j + 1:]
            else:
                e = e[:j] + [e[j]] + e[j:]
        txt = ' '.join(e)
        # forms that Python gives a meaning of its own
        if any(p in txt for p in (', )', '( )', '<  <', '* *', '< <', '> >', ') (')) or \
           any(a in NAMES + [')'] and b == '(' for a, b in zip(e, e[1:])):
            continue
        st.append(dict(op='eval', toks=e, ws=0))
        if r.random() < .2:
            st.append(order(r))
    for x in ['A|', '|A', 'A|B)', '(A|B', 'zz*A', 'A B', 'A $ B']:
        st.append(dict(op='bad', text=x))
    st.append(dict(op='eval', toks=['A', '|', 'B', '^', 'C'], ws=0))
    return s.d


def values(cid, t):
    r = vlib.rng('C18v', cid, t)
    s = Sess('C18/values/%s/%d' % (cid, t), cid)
    n = prec.CFGS[cid].n
    st = s.d['steps']
    names = ['A', 'B', 'C', 'AB']
    for nm in names:
        st.append(dict(op='mv', s=nm, coef={str(k): str(v) for k, v in gens.mv(r, n, r.choice(['vector', 'homog', 'sparse']), 'int').items()}))
    st.append(dict(order(r), real=1))
    for i in range(12):
        e = [t for t in expr(r, r.choice([0, 1, 2]), methods=False, calls=False, numbers=False)]
        e = [r.choice(names) if t in NAMES else t for t in e]
        st.append(dict(op='value', toks=e, ws=r.randrange(1000)))
        if i % 4 == 3:
            st.append(dict(order(r), real=1))
    for nm in names:
        st.append(dict(op='obs', s=nm))
    return s.d
