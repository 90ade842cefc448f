"""C19: operations are pure and results are independent of history."""
import hist
import vlib


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_History', 'MC_History_%s.cfg' % ('t' if deep else 'q'), timeout=800)
    rep.add_tlc(r)
    h = [tuple(map(tuple, v['h'])) for v in r['lines'] if v.get('tag') == 'HIST']
    q = hist.queries()
    asks = hist.asks(q)
    hs = permutations(asks, 40 if deep else 10)
    hs += objects(asks, 6 if deep else 2)
    hs += modelled(h, asks, q, 24000 if deep else 1500)
    hs += pairs(asks, 12000 if deep else 1000)
    hist.check(rep, hs, budget=700 if deep else 200)


def ask(p):
    return dict(op='ask', q=p[0], al=p[1])


def permutations(asks, n):
    """all queries of all algebras in random order: half of all ordered pairs of queries in each"""
    out = []
    for t in range(n):
        r = vlib.rng('c19p/%d' % t)
        many = [p for p in asks if '@' in p[0]]
        o = [p for p in asks if '@' not in p[0]] + r.sample(many, len(many) // 8)
        r.shuffle(o)
        steps = []
        for i, p in enumerate(o):
            if r.random() < .04:
                steps.append(dict(op='dualmode', s=r.choice(hist.MODES)))
            if r.random() < .03:
                steps.append(dict(op='dotmode', al=r.randint(1, 4), s=r.choice(['|', '<', '>'])))
            steps.append(ask(p))
            if i % 25 == 24:
                steps.append(dict(op='operands'))
        # in pieces: a disturbance early on must not hide later ones
        n = len(steps)
        out.append(('perm/%d' % t, steps))
        out.append(('half/%d' % t, steps[n // 2:]))
    return out


def objects(asks, n):
    """one object asked everything about it, in random orders and their reverses: every ordered pair of queries on it"""
    by = {}
    for p in asks:
        if '@' in p[0]:
            by.setdefault((p[0].split('@')[1], p[1]), []).append(p)
    out = []
    for (o, a), ps in sorted(by.items()):
        for t in range(n):
            c = list(ps)
            vlib.rng('c19o/%s/%d/%d' % (o, a, t)).shuffle(c)
            out.append(('object/%s.%d/%d' % (o, a, t), [ask(p) for p in c]))
            out.append(('object/%s.%d/%dr' % (o, a, t), [ask(p) for p in reversed(c)]))
    return out


def pairs(asks, n):
    """p, q, p"""
    r = vlib.rng('c19q')
    ps = set()
    while len(ps) < n:
        p = r.choice(asks)
        same = r.random() < .6
        q = r.choice([a for a in asks if (a[1] == p[1]) == same])
        ps.add((p, q))
    return [('pair/%s.%d/%s.%d' % (p + q), [ask(p), ask(q), ask(p)]) for p, q in sorted(ps)]


def modelled(h, asks, q, n):
    """every state of the tables reached by the model, then any query"""
    r = vlib.rng('c19m')
    out, seen = [], set()
    while len(out) < n:
        pre = r.choice(h)
        own, other = r.sample([1, 2, 3, 4], 2)
        steps = []
        ok = True
        for f, a in pre:
            al = own if a == 1 else other
            if f == 'dualmode':
                steps.append(dict(op='dualmode', s='Iinv-'))
            elif f == 'dotmode':
                steps.append(dict(op='dotmode', al=own, s='<'))
            elif q[f]['only'] and al not in q[f]['only']:
                ok = False
            else:
                steps.append(ask((f, al)))
        p = r.choice([a for a in asks if a[1] == own])
        k = (pre, own, other, p)
        if not ok or k in seen:
            continue
        seen.add(k)
        out.append(('model/%d' % len(out), steps + [ask(p)]))
    return out
