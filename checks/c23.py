"""C23: a factory call builds the algebra it names."""
import fact, vlib

ENT = ['#', '#', '0', '1', '-1', '2', '1/2', '-3/7', '12', '0', '5', '-4', '10/3', '0.5', '-2.25', '007']
COORDS = 'x y z w v u'.split()


def basis_form(r, n, coords=None):
    """text naming n basis vectors, with the coordinates it needs"""
    k = r.choice(['count', 'bar', 'comma', 'space', 'root', 'mixed', 'bar', 'space'])
    root = r.choice(['e', 'e', 'a', 'g', 'gamma'])
    if k == 'count' or (k == 'bar' and n == 1):
        return '%s*%d' % (root, n), coords
    if k == 'bar':
        ix = r.choice(['xyzwvu', '123456', '012345', ['t', 'th', 'phi', 'r', 'u1', 'v2'], ['10', '11', '12', '13', '14', '15']])
        return '%s*%s' % (root, '|'.join(list(ix)[:n])), coords
    if k == 'comma':
        return ','.join('%s_%s' % (root, 'xyzwvu'[i]) for i in range(n)) + (',' if n == 1 or r.random() < .4 else ''), coords
    if k == 'space' and n > 1:
        names = r.choice([['e_%d' % i for i in range(1, 7)], ['a', 'b', 'c', 'd', 'f', 'h'], ['e_x', 'e_y', 'e_z', 'e_w', 'e_v', 'e_u'],
                          ['u1', 'u2', 'u3', 'u4', 'u5', 'u6'], ['e_r_x', 'e_r_y', 'e_s_x', 'e_s_y', 'e_t', 'q'], ['p', 'q_1', 'p_1', 'q', 'r__2', 'r_2']])
        return ' '.join(names[:n]), coords
    if k == 'mixed':
        return ','.join(['a', 'e_1', 'b_x_y', 'c2', 'd_0', 'h'][:n]) + ',', coords
    return root, ' '.join(COORDS[:n])


class B:
    def __init__(self, sid):
        self.s = dict(id=sid, algs=[], steps=[])

    def do(self, op, **kw):
        self.s['steps'].append(dict(op=op, **{k: v for k, v in kw.items() if v is not None}))


def from_model(lines, cls, deep):
    out = []
    r = vlib.rng('C23', 'model')
    pick = lines if deep or len(lines) < 1200 else r.sample(lines, 1200)
    for j in range(0, len(pick), 12):
        s = B('C23/m/%d' % j)
        for ln in pick[j:j + 12]:
            b, co = basis_form(r, ln['n'])
            s.do('ga', form='str', basis=b, coords=co, n=ln['n'], text=r.choice([ln['text'], ln['text'], ln['loose']]), via=r.choice(['Ga', 'build']))
        out.append(s.s)
    calls = [(c, k) for c in cls for k in ('galgebra', 'kingdon')]
    r.shuffle(calls)
    for j in range(0, len(calls), 10):
        s = B('C23/cl/%d' % j)
        for c, k in calls[j:j + 10]:
            if r.random() < .3:
                s.do('mode', conv=r.choice(['I-', '+I', 'Iinv-', '-Iinv', '-I', '+Iinv', 'Iinv+', 'I+']))
            if r.random() < .15:
                n = r.randint(1, 3)
                b, co = basis_form(r, n)
                s.do('ga', form='str', basis=b, coords=co, n=n, text=' '.join(r.choice(ENT) for _ in range(n)))
            co = ' '.join(COORDS[:c['p'] + c['q'] + c['r']]) if r.random() < .3 else None
            s.do('cl', p=c['p'], q=c['q'], r=c['r'], conv=k, root=r.choice(['e', 'e', 'f', 'gamma']), short=r.random() < .6, coords=co)
        out.append(s.s)
    return out


def random_texts(t, deep):
    r = vlib.rng('C23', 'text', t)
    s = B('C23/t/%d' % t)
    for _ in range(5):
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5] + ([6] if deep else []))
        b, co = basis_form(r, n)
        k = r.choice(['row', 'full', 'full', 'none']) if n < 6 else 'row'
        if k == 'none':
            s.do('ga', form='none', basis=b, coords=co, n=n)
        elif k == 'row' or n == 1:
            s.do('ga', form='str', basis=b, coords=co, n=n, text=' '.join(r.choice(ENT) for _ in range(n)))
        else:
            E = {}
            for i in range(n):
                for j in range(i, n):
                    E[i, j] = E[j, i] = r.choice(ENT if n < 4 else ENT[2:])
            sep = r.choice([',', ',', ', '])
            s.do('ga', form='str', basis=b, coords=co, n=n, text=sep.join(' '.join(E[i, j] for j in range(n)) for i in range(n)))
    return s.s


VAL = ['1', '0', '-1', '2', '1/3', 'a', 'b*c', 'a+1', '-c', 'x**2', 'x*y', 'sin(x)**2', 'exp(y)', '1/(1+x**2)', 'y', 'x**2+y**2', 'cosh(x)**2']


def values(t):
    r = vlib.rng('C23', 'val', t)
    s = B('C23/v/%d' % t)
    for _ in range(4):
        n = r.choice([1, 2, 2, 3, 3, 4])
        form = r.choice(['list', 'tuple', 'nested', 'nested', 'matrix', 'imatrix', 'matrix', 'g'])
        co = ' '.join(COORDS[:max(n, 2)][:n]) if n > 1 else 'x'
        vals = VAL if n > 1 and r.random() < .6 else VAL[:9]
        if form == 'g':
            if n > 3:
                continue
            b, c2 = basis_form(r, n, co)
            s.do('values', form='g', basis=b, coords=c2, n=n)
            continue
        needs = vals is VAL
        b, c2 = basis_form(r, n, co if needs or r.random() < .5 else None)
        if needs and n == 1:
            vals = VAL[:9]
        G = [['0'] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                # products of vectors that are not orthogonal stay simple
                if i == j or (form not in ('list', 'tuple') and n < 4):
                    G[i][j] = G[j][i] = r.choice(vals if i == j and form in ('list', 'tuple') else vals[:11] if n < 3 else VAL[:7])
        if n == 4 and form not in ('list', 'tuple'):
            for i in range(3):
                G[i][i + 1] = G[i + 1][i] = r.choice(['0', '1', '2', '-1'])
        s.do('values', form=form, basis=b, coords=c2, n=n, G=G, via=r.choice(['Ga', 'build']))
    return s.s


CHARTS = [
    ('e', 'r theta', ['r*cos(theta)', 'r*sin(theta)']),
    ('e_u e_v', 'u v', ['(u**2-v**2)/2', 'u*v']),
    ('e*u|v', 'u v', ['u', 'v', 'u**2+v**2']),
    ('e_r,e_t,e_z', 'r theta z', ['r*cos(theta)', 'r*sin(theta)', 'z']),
    ('e', 'r theta phi', ['r*sin(theta)*cos(phi)', 'r*sin(theta)*sin(phi)', 'r*cos(theta)']),
    ('e', 'u v', ['u+2*v', 'u-v', 'a*u']),
    ('e*2', 'u v', ['cos(u)', 'sin(u)', 'v']),
    ('f*2', 'u v', ['(2+cos(v))*cos(u)', '(2+cos(v))*sin(u)', 'sin(v)']),
    ('e', 'u', ['cos(u)', 'sin(u)', 'a*u']),
    ('e_s e_t', 's t', ['sinh(s)', 'cosh(s)', 't', 's*t']),
]
PRESETS = [
    ('o3d', 'x y z', ['x', 'y', 'z'], 0),
    ('cyl3d', 'r theta z', ['r*cos(theta)', 'r*sin(theta)', 'z'], 1),
    ('sph3d', 'r theta phi', ['r*cos(theta)*cos(phi)', 'r*cos(theta)*sin(phi)', 'r*sin(theta)'], 1),
    ('para3d', 'u v z', ['(u**2-v**2)/2', 'u*v', 'z'], 1),
]


def charts():
    out = []
    for i, (b, co, X) in enumerate(CHARTS):
        s = B('C23/x/%d' % i)
        s.do('chart', form='X', basis=b, coords=co, X=X, n=len(co.split()))
        out.append(s.s)
    for name, co, X, norm in PRESETS:
        for root in (None, 'e', 'b'):
            s = B('C23/preset/%s/%s' % (name, root))
            s.do('mode', conv='Iinv-')
            s.do('chart', form='preset', name=name, basis=root or 'e', root=root, coords=co, X=X, norm=norm, n=3)
            out.append(s.s)
    return out


def blades(n, t):
    r = vlib.rng('C23', 'bl', n, t)
    s = B('C23/b/%d/%d' % (n, t))
    for _ in range(3 if n < 5 else 1):
        wedge = r.choice([0, 1])
        kind = r.choice(['digits', 'letters'])
        root = r.choice(['e', 'f'])
        if kind == 'digits':
            st = r.choice([0, 1, 1, 3])
            ix = [str(st + i) for i in range(n)]
        else:
            ix = r.sample(['x', 'y', 'z', 't', 'u', 'th', 'v', 'w'], n)
        names = ['%s_%s' % (root, i) for i in ix]
        text = ' '.join(names) if n > 1 else names[0] + ','
        if n < 4 and r.random() < .5:
            G = [['1' if i == j else '0' for j in range(n)] for i in range(n)]
            for i in range(n - 1):
                G[i][i + 1] = G[i + 1][i] = r.choice(['1', '-1', '2', '1/2'])
                G[i][i] = r.choice(['3', '5'])
            s.do('values', form='nested', basis=text, n=n, G=G, kw=dict(wedge=bool(wedge)))
        else:
            s.do('ga', form='str', basis=text, n=n, text=' '.join(r.choice(['1', '-1', '0', '1']) for _ in range(n)), kw=dict(wedge=bool(wedge)))
        s.do('blades', n=n, names=names, root=root, ix=ix, wedge=wedge, digits=1 if kind == 'digits' else 0)
        if kind == 'digits' and r.random() < .5:
            s.do('blades', n=n, names=names, root=root, ix=ix, wedge=wedge, digits=1, prefix=r.choice(['b', 'E_']))
    return s.s


def sigs(t):
    r = vlib.rng('C23', 'sig', t)
    s = B('C23/s/%d' % t)
    for _ in range(4):
        n = r.choice([1, 2, 3, 4, 5])
        if r.random() < .6:
            sq = [r.choice(['1', '-1', '2', '-1/2', '5']) for _ in range(n)]
            hint = r.choice([None, None, 'm-', 'm+', 'e', 0])
            text = ' '.join(sq)
            s.do('ga', form='str', basis='e*%d' % n, n=n, text=text, kw={} if hint is None else dict(sig=hint))
            s.do('sig', n=n, hint='num', sq=[1 if not x.startswith('-') else -1 for x in sq])
        else:
            hint = r.choice(['e', 'm+', 'm-', None, r.randint(0, n)])
            s.do('ga', form='str', basis='e*%d' % n, n=n, text=' '.join(['#'] * n), kw={} if hint is None else dict(sig=hint))
            s.do('sig', n=n, hint='int' if isinstance(hint, int) else hint or 'e', p=hint if isinstance(hint, int) else 0)
    return s.s


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_Factory', 'MC_Factory_%s.cfg' % ('t' if deep else 'q'), timeout=800)
    rep.add_tlc(r)
    lines = [v for v in r['lines'] if v.get('tag') == 'METRIC']
    cls = [v for v in r['lines'] if v.get('tag') == 'CL']
    rep.extra.update(metric_texts_of_the_model=len(lines), signatures_of_the_model=len(cls))
    if deep and len(lines) > 8000:
        lines = vlib.rng('C23', 'pick').sample(lines, 8000)
    ss = from_model(lines, cls, deep)
    s = B('C23/cl/big')
    for c in ((10, 0, 0, 'galgebra'), (9, 1, 0, 'kingdon'), (4, 3, 2, 'galgebra')) + (((5, 5, 1, 'kingdon'), (3, 0, 8, 'galgebra')) if deep else ()):
        s.do('cl', p=c[0], q=c[1], r=c[2], conv=c[3], root='e')
        ss.append(s.s)
        s = B('C23/cl/big/%d%d%d' % c[:3])
    ss += charts()
    ss += [random_texts(t, deep) for t in range(500 if deep else 60)]
    ss += [values(t) for t in range(500 if deep else 60)]
    ss += [blades(n, t) for n in (1, 2, 3, 4, 5) for t in range(30 if deep else 5)]
    if deep:
        ss += [blades(6, t) for t in range(10)]
    ss += [sigs(t) for t in range(200 if deep else 15)]
    fact.check(rep, ss, lim=90, budget=380 if deep else 200)
