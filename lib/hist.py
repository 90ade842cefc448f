"""Histories of queries on several live algebras (HistTrace.tla): each runs in a process forked from the same world."""
import json
import os
import pickle
import re
import signal
import time

from sympy import S, Symbol, sympify, Matrix, sin, cos, expand, srepr

import gf
import vlib
import alg
from alg import index_maps

X = [Symbol(n, real=True) for n in ('x', 'y', 'z')]
K = [Symbol(n, real=True) for n in ('k0', 'k1')]
ALGS = ['plain', 'oblique', 'curved', 'curved oblique']
MODES = ['I+', 'Iinv-', '+Iinv']


class NS:
    pass


def build():
    """algebras with the same basis names and coordinates; nothing is computed yet"""
    from galgebra.ga import Ga
    Ga.dual_mode('I+')
    kw = dict(coords=X)
    gas = [Ga('e_x e_y e_z', g=[1, 1, 1], **kw), Ga('e_x e_y e_z', g='1 1 0,1 3 0,0 0 -1', **kw),
           Ga('e_x e_y e_z', g=[1, X[0] ** 2, 1], **kw), Ga('e_x e_y', g=[[1, X[0]], [X[0], 1 + X[1] ** 2 + X[0] ** 2]], coords=X[:2])]
    return [world(g) for g in gas]


def world(g):
    from galgebra import dop, lt
    w = NS()
    w.g = g
    e = w.e = g.mv()
    x, y = g.coords[0], g.coords[1]
    w.u = e[0] + 2 * e[1]
    w.v = 3 * e[0] - K[0] * e[1]
    w.M = g.mv(2) + w.u + 3 * (e[0] ^ e[1])
    w.B = e[0] ^ e[1]
    w.P = w.u * (e[0] - e[1])
    w.MB = (w.u * w.v + 1).base_rep()
    w.F = (x * y) * e[0] + (x ** 2 - y) * e[1]
    w.H = g.mv(x + 1) + x * (e[0] ^ e[1])
    w.f = g.mv(x ** 2 * y)
    w.Z = g.mv(0)
    w.C = (e[0] + K[1] * e[0] + x) * 1
    w.L = g.lt([w.u, e[0] - e[1]] + [3 * q for q in e[2:]])
    w.Q = g.lt('q')
    w.T = lt.Mlt('T', g, nargs=2)
    w.R = lt.Mlt(lambda a_1, a_2: (a_1 | a_2), g)
    w.D = g.dop([(w.u, dop.Pdop({x: 1})), (g.mv(y), dop.Pdop({y: 2}))])
    w.SD = dop.Sdop([(x, dop.Pdop({y: 1})), (S(2), dop.Pdop({}))])
    w.PD = dop.Pdop({x: 1})
    return w


OPERANDS = ['u', 'v', 'M', 'B', 'P', 'MB', 'F', 'H', 'f', 'Z', 'C', 'L', 'Q', 'T', 'R', 'D', 'SD', 'PD']


def with_fmt(w, name, n):
    o = getattr(w, name)
    return str(o.Fmt(n))


def latex(o):
    from galgebra import printer
    return printer.latex(o)


def isotropic(w):
    from galgebra.metric import Simp
    return Simp.apply(w.M.obj)


def make_queries():
    from galgebra import mv, dop, lt
    from galgebra.ga import Ga
    Q = {}

    def q(name, f, dual=False, dot=False, only=None):
        Q[name] = dict(f=f, dual=dual, dot=dot, only=only)
    q('mul', lambda w: w.M * w.P)
    q('mulbase', lambda w: w.MB * w.M)
    q('wedge', lambda w: w.u ^ w.M)
    q('hdot', lambda w: w.M | w.P)
    q('lc', lambda w: w.u < w.M)
    q('rc', lambda w: w.M > w.B)
    q('com', lambda w: w.M >> w.u)
    q('acom', lambda w: w.u << w.B)
    q('add', lambda w: w.MB + w.M)
    q('smul', lambda w: 3 * w.M - K[0])
    q('rev', lambda w: w.M.rev())
    q('invol', lambda w: [w.M.g_invol(), w.M.ccon(), w.M.even(), w.M.odd(), w.MB.rev()])
    q('grade', lambda w: [w.M.grade(1), w.MB.grade(2), w.MB.scalar()])
    q('blade_rep', lambda w: w.MB.blade_rep())
    q('base_rep', lambda w: w.M.base_rep())
    q('gadot', lambda w: w.g.mv(w.g.dot(w.u.obj, w.B.obj)), dot=True)
    q('dual', lambda w: w.M.dual(), dual=True)
    q('undual', lambda w: w.u.undual(), dual=True)
    q('inv', lambda w: w.u.inv())
    q('div', lambda w: w.M / w.u)
    q('pow', lambda w: [w.u ** 2, w.B ** 3])
    q('norm2', lambda w: [w.u.norm2(), w.M.qform(), w.B.mag2() if hasattr(w.B, 'mag2') else 0])
    q('exp', lambda w: (K[0] * w.B).exp('-'), only=[1])
    q('reflect', lambda w: w.M.reflect_in_blade(w.B))
    q('project', lambda w: w.u.project_in_blade(w.e[0]))
    q('preds', lambda w: [w.M.is_blade(), w.B.is_blade(), w.P.is_versor(), w.M.is_versor(), w.u.is_vector(), w.Z.is_zero(),
                          w.MB.is_scalar(), w.B.is_base(), w.M.pure_grade(), w.u.pure_grade()])
    q('coefs', lambda w: [w.M.blade_coefs(), w.MB.get_coefs(1) if False else w.u.get_coefs(1), w.u.list()])
    q('components', lambda w: w.M.components())
    q('equal', lambda w: [w.M == w.M, w.MB == w.MB.blade_rep(), w.u == w.v, w.f == w.f.scalar()])
    q('hash', lambda w: [hash(w.M) == hash(w.g.mv(w.M)), hash(w.MB) == hash(w.MB.blade_rep())])
    q('simplify', lambda w: [w.F.simplify(), w.M.expand(), w.F.trigsimp(), w.M.collect()])
    q('subs', lambda w: [w.F.subs({X[0]: 2}), w.v.subs({K[0]: 5})])
    q('str', lambda w: [str(w.M), str(w.F), str(w.MB), str(w.Z), str(w.v)])
    q('str1', lambda w: with_fmt(w, 'M', 1))
    q('str2', lambda w: with_fmt(w, 'M', 2))
    q('str3', lambda w: with_fmt(w, 'F', 3))
    q('latex', lambda w: [latex(w.M), latex(w.F), latex(w.v)])
    q('strops', lambda w: [str(w.D), str(w.SD), str(w.PD), str(w.L), str(w.g.grad)])
    q('latexops', lambda w: [latex(w.D), latex(w.L), latex(w.g.grad)])
    q('strmlt', lambda w: str(w.T))
    q('diff', lambda w: [w.F.diff(X[0]), w.H.diff(X[1])])
    q('pdiff', lambda w: w.g.pDiff(w.F, X[0]))
    q('pdiff2', lambda w: w.g.pDiff(w.H, X[1]))
    q('grad', lambda w: w.g.grad * w.F)
    q('grad2', lambda w: w.g.grad * w.H)
    q('gradw', lambda w: [w.g.grad ^ w.F, w.g.grad | w.F])
    q('rgrad', lambda w: w.F * w.g.rgrad)
    q('gradf', lambda w: w.g.grad * w.f)
    q('gradop', lambda w: w.F | w.g.grad)
    q('dop', lambda w: w.D * w.F)
    q('dopdop', lambda w: w.D * w.D)
    q('dopsum', lambda w: [w.D + w.D, w.D - w.D, 2 * w.D, w.D == w.D])
    q('sdop', lambda w: [w.SD * w.F, w.SD * w.SD, w.PD * w.F, w.SD(w.f), w.SD == w.SD])
    q('mvr', lambda w: [list(w.g.mvr()), list(w.g.mvr(norm=False))])
    q('frame', lambda w: list(w.g.ReciprocalFrame([w.u, w.e[0]])))
    q('rblades', lambda w: w.g.make_grad(w.g.mv('a', 'vector')), only=[1, 2, 4])
    q('I', lambda w: [w.g.E(), w.g.I(), w.g.I_inv() if hasattr(w.g, 'I_inv') else w.g.i_inv])
    q('metric', lambda w: [list(w.g.g), list(w.g.g_inv), w.g.e_sq, list(w.g.g_adj)])
    q('basis', lambda w: [list(w.g.mv()), list(w.g.mv_blades.flat), list(w.g.bases.flat), list(w.g.blades.flat)])
    q('basesdict', lambda w: sorted(w.g.bases_dict().items(), key=str))
    q('connect', lambda w: [bool(w.g.connect_flg)])
    q('christoffel', lambda w: [w.g.Christoffel_symbols(mode=1), w.g.Christoffel_symbols(mode=2)], only=[3, 4])
    q('lt', lambda w: [w.L(w.u), w.L(w.M), w.Q(w.u)])
    q('ltmat', lambda w: [list(w.L.matrix()), list(w.Q.matrix())])
    q('ltdet', lambda w: [w.L.det(), w.L.tr(), w.Q.tr()])
    q('ltadj', lambda w: w.L.adj())
    q('ltalg', lambda w: [w.L * w.L, w.L + w.Q, 2 * w.L, w.L - w.L])
    q('ltinv', lambda w: w.L.inv())
    q('ltnew', lambda w: [w.g.lt('s', mode='s'), w.g.lt('a', mode='a')])
    q('mlt', lambda w: [w.T(w.u, w.e[1]), w.R(w.u, w.v)])
    q('mltalg', lambda w: [w.T + w.T, w.R - w.T, 2 * w.T() if False else w.T * 2])
    q('mltprod', lambda w: w.T * w.R, only=[1])
    q('mltcontract', lambda w: w.R.contract(1, 2), only=[1, 2])
    q('mltpdiff', lambda w: w.T.pdiff(1), only=[1, 2])
    q('mltdd', lambda w: lt.Mlt('W', w.g, nargs=1, fct=True).dd(), only=[1])
    q('newmv', lambda w: [w.g.mv('A', 'vector'), w.g.mv('A', 'mv'), w.g.mv('A', 'spinor', f=True)])
    q('newlt', lambda w: lt.Mlt('V', w.g, nargs=1)(w.u))
    q('sub', lambda w: _sub(w), only=[1, 2, 3])
    q('fmtcopy', lambda w: [str(w.M.Fmt(3)), str(w.M)])
    q('isotropic', lambda w: isotropic(w))
    q('aeval', lambda w: _gaeval(w))
    q('another', lambda w: _another(w))
    q('exc', lambda w: _errors(w))
    # every method on every object: what one query leaves on the object must not show in the next
    for o in OBJECTS:
        for m, f in METHODS.items():
            q('%s@%s' % (m, o), (lambda w, f=f, o=o: f(getattr(w, o), w)), dual=m in ('dual', 'undual'))
    return Q


OBJECTS = ['u', 'v', 'M', 'B', 'P', 'MB', 'F', 'H', 'f', 'Z']


def _methods():
    from galgebra.metric import Simp
    d = dict(
        is_blade=lambda o, w: o.is_blade(), is_versor=lambda o, w: o.is_versor(), is_scalar=lambda o, w: o.is_scalar(),
        is_vector=lambda o, w: o.is_vector(), is_zero=lambda o, w: o.is_zero(), is_base=lambda o, w: o.is_base(),
        pure_grade=lambda o, w: o.pure_grade(), grade=lambda o, w: [o.grade(r) for r in range(w.g.n + 1)],
        rev=lambda o, w: o.rev(), g_invol=lambda o, w: o.g_invol(), ccon=lambda o, w: o.ccon(), even=lambda o, w: o.even(),
        odd=lambda o, w: o.odd(), scalar=lambda o, w: o.scalar(), dual=lambda o, w: o.dual(), undual=lambda o, w: o.undual(),
        inv=lambda o, w: o.inv(), shirokov=lambda o, w: o.shirokov_inverse(), hitzer=lambda o, w: o.hitzer_inverse(),
        norm2=lambda o, w: o.norm2(), qform=lambda o, w: o.qform(), norm=lambda o, w: o.norm(), mag2=lambda o, w: o.mag2(),
        blade_rep=lambda o, w: o.blade_rep(), base_rep=lambda o, w: o.base_rep(), blade_coefs=lambda o, w: o.blade_coefs(),
        coefs=lambda o, w: [o.get_coefs(r) for r in range(w.g.n + 1)], components=lambda o, w: o.components(),
        list=lambda o, w: o.list(), hash=lambda o, w: hash(o) == hash(w.g.mv(o)), same=lambda o, w: [o == o, o == w.u, o == w.g.mv(o)],
        str=lambda o, w: str(o), latex=lambda o, w: latex(o), expand=lambda o, w: o.expand(), simplify=lambda o, w: o.simplify(),
        subs=lambda o, w: o.subs({X[0]: 2, K[0]: 3}), collect=lambda o, w: o.collect(), square=lambda o, w: o * o,
        neg=lambda o, w: -o, inc=lambda o, w: [o + 1, 2 * o, o - w.M], mulu=lambda o, w: [o * w.u, w.M * o], wedgeu=lambda o, w: o ^ w.u,
        dotu=lambda o, w: [o | w.u, w.u | o], lcu=lambda o, w: [o < w.M, w.B < o], rcu=lambda o, w: [o > w.u, w.M > o],
        div=lambda o, w: w.u / o, power=lambda o, w: [o ** 2, o ** 3], diff=lambda o, w: o.diff(X[0]), pdiff=lambda o, w: o.pdiff(X[1]),
        grad=lambda o, w: w.g.grad * o, rgrad=lambda o, w: o * w.g.rgrad, sp=lambda o, w: [o.sp(w.M), w.u.sp(o)],
        proj=lambda o, w: o.proj([w.e[0], w.e[0] ^ w.e[1]]), reflect=lambda o, w: o.reflect_in_blade(w.e[0]),
        project=lambda o, w: o.project_in_blade(w.e[1]), mirror=lambda o, w: w.v.reflect_in_blade(o), lt=lambda o, w: w.L(o),
        versorlt=lambda o, w: w.g.lt(o)(w.v))
    return d


METHODS = _methods()


def _sub(w):
    u = [Symbol('u', real=True), Symbol('v', real=True)]
    sm = w.g.sm([u[0], u[0] * u[1], S(2)], u)
    a = sm.mv()
    return [list(sm.g), a[0] * a[1], sm.grad * (u[0] * a[0])]


def _gaeval(w):
    from galgebra import printer
    printer.def_prec(dict(u=w.u, v=w.v, B=w.B))
    return [printer.GAeval('u*v^B'), printer.GAeval('u|v*B')]


def _another(w):
    from galgebra.ga import Ga
    g = Ga('e_x e_y e_z', g=[1, 2, 3], coords=X)
    a = g.mv()
    return [a[0] * a[1] * a[2], a[2] * a[2], g.grad * (X[0] * a[1])]


def _errors(w):
    out = []
    for f in (lambda: w.Z.inv(), lambda: w.M ** 'x', lambda: w.L + 1, lambda: w.M.blade_coefs([w.M]), lambda: w.T(1, 2, 3, 4),
              lambda: w.u.reflect_in_blade(w.M), lambda: w.g.lt(w.M), lambda: w.g.mv('A', 'nothing'), lambda: w.g.sm([1], X)):
        try:
            f()
            out.append('ok')
        except Exception as e:
            out.append(type(e).__name__)
    return out


# --- what was observed ----------------------------------------------------------------------------
def fp(v, maps, n, pt):
    """a value as nested lists: coefficients evaluated by the homomorphism, texts as they are"""
    from galgebra import mv, dop, lt
    from sympy import MatrixBase
    rec = lambda t: fp(t, maps, n, pt)
    if isinstance(v, mv.Mv):
        return ['mv', num(v.obj, maps, n, pt)]
    if isinstance(v, mv.Dop):
        return ['dop', bool(v.cmpflg)] + sorted(([str(sorted(map(str, p.pdiffs.items()))), rec(c)] for c, p in v.terms), key=str)
    if isinstance(v, dop.Sdop):
        return ['sdop'] + sorted(([str(sorted(map(str, p.pdiffs.items()))), rec(c)] for c, p in v.terms), key=str)
    if isinstance(v, dop.Pdop):
        return ['pdop', str(sorted(map(str, v.pdiffs.items())))]
    if isinstance(v, lt.Lt):
        return ['lt'] + [num(v.lt_dict.get(b, S.Zero), maps, n, pt) for b in v.Ga.basis]
    if isinstance(v, lt.Mlt):
        return ['mlt', v.nargs, rec(v.fvalue)]
    if isinstance(v, (str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [rec(t) for t in v]
    if isinstance(v, MatrixBase):
        return ['mat'] + [rec(t) for t in v]
    return ['ex', num(sympify(v), maps, n, pt)]


def num(ex_, maps, n, pt):
    from galgebra import mv
    if isinstance(ex_, mv.Mv):
        ex_ = ex_.obj
    ex_ = sympify(ex_)
    try:
        lo, hi = alg.eval_mv(pt, ex_, maps, n)
        return [lo, hi]
    except (gf.Unsupported, gf.Malformed, gf.NonFinite):
        return srepr(expand(ex_))


class Runner:
    def __init__(self, seed):
        self.ws = build()
        self.q = make_queries()
        self.pt = gf.Point('%s/0/1' % seed, lcm=1)
        self.maps = [index_maps(w.g) for w in self.ws]

    def fingerprint(self, a, v):
        return json.dumps(fp(v, self.maps[a], self.ws[a].g.n, self.pt))

    def operands(self):
        out = []
        for a, w in enumerate(self.ws):
            for o in OPERANDS:
                out.append(self.fingerprint(a, getattr(w, o)))
        return out

    def step(self, st):
        from galgebra.ga import Ga
        from galgebra import metric
        op = st['op']
        if op == 'dualmode':
            Ga.dual_mode(st['s'])
            return ''
        if op == 'dotmode':
            self.ws[st['al'] - 1].g.dot_mode = st['s']
            return ''
        if op == 'operands':
            return self.operands()
        a = st['al'] - 1
        try:
            return self.fingerprint(a, self.q[st['q']]['f'](self.ws[a]))
        except vlib.Timeout:
            raise
        except Exception as e:
            return 'EXC %s: %s' % (type(e).__name__, re.sub('0x[0-9a-f]+', '', str(e))[:80])

    def run(self, steps, lim):
        """in a child process: [answers], operands"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = [[], None]
            try:
                os.close(r)
                try:
                    with vlib.time_limit(lim):
                        for st in steps:
                            out[0].append(self.step(st))
                        out[1] = self.operands()
                except vlib.Timeout:
                    pass
                except BaseException as e:
                    out[1] = 'crash %r' % e
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else [[], None]


_R = None


def _job(steps_lim):
    global _R
    if _R is None:
        raise RuntimeError('no world')
    return [_R.run(*sl) for sl in steps_lim]


def queries():
    return make_queries()


def asks(q):
    return [(n, a) for n, d in q.items() for a in range(1, len(ALGS) + 1) if not d['only'] or a in d['only']]


def check(rep, histories, budget=500):
    """histories: [(id, steps)]; a step is an ask, a mode change or 'operands'"""
    import tempfile
    global _R
    _R = Runner('pt%d' % vlib.SEED)           # every process below is forked from this one
    q = _R.q
    refs = []
    for n, a in asks(q):
        for d in MODES if q[n]['dual'] else ['']:
            for t in ['|', '<', '>'] if q[n]['dot'] else ['']:
                st = ([dict(op='dualmode', s=d)] if d else []) + ([dict(op='dotmode', s=t, al=a)] if t else [])
                refs.append((n, a, d, t, st + [dict(op='ask', q=n, al=a)]))
    chunk = 8
    t0 = time.time()
    rj = [[(r[4], 20) for r in refs[i:i + chunk]] for i in range(0, len(refs), chunk)]
    hj = [[(h[1], 4 + .5 * len(h[1])) for h in histories[i:i + chunk]] for i in range(0, len(histories), chunk)] \
        if len(histories) > 400 else [[(h[1], 4 + .5 * len(h[1]))] for h in histories]
    rr, d1 = vlib.pmap(_job, rj, budget=budget)
    hh, d2 = vlib.pmap(_job, hj, budget=max(20, budget - (time.time() - t0)))
    base = _R.run([], 20)[1]
    t1 = time.time()
    table = {}
    ints = lambda s: table.setdefault(s, len(table) + 1)
    back = lambda i: next((s for s, k in table.items() if k == i), '?')
    ref = {n: [[] for _ in ALGS] for n in q}
    flat = [x for r, job in zip(rr, rj) for x in (r if r else [None] * len(job))]
    norefs = 0
    for (n, a, d, t, st), x in zip(refs, flat):
        if x and len(x[0]) == len(st):
            ref[n][a - 1].append([d, t, ints(x[0][-1])])
        else:
            norefs += 1
    opnd = [ints(s) for s in base]
    sess, skipped = [], 0
    flat = [x for r, job in zip(hh, hj) for x in (r if r else [None] * len(job))]
    known = {(n, a + 1) for n in ref for a in range(len(ALGS)) if ref[n][a]}
    for (id, steps), x in zip(histories, flat):
        if not x:
            skipped += len(steps)
            continue
        lines = []
        for i, st in enumerate(steps):
            if i >= len(x[0]):
                skipped += len(steps) - i
                break
            ln = dict(op=st['op'], q=st.get('q', ''), m=st.get('q', '').split('@')[0], alg=st.get('al', 1), s=st.get('s', ''), st='ok', obs=[])
            if st['op'] == 'ask':
                if (st['q'], st['al']) not in known:
                    ln['st'] = 'skip'
                ln['obs'] = [ints(x[0][i])]
            elif st['op'] == 'operands':
                ln['obs'] = [ints(s) for s in x[0][i]]
            lines.append(ln)
        if isinstance(x[1], str):
            lines.append(dict(op='operands', q='', m='', alg=1, s='', st='exc', obs=[]))
        elif x[1] is not None:
            lines.append(dict(op='operands', q='', m='', alg=1, s='', st='ok', obs=[ints(s) for s in x[1]]))
        sess.append(dict(id=id, lines=lines))
    fd, path = tempfile.mkstemp(suffix='.json', prefix='trace_')
    with os.fdopen(fd, 'w') as f:
        json.dump(dict(m=0, algs=[dict(ref=ref, operands=opnd)], sess=sess), f)
    try:
        r = vlib.run_tlc('HistTrace', 'HistTrace.cfg', env=dict(TRACE=path))
    finally:
        os.unlink(path)
    rep.add_tlc(r)
    verdicts = {v['sess']: v for v in r['lines'] if v.get('tag') in ('DONE', 'DIVERGE')}
    if not r['ok'] or len(verdicts) != len(sess):
        raise vlib.TlcError('%d verdicts of %d\n%s' % (len(verdicts), len(sess), r['text'][-4000:]))
    rep.traces += len(sess)
    rep.extra.update(queries=len(q), answers_checked=sum(len(s['lines']) for s in sess), answers_not_checked=skipped,
                     references=len(refs), references_missing=norefs, histories_dropped=d2 * chunk,
                     exec_s=round(t1 - t0, 1), tlc_s=round(time.time() - t1, 1))
    hs = dict(histories)
    for s in sess:
        v = verdicts[s['id']]
        if v['tag'] == 'DONE':
            if len(rep.samples) < 6 and len(s['lines']) > 3:
                rep.sample(dict(history=s['id'], steps=[text(st) for st in hs[s['id']][:10]]))
            continue
        ln = s['lines'][v['line'] - 1]
        steps = hs[s['id']][:v['line']]
        if ln['op'] == 'operands':
            bad = [i for i, (p, w) in enumerate(zip(ln['obs'], opnd)) if p != w]
            names = ['%s of %s' % (OPERANDS[i % len(OPERANDS)], ALGS[i // len(OPERANDS)]) for i in bad]
            what = 'operands changed: %s' % ', '.join(names[:6])
            info = dict(now=[back(ln['obs'][i])[:2000] for i in bad[:3]], before=[back(opnd[i])[:2000] for i in bad[:3]])
        else:
            what = 'query %s of %s' % (ln['q'], ALGS[ln['alg'] - 1])
            info = dict(answer=back(ln['obs'][0])[:3000], fresh=[back(w)[:3000] for w in v['want']])
        rep.violation('%s/%s' % (s['id'], ln['q'] or 'operands'), '%s after %s' % (what, '; '.join(text(st) for st in steps[-4:])),
                      dict(history=[text(st) for st in steps], **info))


def text(st):
    return ' '.join(str(st[k]) for k in ('op', 'q', 's', 'al') if st.get(k))
