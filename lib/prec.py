"""Expressions evaluated by GAeval: sessions on the real code and their traces (judged by PrecTrace.tla)."""
import contextlib
import io
import random

from sympy import S

import gf
import vlib
import alg
from alg import ex, eval_mv, index_maps, CFGS
from calc import blade

GROUPS = ['<>|', '^', '*']
NAMES = ['A', 'B', 'C', 'x1', 'e_x', 'Bv', 'AB']
METHS = ['.rev', '.dual']


class T:
    """an operand that records the tree of the operations applied to it, in postfix form"""
    def __init__(self, p):
        self.p = p

    def __bool__(self):
        raise TypeError('truth value of a product')

    def rev(self):
        return T(self.p + ['.rev'])

    def dual(self):
        return T(self.p + ['.dual'])

    def __neg__(self):
        return T(self.p + ['neg'])


def _num(x):
    if isinstance(x, T):
        return x.p
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return [repr(-x), 'neg'] if x < 0 else [repr(x)]
    raise TypeError('operand %r' % (x,))


def _bin(name, op):
    setattr(T, '__%s__' % name, lambda a, b: T(_num(a) + _num(b) + [op]))
    setattr(T, '__r%s__' % name, lambda a, b: T(_num(b) + _num(a) + [op]))


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('xor', '^'), ('or', '|')):
    _bin(_n, _o)
T.__lt__ = lambda a, b: T(_num(a) + _num(b) + ['<'])
T.__gt__ = lambda a, b: T(_num(a) + _num(b) + ['>'])


def func(name):
    def f(*args):
        if not args:
            raise TypeError('no arguments')
        return T([t for a in args for t in _num(a)] + ['%s(%d' % (name, len(args))])
    return f


def dictionary(d):
    e = {n: T(['%s@%d' % (n, d)]) for n in NAMES}
    e.update(f=func('f'), gg=func('gg'))
    return e


def text(toks, ws):
    """the tokens as a line, with white space where it changes nothing"""
    r = random.Random(ws)
    out = ''
    for i, t in enumerate(toks):
        if out and (out[-1].isalnum() or out[-1] == '_') and (t[0].isalnum() or t[0] == '_'):
            out += ' '
        elif ws and r.random() < .3 and not t.startswith('.') and not t.startswith(')'):
            out += r.choice([' ', '  '])
        out += t + ('()' if t.startswith('.') else '')
    return out


def run_step(env, st):
    from galgebra import printer
    op = st['op']
    if op == 'prec':
        gd = env['gd'] if st.get('real') else dictionary(st['d'])
        if st.get('default'):
            printer.def_prec(gd)
        else:
            printer.def_prec(gd, st['s'])
        env['cur'] = gd
        return None
    if op in ('eval', 'value', 'bad'):
        line = st['text'] if op == 'bad' else text(st['toks'], st.get('ws', 0))
        if st.get('pstr'):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                v = printer.GAeval(line, pstr=True)
            shown = buf.getvalue().splitlines()
            if shown[0] != line:
                raise ValueError('printed %r' % shown[0])
            v = eval(shown[1], dict(env['cur']))
        else:
            v = printer.GAeval(line)
        if op == 'value':
            return v
        return _num(v)
    if op == 'mv':
        g = env['ga']
        obj = S.Zero
        for m, e in st['coef'].items():
            obj += ex(e) * blade(g, int(m))
        env['gd'][st['s']] = g.mv(obj)
        return env['gd'][st['s']]
    if op == 'obs':
        return env['gd'][st['s']]
    raise KeyError(op)


def trace(sess, seed, lim):
    env = dict(gd={})
    cfgs = [CFGS[c] for c in sess['algs']]
    with vlib.time_limit(lim):
        if cfgs:
            env['ga'] = cfgs[0].build()
            maps = index_maps(env['ga'])
        rec = []
        for st in sess['steps']:
            try:
                rec.append((st, 'ok', run_step(env, st)))
            except vlib.Timeout:
                raise
            except Exception as e:
                rec.append((st, 'exc', '%s: %s' % (type(e).__name__, e)))
        pt = gf.Point('%s/0/1' % seed, lcm=1)
        lines = []
        for st, status, v in rec:
            ln = dict(op=st['op'], ord=st.get('ord', []), d=st.get('d', 0), s=st.get('s', ''), toks=st.get('toks', []),
                      names=NAMES if st['op'] == 'eval' else [], calls=['f(', 'gg('], meths=METHS, st=status, post=[], obs=[], obsb=[], df=[])
            if cfgs:
                ln['al'] = 1
            if st['op'] == 'mv':
                ln['df'] = [pt.ev(ex(st['coef'].get(str(m), 0))) for m in range(1 << cfgs[0].n)]
            if status == 'ok':
                if st['op'] == 'eval':
                    ln['post'] = v
                elif st['op'] in ('value', 'mv', 'obs'):
                    try:
                        ln['obs'], ln['obsb'] = eval_mv(pt, v, maps, cfgs[0].n)
                    except gf.Malformed:
                        ln['st'] = 'malformed'
            lines.append(ln)
        algs = [dict(n=c.n, g=[[pt.ev(e) for e in r] for r in c.G]) for c in cfgs]
    return dict(lines=lines, algs=algs, skipped=0)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='PrecTrace', cfg='PrecTrace.cfg', tracer=trace, **kw)


def replay(rep, lines):
    """the expressions of the model, evaluated by the code: every operand gets a name of its own"""
    from galgebra import printer
    pool = ['A', 'B1', 'c_', 'Dd', 'e', 'F', 'G', 'H']
    env = {n: T([n]) for n in pool}
    n, cur = 0, None
    bad = 0
    for ln in sorted(lines, key=lambda v: v['ord']):
        if ln['ord'] != cur:
            cur = ln['ord']
            printer.def_prec(env, ','.join(GROUPS[i - 1] for i in cur))
        def name(seq):
            it = iter(pool)
            return [next(it) if t == 'a' else t for t in seq]
        line, want = ''.join(name(ln['toks'])), name(ln['post'])
        try:
            got = _num(printer.GAeval(line))
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        n += 1
        if got != want:
            bad += 1
            if bad <= 5:
                rep.violation('C18/replay/%s' % line, 'GAeval(%r) with order %s: %s, expected %s' % (line, cur, got, want),
                              dict(expression=line, order=cur, got=got, want=want))
    rep.extra['expressions_replayed'] = n
    if bad > 5:
        print('  and %d more expressions' % (bad - 5))
