"""Print modes: histories of mode switches, printed lines and documents on the real code (judged by PmTrace.tla).

Every history runs in a process of its own with a scratch directory; the programs that would show or tidy up a document are
replaced by stand-ins that record how they are called.
"""
import os
import io
import sys
import pickle
import shutil
import tempfile

import vlib
import alg

COLS = [dict(base=None, fct=None, deriv=None), dict(), dict(base='green', fct=None, deriv='purple')]


def build():
    from sympy import symbols, Function, Symbol, Matrix, Derivative, sin
    from galgebra.ga import Ga
    from galgebra.lt import Mlt
    Ga.dual_mode('I+')
    x, y, z = X = symbols('x y z', real=True)
    a, b = symbols('a b', real=True)
    f, h = Function('f')(x, y), Function('h')(x)
    g = Ga('e_x e_y e_z', g=[1, 1, 1], coords=X)
    ob = Ga('e1 e2', g='1 1,1 3')
    ex, ey, ez = g.mv()
    u, v = ob.mv()
    M = f * ex + (a + b) * (ex ^ ey) - 2 * (ex ^ ey ^ ez) + a
    F = h.diff(x) * ex - y * ey + 3 * ez
    return [M, F, M.Fmt(2), M.Fmt(3, 'M'), F.Fmt(1, 'F'), g.grad, g.lt([ex + ey, a * ez, ex - ez]), Mlt(lambda p, q: p | q, g, nargs=2),
            Derivative(f, x), sin(x) * f + a, a * Symbol('beta') + f ** 2 - 1, Symbol('alpha'), (u * v + 2).base_rep(), a * u + u * v,
            (g.pdop({x: 1}) if hasattr(g, 'pdop') else g.grad), ex ^ ey]


def _render(objs):
    import warnings
    from sympy.printing.str import StrPrinter
    from galgebra.printer import GaPrinter, GaLatexPrinter
    from galgebra.mv import Mv
    warnings.simplefilter('ignore')
    names = [('basis_vector_color', 'base', 'blue'), ('function_color', 'fct', 'red'), ('derivative_color', 'deriv', 'cyan')]
    out = []
    for o in objs:
        out.append(dict(own=1 if isinstance(o, Mv) else 0,
            l=[[GaLatexPrinter(dict(omit_function_args=bool(F), omit_partial_derivative_fraction=bool(D), galgebra_mv_fmt=mv)).doprint(o)
                for mv in (1, 2, 3)] for F in (0, 1) for D in (0, 1)],
            t=[[GaPrinter(dict({k: c.get(n, d) for k, n, d in names}, galgebra_mv_fmt=mv)).doprint(o) for mv in (1, 2, 3)] for c in COLS],
            s=[StrPrinter(dict(galgebra_mv_fmt=mv)).doprint(o) for mv in (1, 2, 3)]))
    return out


def forked(fn, limit):
    """result of fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = fn()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        except BaseException as e:          # reported by the parent as no result
            try:
                os.write(w, b'')
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    import select
    import time
    buf, end = b'', time.time() + limit
    while True:
        if not select.select([r], [], [], max(0.1, end - time.time()))[0]:
            os.kill(pid, 9)
            break
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else None


class World:
    pass


def play(sess, objs, scratch):
    import subprocess
    import warnings
    import builtins
    from galgebra import printer, gprinter
    import prdemo
    warnings.simplefilter('ignore')
    os.chdir(scratch)
    term = io.StringIO()
    sys.stdout = term
    sys.argv = ['prog.py']
    cmds = []
    os.system = lambda c: cmds.append(c.strip()) or 0
    os.remove = lambda a: cmds.append('remove %s' % a)
    os.rename = lambda a, b: cmds.append('rename %s %s' % (a, b))
    subprocess.call = lambda a, **k: cmds.append(' '.join(a)) or 0
    builtins.input = lambda *a: cmds.append('input') or ''
    P = builtins.print
    lines, pos = [], 0

    def item(it):
        k = it['k']
        if k == 's':
            return it['t']
        if k == 'type':
            return {'int': int, 'dict': dict}[it['c']]
        o = objs[it['o'] - 1]
        return {'o': lambda: o, 'str': lambda: str(o), 'repr': lambda: repr(o), 'latex': lambda: printer.latex(o)}[k]()

    def doc(text):
        if text.count('\\begin{document}') != 1 or text.count('\\end{document}') != 1 or '\\pagestyle{empty}' not in text:
            return dict(head=['no document'])
        head, rest = text.split('\\pagestyle{empty}', 1)
        body = rest.split('\\begin{document}', 1)[1].split('\\end{document}')[0]
        return dict(head=[a for a in head.split('\n') if a], body=[a for a in body.split('\n') if a], raw=body)

    def paper(st):
        p = st.get('paper', 'letter')
        return p if isinstance(p, str) else tuple(int(v) if v == int(v) else v for v in p)
    for st in sess['steps']:
        op, obs, status = st['op'], {}, 'ok'
        del cmds[:]
        try:
            if op == 'print':
                kw = {}
                if 'sep' in st:
                    kw['sep'] = st['sep']
                if 'end' in st:
                    kw['end'] = st['end']
                P(*[item(i) for i in st['items']], **kw)
            elif op == 'format':
                printer.Format(bool(st['F']), bool(st['D'])) if st.get('pos') else printer.Format(Fmode=bool(st['F']), Dmode=bool(st['D']))
            elif op == 'latexformat':
                printer.LatexFormat(bool(st['F']), bool(st['D']), ipy=bool(st['ipy']))
            elif op == 'redirect':
                printer.GaLatexPrinter.redirect()
            elif op == 'restore':
                printer.GaLatexPrinter.restore()
            elif op == 'tex':
                if st.get('prog'):
                    open('prog.py', 'w').write(st['src'])
                obs.update(doc(printer.tex(paper=paper(st), prog=bool(st.get('prog')), pt=st.get('pt', '10pt'))))
            elif op in ('xpdf', 'gxpdf'):
                if st.get('prog'):
                    open('prog.py', 'w').write(st['src'])
                kw = dict(paper=paper(st), pt=st.get('pt', '10pt'), crop=bool(st.get('crop')), png=bool(st.get('png')))
                kw['pdfprog'] = st['pdf'] or None
                name = st.get('name')
                if op == 'xpdf':
                    printer.xpdf(filename=name, prog=bool(st.get('prog')), **kw)
                else:
                    gprinter.gxpdf(filename=name, evince=bool(st.get('evince')), rm=bool(st.get('rm')), documentclass=st['cls'], **kw)
                obs.update(doc(open(name or 'prog.tex').read()))
                obs['cmds'] = [c.strip() for c in cmds]
                if op == 'gxpdf':
                    obs['text'] = obs.pop('raw').lstrip('\n')
                    obs.pop('body', 0)
            elif op == 'eprint':
                (printer.Eprint if st.get('alias') else printer.enhance_print)(**COLS[st['col'] - 1])
            elif op == 'fmt':
                printer.Fmt(st['mv'])
            elif op == 'getprog':
                printer.Get_Program(bool(st['off']))
            elif op == 'printfn':
                getattr(prdemo, st['fn'])()
            elif op == 'gformat':
                gprinter.gFormat(bool(st['F']), bool(st['D']))
            elif op == 'gprint':
                gprinter.gprint(*[item(i) for i in st['items']])
            elif op == 'gprintfn':
                getattr(prdemo, st['fn'])()
            elif op == 'latex':
                obs['text'] = ''.join(item(i) for i in st['items'])
            elif op == 'container':
                vals = [objs[i['o'] - 1] for i in st['items']]
                c = {'list': lambda: vals, 'tuple': lambda: tuple(vals), 'dict': lambda: {_sym(i['key']): v for i, v in zip(st['items'], vals)}}[st['kind']]()
                obs['text'] = printer.Fmt(c, st['mode'])
        except Exception as e:
            status, obs = 'exc', dict(error='%s: %s' % (type(e).__name__, e))
        obs.pop('raw', 0)
        t = term.getvalue()
        obs.update(term=t[pos:], out='term' if sys.stdout is term else 'cap', flg=int(printer.GaLatexPrinter.latex_flg),
                   gflg=int(gprinter.LaTeX.latex_flg))
        pos = len(t)
        lines.append((status, obs))
        if status != 'ok':
            break
    return lines


def _sym(name):
    from sympy import Symbol
    return Symbol(name)


OBJS = None


def source(fn):
    import inspect
    import prdemo
    return inspect.getsource(getattr(prdemo, fn))


def trace(sess, seed, lim):
    scratch = tempfile.mkdtemp(prefix='prm_')
    try:
        res = forked(lambda: play(sess, OBJS, scratch), lim)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res is None:
        return dict(lines=[], algs=[], note='no result', skipped=len(sess['steps']))
    out = []
    for st, (status, obs) in zip(sess['steps'], res):
        p = st.get('paper', 'letter')
        name = st.get('name') or 'prog.tex'
        ln = dict(op=st['op'], st=status, obs=obs, sep=' ', end='\n', items=[], F=0, D=0, ipy=0, col=1, mv=1, off=0, src='', pt='10pt', prog=0, crop=0,
                  png=0, pdf='', cls='book', evince=0, rm=0, kind='', root=name[:-4], text=str(obs))
        for k in ln:
            if k in st and k not in ('op', 'st', 'obs', 'text', 'items'):
                ln[k] = st[k]
        ln['paper'] = [0, 0] if p == 'letter' else [22, 17] if p == 'landscape' else [int(2 * v) for v in p]
        if 'fn' in st:
            ln['src'] = source(st['fn'])
        ln['items'] = [dict(k=i['k'] if st['op'] != 'container' else 'o', t=_text(i), o=i.get('o', 1)) for i in st.get('items', [])]
        out.append(ln)
    return dict(lines=out, algs=[], skipped=0)


def _text(i):
    if i['k'] == 'type':
        return str({'int': int, 'dict': dict}[i['c']])
    return i.get('t', i.get('key', ''))


def check(rep, sessions, **kw):
    global OBJS
    OBJS = build()
    table = forked(lambda: _render(OBJS), 120)
    if table is None:
        raise RuntimeError('no rendering of the objects')
    return alg.check_sessions(rep, sessions, module='PmTrace', cfg='PmTrace.cfg', tracer=trace, extra=dict(objs=table), **kw)
