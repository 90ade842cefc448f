"""Printed text and LaTeX: sessions on the real code, cut into tokens (read and judged by PrintTrace.tla).

Only the spelling of names is known here (which letters make up a symbol, a function, a basis vector, a derivative
symbol); precedence, signs, grouping, products and lines are read by the specification.
"""
import itertools
import re

import sympy
from sympy import S, Symbol, Matrix, Derivative
from sympy.core.function import AppliedUndef

import gf
import vlib
import alg
import ops
import mlt
from alg import ex, SYM, FUN, eval_mv, index_maps, BuildError
from calc import blade

GREEK = ('theta', 'alpha', 'beta', 'rho', 'phi')


PC = {c.id: c for c in [
    alg.Cfg('pr3', 'e_x e_y e_z', [1, 1, 1], coords='x y z'),
    alg.Cfg('pob3', 'e_x e_y e_z', '1 1 0,1 3 0,0 0 -1', coords='x y z'),
    alg.Cfg('pnw3', 'e_x e_y e_z', '1 1 0,1 3 0,0 0 -1', coords='x y z', wedge=False),
    alg.Cfg('pwo3', 'e_1 e_2 e_3', [1, -1, 0], coords='x y z', wedge=False),
    alg.Cfg('pgr2', 'e_theta u', ['1', 'x**2'], coords='x th'),
    alg.Cfg('pbn3', 'e1 e2 e3', '2 1 1,1 2 1,1 1 2', coords='x y z'),
    alg.Cfg('pst4', 'e_t e_x e_y e_z', [1, -1, -1, -1], coords='t x y z'),
    alg.Cfg('pob4', 'e1 e2 e3 e4', '1 1 0 0,1 3 1 0,0 1 2 -1,0 0 -1 -1'),
    alg.Cfg('psp3', 'e_r e_th e_phi', ['1', 'r**2', 'r**2*sin(th)**2'], G=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], coords='r th phi', norm=True),
    alg.Cfg('psy2', 'u_1 u_2', '# #,# #'),
    alg.Cfg('pe5', 'e_1 e_2 e_3 e_4 e_5', [1, 1, 1, 1, -1]),
    alg.Cfg('pon1', 'e_x,', ['1'], coords='x'),
]}


# --- spelling -------------------------------------------------------------------------------------
def lex(s, tex):
    """lexemes: numbers, names (single letters in LaTeX), control words, signs; spaces only separate"""
    if tex:
        pat = r'\d+\.\d+|\d+|\\[a-zA-Z]+|\\.|[a-zA-Z]|\S'
    else:
        pat = r'\d+\.\d+|\d+|[A-Za-z_][A-Za-z_0-9]*|\*\*|\n|\S'
    out = re.findall(pat, s)
    return [r'\mathbf' if t == r'\boldsymbol' else t for t in out if t not in (r'\left', r'\right')] if tex else out


def _glyphs(s):
    out, i = '', 0
    while i < len(s):
        g = next((g for g in GREEK if s.startswith(g, i)), None)
        out += '\\%s ' % g if g else s[i]
        i += len(g) if g else 1
    return out


def tex_name(name, bold=False):
    m = re.match(r'^([A-Za-z]+?)(\d+)$', name)
    if m:
        base, sup, sub = m.group(1), [], [m.group(2)]
    else:
        base, rest = re.match(r'^([^_]*)(.*)$', name).groups()
        parts = re.findall(r'(_+)([^_]+)', rest)
        sup = [x for u, x in parts if u == '__']
        sub = [x for u, x in parts if u == '_']
    base = _glyphs(base)
    if bold:
        base = r'\boldsymbol{' + base + '}'
    if sup:
        base += '^{%s}' % ' '.join(map(_glyphs, sup))
    if sub:
        base += '_{%s}' % ' '.join(map(_glyphs, sub))
    return base


def txt(e):
    """spelling of a simple argument"""
    return sympy.sstr(e)


def atom_names(e, tex):
    """spellings of an atom: galgebra's own for symbols, fields and their derivatives; sympy's for known functions"""
    if isinstance(e, Symbol) and e.name[0] == '(':
        return [('(' + r'\cdot '.join(tex_name(v, True) for v in e.name[1:-1].split('.')) + ')') if tex else e.name]
    if isinstance(e, Symbol):
        return [tex_name(e.name)] if tex else [e.name]
    if isinstance(e, AppliedUndef):
        f = e.func.__name__
        if tex:
            return [tex_name(f) + '(' + ','.join(tex_name(a.name) for a in e.args) + ')', tex_name(f), sympy.latex(e),
                    tex_name(f) + '{(' + ','.join(tex_name(a.name) for a in e.args) + ')}']
        return [f, sympy.sstr(e)]
    if isinstance(e, Derivative):
        vs = [(v, int(k)) for v, k in e.variable_count]
        out = [sympy.latex(e) if tex else sympy.sstr(e)]
        for p in itertools.permutations(vs):
            if not tex:
                out += ['D' + ''.join('{%s}' % v.name + ('^%d' % k if k > 1 else '') for v, k in p) + n
                        for n in atom_names(e.expr, False)]
                continue
            tot = sum(k for _, k in p)
            head = [''.join(r'\partial_{%s}' % tex_name(v.name) if k == 1 else r'\partial^{%d}_{%s}' % (k, tex_name(v.name))
                            for v, k in p),
                    r'\frac{\partial%s}{' % ('^{%d}' % tot if tot > 1 else '')
                    + ''.join(r'\partial%s %s' % ('^{%d}' % k if k > 1 else '', tex_name(v.name)) for v, k in p) + '}']
            out += [h + n for h in head for n in atom_names(e.expr, True)]
        return out
    if tex:
        if isinstance(e, sympy.exp):
            return ['e^{%s}' % sympy.latex(e.args[0])]
        if e.is_Pow:
            return [r'\sqrt{%s}' % sympy.latex(e.base)] if e.exp == S.Half else [sympy.latex(e)]
        return [r'\%s{(%s)}' % (e.func.__name__, sympy.latex(e.args[0])), sympy.latex(e)]
    if e.is_Pow:
        return ['sqrt(%s)' % txt(e.base)] if e.exp == S.Half else [sympy.sstr(e)]
    return ['%s(%s)' % (e.func.__name__, txt(e.args[0]))]


def exp_sums(atoms):
    """exponentials of the sums the arguments may be gathered into"""
    ts = sorted({t if not sympy.sinh(t).is_Mul else -t for e in atoms if isinstance(e, sympy.exp)
                 for t in sympy.Add.make_args(e.args[0]) if t.as_coeff_Mul()[0] in (1, -1)}, key=str)
    return {sympy.exp(i * a + j * b) for a, b in itertools.combinations(ts, 2) for i in range(-3, 4) for j in range(-3, 4)
            if i or j} | {sympy.exp(i * a) for a in ts for i in range(-3, 4) if i}


def atoms_of(e, out):
    if isinstance(e, (Symbol, AppliedUndef, Derivative)):
        out.add(e)
        if isinstance(e, Derivative):
            out.add(e.expr)
        return
    if e.is_Pow and e.exp.is_Rational and e.exp.q == 2:
        out.update(e.base ** sympy.Rational(k, 2) for k in (1, 3, 5, -3, -5))
        atoms_of(e.base, out)
        return
    if isinstance(e, sympy.exp):
        out.add(e)
        for t in sympy.Add.make_args(e.args[0]) + (e.args[0],):
            t = -t if sympy.sinh(t).is_Mul else t
            out.update((sympy.exp(t), sympy.exp(-t), sympy.exp(2 * t), sympy.exp(-2 * t), sympy.sinh(t), sympy.cosh(t)))
        return
    if e.is_Function:
        out.add(e)
        if e.func in (sympy.sin, sympy.cos, sympy.tan):           # simplification may bring in the double angle ...
            out.update(f(k * e.args[0]) for f in (sympy.sin, sympy.cos, sympy.tan) for k in (1, 2))
        if e.func in (sympy.sinh, sympy.cosh):
            for h in (sympy.sinh, sympy.cosh):                     # ... or trade exponentials for hyperbolic functions
                out.update((h(e.args[0]), h(2 * e.args[0])))
            atoms_of(sympy.exp(e.args[0]), out)
        return
    for a in e.args:
        atoms_of(a, out)


class Book:
    """every spelling with the token it stands for"""

    def __init__(self, cfg, g, atoms, slots=()):
        self.n = cfg.n
        self.tab = {False: [], True: []}
        bn = [b for b in cfg.basis.replace(',', ' ').split()]
        for tex in (False, True):
            T = self.tab[tex]
            for e in atoms:
                for s in atom_names(e, tex):
                    T.append((tuple(lex(s, tex)), ('atom', e)))
            for e in slots:
                T.append((tuple(lex(tex_name(e.name) if tex else e.name, tex)), ('atom', e)))
            for m in range(1, 1 << self.n):
                ix = [i for i in range(self.n) if m >> i & 1]
                if len(ix) > 1 and cfg.kw.get('wedge', True):
                    continue
                nm = bn[ix[0]] if len(ix) == 1 else bn[0].split('_')[0] + '_' + ''.join(bn[i].split('_')[1] for i in ix)
                T.append((tuple(lex(tex_name(nm, True) if tex else nm, tex)), ('vec', m)))
            cs = [SYM[c] for c in cfg.coords.split()] if cfg.coords else []
            self.mis = ops.mis(len(cs)) if cs else [()]
            for i, mi in enumerate(self.mis):
                vs = [(c, k) for c, k in zip(cs, mi) if k]
                if not vs:
                    if not tex:
                        T.append((tuple(lex('D{}', tex)), ('D', 0)))
                    continue
                for p in itertools.permutations(vs):
                    if tex:
                        tot = sum(mi)
                        s = r'\frac{\partial%s}{' % ('^{%d}' % tot if tot > 1 else '') \
                            + ''.join(r'\partial %s%s' % (tex_name(v.name), '^{%d}' % k if k > 1 else '') for v, k in p) + '}'
                    else:
                        s = 'D' + ''.join('{%s}' % v.name + ('^%d' % k if k > 1 else '') for v, k in p)
                    T.append((tuple(lex(s, tex)), ('D', i)))
            T.sort(key=lambda t: -len(t[0]))

    def cut(self, s, tex):
        """tokens of a printed string"""
        if tex:
            m = re.match(r'^\s*\\begin\{aligned\}(\[t\])?(.*)\\end\{aligned\}\s*$', s, re.S)
            lines = None
            if m:
                lines = m.group(2).split('\\\\')
                if len(lines) > 1 and not lines[-1].strip():
                    lines.pop()
                if not all(x.strip().startswith('&') for x in lines):
                    return [('?', 'lines')]
                s = '\n'.join(x.strip()[1:] for x in lines)
        toks = []
        for k, part in enumerate(s.split('\n')):
            if k:
                toks.append(('NL', 0))
            lx, i = lex(part, tex), 0
            while i < len(lx):
                for names, tok in self.tab[tex]:
                    if tuple(lx[i:i + len(names)]) == names:
                        toks.append(tok)
                        i += len(names)
                        break
                else:
                    t = lx[i]
                    i += 1
                    if re.match(r'^\d', t):
                        toks.append(('num', t))
                    elif tex and t == '^':
                        toks.append(('**', 0))
                    elif tex and t in (r'\cdot', r'\frac', r'\wedge'):
                        toks.append(({r'\cdot': '*', r'\frac': 'frac', r'\wedge': '^'}[t], 0))
                    elif t in '+-*/(){}^' or t == '**':
                        toks.append((t, 0))
                    else:
                        toks.append(('?', t))
        return toks


def tok_json(toks, pt):
    out = []
    for k, v in toks:
        if k == 'num':
            q = sympy.Rational(v)
            out.append([k, pt.ev(q), int(v) if '.' not in v and len(v) < 9 else -1])
        elif k == 'atom':
            out.append([k, pt.ev(v), 0])
        elif k in ('vec', 'D'):
            out.append([k, v, 0])
        else:
            out.append([k, 0, 0])
    return out


# --- the real code --------------------------------------------------------------------------------
def render(x, mode):
    from galgebra import printer
    import builtins
    p = mode.split('/')
    tex = p[0] in ('latex', 'slatex', 'gprint', 'printer')
    kw = {}
    if 'omitargs' in p:
        kw['omit_function_args'] = True
    if 'omitfrac' in p:
        kw['omit_partial_derivative_fraction'] = True
    title = 'T' in p
    for q in p[1:]:
        if q.startswith('fmt'):
            x = x.Fmt(int(q[3:]), 'Q') if title else x.Fmt(int(q[3:]))
            break
    if p[0] == 'str':
        s = str(x)
    elif p[0] == 'repr':
        s = repr(x)
    elif p[0] == 'format':
        s = '{}'.format(x)
    elif p[0] == 'list':
        s = str([x])[1:-1]
    elif p[0] == 'ostr':
        s = printer.ostr(x)
    elif p[0] == 'sstr':
        s = sympy.sstr(x)
    elif p[0] == 'latex':
        s = printer.latex(x, **kw)
    elif p[0] == 'printer':
        s = printer.GaLatexPrinter(kw).doprint(x)
    elif p[0] == 'slatex':
        s = sympy.latex(x)
    elif p[0] == 'print':
        import io, contextlib
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            print(x)
        s = b.getvalue()
        if not s.endswith('\n'):
            raise ValueError('no newline')
        s = s[:-1]
    else:
        raise KeyError(mode)
    if not isinstance(s, str):
        raise TypeError('printed as %s' % type(s))
    if title:
        if not s.startswith('Q = '):
            raise ValueError('no title')
        s = s[4:]
    return s, tex


def fmt_of(mode):
    m = re.search(r'/fmt(\d)', mode)
    return int(m.group(1)) if m else 1


def mkmv(g, coef, rep='', var=0):
    obj = S.Zero
    for m, e in coef.items():
        obj += ex(e) * blade(g, int(m))
    if var == 1:
        r = g.mv(S.Zero)
        for m, e in coef.items():
            r = r + g.mv(ex(e)) * g.mv(blade(g, int(m)))
    else:
        r = g.mv(obj)
    return r.base_rep() if rep == 'base' else r


def run_step(env, st):
    import galgebra.dop as dop
    import galgebra.lt as lt
    g, cfg = env['ga'], env['cfg']
    R = env['reg']
    op = st['op']
    if op == 'new':
        return mkmv(g, st['coef'], st.get('rep', ''), st.get('var', 0))
    if op == 'calc':
        A, B = R[st['a']], R[st['b']]
        return {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '^': lambda: A ^ B}[st['s']]()
    if op == 'newop':
        cs = [SYM[c] for c in cfg.coords.split()]
        pd = lambda mi: dop.Pdop({c: k for c, k in (list(zip(cs, mi))[::-1] if st.get('var') else zip(cs, mi)) if k})
        if st.get('kind') == 'sdop':
            return dop.Sdop([(ex(c.get('0', 0)), pd(mi)) for mi, c in st['terms']])
        if st.get('kind') == 'pdop':
            return pd(st['terms'][0][0])
        return g.dop([(mkmv(g, c, st.get('rep', '')), pd(mi)) for mi, c in st['terms']], cmpflg=bool(st.get('cmp')))
    if op == 'newlt':
        if st.get('var') == 1:
            return g.lt([mkmv(g, r) for r in st['rows']])
        return g.lt(Matrix(g.n, g.n, lambda i, j: ex(st['rows'][j].get(str(1 << i), 0))))
    if op == 'newmlt':
        k, n = st['k'], g.n
        lt.Mlt.increment_slots(k, g)
        acs = [mlt.slot(g, i) for i in range(k)]
        e = S.Zero
        for c, ix in zip(st['coefs'], itertools.product(range(n), repeat=k)):
            t = ex(c)
            for s, i in enumerate(ix):
                t = t * acs[s][i]
            e += t
        env['slots'] = [list(a) for a in acs]
        return lt.Mlt(e, g, nargs=k)
    if op in ('print', 'printop', 'printlt', 'printmlt'):
        x = R[st['a']]
        s, tex = render(x, st['mode'])
        return s, tex
    if op == 'obs':
        return R[st['a']]
    raise KeyError(op)


def split_lt(s, tex, book):
    """(basis token, tokens of the image) of every line"""
    out = []
    if tex:
        m = re.match(r'^\s*\\left\\\{\s*\\begin\{aligned\}(.*)\\end\{aligned\}\s*\\right\\\}\s*$', s, re.S)
        if not m:
            return None
        parts = [x.split(r'&\mapsto') for x in m.group(1).split('\\\\')]
        if any(len(p) != 2 for p in parts):
            return None
        pairs = [(p[0], p[1]) for p in parts]
    else:
        pairs = []
        for line in s.split('\n'):
            m = re.match(r'^Lt\((.*?)\) = (.*)$', line)
            if not m:
                return None
            pairs.append(m.groups())
    for a, b in pairs:
        t = book.cut(a, tex)
        if len(t) != 1 or t[0][0] != 'vec':
            return None
        out.append((t[0][1], book.cut(b, tex)))
    return out


def execute(sess):
    cfg = PC[sess['algs'][0]]
    try:
        g = cfg.build()
    except Exception as e:
        raise BuildError('%s: %s' % (type(e).__name__, e)) from e
    env = dict(cfg=cfg, ga=g, reg={}, maps=index_maps(g), slots=[])
    rec = []
    for st in sess['steps']:
        try:
            val, status = run_step(env, st), 'ok'
        except vlib.Timeout:
            raise
        except Exception as e:
            val, status = '%s: %s' % (type(e).__name__, e), 'exc'
            if 'Improve MV Derivative support in collect' in str(e):        # sympy's simplify gives up
                status = 'skip'
        if status == 'ok' and st['op'] in ('new', 'calc', 'obs'):
            fv = alg.mvval(val)
        else:
            fv = val
        rec.append((st, status, fv))
        if st.get('dst'):
            if status != 'ok':
                break
            env['reg'][st['dst']] = val
    else:
        for s_ in sess['steps']:
            if s_['op'] in ('new', 'calc'):
                rec.append((dict(op='obs', a=s_['dst']), 'ok', alg.mvval(env['reg'][s_['dst']])))
    return env, rec


def trace(sess, seed, lim):
    with vlib.time_limit(lim):
        env, rec = execute(sess)
    with vlib.time_limit(lim):
        lcm, last = 1, None
        for attempt in range(40):
            pt = gf.Point('%s/%d/%d' % (seed, attempt, lcm), lcm=lcm)
            try:
                return _evaluate(sess, env, rec, pt)
            except gf.NeedRoots as e:
                lcm, last = 12, e
            except gf.BadPoint as e:
                last = e
    return dict(lines=[], algs=[], note='no sample point (%s)' % last, skipped=len(rec))


def _row(pt, coef, n):
    r = []
    for m in range(1 << n):
        e = ex(coef.get(str(m), 0))
        v = pt.ev(e)
        if v == 0 and sympy.simplify(e) != 0:
            raise gf.BadPoint('a coefficient vanishes')
        r.append(v)
    return r


def _evaluate(sess, env, rec, pt):
    cfg, n = env['cfg'], env['cfg'].n
    al = dict(n=n, g=[[pt.ev(e) for e in r] for r in cfg.G])
    atoms = set()
    for st in sess['steps']:
        for c in [st.get('coef', {})] + [t[1] for t in st.get('terms', [])] + st.get('rows', []):
            for e in c.values():
                atoms_of(ex(e), atoms)
        for e in st.get('coefs', []):
            atoms_of(ex(e), atoms)
    for r in cfg.G:
        for e in r:
            atoms_of(e, atoms)
    atoms |= exp_sums(atoms)
    book = Book(cfg, env['ga'], sorted(atoms, key=str), [s for r in env['slots'] for s in r])
    T = {t: i for i, t in enumerate(book.mis)}
    lines, skipped = [], 0
    for st, status, val in rec:
        op = st['op']
        ln = dict(op=op, al=1, a=st.get('a', 1), b=st.get('b', 1), k=st.get('k', 0), s=st.get('s', ''), c=0, dst=st.get('dst', 0),
                  mode=st.get('mode', ''), jux=0, st=status, toks=[], lns=[], df=[], terms=[], rows=[], slots=[], obs=[], obsb=[])
        if op == 'new':
            ln['df'] = _row(pt, st['coef'], n)
        if op == 'newop':
            ln['c'] = 1 if st.get('cmp') else 0
            ln['k'] = len(T)
            ln['terms'] = [dict(d=T[tuple(mi)], v=_row(pt, c if st.get('kind') != 'pdop' else {'0': '1'}, n)) for mi, c in st['terms']]
        if op == 'newlt':
            ln['rows'] = [_row(pt, r, n) for r in st['rows']]
        if op == 'newmlt':
            ln['df'] = [pt.ev(ex(c)) for c in st['coefs']]
        if op == 'printmlt':
            ln['slots'] = [[pt.ev(s) for s in r] for r in env['slots']]
        try:
            if status == 'ok':
                if op in ('new', 'calc', 'obs'):
                    ln['obs'], ln['obsb'] = eval_mv(pt, val, env['maps'], n)
                elif op in ('print', 'printop', 'printmlt'):
                    s, tex = val
                    ln['text'] = s
                    if re.search(r'\d\.\d{6}', s):
                        raise gf.Unsupported('float')
                    ln['jux'] = 1 if tex else 0
                    if op == 'print':
                        ln['k'] = fmt_of(st['mode'])
                    t = book.cut(s, tex)
                    if op == 'printmlt':
                        t = [x for x in t if x[0] != 'NL']
                    ln['toks'] = tok_json(t, pt)
                elif op == 'printlt':
                    s, tex = val
                    ln['text'] = s
                    ln['jux'] = 1 if tex else 0
                    sp = split_lt(s, tex, book)
                    if sp is None:
                        ln['st'] = 'malformed'
                    else:
                        ln['lns'] = [[m, tok_json(t, pt)] for m, t in sp]
        except gf.Unsupported:
            ln['st'] = 'skip'
            skipped += 1
        except gf.NonFinite:
            ln['st'] = 'nf'
        except gf.Malformed:
            ln['st'] = 'malformed'
        lines.append(ln)
    return dict(lines=lines, algs=[al], skipped=skipped)


def check(rep, sessions, **kw):
    return alg.check_sessions(rep, sessions, module='PrintTrace', cfg='PrintTrace.cfg', tracer=trace, **kw)
