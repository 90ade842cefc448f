"""C24: print modes and captured documents."""
import prmode, vlib

N_OBJ = 16
LHS = ['A', 'B', 'A*B', 'A^B', 'A|B', 'A<B', 'A>B', 'A<<B', 'A>>B', 'grad*F', 'rgrad^F', 'grad|(A^B)', 'F*rgrad', 'e_{1}^{2}', 'gradient', 'A_grad', 'f(x,y)',
       '(A*B)^C>D', 'a==b', 'x^{2}*y', 'A^ {B}', 'e^^f', 'A>>>B', 'A<<<B', '\\bm{A}*B', 'grad', '|A|', 'grad grad', '2*grad_1']
RHS = ['1', 'x*y', 'a^b', '<A>_{2}', r'\frac{1}{2}*x', r'e_{1}\wedge e_{2}', 'grad', '']


def line(r):
    k = r.choice(['eq', 'eq', 'eq', 'plain', 'hash', 'pct', 'hpct', 'code', 'align', 'spaces', 'two', 'odd'])
    lhs, rhs = r.choice(LHS), r.choice(RHS)
    t = '%s =%s' % (lhs, ' ' + rhs if rhs else '') if r.random() < .5 else '%s=%s' % (lhs, rhs)
    if k == 'eq':
        return t
    if k == 'plain':
        return r.choice([lhs, rhs or 'x', 'some text', 'A*B', 'A^B|C'])
    if k == 'hash':
        return '#' + r.choice(['text', t, ' Section %', '\\section{A}', '100% = x*y', ''])
    if k == 'pct':
        return '%' + r.choice([t, lhs, 'A%B=C', ' x', '%' + t])
    if k == 'hpct':
        return '#%' + r.choice([t, lhs, 'A#B = C*D', ' x', '%' + lhs])
    if k == 'code':
        return '##' + r.choice(['', '\\begin{lstlisting}', '\\end{lstlisting}', ' x = y*z', '#'])
    if k == 'align':
        return r.choice([t + r'\begin{align*} & a \\ & b \end{align*}', r'\begin{align*} x &= y \end{align*}', lhs + r' \begin{align*} & a \end{align*}',
                         '%' + lhs + r' = \begin{align*}  & c \\ \end{align*}', r'A*B = \begin{align*}\begin{align*} x \end{align*}'])
    if k == 'spaces':
        return '   ' + t + '  '
    if k == 'two':
        return t + '\n' + r.choice(LHS) + r.choice(['', ' = x'])
    return r.choice(['A*B = C^D = E|F', '=x', 'x=', ' #x = A*B', ' %A*B=c', 'a#b*c=d', 'a%b*c=d', 'x = y # z', '\n', 'A*B\n\nC*D=1\n', '{\\bf A} = A*B', '^', '*', '<'])


def S(t):
    return dict(k='s', t=t)


def items(r):
    n = r.choice([1, 1, 1, 2, 2, 3])
    out = []
    for _ in range(n):
        k = r.choice(['s', 's', 's', 'o', 'o', 'str', 'repr', 'latex'] if n > 1 else ['s', 's', 's', 's', 'o'])
        out.append(S(line(r)) if k == 's' else dict(k=k, o=r.randint(1, N_OBJ)))
    if r.random() < .3:
        out = [S(r.choice(LHS) + ' =')] + out[:1]
    return out


def gitems(r, text):
    out = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        k = r.choice(['s', 's', 'o', 'type'])
        if k == 's':
            ts = [r'\text{some text}', 'A = ', r'\quad', '50% of', '100\\% %s', 'x@y', ' = ', 'A*B', '%d', r'\cdot']
            if i and not text:
                ts += [r'\\', r'x\\y', r'\\\\', r' \\ B = ']
            out.append(S(r.choice(ts)))
        elif k == 'o':
            out.append(dict(k='o', o=r.randint(1, N_OBJ)))
        else:
            out.append(dict(k='type', c=r.choice(['int', 'dict'])))
    return out


def doc(r, op):
    st = dict(op=op, paper=r.choice(['letter', 'landscape', (14, 11), (14, 11), (8, 11), (8.5, 11), (20, 5.5)]), pt=r.choice(['10pt', '10pt', '12pt']))
    if op != 'gxpdf' and r.random() < .25:
        st.update(prog=1, src=r.choice(['x = 1\nprint(x)\n', '# A*B = C\n\n##\n%d\n', 'a']))
    if op in ('xpdf', 'gxpdf'):
        st['name'] = r.choice(['doc.tex', 'out1.tex', None, 'doc.tex'])
        st['pdf'] = r.choice(['', '', '', 'pdflatex', 'xelatex'])
        if st['pdf']:
            st.update(crop=r.choice([0, 0, 1]), png=r.choice([0, 0, 1]))
        if op == 'gxpdf':
            st.update(cls=r.choice(['book', 'article', 'report']), evince=r.choice([0, 1]), rm=r.choice([0, 1]))
    return st


def history(t, n):
    r = vlib.rng('C24', 'h', t)
    s = dict(id='C24/h/%d' % t, algs=[], steps=[])
    g = 0
    w = r.choice(['capture', 'capture', 'modes', 'both', 'g', 'settings'])
    for _ in range(n):
        ops = ['print'] * 6 + ['format'] + ['tex', 'xpdf']
        if w in ('modes', 'both'):
            ops += ['latexformat', 'restore', 'redirect', 'format', 'tex', 'printfn']
        if w in ('g', 'both'):
            ops += ['gformat', 'gprint', 'gprint', 'gprint', 'gprint', 'gxpdf', 'gprintfn']
        if w in ('settings', 'both'):
            ops += ['eprint', 'fmt', 'latex', 'container', 'format', 'latexformat', 'getprog', 'printfn', 'print', 'print']
        if w == 'capture':
            ops += ['printfn']
        op = r.choice(ops) if s['steps'] or r.random() < .3 else 'format'
        st = dict(op=op)
        if op == 'print':
            st['items'] = items(r)
            if r.random() < .1:
                st['end'] = r.choice(['', ' ', '\n\n'])
            if r.random() < .1:
                st['sep'] = r.choice(['', '\n', ' = '])
        elif op == 'format':
            st.update(F=r.choice([0, 1]), D=r.choice([0, 1]), pos=r.choice([0, 1]))
        elif op == 'latexformat':
            st.update(F=r.choice([0, 1]), D=r.choice([0, 1]), ipy=r.choice([0, 0, 1]))
        elif op in ('tex', 'xpdf', 'gxpdf'):
            st = doc(r, op)
        elif op == 'eprint':
            st.update(col=r.choice([1, 2, 3]), alias=r.choice([0, 1]))
        elif op == 'fmt':
            st.update(mv=r.choice([1, 2, 3]))
        elif op == 'getprog':
            st.update(off=r.choice([0, 1]))
        elif op == 'printfn':
            st.update(fn=r.choice(['first', 'second']))
        elif op == 'gprintfn':
            st.update(fn=r.choice(['gfirst', 'gsecond']))
        elif op == 'gformat':
            st.update(F=r.choice([0, 1]), D=r.choice([0, 1]))
            g = 1
        elif op == 'gprint':
            st['items'] = gitems(r, not g)
        elif op == 'latex':
            st['items'] = [dict(k='latex', o=r.randint(1, N_OBJ))]
        elif op == 'container':
            k = r.choice(['list', 'tuple', 'dict'])
            st.update(kind=k, mode=r.choice([0, 1]),
                      items=[dict(k='o', o=o, key=q) for o, q in zip([r.randint(1, N_OBJ) for _ in range(r.randint(1, 4))], 'kqwz')])
        s['steps'].append(st)
    s['steps'] += [dict(op='restore'), dict(op='print', items=[dict(k='o', o=1), S('A*B = C')]), doc(r, 'tex'), dict(op='print', items=[dict(k='o', o=2)])]
    return s


def replay(ln, i):
    """a behaviour of the model, its lines given text"""
    r = vlib.rng('C24', 'm', i)
    s = dict(id='C24/m/%d' % i, algs=[], steps=[])
    F = {'format': dict(op='format', F=1, D=1), 'format01': dict(op='format', F=0, D=1), 'latexformat': dict(op='latexformat', F=1, D=0, ipy=0),
         'latexformatipy': dict(op='latexformat', F=0, D=0, ipy=1), 'redirect': dict(op='redirect'), 'restore': dict(op='restore')}
    for op in ln['ops']:
        if op == 'print':
            s['steps'].append(dict(op='print', items=items(r)))
        elif op == 'tex':
            s['steps'].append(doc(r, r.choice(['tex', 'xpdf'])))
        else:
            s['steps'].append(dict(F[op]))
    s['steps'] += [doc(r, 'tex'), dict(op='print', items=[dict(k='o', o=1)])]
    return s


def run(rep):
    deep = vlib.TIER == 'thorough'
    r = vlib.model_check('MC_PrintMode', 'MC_PrintMode_%s.cfg' % ('t' if deep else 'q'), timeout=800)
    rep.add_tlc(r)
    lines = [v for v in r['lines'] if v.get('tag') == 'HIST']
    rep.extra['behaviours_of_the_model'] = len(lines)
    pick = vlib.rng('C24', 'pick').sample(lines, min(len(lines), 12000 if deep else 700))
    ss = [replay(l, i) for i, l in enumerate(pick)]
    ss += [history(t, 14 if t % 3 else 30) for t in range(6000 if deep else 400)]
    prmode.check(rep, ss, lim=30, budget=400 if deep else 150)
