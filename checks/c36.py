"""Printed and exported summaries."""
import os, re, tempfile
from .spatial import panel as lag_panel, lag, decide
from .c01 import panel
from .common import ints


def lines(text):
    """words of every line that says something"""
    out = []
    for l in text.split('\n'):
        l = re.sub(r'np\.(?:int|float)64\(([^)]*)\)', r'\1', l)
        w = l.split()
        if w and not re.fullmatch('-+', l.strip()):
            out.append(w)
    return out


def latex(text):
    """the same from a LaTeX table"""
    t = re.sub(r'\\begin\{tabular\}\{[^}]*\}|\\end\{tabular\}|\\hline', '', text)
    t = re.sub(r'\\multicolumn\{\d+\}\{[^}]*\}\{([^}]*)\}', r'\1', t)
    return [r.replace('&', ' ').split() for r in t.split('\\\\') if r.strip()]


def same(c, label, got, want):
    """want: words, numbers standing for themselves"""
    c.check(label + ': length', len(got) == len(want))
    for g, w in zip(got, want):
        c.check(label + ': words', len(g) == len(w))
        for x, v in zip(g, w):
            if isinstance(v, str):
                c.check(label + ': text', x == v)
                continue
            n = c.spoken(x)
            if n is None:
                c.check(label + ': number', False)
                continue
            s, tol = n
            if not tol:
                c.check(label + ': number', c.eq(s, v))
            else:
                c.check(label + ': number', c.close(s, v, tol))


def expected(c, h, k, m, title, regimes, classes, total, q='Chi-2', count=None):
    w = [title.split(), ['Number', 'of', 'classes:', k], ['Number', 'of', 'transitions:', total], ['Number', 'of', 'regimes:', m],
         ['Regime', 'names:'] + ', '.join(regimes).split(), ['Test', 'LR', q], ['Stat.', h.LR, h.Q], ['DOF', h.dof, h.dof],
         ['p-value', h.LR_p_value, h.Q_p_value]]
    for name, M in [('H0', h.p_h0)] + [(r, h.p_h1[i]) for i, r in enumerate(regimes)]:
        w.append([f'P({name})'] + list(classes))
        for i, cn in enumerate(classes):
            w.append([cn] + [M[i, j] for j in range(k)])
    return w


def exported(c, f, want, k):
    """run f(file name) and read the table"""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'table')
        said = c.said(lambda: f(p))
        c.check('exported', os.listdir(d) == ['table.tex'])
        with open(p + '.tex') as g:
            t = g.read()
    want = [list(r) for r in want]
    same(c, 'printed', lines(said), want)
    want[5][2] = 'Q'
    same(c, 'exported', latex(t), want)
    # a table wide enough for its rows, one column per class after the name of the row
    m = re.match(r'\s*\\begin\{tabular\}\{([^}]*)\}', t)
    c.check('a table', bool(m) and t.rstrip().endswith('\\end{tabular}'))
    for r in [r for r in t.split('\\\\') if 'multicolumn' not in r and '&' in r]:
        c.check('columns', r.count('&') == k)
    c.check('columns of the table', len(re.findall('[lcr]', m.group(1))) >= k + 1)


def homogeneity(c, m, k, regimes=None, classes=None, title=None, given=None, as_arrays=False):
    c.fractions()
    M = [[[c.int_(f'n{q}_{i}_{j}', 1, relaxed=True) if (q + i + j) % 3 == 0 else c.num((q * 7 + i * 3 + j * 5) % 11 + 1) for j in range(k)] for i in range(k)] for q in range(m)]
    kw = {}
    wrap = c.np.array if as_arrays else list
    if regimes:
        kw['regime_names'] = wrap(regimes)
    if classes:
        kw['class_names'] = wrap(classes)
    if title:
        kw['title'] = title
    h = c.g.markov.homogeneity([c.array(x) for x in M], **kw)
    total = c.sum([v for x in M for r in x for v in r])
    rn = [str(r) for r in regimes] if regimes else [str(i) for i in range(m)]
    cn = [str(r) for r in classes] if classes else [str(i) for i in range(k)]
    want = expected(c, h, k, m, given or title or 'Markov Homogeneity Test', rn, cn, total)
    k2 = dict(title=given) if given else {}
    same(c, 'printed', lines(c.said(lambda: h.summary(**k2))), want)
    exported(c, lambda f: h.summary(file_name=f, **k2), want, k)


def spatial(c, rows, graph, cut, lcut, name=None):
    n, t = len(rows), len(rows[0])
    w = c.W({i: list(v) for i, v in enumerate(graph)})
    w.transform = 'r'
    y = lag_panel(c, rows)
    k, m = len(cut) + 1, len(lcut) + 1
    decide(c, cut, y)
    decide(c, lcut, lag(c, w, y))
    s = c.g.markov.Spatial_Markov(c.array(y, 'f'), w, cutoffs=c.array(list(cut), 'f'), lag_cutoffs=c.array(list(lcut), 'f'), variable_name=name)
    h = c.g.markov.homogeneity(s.T)
    want = expected(c, h, k, m, 'Spatial Markov Test' + (': ' + name if name else ''), [f'LAG{i}' for i in range(m)], [f'C{i}' for i in range(k)], n * (t - 1))
    if int(h.dof) == 0:
        want[8] = None
    a = lines(c.said(lambda: s.summary()))
    if want[8] is None:
        del want[8]
        a = a[:8] + a[9:]
        return same(c, 'printed', a, want)
    same(c, 'printed', a, want)
    exported(c, lambda f: s.summary(file_name=f), want, k)


def sets(line):
    """index groups such as [0 1], [2]"""
    return sorted(sorted(int(v) for v in g.replace(',', ' ').split()) for g in re.findall(r'\[([^\]]*)\]', line))


def count(line):
    m = re.search(r'(\d+) (?:Recurrent|Transient|absorbing)', line)
    return int(m.group(1)) if m else None


def chain(c, n, t, k, fill=False):
    """what the constructor says about the states"""
    x = panel(c, n, t, k)
    box = []
    txt = c.said(lambda: box.append(c.g.markov.Markov(c.array(x), classes=c.array(list(range(k))), fill_empty_classes=fill)))
    m = box[0]

    def norm(gs):
        return sorted(sorted(ints(c, g)) for g in (gs if gs is not None else []))
    L = [' '.join(l) for l in lines(txt)]
    one = len(norm(m.cclasses_indices)) == 1
    c.check('irreducible or not', L[0] == f'The Markov Chain is {"irreducible" if one else "reducible"} and is composed by:')
    groups = [('Recurrent', norm(m.rclasses_indices)), ('Transient', norm(m.tclasses_indices)), ('absorbing', norm(m.astates_indices))]
    at = 1
    for word, g in groups:
        c.check(f'number of {word}', at < len(L) and word in L[at] and count(L[at]) == len(g))
        at += 1
        if g:
            c.check(f'indices of {word}', at < len(L) and sets(L[at]) == g)
            at += 1
        elif at < len(L) and not L[at].strip('[],') :
            at += 1
    c.check('nothing else', at == len(L))
    quiet = c.said(lambda: c.g.markov.Markov(c.array(x), summary=False))
    c.check('quiet on request', quiet == '')


def sojourn(c, k):
    """states named as absorbing are exactly those that are never left"""
    P = []
    absorbing = []
    for i in range(k):
        if c.fork(c.bool_(f'stay{i}')):
            absorbing.append(i)
            P.append([c.num(1 if j == i else 0) for j in range(k)])
        else:
            v = c.real(f'p{i}', 0, 1, strict=True)
            c.assume(v >= c.div(1, 1000))
            P.append([v / (k - 1) if j != i else 1 - v for j in range(k)])
    a = c.array(P, 'f')
    txt = c.said(lambda: c.g.markov.sojourn_time(a))
    c.check('absorbing states named', (sets(' '.join(' '.join(l) for l in lines(txt))) == [absorbing]) if absorbing else txt == '')
    c.check('quiet on request', c.said(lambda: c.g.markov.sojourn_time(a, summary=False)) == '')


HARNESSES = [
    dict(name='homogeneity', fn=homogeneity, quick=[dict(m=2, k=3), dict(m=3, k=2, regimes=['north', 'south', 'east'], classes=['lo', 'hi'], title='My test'), dict(m=2, k=2, given='Other title', title='My test'),
                                                    dict(m=2, k=3, regimes=[1990, 2000], classes=[1, 2, 4]), dict(m=2, k=3, regimes=['b', 'a'], classes=['x', 'z', 'y'], as_arrays=True)],
         thorough=[dict(m=4, k=3, regimes=['north', 'south', 'east', 'w']), dict(m=2, k=4), dict(m=3, k=4, classes=['a', 'b', 'c', 'd'], as_arrays=True)]),
    dict(name='spatial', fn=spatial, quick=[dict(rows=((1, 7, None, 2), (8, 2, 3, 7), (2, 6, None, 1)), graph=((1,), (0, 2), (1,)), cut=(5,), lcut=(3, 6)), dict(rows=((1, 7, None), (8, 2, 3), (2, 6, 4)), graph=((1,), (0, 2), (1,)), cut=(3, 6), lcut=(4,), name='income')],
         thorough=[dict(rows=((1, 7, None, 2), (8, 2, 3, 7), (2, None, None, 1)), graph=((1,), (0, 2), (1,)), cut=(3, 5), lcut=(3, 6), name='x')]),
    dict(name='chain', fn=chain, quick=[dict(n=2, t=3, k=2), dict(n=2, t=2, k=3), dict(n=1, t=4, k=3, fill=True)], thorough=[dict(n=3, t=2, k=3), dict(n=1, t=5, k=3), dict(n=2, t=2, k=4)]),
    dict(name='sojourn', fn=sojourn, quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)]),
]
OUTSIDE = 'the spacing of the text; p-values without degrees of freedom; larger tables than listed'
