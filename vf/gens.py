"""Hypothesis strategies; every value is plain JSON."""
from fractions import Fraction as F
from hypothesis import strategies as st

small = st.sampled_from([1, -1, 2, 1, -2, 3, -3])
rat = st.sampled_from(['1/2', '-1/3', '3/2', '5/4', '-2/3', '7', '-5'])
nz = st.one_of(small, small, rat)
coef = st.one_of(small, small, rat, st.just(0))
sint = st.sampled_from([0, 1, -1, 2, -2, 1, 3])


def maskst(n):
    return st.integers(0, (1 << n) - 1)


@st.composite
def mv(draw, n, maxterms=4, minterms=0, masks=None):
    """[[mask, coef], ...] with distinct masks"""
    pool = masks if masks is not None else list(range(1 << n))
    k = min(len(pool), draw(st.integers(minterms, maxterms)))
    ms = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k, unique=True))
    return [[m, draw(nz)] for m in sorted(ms)]


@st.composite
def vec(draw, n, nonzero=True):
    cs = [draw(sint) for _ in range(n)]
    if nonzero and not any(cs):
        cs[draw(st.integers(0, n - 1))] = draw(small)
    return cs


def diag(v):
    return [[v[i] if i == j else 0 for j in range(len(v))] for i in range(len(v))]


@st.composite
def metric(draw, n, kinds=('euclid', 'signature', 'degenerate', 'diag', 'sym', 'symdeg')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'euclid':
        g = diag([1] * n)
    elif kind == 'signature':
        g = diag([draw(st.sampled_from([1, -1])) for _ in range(n)])
    elif kind == 'degenerate':
        v = [draw(st.sampled_from([1, -1, 0])) for _ in range(n)]
        v[draw(st.integers(0, n - 1))] = 0
        g = diag(v)
    elif kind == 'diag':
        g = diag([draw(st.sampled_from([1, -1, 2, -3, 4, '1/2', '-2/3', '9/4'])) for _ in range(n)])
    else:
        g = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    x = draw(st.sampled_from([1, -1, 2, 0, 3, 1]))
                else:
                    x = draw(st.sampled_from([0, 1, -1, 0, 2, '1/2']))
                g[i][j] = g[j][i] = x
        if kind == 'symdeg' and n > 1:
            # last row := multiple of the first -> a singular Gram matrix
            c = draw(st.sampled_from([1, -1, 0]))
            for j in range(n - 1):
                g[n - 1][j] = g[j][n - 1] = _m(c, g[0][j])
            g[n - 1][n - 1] = _m(c * c, g[0][0])
    return kind, g


def _m(c, x):
    f = F(c) * F(x)
    return int(f) if f.denominator == 1 else '%d/%d' % (f.numerator, f.denominator)


def det(g):
    import ref
    return ref.mat_det([[F(x) for x in r] for r in g])


@st.composite
def ga(draw, nmin=1, nmax=4, kinds=('euclid', 'signature', 'degenerate', 'diag', 'sym', 'sym', 'symdeg'), ns=None):
    n = draw(st.sampled_from(ns or [nmin] + 2 * list(range(min(nmin + 1, nmax), nmax + 1))))
    kind, g = draw(metric(n, kinds))
    form = draw(st.sampled_from(['matrix', 'list', 'lol', 'string']))
    names = draw(st.sampled_from(['plain', 'under', 'star', 'letters', 'roots']))
    out = {'g': g, 'form': form, 'names': names, 'kind': kind}
    if draw(st.integers(0, 4)) == 0 and names in ('under', 'star'):   # wedge-free printing needs e_<sub> names
        out['wedge'] = False
    return out


@st.composite
def ga_nd(draw, nmin=1, nmax=4, kinds=('euclid', 'signature', 'diag', 'sym', 'sym'), ns=None):
    """algebra with a non-degenerate metric (repaired by construction)"""
    c = draw(ga(nmin, nmax, kinds, ns))
    g = c['g']
    k = 1
    while det(g) == 0:
        g = [[_add(x, k if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(g)]
        k += 1
    c['g'] = g
    return c


def _add(x, y):
    f = F(x) + F(y)
    return int(f) if f.denominator == 1 else '%d/%d' % (f.numerator, f.denominator)


def is_diag(g):
    n = len(g)
    return all(i == j or F(g[i][j]) == 0 for i in range(n) for j in range(n))


@st.composite
def ga_and_mvs(draw, k, nmin=1, nmax=4, maxterms=4, minterms=0, nd=False, kinds=None, ns=None):
    kw = {}
    if kinds:
        kw['kinds'] = kinds
    gc = draw((ga_nd if nd else ga)(nmin, nmax, ns=ns, **kw))
    n = len(gc['g'])
    return {'ga': gc, 'mvs': [draw(mv(n, maxterms, minterms)) for _ in range(k)]}


@st.composite
def high(draw, k, ns=(7, 8, 9), maxterms=3, nd=False):
    """orthogonal algebras of seven to nine dimensions; the grades of the terms are drawn first, so that the highest ones occur"""
    n = draw(st.sampled_from(list(ns)))
    kind, g = draw(metric(n, ('euclid', 'signature', 'diag') if nd else ('euclid', 'signature', 'diag', 'degenerate')))
    form = draw(st.sampled_from(['matrix', 'list', 'lol', 'string']))

    def one():
        out = {}
        for _ in range(draw(st.integers(1, maxterms))):
            r = draw(st.sampled_from(list(range(n + 1)) + [n, n - 1, n - 1]))
            p = draw(st.permutations(list(range(n))))
            out[sum(1 << i for i in p[:r])] = draw(nz)
        return [[m, out[m]] for m in sorted(out)]
    return {'ga': {'g': g, 'form': form, 'names': 'plain', 'kind': kind}, 'mvs': [one() for _ in range(k)]}
