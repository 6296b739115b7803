"""Plain-text forms read back as the printed object (independent reader in vf/txt.py)."""
import builtins
import io
import re
import sys
import contextlib
from runner import check
from gu import *
import gens as G
import txt
from gens import st
from galgebra import printer
from galgebra.printer import GaPrinter
from galgebra.dop import Pdop, Sdop
from galgebra.mv import Dop
from galgebra.lt import Mlt
import importlib.util
import os

_s = importlib.util.spec_from_file_location('c19', os.path.join(os.path.dirname(__file__), 'C19.py'))
c19 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c19)

P = 'C22'
X = sympy.symbols('x y z w', real=True)
SY = {s: sympy.Symbol(s, real=True) for s in ('p', 'q', 'r_1', 'alpha')}
SY['m'] = sympy.Symbol('m', positive=True)

NUM = ['1', '-1', '2', '-3', '1/2', '-2/3', '7', '5/4', '-1', '1']
SYM = ['p', '-p', 'p+q', '-p-q', 'q-p', 'p*q', '-2*p', 'p/2', '-p/q', '1/p', 'p**2', '-p**2', '(p+q)**2', '1/(p+q)', 'sqrt(m)', 'sqrt(2)', '-sqrt(2)/2', '1+sqrt(2)', 'm**(3/2)', 'm**(-1/2)', 'p**q', '2**p',
       'sin(p)', '-cos(p)/2', 'sin(p)**2', 'exp(-p)', 'exp(p+q)', 'sin(p+q)*cos(q)', '1/sin(p)', 'tan(p)**2', 'pi', '-pi/2', 'Abs(p)', 'log(m)', 'cosh(p)', 'alpha*r_1', '(p-q)/(p+q)', '-(p+q)/3', 'r_1**2-1', 'sqrt(p**2+1)', 'x', 'x*y', 'x**2-p', '3*x/2', 'm**2/3', '(p+1)*(q-1)', 'p*(q+1)', '-q*(p-1)', 'atan(p)', '2*sin(2*p)', '-(p-q)**3']
FUN = ['F', '-F', 'F*p', 'F**2', '1/F', 'F+p', 'F-K', 'F*K', 'DF', '-DF', 'DDF', 'DF**2', 'DF*F', 'DF+F', 'sin(F)', 'x*DK', '-2*DFK', 'DF/2', 'DXY', '-DXY*p', 'K/F', 'sqrt(F)', 'DF-DK', '(DF+1)*K']


def env(coords):
    n = len(coords)
    Fx = sympy.Function('F')(*coords)
    K = sympy.Function('K')(coords[0])
    a, b = coords[0], coords[-1]
    loc = dict(SY, F=Fx, K=K, DF=Fx.diff(a), DDF=Fx.diff(a, 2), DK=K.diff(a), DFK=(Fx.diff(b)), DXY=Fx.diff(a, b, b))
    loc.update({str(s): s for s in X[:n]})
    if n < 2:
        loc['y'] = X[0]
    return loc


def coefficient(s, loc):
    return sympy.sympify(s, locals=loc)


ALL = NUM + NUM + SYM + FUN


@st.composite
def mvcase(draw, n, pool=None, mx=5):
    k = draw(st.integers(0, min(mx, 1 << n)))
    if mx == 5 and draw(st.integers(0, 9)) == 0:
        k = draw(st.integers(0, 1 << n))
    ms = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=k, max_size=k, unique=True))
    return [[m, draw(st.sampled_from(pool or ALL))] for m in sorted(ms)]


@st.composite
def algebra(draw, nmax=4):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 3] + ([4] if nmax > 3 else [])))
    kind = draw(st.sampled_from(['ortho', 'ortho', 'nonortho', 'curved', 'symbolic']))
    out = {'n': n, 'kind': kind, 'names': draw(st.sampled_from(['e', 'e', 'star', 'greek', 'letters', 'roots'])), 'wedge': draw(st.sampled_from([True, True, True, False]))}
    if kind == 'symbolic' and n > 2:
        out['kind'] = 'nonortho'
    return out


def mkalg(c):
    n, kind = c['n'], c['kind']
    co = X[:n]
    kw = {}
    if kind == 'ortho':
        g = [1, -1, 1, 2][:n]
    elif kind == 'nonortho':
        g = [[[2, 1, 0, 0], [1, 3, sympy.Rational(1, 2), 0], [0, sympy.Rational(1, 2), 1, 1], [0, 0, 1, -2]][i][:n] for i in range(n)]
    elif kind == 'curved':
        g = [1, X[0] ** 2, 1, X[0] ** 2][:n] if n > 1 else [X[0] ** 2]
    else:
        g = None
    if n == 1:
        names = {'e': 'e_1,', 'star': 'e_x,', 'greek': 'gamma_x,', 'letters': 'a,', 'roots': 'u_1,'}[c['names']]
        if g and isinstance(g[0], list):
            g = g[0]
    else:
        names = {'e': ' '.join('e_%d' % (i + 1) for i in range(n)), 'star': 'e*' + '|'.join('uvst'[:n]), 'greek': 'gamma*' + '|'.join('txyz'[:n]), 'letters': ' '.join('abcd'[:n]), 'roots': ' '.join(['u_1', 'u_2', 'v_1', 'v_2'][:n])}[c['names']]
    if not c['wedge'] and c['names'] not in ('letters', 'roots') and n > 1:
        kw['wedge'] = False
    return Ga(names, g=g, coords=co, **kw), env(co), 'wedge' in kw


def reader(ga, loc, wedgeless, extra=None):
    names = {s: v for s, v in loc.items() if s not in ('DF', 'DDF', 'DK', 'DFK', 'DXY')}
    names.update(extra or {})
    bs = list(ga.basis)
    mvs = list(ga.mv()) if ga.n > 1 else [ga.mv()[0]]
    for b, m in zip(bs, mvs):
        names[str(b)] = m
    wn = {}
    if wedgeless:
        for m in masks(ga.n):
            if popcount(m) > 1:
                parts = [str(bs[i]).split('_') for i in bits(m)]
                w = mvs[bits(m)[0]]
                for i in bits(m)[1:]:
                    w = w ^ mvs[i]
                wn[parts[0][0] + '_' + ''.join(p[1] for p in parts)] = w
    return txt.Reader(ga, names, wn)


def as_mv(ga, v):
    if isinstance(v, txt.Op):
        if not set(v.d) <= {()}:
            raise txt.ParseError('a differential operator was printed')
        return v.d.get((), ga.mv(S.Zero))
    return ga.mv(S(v))


def read_mv(x, R, s, A, what):
    try:
        B = as_mv(R.ga, R.read(s))
    except (txt.ParseError, IndexError) as e:
        x.fail('%s: %r cannot be read: %s' % (what, s, e))
    d = diff_mv(A, B, R.ga.n)
    if d:
        x.fail('%s: %r reads as something else: blade %s has %s instead of %s' % (what, s, bits(d[0][0]), d[0][2], d[0][1]))


def build(ga, m, loc, n):
    A = to_mv(ga, {})
    for k, s in m:
        bl = ga.mv_blades.flat[masks(n).index(k)]
        A = A + coefficient(s, loc) * bl
    return A


@st.composite
def mv_cases(draw):
    c = draw(algebra())
    c['m'] = draw(mvcase(c['n']))
    c['form'] = draw(st.sampled_from(['plain', 'plain', 'base', 'raw', 'product', 'named']))
    c['m2'] = draw(mvcase(c['n'], NUM + SYM[:12], 3))
    return c


@check(P, mv_cases(), quick=360, shards=6, rule='at least two terms, or a coefficient that is not a number')
def multivector(c, x):
    """str / repr / doprint / print and every Fmt format of a multivector read back as that multivector"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    A = build(ga, c['m'], loc, n)
    extra = {}
    if c['form'] == 'base':
        A = A.base_rep()
    elif c['form'] == 'raw':
        A = ga.mv(A.obj * 2) if not c['m2'] else ga.mv((loc['p'] + 1) * A.obj)   # unexpanded
    elif c['form'] == 'product':
        A = A * build(ga, c['m2'], loc, n) if c['kind'] != 'symbolic' else A
    elif c['form'] == 'named':
        A = ga.mv('B', ['mv', 'vector', 'bivector', 'spinor', 'scalar'][len(c['m']) % 5] if n > 1 else 'mv')
        extra = {str(s): s for s in S(A.obj).free_symbols if s.is_commutative}
    x.nt(len(c['m']) > 1 or any(coefficient(s, loc).free_symbols for _, s in c['m']), c['form'], c['kind'], 'wedgeless' if wl else 'wedge')
    R = reader(ga, loc, wl, extra)
    s = str(A)
    x.ok(isinstance(s, str), 'str')
    read_mv(x, R, s, A, 'str(A)')
    x.ok('\n' not in s, 'str(A) has several lines')
    r = repr(A)
    read_mv(x, R, r, A, 'repr(A)')
    read_mv(x, R, GaPrinter().doprint(A), A, 'doprint(A)')
    for fmt in (1, 2, 3):
        t = GaPrinter().doprint(A.Fmt(fmt))
        read_mv(x, R, t.replace('\n', ' '), A, 'Fmt(%d)' % fmt)
        t2 = str(A.Fmt(fmt, 'T'))
        x.ok(re.match(r'\s*T\s*=', t2) is not None, 'title of Fmt(%d) is missing: %r' % (fmt, t2))
        read_mv(x, R, t2.split('=', 1)[1].replace('\n', ' '), A, 'Fmt(%d) with title' % fmt)
        if c['form'] in ('plain', 'base') and not S(A.obj).has(sympy.sin, sympy.cos, sympy.tan, sympy.exp, sympy.Pow):
            nz = [m for m in coefs_of(A, n)]
            lines = [q for q in t.split('\n') if q.strip()]
            if fmt == 3 and c['form'] == 'plain' and len(nz) > 0:
                x.ok(len(lines) == len(nz), 'Fmt(3) has %d lines for %d blades' % (len(lines), len(nz)))
            if fmt == 2 and len(nz) > 0 and c['form'] == 'plain':
                gr = {popcount(m) for m in nz}
                x.ok(len(lines) == len(gr) or len(lines) == len(gr - {0}) + (0 in gr), 'Fmt(2) has %d lines for %d grades' % (len(lines), len(gr)))
    x.ok(str(A) == s, 'printing changed the multivector')
    # sequence and mapping wrappers print every element
    B = build(ga, c['m2'], loc, n)
    for obj, o, cl in (([A, B], '[', ']'), ((A, B), '(', ')')):
        t = GaPrinter().doprint(obj)
        x.ok(t == o + GaPrinter().doprint(A) + ', ' + GaPrinter().doprint(B) + cl, 'printing %s: %r' % (type(obj).__name__, t))
        x.ok(repr(obj) == t, 'repr of %s' % type(obj).__name__)
    # print() uses the same form
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        print(A)
    read_mv(x, R, buf.getvalue(), A, 'print(A)')
    # grade indexing prints the grade part
    for k in range(n + 1):
        if c['form'] != 'raw':
            read_mv(x, R, str(A[k]), A.grade(k), 'str(A[%d])' % k)
            break


@check(P, mv_cases(), quick=90, shards=2, rule='at least two terms')
def colours(c, x):
    """enhanced (coloured) printing only adds escape sequences"""
    ga, loc, wl = mkalg(c)
    A = build(ga, c['m'], loc, ga.n)
    x.nt(len(c['m']) > 1)
    R = reader(ga, loc, wl)
    plain = GaPrinter().doprint(A)
    names = ('function_color', 'derivative_color', 'basis_vector_color')
    old = {k: GaPrinter._global_settings.get(k) for k in names}
    have = {k: k in GaPrinter._global_settings for k in names}
    try:
        printer.Eprint('red', 'green', 'blue')
        col = GaPrinter().doprint(A)
    finally:
        for k in names:
            if have[k]:
                GaPrinter._global_settings[k] = old[k]
            else:
                GaPrinter._global_settings.pop(k, None)
    strip = re.sub('\033\\[[0-9;]*m', '', col)
    read_mv(x, R, strip, A, 'coloured form')
    d = coefs_of(A, ga.n)
    if any(m for m in d):
        x.ok('\033' in col, 'no colour in %r' % col)
    x.ok(GaPrinter().doprint(A) == plain, 'plain form differs after colouring was switched off')


def opdict(D):
    """canonical {pdiff: Mv} of a Dop"""
    out = {}
    for cf, pd in D.terms:
        k = tuple(sorted(pd.pdiffs.items(), key=lambda q: q[0].name))
        cf = cf if isinstance(cf, Mv) else D.Ga.mv(S(cf))
        out[k] = out[k] + cf if k in out else cf
    return out


def cmp_op(x, R, s, want, what):
    ga = R.ga
    try:
        v = R.read(s)
    except (txt.ParseError, IndexError) as e:
        x.fail('%s: %r cannot be read: %s' % (what, s, e))
    got = v.d if isinstance(v, txt.Op) else {(): ga.mv(S(v))}
    norm = {}
    for k, cf in got.items():
        d = {}
        for y, q in k:
            d[y] = d.get(y, 0) + q
        k = tuple(sorted(d.items(), key=lambda q: q[0].name))
        norm[k] = norm[k] + cf if k in norm else cf
    z = ga.mv(S.Zero)
    for k in set(norm) | set(want):
        d = diff_mv(want.get(k, z), norm.get(k, z), ga.n)
        if d:
            x.fail('%s: %r reads as a different operator: derivative %s, blade %s has %s instead of %s' % (what, s, k, bits(d[0][0]), d[0][2], d[0][1]))


OPC = ['1', '-1', '2', '-1/2', 'x', '-x', 'x+p', '-x-p', 'p-x', 'p*q', 'F', '-F', 'DF', 'x**2', '1/p', 'sin(p)', 'x*y', '3', '-2*x/3']


@st.composite
def op_cases(draw):
    c = draw(algebra(3))
    if c['kind'] == 'symbolic':
        c['kind'] = 'ortho'
    n = c['n']
    pd = st.tuples(*[st.sampled_from([0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5]) for _ in range(n)]).map(list)
    c['terms'] = draw(st.lists(st.tuples(st.integers(0, (1 << n) - 1), st.sampled_from(OPC), pd).map(list), min_size=0, max_size=7))
    c['cmp'] = draw(st.booleans())
    c['how'] = draw(st.sampled_from(['terms', 'terms', 'grad', 'rgrad', 'lap']))
    c['neg'] = draw(st.booleans())
    return c


@check(P, op_cases(), quick=300, shards=4, rule='at least two terms')
def operators(c, x):
    """multivector differential operators, on either side, read back term by term"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    if c['how'] == 'terms':
        ts = []
        for m, s, e in c['terms']:
            bl = ga.mv_blades.flat[masks(n).index(m)]
            ts.append((coefficient(s, loc) * bl, Pdop({y: k for y, k in zip(X, e) if k})))
        D = Dop(ts, ga=ga, cmpflg=c['cmp'])
    elif c['how'] == 'lap':
        D = ga.grad * ga.grad
    else:
        D = ga.grad if c['how'] == 'grad' else ga.rgrad
        if c['terms']:
            D = coefficient(c['terms'][0][1], loc) * D if c['how'] == 'grad' else D
    if c['neg']:
        D = -D
    want = opdict(D)
    x.nt(len(want) > 1, c['how'], 'cmp' if c['cmp'] else 'left', c['kind'])
    R = reader(ga, loc, wl)
    for s, what in ((str(D), 'str'), (repr(D), 'repr'), (GaPrinter().doprint(D), 'doprint'), (GaPrinter().doprint(D.Fmt(1)), 'Fmt'), (str(D.Fmt(1, 'T')).split('=', 1)[1], 'Fmt with title')):
        cmp_op(x, R, s, want, what)
    for k, w in opdict(D).items():
        x.ok(not diff_mv(w, want[k], n), 'printing changed the operator')


@check(P, op_cases(), quick=160, shards=2, rule='at least two terms')
def scalar_operators(c, x):
    """scalar differential operators and partial derivatives"""
    ga, loc, wl = mkalg(c)
    ts = [(coefficient(s, loc), Pdop({y: k for y, k in zip(X, e) if k})) for _, s, e in c['terms']]
    D = Sdop(ts)
    want = {}
    for cf, pd in ts:
        k = tuple(sorted(pd.pdiffs.items(), key=lambda q: q[0].name))
        want[k] = want.get(k, ga.mv(S.Zero)) + ga.mv(cf)
    x.nt(len(want) > 1)
    R = reader(ga, loc, wl)
    for s, what in ((str(D), 'str'), (repr(D), 'repr'), (GaPrinter().doprint(D), 'doprint')):
        cmp_op(x, R, s, want, what)
    for _, pd in ts:
        for s in (str(pd), repr(pd)):
            cmp_op(x, R, s, {tuple(sorted(pd.pdiffs.items(), key=lambda q: q[0].name)): ga.mv(S.One)}, 'Pdop')


@st.composite
def lt_cases(draw):
    c = draw(algebra(3))
    n = c['n']
    c['A'] = [[draw(st.sampled_from(['0', '0'] + ALL)) for _ in range(n)] for _ in range(n)]
    c['partial'] = draw(st.booleans())
    return c


@check(P, lt_cases(), quick=120, shards=2, rule='at least one column with two entries')
def transformations(c, x):
    """every line of a printed linear transformation names a basis vector and reads back as its image"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    A = Matrix(n, n, lambda i, j: coefficient(c['A'][i][j], loc))
    if c['partial']:
        L = ga.lt({ga.basis[j]: sum((A[i, j] * ga.basis[i] for i in range(n)), S.Zero) for j in range(n) if any(A[:, j])} or {ga.basis[0]: S.Zero})
    else:
        L = ga.lt(A)
    x.nt(any(sum(1 for i in range(n) if A[i, j] != 0) > 1 for j in range(n)))
    R = reader(ga, loc, wl)
    mvs = list(ga.mv()) if n > 1 else [ga.mv()[0]]
    for s, what in ((repr(L), 'repr'), (GaPrinter().doprint(L), 'doprint'), (str(L.Fmt(1, 'T')).split('=', 1)[1], 'Fmt')):
        lines = s.strip().split('\n')
        x.ok(len(lines) == n, '%s has %d lines' % (what, len(lines)))
        for j, line in enumerate(lines):
            m = re.match(r'Lt\((\w+)\) = (.*)$', line)
            x.ok(m is not None, '%s: line %r' % (what, line))
            x.ok(m.group(1) == str(ga.basis[j]), '%s: line %d is for %s' % (what, j, m.group(1)))
            read_mv(x, R, m.group(2), sum((A[i, j] * mvs[i] for i in range(n)), ga.mv(S.Zero)), '%s line %d' % (what, j))


@check(P, lt_cases(), quick=60, shards=1, rule='a non-zero component')
def multilinear(c, x):
    """the text of a multilinear function is the expression of its value in the slot coefficients"""
    ga, loc, wl = mkalg(dict(c, kind='ortho'))
    n = ga.n
    A = Matrix(n, n, lambda i, j: coefficient(c['A'][i][j], loc))
    Mlt.increment_slots(2, ga)
    v = sum((A[i, j] * ga._mlt_pdiffs[0][i] * ga._mlt_pdiffs[1][j] for i in range(n) for j in range(n)), S.Zero)
    T = Mlt(v, ga, nargs=2)
    x.nt(v != 0)
    R = reader(ga, loc, wl, {str(s): s for k in range(2) for s in ga._mlt_pdiffs[k]})
    for s in (repr(T), GaPrinter().doprint(T), str(T.Fmt(1, 'T')).split('=', 1)[1]):
        try:
            w = R.read(s)
        except (txt.ParseError, IndexError) as e:
            x.fail('%r cannot be read: %s' % (s, e))
        if is_zero_expr(S(w) - v) is False:
            x.fail('%r reads as %s' % (s, w))


@check(P, mv_cases(), quick=60, shards=1, rule='at least two terms')
def containers(c, x):
    """dictionaries, dict_mode, ostr and oprint show every key and value once, in order"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    A, B = build(ga, c['m'], loc, n), build(ga, c['m2'], loc, n)
    x.nt(len(c['m']) > 1)
    R = reader(ga, loc, wl)
    d = {loc['p']: A, loc['q']: B}
    lines = GaPrinter(dict(dict_mode=True)).doprint(d).split('\n')
    x.ok(len(lines) == 2, 'dict_mode: %r' % (lines,))
    for (k, v), line in zip(d.items(), lines):
        a, b = line.split(' -> ')
        x.ok(a == str(k), 'dict_mode key %r' % line)
        read_mv(x, R, b, v, 'dict_mode value')
    x.ok(printer.ostr(d, dict_mode=True) == '\n'.join(lines), 'ostr with dict_mode')
    x.ok(printer.ostr(A) == GaPrinter().doprint(A), 'ostr')
    t = GaPrinter().doprint(d)
    x.ok(t == '{%s: %s, %s: %s}' % (loc['p'], GaPrinter().doprint(A), loc['q'], GaPrinter().doprint(B)), 'plain dict: %r' % t)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        printer.oprint('first', A, 'none', None, 'B', B, 'dict', {1: A})
    out = buf.getvalue().rstrip('\n').split('\n')
    x.ok(len(out) == 4 and out[1] == 'none', 'oprint: %r' % (out,))
    for line, nm, v in ((out[0], 'first', A), (out[2], 'B', B)):
        a, b = line.split('=', 1)
        x.ok(a.strip() == nm, 'oprint title %r' % line)
        read_mv(x, R, b, v, 'oprint value')


@st.composite
def long_cases(draw):
    n = draw(st.sampled_from([4, 4, 5]))
    ms = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=8, max_size=20 if n == 5 else 16, unique=True))
    pool = ['1', '-1', '2', '-3', '1/2', 'p', '-q', 'p+q', '-p-1', 'p*q']
    return {'n': n, 'names': draw(st.sampled_from(['e', 'letters', 'roots'])), 'named': draw(st.integers(0, 4)) == 0, 'fmt': draw(st.sampled_from([1, 2, 3, 3])),
            'm': [[m, draw(st.sampled_from(pool))] for m in sorted(ms)]}


def long_mv(c):
    n = c['n']
    names = {'e': ' '.join('e_%d' % (i + 1) for i in range(n)), 'letters': ' '.join('abcdf'[:n]), 'roots': ' '.join(['u_1', 'u_2', 'v_1', 'v_2', 'w_1'][:n])}[c['names']]
    ga, loc = Ga(names, g=[1, -1, 1, 2, 1][:n], coords=sympy.symbols('x y z w s', real=True)[:n]), env(X)
    if c['named']:
        A = ga.mv('B', 'mv')
        return ga, loc, A, [s for s in S(A.obj).free_symbols if s.is_commutative]
    return ga, loc, build(ga, c['m'], loc, n), []


@check(P, long_cases(), quick=60, shards=3, rule='every case: at least eight terms')
def long_multivectors(c, x):
    """every term of a multivector of many terms is in its text, whatever the format"""
    ga, loc, A, extra = long_mv(c)
    n = c['n']
    x.nt(True, 'n%d' % n, 'fmt%d' % c['fmt'], 'named' if c['named'] else 'terms')
    R = reader(ga, loc, False, {str(s): s for s in extra})
    read_mv(x, R, str(A), A, 'str(A)')
    t = GaPrinter().doprint(A.Fmt(c['fmt']))
    read_mv(x, R, t.replace('\n', ' '), A, 'Fmt(%d)' % c['fmt'])
    nz = coefs_of(A, n)
    lines = [q for q in t.split('\n') if q.strip()]
    x.ok(len(lines) == (1 if c['fmt'] == 1 else len({popcount(m) for m in nz}) if c['fmt'] == 2 else len(nz)), 'Fmt(%d) has %d lines' % (c['fmt'], len(lines)))


@st.composite
def pretty_cases(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(1, 4))
    form = draw(st.sampled_from(['flat', 'flat', 'oblique', 'symbolic', 'wedgeless']))
    n = min(n, 3) if form in ('symbolic', 'oblique') else n
    ms = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=k, max_size=k, unique=True))
    return {'n': n, 'form': form, 'm': [[m, draw(st.integers(-5, 5).filter(bool))] for m in sorted(ms)], 'm2': draw(G.mv(n, 2, 1)) if form == 'symbolic' else [],
            'unicode': draw(st.booleans()), 'base': draw(st.booleans())}


@check(P, pretty_cases(), quick=100, shards=4, rule='at least two terms')
def sympy_pretty(c, x):
    """sympy's own pretty printer, given the underlying expression (or the metric), shows the blades, bases and dot products of the multivector"""
    n = c['n']
    nm = 'e_1 e_2 e_3 e_4'.split()[:n] if c['form'] == 'wedgeless' else list('abcd')[:n]
    g = {'symbolic': None, 'oblique': [[2, 1, 0], [1, 3, 0], [0, 0, 1]]}.get(c['form'], [1] * n)
    if c['form'] == 'oblique':
        g = [r[:n] for r in g[:n]]
    ga = Ga(' '.join(nm), g=g, wedge=c['form'] != 'wedgeless')
    A = ga.mv(S.Zero)
    for m, k in c['m']:
        A = A + k * ga.mv_blades.flat[masks(n).index(m)]
    if c['m2']:
        A = A * to_mv(ga, mvd([[m, 1] for m, _ in c['m2']]))
    if c['base']:
        A = A.base_rep()
    A.obj = expand(A.obj)
    x.nt(len(c['m']) > 1, c['form'], 'unicode' if c['unicode'] else 'ascii')
    R = reader(ga, {}, c['form'] == 'wedgeless')
    s = sympy.pretty(A.obj, use_unicode=c['unicode'], wrap_line=False)
    t = s.translate({0x2080 + i: '_%d' % i if not i else str(i) for i in range(10)})
    t = re.sub(r'\(([a-d])⋅([a-d])\)', r'(\1.\2)', t)
    t = re.sub(r'\be(\d)', r'e_\1', t).replace('⋅', '*')
    if '\n' in t:
        x.reject()                       # a power, on two lines
    read_mv(x, R, t, A, 'pretty of the expression (%s)' % s)
    if c['form'] == 'symbolic':
        rows = [r for r in sympy.pretty(ga.g, use_unicode=True, wrap_line=False).split('\n') if '⋅' in r]
        want = [['(%s⋅%s)' % tuple(sorted((nm[i], nm[j]))) for j in range(n)] for i in range(n)]
        x.ok([re.findall(r'\([a-d]⋅[a-d]\)', r) for r in rows] == want, lambda: 'pretty of the metric: %s' % rows)


# ---- coefficients on their own ----------------------------------------------------------------------------
LEAF = ['p', 'q', 'r_1', 'm', 'alpha', 'x', 'y', '1', '2', '-1', '3', '1/2', '-2/3', '5/4', 'F', 'K', 'DF', 'DDF', 'DK', 'DXY', 'pi']


@st.composite
def xtree(draw, depth=3):
    if depth == 0:
        return draw(st.sampled_from(LEAF))
    k = draw(st.sampled_from(['leaf', 'leaf', 'add', 'add', 'mul', 'mul', 'mul', 'div', 'pow', 'neg', 'fun', 'sqrt', 'diff']))
    if k == 'leaf':
        return draw(st.sampled_from(LEAF))
    if k in ('add', 'mul', 'div'):
        return [k, draw(xtree(depth - 1)), draw(xtree(depth - 1))]
    if k == 'pow':
        return [k, draw(xtree(depth - 1)), draw(st.sampled_from(['2', '3', '-1', '-2', '1/2', '-1/2', '1/3', '3/2', '-3/2', 'q', '-p', 'p+1', '2*q', 'K']))]
    if k == 'fun':
        return [k, draw(xtree(depth - 1)), draw(st.sampled_from(['sin', 'cos', 'tan', 'exp', 'log', 'sinh', 'atan', 'asin', 'Abs']))]
    return [k, draw(xtree(depth - 1))]


def xval(t, loc):
    """(the expression as it is written, its value): derivatives stay unevaluated in the first"""
    if isinstance(t, str):
        e = coefficient(t, loc)
        return e, e
    k, (a, av) = t[0], xval(t[1], loc)
    if k in ('add', 'mul'):
        b, bv = xval(t[2], loc)
        return (a + b, av + bv) if k == 'add' else (a * b, av * bv)
    if k == 'div':
        b, bv = xval(t[2], loc)
        return (a / b, av / bv) if is_zero_expr(bv) is not True and b != 0 else (a, av)
    if k == 'pow':
        e = coefficient(t[2], loc)
        return (a ** e, av ** e) if is_zero_expr(av) is not True and a != 0 else (a, av)
    if k == 'neg':
        return -a, -av
    if k == 'sqrt':
        return sympy.sqrt(a), sympy.sqrt(av)
    if k == 'diff':
        v = loc['K'].args[0]
        return (sympy.Derivative(a, v), sympy.diff(av, v)) if a.free_symbols else (a, av)
    f = getattr(sympy, t[2])
    return f(a), f(av)


@check(P, st.fixed_dictionaries({'t': xtree()}), quick=300, shards=4, rule='an expression with at least four nodes')
def expressions(c, x):
    """scalar expressions of any shape, derivatives that were not carried out among them, in the text printer, in repr
    and as the argument of print"""
    ga, loc, _ = mkalg({'n': 2, 'kind': 'ortho', 'names': 'e', 'wedge': True})
    try:
        e, v = xval(c['t'], loc)
    except (TypeError, ValueError):
        x.reject('no value')
    if any(z.has(sympy.zoo, sympy.nan, sympy.oo, sympy.AccumBounds, sympy.Piecewise, sympy.sign, sympy.re, sympy.im, sympy.Subs, sympy.I, sympy.DiracDelta, sympy.Heaviside, sympy.arg) for z in (e, v)):
        x.reject('outside the grammar')
    x.nt(sum(1 for _ in sympy.preorder_traversal(e)) >= 4, 'derivative' if any(not isinstance(d.expr, sympy.core.function.AppliedUndef) for d in e.atoms(sympy.Derivative)) else 'plain')
    R = reader(ga, loc, False)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        print(e)
    for s, what in ((GaPrinter().doprint(e), 'GaPrinter'), (repr(e), 'repr'), (buf.getvalue(), 'print'), (printer.ostr(e), 'ostr')):
        try:
            w = R.read(s)
        except (txt.ParseError, KeyError, IndexError) as z:
            x.fail('%s: %r cannot be read: %s' % (what, s, z))
        x.ok(txt.is_scalar(w), '%s: %r reads as a multivector' % (what, s))
        if is_zero_expr(w - v) is False:
            x.fail('%s: %r reads as %s instead of %s' % (what, s, w, v))


@check(P, st.fixed_dictionaries({'v': st.lists(st.tuples(st.sampled_from(['e', 'e', 'e', 'f', 'gamma', '']), st.sampled_from(['_', '_', '_', '_', '', '__'])), min_size=2, max_size=5)}), quick=120, shards=2, rule='the names have different roots')
def wedgeless_names(c, x):
    """a wedgeless blade is printed with the common root and all the subscripts of its vectors; where there is no common
    root, or a name is no root with a subscript, printing is refused or nothing is left out"""
    nm = ['%s%s%s' % (r, u, i + 1) if r else 'abcdk'[i] for i, (r, u) in enumerate(c['v'])]
    n = len(nm)
    ga = Ga(' '.join(nm), g=[1] * n, wedge=False)
    x.nt(len({r for r, _ in c['v']}) > 1)
    for m in masks(n):
        if popcount(m) < 2:
            continue
        B = to_mv(ga, {m: F(2)})
        parts = [nm[i].split('_') for i in bits(m)]
        good = all(len(q) == 2 for q in parts) and len({q[0] for q in parts}) == 1
        try:
            s = str(B)
            l = printer.GaLatexPrinter().doprint(B)
        except ValueError:
            x.ok(not good, lambda: 'printing of %s was refused' % (parts,))
            continue
        if good:
            x.ok(s.replace(' ', '') == '2*%s_%s' % (parts[0][0], ''.join(q[1] for q in parts)), lambda: '%s printed as %s' % (parts, s))
        else:
            for q in parts:
                x.ok(q[0] in s and q[-1] in s, lambda: '%s printed as %s' % (parts, s))
