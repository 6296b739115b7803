"""LaTeX forms read back as the printed object (independent reader in vf/tex.py)."""
import importlib.util
import io
import os
import re
import contextlib
from runner import check
from gu import *
import gens as G
import tex
import txt
from gens import st
from galgebra import printer
from galgebra.printer import GaLatexPrinter, latex
from galgebra.dop import Pdop, Sdop
from galgebra.mv import Dop
from galgebra.lt import Mlt

_s = importlib.util.spec_from_file_location('c22', os.path.join(os.path.dirname(__file__), 'C22.py'))
c22 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c22)

P = 'C23'
X = c22.X
mkalg, build, coefficient, mvcase, algebra = c22.mkalg, c22.build, c22.coefficient, c22.mvcase, c22.algebra

OPTS = st.fixed_dictionaries({'omit_function_args': st.booleans(), 'omit_partial_derivative_fraction': st.booleans(), 'inv_trig_style': st.sampled_from(['abbreviated', 'full', 'power']),
                              'mul_symbol': st.sampled_from([None, None, None, 'dot', 'times', 'ldot']), 'fold_frac_powers': st.booleans()})
PLAIN = {}


def opts(o):
    return {k: v for k, v in o.items() if v is not None}


def tname(s):
    """LaTeX name of a symbol or function name: root^{sup}_{sub}"""
    root = re.match(r'[A-Za-z]+', s).group()
    parts = re.findall(r'(__?)([A-Za-z0-9]+)', s[len(root):])
    sup = ' '.join(b for a, b in parts if a == '__')
    sub = ' '.join(b for a, b in parts if a == '_')
    g = {'alpha': r'\alpha', 'gamma': r'\gamma'}.get(root, root)
    return g, sup, sub


def texname(s, bold=None):
    g, sup, sub = tname(s)
    return ('\\%s{%s}' % (bold, g) if bold else g) + ('^{%s}' % sup if sup else '') + ('_{%s}' % sub if sub else '')


def reader(ga, loc, wedgeless, o, extra=(), bold='boldsymbol'):
    names = {}
    for s, v in loc.items():
        if s not in ('DF', 'DDF', 'DK', 'DFK', 'DXY'):
            names[texname(s)] = v
    for s in extra:
        names[texname(s.name)] = s
    bs = list(ga.basis)
    mvs = list(ga.mv()) if ga.n > 1 else [ga.mv()[0]]
    for b, m in zip(bs, mvs):
        names[texname(str(b), bold)] = m
    if wedgeless:
        for m in masks(ga.n):
            if popcount(m) > 1:
                parts = [str(bs[i]).split('_') for i in bits(m)]
                w = mvs[bits(m)[0]]
                for i in bits(m)[1:]:
                    w = w ^ mvs[i]
                names[texname(parts[0][0] + '_' + ''.join(q[1] for q in parts), bold)] = w
    return tex.TexReader(ga, names, o.get('inv_trig_style', 'abbreviated'), o.get('omit_function_args', False))


def read(x, R, s, what):
    x.ok(isinstance(s, str), what + ' is not a string')
    b = tex.balanced(s)
    x.ok(b is None, lambda: '%s: %s in %r' % (what, b, s))
    try:
        return R.read(s)
    except (txt.ParseError, IndexError, KeyError) as e:
        x.fail('%s: %r cannot be read: %s' % (what, s, e))


def read_mv(x, R, s, A, what):
    v = read(x, R, s, what)
    try:
        B = c22.as_mv(R.ga, v)
    except txt.ParseError as e:
        x.fail('%s: %r: %s' % (what, s, e))
    d = diff_mv(A, B, R.ga.n)
    if d:
        x.fail('%s: %r reads as something else: blade %s has %s instead of %s' % (what, s, bits(d[0][0]), d[0][2], d[0][1]))


# ---- scalar expressions ---------------------------------------------------------------------------------------
LEAF = ['p', 'q', 'r', 'm', 'alpha', 'x', 'y', '1', '2', '-1', '3', '1/2', '-2/3', '5/4', 'F', 'K', 'DF', 'DDF', 'DK', 'DXY', 'pi']


@st.composite
def tree(draw, depth=3):
    if depth == 0:
        return draw(st.sampled_from(LEAF))
    k = draw(st.sampled_from(['leaf', 'leaf', 'add', 'add', 'mul', 'mul', 'mul', 'div', 'pow', 'neg', 'fun', 'sqrt']))
    if k == 'leaf':
        return draw(st.sampled_from(LEAF))
    if k in ('add', 'mul', 'div'):
        return [k, draw(tree(depth - 1)), draw(tree(depth - 1))]
    if k == 'pow':
        return [k, draw(tree(depth - 1)), draw(st.sampled_from(['2', '3', '-1', '-2', '1/2', '-1/2', '1/3', '3/2', '-3/2', 'q', '-p', 'p+1', '2*q', 'K']))]
    if k == 'fun':
        return [k, draw(st.sampled_from(['sin', 'cos', 'tan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'asinh', 'acosh', 'Abs', 'sign', 'cot'])), draw(tree(depth - 1))]
    return [k, draw(tree(depth - 1))]


def ev(t, loc):
    if isinstance(t, str):
        return loc['r_1'] if t == 'r' else coefficient(t, loc)
    k = t[0]
    a = None if k == 'fun' else ev(t[1], loc)
    if k == 'add':
        return a + ev(t[2], loc)
    if k == 'mul':
        return a * ev(t[2], loc)
    if k == 'div':
        b = ev(t[2], loc)
        return a / b if b != 0 else a
    if k == 'pow':
        return a ** coefficient(t[2], loc) if a != 0 else a
    if k == 'neg':
        return -a
    if k == 'sqrt':
        return sympy.sqrt(a)
    return getattr(sympy, t[1])(ev(t[2], loc))


BAD = (sympy.zoo, sympy.nan, sympy.oo)


@check(P, st.fixed_dictionaries({'t': tree(), 'o': OPTS}), quick=600, shards=8, rule='an expression with at least four nodes')
def expressions(c, x):
    """coefficients of any shape, under every printing option"""
    expression(c, x)


ACCEPTED = (sympy.sin, sympy.cos, sympy.tan, sympy.sinh, sympy.cosh, sympy.tanh, sympy.log, sympy.exp, sympy.cot)
INVERSE = (sympy.asin, sympy.acos, sympy.atan)


@st.composite
def ftree(draw, depth=2):
    if depth == 0:
        return draw(st.sampled_from(LEAF))
    f = ['fun', draw(st.sampled_from(['sin', 'cos', 'tan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'cot', 'Abs'])), draw(ftree(depth - 1))]
    k = draw(st.sampled_from(['fun', 'pow', 'pow', 'mul', 'div', 'rdiv', 'add']))
    if k == 'pow':
        return [k, f, draw(st.sampled_from(['2', '3', '-1', '-2', '1/2', '-1/2', '3/2', '-3/2', 'q', '-p', 'p+1', '-3']))]
    if k in ('mul', 'div', 'add'):
        return [k, f, draw(ftree(depth - 1))]
    if k == 'rdiv':
        return ['div', draw(ftree(depth - 1)), f]
    return f


@check(P, st.fixed_dictionaries({'t': ftree(), 'o': OPTS}), quick=240, shards=4, rule='an expression with at least four nodes')
def folded_brackets(c, x):
    """functions without brackets around a simple argument: a power must not read as one of the argument"""
    c['o']['fold_func_brackets'] = True
    c['o']['omit_function_args'] = True
    expression(c, x, ACCEPTED + (INVERSE if c['o']['inv_trig_style'] != 'abbreviated' else ()))


def expression(c, x, only=None):
    ga, loc, _ = mkalg({'n': 2, 'kind': 'ortho', 'names': 'e', 'wedge': True})
    try:
        e = ev(c['t'], loc)
    except (TypeError, ValueError):
        x.reject()
    if e.has(*BAD) or e.has(sympy.AccumBounds, sympy.Piecewise, sympy.Heaviside, sympy.DiracDelta, sympy.arg, sympy.re, sympy.im, sympy.Subs, sympy.I):
        x.reject()
    o = opts(c['o'])
    if only is not None and (not e.has(*only) or any(type(f) not in only and not isinstance(f, (sympy.Abs, sympy.core.function.AppliedUndef)) for f in e.atoms(sympy.Function))):
        x.reject('functions which are written without a command')
    x.nt(sum(1 for _ in sympy.preorder_traversal(e)) >= 4)
    R = reader(ga, loc, False, o)
    for s, what in ((latex(e, **o), 'latex'), (GaLatexPrinter(dict(o)).doprint(e), 'doprint')):
        v = read(x, R, s, what)
        x.ok(txt.is_scalar(v), 'multivector read')
        if is_zero_expr(v - e) is False:
            x.fail('%s: %r reads as %s instead of %s' % (what, s, v, e))
    if e.has(sympy.sign):
        return                  # the simplifier of the multivector printer makes a Piecewise of it
    # as the coefficient of a blade
    A = ga.mv(e * ga.mv_blades.flat[1].obj)
    R = reader(ga, loc, False, o)
    read_mv(x, R, latex(A, **o), A, 'as a coefficient')


@check(P, st.fixed_dictionaries({'f': st.sampled_from(['F', 'K', 'F_1']), 'd': st.lists(st.tuples(st.integers(0, 2), st.integers(1, 3)).map(list), min_size=1, max_size=3), 'o': OPTS, 'k': st.sampled_from(['1', '2', 'p', '-1/3'])}),
       quick=120, shards=1, rule='total order at least two')
def repeated_derivatives(c, x):
    """derivatives of any order: the total order above, each coordinate with its own order below"""
    ga, loc, _ = mkalg({'n': 3, 'kind': 'ortho', 'names': 'e', 'wedge': True})
    loc['F_1'] = sympy.Function('F_1')(*X[:3])
    f = loc[c['f']]
    e = f.diff(*[(X[i], k) for i, k in c['d']]) * coefficient(c['k'], loc)
    x.nt(sum(k for _, k in c['d']) >= 2)
    o = opts(c['o'])
    R = reader(ga, loc, False, o)
    s = latex(e, **o)
    R.swapped = None
    try:
        v = R.read(s)
    except txt.ParseError:
        R.swapped = False
        v = read(x, R, s, 'latex')
        if R.swapped and is_zero_expr(v - e) is not False:
            x.known('KF-C23-1')
        x.fail('%r cannot be read' % s)
    if is_zero_expr(v - e) is False:
        x.fail('%r reads as %s instead of %s' % (s, v, e))


@st.composite
def mv_cases(draw):
    c = draw(c22.mv_cases())
    c['o'] = draw(OPTS)
    c['fmt'] = draw(st.sampled_from([1, 2, 3]))
    return c


@check(P, mv_cases(), quick=320, shards=8, rule='at least two terms, or a coefficient that is not a number')
def multivector(c, x):
    """LaTeX of a multivector in each Fmt format, with title, wedgeless names, base representation, IPython form"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    A = build(ga, c['m'], loc, n)
    extra = ()
    if c['form'] == 'base':
        A = A.base_rep()
    elif c['form'] == 'raw':
        A = ga.mv((loc['p'] + 1) * A.obj)
    elif c['form'] == 'product':
        A = A * build(ga, c['m2'], loc, n) if c['kind'] != 'symbolic' else A
    elif c['form'] == 'named':
        A = ga.mv('B', ['mv', 'vector', 'bivector', 'spinor', 'scalar'][len(c['m']) % 5] if n > 1 else 'mv')
        extra = [s for s in S(A.obj).free_symbols if s.is_commutative]
    x.nt(len(c['m']) > 1 or any(coefficient(s, loc).free_symbols for _, s in c['m']), c['form'], c['kind'], 'wedgeless' if wl else 'wedge', 'fmt%d' % c['fmt'])
    o = opts(c['o'])
    R = reader(ga, loc, wl, o, extra)
    read_mv(x, R, latex(A, **o), A, 'latex')
    read_mv(x, R, GaLatexPrinter(dict(o)).doprint(A.Fmt(1)), A, 'Fmt(1)')
    s = latex(A.Fmt(c['fmt']), **o)
    read_mv(x, R, s, A, 'Fmt(%d)' % c['fmt'])
    simp = not S(A.obj).has(sympy.sin, sympy.cos, sympy.tan, sympy.exp, sympy.Pow, sympy.Function)
    if c['form'] == 'plain' and simp:
        nz = list(coefs_of(A, n))
        if c['fmt'] == 3:
            x.ok(len(R.lines or ['']) == max(1, len(nz)), 'Fmt(3): %d lines for %d blades' % (len(R.lines or ['']), len(nz)))
        if c['fmt'] == 2:
            x.ok(len(R.lines or ['']) == max(1, len({popcount(m) for m in nz})), 'Fmt(2): %d lines for the grades %s' % (len(R.lines or ['']), sorted({popcount(m) for m in nz})))
    t = latex(A.Fmt(c['fmt'], 'T'), **o)
    x.ok(re.match(r'\s*T\s*=', t), 'title missing: %r' % t)
    read_mv(x, R, t.split('=', 1)[1], A, 'Fmt with title')
    R0 = reader(ga, loc, wl, {}, extra, 'mathbf')
    s = A._repr_latex_()
    m = re.match(r'\$\\displaystyle\s(.*)\$$', s, re.S)
    x.ok(m is not None, '_repr_latex_ %r' % s)
    body = m.group(1)
    if '=' in body:
        a, body = body.split('=', 1)
        x.ok(A.title is not None and a.strip() == A.title, 'title in %r' % s)
    read_mv(x, R0, body, A, '_repr_latex_')
    # another printer setting does not leak into the next call
    latex(A, **o)
    x.ok(A._repr_latex_() == s, 'options of one call changed the next')


@check(P, c22.long_cases(), quick=60, shards=3, rule='every case: at least eight terms')
def long_multivectors(c, x):
    """every term of a multivector of many terms is in its LaTeX, whatever the format"""
    ga, loc, A, extra = c22.long_mv(c)
    n = c['n']
    x.nt(True, 'n%d' % n, 'fmt%d' % c['fmt'], 'named' if c['named'] else 'terms')
    R = reader(ga, loc, False, {}, extra)
    read_mv(x, R, latex(A), A, 'latex')
    read_mv(x, R, latex(A.Fmt(c['fmt'])), A, 'Fmt(%d)' % c['fmt'])
    nz = coefs_of(A, n)
    if c['fmt'] > 1:
        x.ok(len(R.lines or ['']) == (len({popcount(m) for m in nz}) if c['fmt'] == 2 else len(nz)), 'Fmt(%d): %d lines' % (c['fmt'], len(R.lines or [''])))


@check(P, mv_cases(), quick=120, shards=2, rule='at least two terms, or a coefficient that is not a number')
def sympy_printer(c, x):
    """the base class printer prints multivectors and operators too"""
    ga, loc, wl = mkalg(c)
    A = build(ga, c['m'], loc, ga.n)
    x.nt(len(c['m']) > 1)
    R = reader(ga, loc, wl, {}, (), 'mathbf')
    read_mv(x, R, sympy.latex(A), A, 'sympy.latex')


@st.composite
def op_cases(draw):
    c = draw(c22.op_cases())
    c['o'] = draw(OPTS)
    return c


def cmp_op(x, R, s, want, what):
    read(x, R, s, what)
    c22.cmp_op(x, R, s, want, what)


@check(P, op_cases(), quick=300, shards=6, rule='at least two terms')
def operators(c, x):
    """multivector differential operators, on either side, read back term by term"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    if c['how'] == 'terms':
        ts = []
        for m, s, e in c['terms']:
            bl = ga.mv_blades.flat[masks(n).index(m)]
            ts.append((coefficient(s, loc) * bl, Pdop({y: k for y, k in zip(X, e) if k})))
        D = Dop(ts, ga=ga, cmpflg=c['cmp'])
    elif c['how'] == 'lap':
        D = ga.grad * ga.grad
    else:
        D = ga.grad if c['how'] == 'grad' else ga.rgrad
        if c['terms']:
            D = coefficient(c['terms'][0][1], loc) * D if c['how'] == 'grad' else D
    if c['neg']:
        D = -D
    want = c22.opdict(D)
    x.nt(len(want) > 1, c['how'], 'cmp' if c['cmp'] else 'left', c['kind'])
    o = opts(c['o'])
    R = reader(ga, loc, wl, o)
    for s, what in ((latex(D, **o), 'latex'), (latex(D.Fmt(1), **o), 'Fmt'), (latex(D.Fmt(1, 'T'), **o).split('=', 1)[1], 'Fmt with title')):
        cmp_op(x, R, s, want, what)
    s = D._repr_latex_()
    cmp_op(x, reader(ga, loc, wl, {}, (), 'mathbf'), re.match(r'\$\\displaystyle\s(.*)\$$', s, re.S).group(1), want, '_repr_latex_')
    for k, w in c22.opdict(D).items():
        x.ok(not diff_mv(w, want[k], n), 'printing changed the operator')


@check(P, op_cases(), quick=160, shards=2, rule='at least two terms')
def scalar_operators(c, x):
    """scalar differential operators and partial derivatives"""
    ga, loc, wl = mkalg(c)
    ts = [(coefficient(s, loc), Pdop({y: k for y, k in zip(X, e) if k})) for _, s, e in c['terms']]
    D = Sdop(ts)
    want = {}
    for cf, pd in ts:
        k = tuple(sorted(pd.pdiffs.items(), key=lambda q: q[0].name))
        want[k] = want.get(k, ga.mv(S.Zero)) + ga.mv(cf)
    x.nt(len(want) > 1)
    o = opts(c['o'])
    R = reader(ga, loc, wl, o)
    cmp_op(x, R, latex(D, **o), want, 'latex(Sdop)')
    for _, pd in ts:
        if pd.order:
            cmp_op(x, R, latex(pd, **o), {tuple(sorted(pd.pdiffs.items(), key=lambda q: q[0].name)): ga.mv(S.One)}, 'Pdop')


@st.composite
def lt_cases(draw):
    c = draw(c22.lt_cases())
    c['o'] = draw(OPTS)
    c['how'] = draw(st.sampled_from(['matrix', 'dict', 'versor']))
    c['lcnt'] = draw(st.sampled_from([1, 2, 3]))
    return c


@check(P, lt_cases(), quick=120, shards=4, rule='at least one column with two entries')
def transformations(c, x):
    """the aligned block of a linear transformation maps every basis vector to its image"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    o = opts(c['o'])
    A = Matrix(n, n, lambda i, j: coefficient(c['A'][i][j], loc))
    mvs = list(ga.mv()) if n > 1 else [ga.mv()[0]]
    if c['how'] == 'versor':
        if c['kind'] not in ('ortho', 'nonortho'):
            x.reject()
        v = mvs[0] + 2 * mvs[-1]
        if c['partial']:
            v = v * (mvs[0] - mvs[-1]) if n > 1 else v * 2
        if (v * v.rev()).scalar() == 0:
            x.reject()
        L = ga.lt(v)
        x.nt()
    else:
        if c['how'] == 'dict':
            L = ga.lt({ga.basis[j]: sum((A[i, j] * ga.basis[i] for i in range(n)), S.Zero) for j in range(n) if any(A[:, j])} or {ga.basis[0]: S.Zero})
        else:
            L = ga.lt(A)
        x.nt(any(sum(1 for i in range(n) if A[i, j] != 0) > 1 for j in range(n)))
    R = reader(ga, loc, wl, o)
    for s, what in ((latex(L, **o), 'latex'), (latex(L.Fmt(1, 'T'), **o), 'Fmt')):
        b = tex.balanced(s)
        x.ok(b is None, lambda: '%s: %s in %r' % (what, b, s))
        m = re.match(r'(?:T = )?\s*\\left\\\{ \\begin\{aligned\} (.*) \\end\{aligned\} \\right\\\}$', s, re.S)
        x.ok(m is not None, '%s: %r' % (what, s))
        lines = m.group(1).split(r'\\')
        x.ok(len(lines) == n, '%s has %d lines' % (what, len(lines)))
        for j, line in enumerate(lines):
            a, b = line.split(r'&\mapsto')
            read_mv(x, R, a, mvs[j], 'left side %d' % j)
            want = L(mvs[j]) if c['how'] == 'versor' else sum((A[i, j] * mvs[i] for i in range(n)), ga.mv(S.Zero))
            read_mv(x, R, b, want, 'image %d' % j)
    if c['how'] == 'matrix':
        s = latex(A, **o)
        m = re.match(r'\\left\[\\begin\{array\}\{c*\}(.*)\\end\{array\}\\right\]$', s, re.S)
        x.ok(m is not None and tex.balanced(s) is None, 'matrix %r' % s)
        rows = [r.split('&') for r in m.group(1).split(r'\\')]
        x.ok([len(r) for r in rows] == [n] * n, 'matrix shape')
        for i in range(n):
            for j in range(n):
                v = read(x, R, rows[i][j], 'matrix entry')
                if is_zero_expr(v - A[i, j]) is False:
                    x.fail('matrix entry %r instead of %s' % (rows[i][j], A[i, j]))


@check(P, lt_cases(), quick=120, shards=2, rule='at least two non-zero components')
def multilinear(c, x):
    """the LaTeX of a multilinear function denotes its value, for any number of components per line"""
    ga, loc, wl = mkalg(dict(c, kind='ortho'))
    n = ga.n
    o = opts(c['o'])
    A = Matrix(n, n, lambda i, j: coefficient(c['A'][i][j], loc))
    Mlt.increment_slots(2, ga)
    one = c['how'] == 'versor'
    v = sum((A[i, j] * ga._mlt_pdiffs[0][i] * (S.One if one else ga._mlt_pdiffs[1][j]) for i in range(n) for j in range(n)), S.Zero)
    T = Mlt(v, ga, nargs=1 if one else 2)
    x.nt(sum(1 for q in A if q != 0) > 1)
    R = reader(ga, loc, wl, o, [s for k in range(2) for s in ga._mlt_pdiffs[k]])
    for s in (latex(T, **o), latex(T.Fmt(c['lcnt']), **o), latex(T.Fmt(c['lcnt'], 'T'), **o).split('=', 1)[1]):
        w = read(x, R, s, 'latex(Mlt)')
        if is_zero_expr(S(w) - v) is False:
            x.fail('%r reads as %s instead of %s' % (s, w, v))


@check(P, lt_cases(), quick=80, shards=2, rule='at least two non-zero components')
def multivector_valued(c, x):
    """the LaTeX of a multivector valued multilinear function denotes its value"""
    ga, loc, wl = mkalg(dict(c, kind='ortho'))
    n = ga.n
    o = opts(c['o'])
    A = Matrix(n, n, lambda i, j: coefficient(c['A'][i][j], loc))
    Mlt.increment_slots(2, ga)
    one = c['how'] == 'versor'
    ms = list(ga.mv_blades.flat)
    v = ga.mv(S.Zero)
    for i in range(n):
        for j in range(n):
            v = v + A[i, j] * ga._mlt_pdiffs[0][i] * (S.One if one else ga._mlt_pdiffs[1][j]) * ms[(2 * i + 3 * j + c['lcnt']) % len(ms)]
    T = Mlt(v.obj if c['lcnt'] % 2 and v.obj != 0 else v, ga, nargs=1 if one else 2)
    x.nt(sum(1 for q in A if q != 0) > 1, 'one' if one else 'two')
    R = reader(ga, loc, wl, o, [s for k in range(2) for s in ga._mlt_pdiffs[k]])
    for s in (latex(T, **o), latex(T.Fmt(c['lcnt']), **o), latex(T.Fmt(c['lcnt'], 'T'), **o).split('=', 1)[1]):
        read_mv(x, R, s, v, 'latex(Mlt)')


@st.composite
def cont(draw):
    c = draw(algebra(3))
    c['o'] = draw(OPTS)
    c['items'] = draw(st.lists(mvcase(c['n'], c22.NUM + c22.SYM[:20], 3), min_size=1, max_size=4))
    c['type'] = draw(st.sampled_from(['list', 'tuple', 'dict']))
    c['fmt'] = draw(st.sampled_from([0, 1]))
    return c


@check(P, cont(), quick=160, shards=2, rule='more than one item')
def containers(c, x):
    """Fmt of a list, tuple or dictionary shows every item once, in order, in matching delimiters; latex(list) one line each"""
    ga, loc, wl = mkalg(c)
    n = ga.n
    it = [build(ga, m, loc, n) for m in c['items']]
    keys = [sympy.Symbol('k_%d' % i) for i in range(len(it))]
    ty = c['type']
    obj = {'list': list, 'tuple': tuple, 'dict': lambda q: dict(zip(keys, q))}[ty](it)
    x.nt(len(it) > 1, ty, 'fmt%d' % c['fmt'], 'n%d' % len(it))
    s = printer.Fmt(obj, c['fmt'])
    b = tex.balanced(s)
    x.ok(b is None, lambda: '%s in %r' % (b, s))
    R = reader(ga, loc, wl, {}, keys)
    o, cl = {'list': ('[', ']'), 'tuple': ('(', ')'), 'dict': (r'\{', r'\}')}[ty]
    if c['fmt'] == 1:
        m = re.match(r'\s*\\left\s*%s\s*\\begin\{array\}\{(c*)\}(.*)\\\\\s*\\end\{array\}\s*\\right\s*%s\s*$' % (re.escape(o), re.escape(cl)), s, re.S)
        x.ok(m is not None, 'Fmt(%s, 1) = %r' % (ty, s))
        x.ok(len(m.group(1)) == len(it), 'columns')
        cells = [q.strip() for q in m.group(2).split('&')]
    else:
        m = re.match(r'\s*\\begin\{array\}\{c\}(.*?)(\\\\)?\s*\\end\{array\}\s*$', s, re.S)
        x.ok(m is not None, 'Fmt(%s, 0) = %r' % (ty, s))
        rows = [q.strip() for q in re.split(r'\\\\', m.group(1)) if q.strip()]
        x.ok(rows[0].startswith(r'\left ' + o), 'opening %r' % rows[0])
        rows[0] = rows[0][len(r'\left ' + o):]
        rows[0] = re.sub(r'\\right\.\s*$', '', rows[0])
        if len(rows) > 1:
            rows[-1] = re.sub(r'^\\left\.', '', rows[-1])
        x.ok(re.search(r'\\right\s*%s\s*$' % re.escape(cl), rows[-1]), 'closing %r' % rows[-1])
        rows[-1] = re.sub(r'\\right\s*%s\s*$' % re.escape(cl), '', rows[-1])
        cells = [q.strip() for q in rows]
    x.ok(len(cells) == len(it), '%d cells for %d items: %r' % (len(cells), len(it), s))
    for i, (q, A) in enumerate(zip(cells, it)):
        last = i == len(it) - 1
        x.ok(q.endswith(',') != last, 'separator of %r' % q)
        q = q.rstrip(',')
        if ty == 'dict':
            x.ok(':' in q, 'no value in %r' % q)
            a, q = q.split(':', 1)
            v = read(x, R, a, 'key')
            x.ok(v == keys[i], 'key %r' % a)
        read_mv(x, R, q, A, 'cell %d' % i)
    o = opts(c['o'])
    if ty == 'list':
        s = GaLatexPrinter.latex(it, **o)
        m = re.match(r'\\begin\{align\*\}(.*)\\end\{align\*\}$', s, re.S)
        x.ok(m is not None, 'latex(list) %r' % s)
        rows = [q.strip() for q in re.split(r'\\\\', m.group(1)) if q.strip()]
        x.ok(len(rows) == len(it), 'rows')
        for q, A in zip(rows, it):
            read_mv(x, R, q.lstrip('&'), A, 'row of latex(list)')
            w = latex(A, **o)
            x.ok(q.lstrip('&').strip() == w.strip(), lambda: 'row of latex(list) with %s: %r, the element alone: %r' % (o, q, w))
    # sequences print their elements
    for ob, l, r in (([it[0], it[-1]], '[', ']'), ((it[0], it[-1]), '(', ')')):
        s = latex(ob)
        m = re.match(r'\\left\s*%s(.*)\\right\s*%s$' % (re.escape(l), re.escape(r)), s, re.S)
        x.ok(m is not None, 'latex of a sequence %r' % s)
        cells = re.split(r',\s*\\\s', m.group(1))
        x.ok(len(cells) == 2, 'latex of a sequence %r' % s)
        for q, A in zip(cells, (it[0], it[-1])):
            read_mv(x, R, q, A, 'element')


# ---- names ----------------------------------------------------------------------------------------------------
LOWER = 'alpha beta gamma delta epsilon zeta eta theta iota kappa mu nu xi pi rho sigma tau upsilon phi chi psi omega'.split()
GLYPH = {w: '\\' + w for w in LOWER + 'ell hbar aleph beth Gamma Delta Theta Xi Pi Sigma Upsilon Phi Psi Omega varphi vartheta varepsilon varrho varsigma infty'.split()}
GLYPH.update({'lamda': r'\lambda', 'Lamda': r'\Lambda', 'Beta': r'\mathrm{B}', 'Zeta': r'\mathrm{Z}', 'Epsilon': r'\mathrm{E}', 'Alpha': r'\mathrm{A}', 'Eta': r'\mathrm{H}'})
WORDS = sorted(GLYPH) + ['x', 'y', 'A', 'ab', 'Q', 'm', '1', '2', '12']


def tokens(s):
    return re.findall(r'\\[A-Za-z]+|[A-Za-z0-9]|[{}^_]', s)


@st.composite
def name_cases(draw):
    w = st.sampled_from(WORDS)
    return {'root': draw(st.sampled_from([q for q in WORDS if not q[0].isdigit()])), 'sup': draw(st.lists(w, max_size=2)), 'sub': draw(st.lists(w, max_size=2)),
            'digits': draw(st.sampled_from(['', '', '1', '23'])), 'what': draw(st.sampled_from(['symbol', 'symbol', 'function', 'basis', 'power', 'coordinate']))}


@check(P, name_cases(), quick=240, shards=2, rule='a Greek or special letter in the name')
def letter_names(c, x):
    """a name is written as its letter with its superscripts and subscripts, the Greek and other special letters among them as such,
    wherever the name occurs: symbols, functions, their powers, coordinates, basis vectors"""
    name = c['root'] + c['digits'] + ''.join('__' + q for q in c['sup']) + ''.join('_' + q for q in c['sub'])
    g = lambda q: GLYPH.get(q, q)
    sup, sub = [g(q) for q in c['sup']], ([c['digits']] if c['digits'] else []) + [g(q) for q in c['sub']]
    want = g(c['root']) + ('^{%s}' % ' '.join(sup) if sup else '') + ('_{%s}' % ' '.join(sub) if sub else '')
    bold = r'\boldsymbol{%s}' % g(c['root']) + want[len(g(c['root'])):]
    x.nt(any(q in GLYPH for q in [c['root']] + c['sup'] + c['sub']), c['what'])
    if c['digits'] and c['what'] == 'function':
        name = name.replace(c['root'] + c['digits'], c['root'], 1)
        sub = [g(q) for q in c['sub']]
        want = g(c['root']) + ('^{%s}' % ' '.join(sup) if sup else '') + ('_{%s}' % ' '.join(sub) if sub else '')
    sy = sympy.Symbol(name, real=True)
    t = sympy.Symbol('t', real=True)
    if c['what'] == 'symbol':
        got = [latex(sy), GaLatexPrinter().doprint(sy)]
    elif c['what'] == 'power':
        got = [latex(2 * sy)[1:]]
    elif c['what'] == 'function':
        if hasattr(GaLatexPrinter, '_print_' + name):
            x.reject('the name of a special function')
        s = latex(sympy.Function(name)(t))
        m = re.match(r'(.*)\{\\left \(t \\right \)\}$', s, re.S)
        x.ok(m is not None, lambda: 'the function %s prints as %r' % (name, s))
        got = [m.group(1)]
    elif c['what'] == 'coordinate':
        s = latex(Pdop(sy))
        m = re.match(r'\\frac\{\\partial\}\{\\partial (.*)\}$', s, re.S)
        x.ok(m is not None, lambda: 'the derivative by %s prints as %r' % (name, s))
        got = [m.group(1)]
    else:
        ga = Ga(name + ' zz', g=[1, 1])
        got, want = [latex(ga.mv()[0])], bold
    for s in got:
        x.ok(tex.balanced(s) is None, lambda: 'unbalanced: %r' % s)
        x.ok(tokens(s) == tokens(want), lambda: '%s %s prints as %r, expected %r' % (c['what'], name, s, want))
