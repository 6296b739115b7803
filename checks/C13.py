import copy
from runner import check
from gu import *
import gens as G
from gens import st
from sympy import ImmutableMatrix
from galgebra.metric import Metric

P = 'C13'


def ssp(e):
    return [[sp(q) for q in r] for r in e]


@st.composite
def spec(draw):
    n = draw(st.integers(1, 4))
    kind, g = draw(G.metric(n))
    form = draw(st.sampled_from(['Matrix', 'ImmutableMatrix', 'list', 'tuple', 'lol', 'tot', 'string', 'strpad']))
    names = draw(st.sampled_from(['space', 'comma', 'comma,', 'star', 'starn', 'root']))
    coords = draw(st.sampled_from([None, 'tuple', 'list']))
    return {'g': g, 'form': form, 'names': names, 'coords': coords}


def give(g, form):
    n = len(g)
    gs = ssp(g)
    d = G.is_diag(g)
    if form == 'Matrix':
        return Matrix(gs)
    if form == 'ImmutableMatrix':
        return ImmutableMatrix(gs)
    if form in ('list', 'tuple') and d:
        v = [gs[i][i] for i in range(n)]
        return v if form == 'list' else tuple(v)
    if form == 'tot':
        return tuple(tuple(r) for r in gs)
    if form in ('string', 'strpad') and (n > 1 or d):
        if d and form == 'string' or n == 1:
            return ' '.join(str(gs[i][i]) for i in range(n))
        return (', ' if form == 'strpad' else ',').join(' '.join(str(q) for q in r) for r in gs)
    return [list(r) for r in gs]


@check(P, spec(), quick=600, shards=4, rule='non-diagonal or degenerate metric, or a non-list form')
def metric_is_what_was_given(c, x):
    """any accepted form of a numeric metric gives exactly that metric: ga.g, inner products, basis, dimension,
    orthogonality, E^2, determinant, signature; the caller's object is left alone"""
    g = c['g']
    n = len(g)
    names = ['p', 'q', 'r', 's'][:n]
    cs = sympy.symbols('x y z t', real=True)[:n]
    kw = {}
    nm = c['names']
    want = names
    if nm == 'space':
        basis = ' '.join(names) if n > 1 else 'p,'
    elif nm == 'comma':
        basis = ','.join(names) if n > 1 else 'p,'
    elif nm == 'comma,':
        basis = ','.join(names) + ','
    elif nm == 'star':
        basis = 'e*' + '|'.join(names)
        want = ['e_' + q for q in names]
        if n == 1:
            basis, want = 'e*1', ['e_0']
    elif nm == 'starn':
        basis = 'e*%d' % n
        want = ['e_%d' % i for i in range(n)]
    else:
        basis = 'e'
        want = ['e_' + str(q) for q in cs]
        kw['coords'] = cs
    if c['coords']:
        kw['coords'] = cs if c['coords'] == 'tuple' else list(cs)
    given = give(g, c['form'])
    before = copy.deepcopy(given)
    ga = Ga(basis, g=given, **kw)
    R = RefGA([[fr(q) for q in r] for r in g])
    x.label(c['form'], nm, 'ortho' if G.is_diag(g) else 'nonortho')
    x.nt(not G.is_diag(g) or c['form'] not in ('list', 'lol'))
    x.ok(given == before, 'the given metric was changed to %s' % (given,))
    x.ok(ga.n == n and [str(b) for b in ga.basis] == want, lambda: 'basis %s, expected %s' % (ga.basis, want))
    x.ok(ga.g == Matrix(ssp(g)), lambda: 'ga.g is %s, expected %s' % (ga.g, g))
    x.ok(bool(ga.is_ortho) == G.is_diag(g), 'is_ortho')
    e = ga.mv()
    x.ok(len(e) == n and [str(b) for b in e] == want, 'basis vectors print as %s' % (e,))
    for i in range(n):
        for j in range(n):
            x.ok((e[i] | e[j]) == sp(g[i][j]), lambda: 'e%d|e%d = %s, expected %s' % (i, j, e[i] | e[j], g[i][j]))
    x.ok(tofrac(ga.e_sq) == R.e_sq(), 'e_sq is %s, expected %s' % (ga.e_sq, R.e_sq()))
    x.ok(tofrac(ga.detg.doit()) == F(G.det(g)), 'detg is %s' % ga.detg.doit())
    x.ok([len(b) for b in ga.blades] == [sympy.binomial(n, k) for k in range(n + 1)], 'number of blades')
    x.ok((ga.coords is None) == (not kw) and (not kw or list(ga.coords) == list(cs)), 'coords %s' % (ga.coords,))
    if isinstance(given, (Matrix, list)) and not isinstance(given, ImmutableMatrix):
        if isinstance(given, Matrix):
            given[0, 0] = 77
        elif isinstance(given[0], list):
            given[0][0] = S(77)
        else:
            given[0] = S(77)
        x.ok(ga.g == Matrix(ssp(g)) and (e[0] | e[0]) == sp(g[0][0]), 'later change of the given object reached the algebra')
    if G.is_diag(g) and all(fr(g[i][i]) != 0 for i in range(n)):
        ga.signature()
        p = sum(1 for i in range(n) if fr(g[i][i]) > 0)
        x.ok(tuple(ga.sig) == (p, n - p), 'signature %s, expected %s' % (ga.sig, (p, n - p)))
    built = Ga.build(basis, g=before, **kw)
    x.ok(isinstance(built, tuple) and len(built) == n + 1 and built[0].g == ga.g and [str(b) for b in built[1:]] == want and built[0] != ga, 'Ga.build')
    m = Metric(basis, g=before, **kw)
    x.ok(m.g == ga.g and m.n == n and m.is_ortho == ga.is_ortho, 'Metric()')


ENT = ['#', '#', '0', '1', '-1', '1/2', '2']


@check(P, st.fixed_dictionaries({'n': st.integers(1, 3), 'm': st.lists(st.sampled_from(ENT), min_size=6, max_size=6), 'diag': st.booleans(), 'default': st.booleans(),
                                 'vals': st.lists(G.nz, min_size=6, max_size=6), 'a': G.mv(3, 3, 1), 'b': G.mv(3, 3, 1)}),
       quick=300, shards=4, rule='at least one symbolic entry')
def symbolic_specs(c, x):
    """'#' entries and a missing metric stand for the symmetric symbols (e_i.e_j); with numbers substituted for them every
    product is the one of the numeric metric"""
    n = c['n']
    names = ['a', 'b', 'c'][:n]
    idx = [(i, j) for i in range(n) for j in range(i, n)]
    ent = dict(zip(idx, c['m']))
    if c['diag']:
        ent = {k: (v if k[0] == k[1] else '0') for k, v in ent.items()}
    kw = {}
    if c['default']:
        ent = {k: '#' for k in idx}
    elif c['diag'] or n == 1:
        kw['g'] = ' '.join(ent[i, i] for i in range(n))
    else:
        kw['g'] = ','.join(' '.join(ent[min(i, j), max(i, j)] for j in range(n)) for i in range(n))
    ga = Ga(' '.join(names) if n > 1 else 'a,', **kw)
    e = ga.mv()
    x.nt('#' in ent.values())
    vals = {}
    num = [[None] * n for _ in range(n)]
    for (i, j), v in zip(idx, c['vals']):
        s = ent[i, j]
        gij = ga.g[i, j]
        x.ok(ga.g[j, i] == gij, 'metric not symmetric')
        if s == '#':
            x.ok(str(gij) == '(%s.%s)' % (names[i], names[j]), lambda: 'metric symbol %s' % gij)
            vals[gij] = sp(v)
            num[i][j] = num[j][i] = v
        else:
            x.ok(gij == Rational(s), 'entry %s is %s' % (s, gij))
            num[i][j] = num[j][i] = s
        x.ok((e[i] | e[j]) == gij, 'inner product %s' % (e[i] | e[j]))
    R = RefGA([[fr(q) for q in r] for r in num])
    a, b = [mvd([[m % (1 << n), v] for m, v in c[k]]) for k in 'ab']
    A, B = to_mv(ga, a), to_mv(ga, b)
    for what, got, want in (('A*B', A * B, R.mul(a, b)), ('A^B', A ^ B, R.wedge(a, b)), ('A|B', A | B, R.dot(a, b)), ('A<B', A < B, R.lc(a, b))):
        got = {m: S(q).xreplace(vals) for m, q in coefs_of(got, n).items()}
        got = ref.clean({m: tofrac(q) for m, q in got.items()})
        x.ok(got == want, lambda: '%s with the symbols replaced is %s, expected %s' % (what, show(got), show(want)))
    x.ok(tofrac(S(ga.e_sq).xreplace(vals)) == R.e_sq(), 'e_sq')
    x.ok(bool(ga.is_ortho) == all(ent[k] == '0' for k in idx if k[0] != k[1]), 'is_ortho')


BADSTR = ['1 1 1', '1', '1 0,0', '1 0,0 1,0 0', '1 0 0,0 1 0', 'x 1', '1 x,x 1', '1 0 0,0 1 0,0 0 1', '1,1,1', '1  1 ', '#']


@check(P, st.one_of(
    st.fixed_dictionaries({'what': st.just('str'), 'v': st.sampled_from(BADSTR)}),
    st.fixed_dictionaries({'what': st.just('basis'), 'v': st.sampled_from([1, None, ['a', 'b'], 2.5])}),
    st.fixed_dictionaries({'what': st.just('root'), 'v': st.text('abcxyz', min_size=1, max_size=3)}),
    st.fixed_dictionaries({'what': st.just('norm'), 'v': st.sampled_from([[[1, 1], [1, 2]], [[1, 'r'], ['r', 1]], [[0, 1], [1, 0]]])}),
    st.fixed_dictionaries({'what': st.just('preset'), 'v': st.text('o3dcylsph', max_size=6)}),
    st.fixed_dictionaries({'what': st.just('starn'), 'v': st.sampled_from(['e*x', 'e*1.5', 'e*-'])}),
    st.fixed_dictionaries({'what': st.just('X'), 'v': st.just(0)})),
    quick=160, shards=2, rule='every case is malformed')
def malformed(c, x):
    """malformed specifications raise: wrong-sized or non-numeric metric strings, non-string bases, a root without
    coordinates, norm=True for a non-orthogonal basis, unknown presets"""
    r = Symbol('r', positive=True)
    x.nt()
    w, v = c['what'], c['v']
    x.label(w)
    if w == 'preset' and v in Ga.presets:
        x.reject()
    f, exc = {'str': (lambda: Ga('a b', g=v), (ValueError, TypeError)), 'basis': (lambda: Ga(v, g=[1, 1]), TypeError),
              'root': (lambda: Ga(v, g=[1, 1]), ValueError),
              'norm': (lambda: Ga('a b', g=[[sympy.sympify(q, locals={'r': r}) for q in row] for row in v], coords=(r, Symbol('t')), norm=True), ValueError),
              'preset': (lambda: Ga.preset(v), ValueError), 'starn': (lambda: Ga(v, g=[1]), ValueError),
              'X': (lambda: Ga('a b', X=[r, r**2]), ValueError)}[w]
    try:
        f()
    except exc:
        return
    x.fail('accepted: %s %r' % (w, v))


EX = ['u', 'v', 'u*v', 'u**2', 'cos(u)', 'sin(v)', 'u*cos(v)', 'u*sin(v)', '1', 'u+v', '2*v', '0', 'v**2-u']


@check(P, st.fixed_dictionaries({'X': st.lists(st.sampled_from(EX), min_size=2, max_size=4), 'n': st.integers(1, 2)}), quick=160, shards=4,
       rule='non-constant metric')
def vector_manifold(c, x):
    """with X given the metric is the matrix of inner products of the coordinate derivatives of X"""
    u, v = sympy.symbols('u v', positive=True)
    cs = (u, v)[:c['n']]
    X = [sympy.sympify(e, locals=dict(u=u, v=v)) for e in c['X']]
    J = Matrix([[sympy.diff(q, s) for s in cs] for q in X])
    g = J.T * J
    if sympy.simplify(g.det()) == 0:
        x.reject()
    m = Metric('e', coords=cs, X=X)
    x.nt(bool(g.free_symbols))
    for i in range(len(cs)):
        for j in range(len(cs)):
            x.ok(same_expr(m.g[i, j], g[i, j]) is True, lambda: 'g[%d,%d] is %s, expected %s' % (i, j, m.g[i, j], g[i, j]))
    x.ok([str(b) for b in m.basis] == ['e_' + str(s) for s in cs], 'basis')


GD = ['1', 'r**2', 'r**2*sin(t)**2', '-1', '-r**2', 'exp(2*t)', '4', 'r', '(1+r**2)**2', 'r**2+t**2', '-(r+t)**2']


@check(P, st.fixed_dictionaries({'g': st.lists(st.sampled_from(GD), min_size=2, max_size=3), 'form': st.sampled_from(['list', 'Matrix'])}), quick=100, shards=4,
       rule='some metric entry is not +-1')
def normalised_metric(c, x):
    """norm=True gives unit basis vectors: g_ii = the sign of the given entry, e_norm**2 its absolute value, the raw metric
    kept aside and the caller's matrix untouched"""
    r, t, z = sympy.symbols('r t z', positive=True)
    gs = [sympy.sympify(e, locals=dict(r=r, t=t)) for e in c['g']]
    n = len(gs)
    given = gs if c['form'] == 'list' else sympy.diag(*gs)
    before = copy.deepcopy(given)
    ga = Ga(names_for(n), g=given, coords=(r, t, z)[:n], norm=True)
    x.nt(any(q not in (1, -1) for q in gs))
    x.ok(given == before, 'the given metric became %s' % (given,))
    pt = {r: Rational(2, 3), t: Rational(4, 5)}
    e = ga.mv()
    for i in range(n):
        s = 1 if gs[i].subs(pt) > 0 else -1
        x.ok(same_expr(ga.g[i, i], s) is True, lambda: 'normalised g[%d,%d] is %s' % (i, i, ga.g[i, i]))
        x.ok(same_expr(ga.e_norm[i]**2, s * gs[i]) is True, lambda: 'e_norm %s' % ga.e_norm[i])
        x.ok(sympy.N(ga.e_norm[i].subs(pt)) > 0, 'negative norm %s' % ga.e_norm[i])
        x.ok(same_expr(ga.g_raw[i, i], gs[i]) is True, 'g_raw %s' % ga.g_raw)
        x.ok(same_expr((e[i] * e[i]).scalar(), s) is True, 'e_i*e_i')


PRESET = {'o3d': ('x y z', ['1', '1', '1']), 'cyl3d': ('r theta z', ['1', 'r**2', '1']),
          'sph3d': ('r theta phi', ['1', 'r**2', 'r**2*cos(theta)**2']), 'para3d': ('u v z', ['u**2+v**2', 'u**2+v**2', '1'])}


@check(P, st.fixed_dictionaries({'p': st.sampled_from(sorted(PRESET)), 'root': st.sampled_from([None, 'e', 'f', 'bas'])}), quick=16, shards=4, thorough=24,
       rule='every preset')
def presets(c, x):
    """each preset is the algebra it names: coordinates, metric and normalisation"""
    ga = Ga.preset(c['p']) if c['root'] is None else Ga.preset(c['p'], c['root'])
    names, g = PRESET[c['p']]
    x.nt()
    names = names.split()
    x.label(c['p'])
    x.ok([str(s) for s in ga.coords] == names, 'coordinates %s' % (ga.coords,))
    x.ok([str(b) for b in ga.basis] == ['%s_%s' % (c['root'] or 'e', s) for s in names], 'basis %s' % (ga.basis,))
    env = {str(s): s for s in ga.coords}
    for i in range(3):
        w = sympy.sympify(g[i], locals=env)
        x.ok(same_expr(ga.g_raw[i, i], w) is True, 'metric %s' % ga.g_raw)
        if c['p'] != 'o3d':
            x.ok(same_expr(ga.g[i, i], 1) is True, 'not normalised: %s' % ga.g)
    x.ok(set(Ga.presets) == set(PRESET), 'preset names')


@check(P, st.fixed_dictionaries({'n': st.integers(2, 3), 'sig': st.sampled_from(['e', 'm+', 'm-', 0, 1, 2, 3, 4, -1, -3, 'x', 'E', 'm']), 'default': st.booleans()}), quick=120, shards=2,
       rule='a hint other than the default')
def signature_hints(c, x):
    """for a symbolic non-orthogonal metric the signature is the one given as hint; inconsistent hints are rejected"""
    n, s = c['n'], c['sig']
    want = {'e': (n, 0), 'm+': (n - 1, 1), 'm-': (1, n - 1)}.get(s) if isinstance(s, str) else ((s, n - s) if 0 <= s <= n else None)
    x.nt(s != 'e')
    try:
        ga = Metric('a b c' if n == 3 else 'a b', sig=s)
    except ValueError:
        x.ok(want is None, 'hint %r rejected' % (s,))
        return
    x.ok(want is not None, 'hint %r accepted' % (s,))
    x.ok(tuple(ga.sig) == want, 'signature %s, expected %s' % (ga.sig, want))
    gg = Ga('e_x e_y', g='g', coords=sympy.symbols('x y'), sig=s if n == 2 else 'e')
    x.ok(gg.g == gg.g.T, "general metric g='g' not symmetric")
    e = gg.mv()
    x.ok((e[0] * e[1] + e[1] * e[0]) == 2 * gg.g[0, 1] and (e[0] | e[1]) == (e[1] | e[0]), 'anticommutator for the general metric')


@check(P, st.fixed_dictionaries({'n': st.integers(1, 3), 'coords': st.booleans(), 'sym': st.sampled_from(['g', 'f', 'h']), 'diag': st.booleans()}), quick=40, shards=2,
       rule='always')
def gsym(c, x):
    """with gsym the determinant stays symbolic: E^2 = (-1)^(n(n-1)/2) det(g)"""
    n = c['n']
    cs = sympy.symbols('x y z')[:n]
    kw = {'coords': cs} if c['coords'] else {}
    if c['diag']:
        kw['g'] = [1] * n
    ga = Ga(names_for(n) if n > 1 else 'e_1,', gsym=c['sym'], **kw)
    x.nt()
    x.ok(ga.e_sq == (-1)**(n * (n - 1) // 2) * ga.detg and not ga.e_sq.is_number, 'e_sq %s' % ga.e_sq)
    x.ok(c['sym'] in str(ga.detg), 'det symbol %s' % ga.detg)
    x.ok((len(ga.detg.atoms(Symbol) & set(cs)) == n) == c['coords'], 'coordinates in det: %s' % ga.detg)
    D = ga.g.det()
    gi = Matrix(n, n, lambda i, j: ga.g_inv[i, j].replace(lambda e: e == ga.detg, lambda e: D))
    x.ok(all(is_zero_expr((gi * ga.g)[i, j] - (1 if i == j else 0)) is not False for i in range(n) for j in range(n)), 'g_inv %s' % ga.g_inv)


@check(P, st.fixed_dictionaries({'n': st.integers(1, 8), 'sym': st.sampled_from(['g', 'f']), 'diag': st.booleans(), 'coords': st.booleans()}), quick=32, shards=4,
       rule='dimension at least four')
def gsym_in_many_dimensions(c, x):
    """the sign of E^2 with a symbolic determinant in every dimension up to eight, and the determinant itself"""
    n = c['n']
    x.nt(n > 3)
    cs = sympy.symbols('x:%d' % n)
    g = sympy.eye(n)
    if not c['diag'] and n > 1:
        n = min(n, 6)
        g = sympy.eye(n)
        g[0, 1] = g[1, 0] = 2
    ga = Ga(names_for(n) if n > 1 else 'e_1,', gsym=c['sym'], g=g, **({'coords': cs[:n]} if c['coords'] and (c['diag'] or n < 5) else {}))
    x.ok(ga.e_sq == [1, 1, -1, -1][n % 4] * ga.detg and not ga.e_sq.is_number, lambda: 'e_sq %s in dimension %d' % (ga.e_sq, n))


BIG = st.tuples(st.integers(1, 10**12), st.one_of(st.integers(1, 10**9), st.integers(900, 2000)), st.sampled_from([1, -1]))


@check(P, st.fixed_dictionaries({'n': st.integers(1, 3), 'm': st.lists(BIG, min_size=6, max_size=6), 'form': st.sampled_from(['string', 'strpad', 'list', 'lol', 'Matrix']),
                                 'diag': st.booleans()}), quick=80, shards=2, rule='an entry whose numerator or denominator exceeds a thousand')
def large_entries(c, x):
    """entries with many digits are kept exactly"""
    n = c['n']
    q = [Rational(s * a, b) for a, b, s in c['m']]
    x.nt(any(abs(v.p) > 1000 or v.q > 1000 for v in q))
    g = Matrix([[q[i + j + (i > 0 and j > 0)] if i == j or not c['diag'] else 0 for j in range(n)] for i in range(n)])
    gs = [[str(g[i, j]) for j in range(n)] for i in range(n)]
    ga = Ga(names_for(n) if n > 1 else 'e_1,', g=give(gs, c['form']))
    x.ok(ga.g == g, lambda: 'metric %s for %s' % (ga.g, g))
    e = ga.mv()
    for i in range(n):
        for j in range(n):
            w = (e[i] | e[j]).scalar()
            x.ok(w == g[i, j], lambda: 'e%d|e%d = %s for %s' % (i, j, w, g[i, j]))


@check(P, st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries({'u': st.lists(G.coef, min_size=n, max_size=n), 'v': st.lists(G.coef, min_size=n, max_size=n),
       'g': st.one_of(st.none(), st.lists(G.coef, min_size=n, max_size=n), st.lists(G.coef, min_size=1, max_size=5)), 'sym': st.booleans()})), quick=100, shards=2, rule='a signature is given')
def dot_orthogonal(c, x):
    """Metric.dot_orthogonal is the sum of the products of the components weighted by the signature, which must have the dimension of the vectors"""
    n = len(c['u'])
    t = sympy.Symbol('t', real=True)
    u, v = [sp(k) for k in c['u']], [sp(k) for k in c['v']]
    if c['sym']:
        u[0] = u[0] + t
    g = None if c['g'] is None else [sp(k) for k in c['g']]
    x.nt(g is not None)
    if g is not None and len(g) != n:
        try:
            r = Metric.dot_orthogonal(u, v, g)
        except ValueError:
            return
        x.fail('a signature of the wrong length was accepted: %s' % r)
    want = sum((a * b * w for a, b, w in zip(u, v, g or [1] * n)), S.Zero)
    x.ok(is_zero_expr(S(Metric.dot_orthogonal(u, v, g) if g is not None else Metric.dot_orthogonal(u, v)) - want) is not False, 'dot_orthogonal(%s, %s, %s)' % (u, v, g))
