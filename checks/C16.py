"""Derivatives in curvilinear coordinates, decided by embedding into flat Cartesian space."""
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.dop import Pdop
from galgebra.mv import Dop
from galgebra.metric import Metric

P = 'C16'
OPS = ['*', '^', '|', '<', '>']
r, th, ph, z, u, v, w, t = sympy.symbols('r theta phi z u v w t', real=True)
sin, cos, exp, sinh, cosh, sqrt = sympy.sin, sympy.cos, sympy.exp, sympy.sinh, sympy.cosh, sympy.sqrt

# name -> coordinates, Cartesian position, ambient signature, orthogonal?
CHARTS = {
    'polar': ((r, th), (r * cos(th), r * sin(th)), (1, 1), True),
    'polar_swapped': ((th, r), (r * cos(th), r * sin(th)), (1, 1), True),
    'parabolic': ((u, v), ((u * u - v * v) / 2, u * v), (1, 1), True),
    'elliptic': ((u, v), (cosh(u) * cos(v), sinh(u) * sin(v)), (1, 1), True),
    'logpolar': ((u, v), (exp(u) * cos(v), exp(u) * sin(v)), (1, 1), True),
    'rindler': ((t, r), (r * sinh(t), r * cosh(t)), (-1, 1), True),
    'rindler_neg': ((t, r), (r * sinh(t), r * cosh(t)), (1, -1), True),
    'stretch': ((u, v), (2 * u, v ** 3 / 3 + v), (1, 1), True),
    'stretch_null': ((u, v), (u ** 2 / 2, 3 * v), (-1, 1), True),
    'inverse': ((r, th), (cos(th) / r, sin(th) / r), (1, 1), True),
    'shear': ((u, v), (u, v + u * u), (1, 1), False),
    'shear2': ((u, v), (u + v * v / 2, v - u), (1, 1), False),
    'oblique': ((u, v), (u + 2 * v, v), (1, 1), False),
    'skewpolar': ((r, th), (r * cos(th) + r, r * sin(th)), (1, 1), False),
    'shear_mink': ((u, v), (u + v * v, v), (-1, 1), False),
    'chebyshev': ((u, v), (sin(u) + v, -cos(u)), (1, 1), False),     # unit vectors at a varying angle
    'cheb_mink': ((u, v), (sinh(u), cosh(u) + v), (-1, 1), False),
    'lightcone': ((u, v), ((u + v) / 2, (u - v) / 2), (-1, 1), False),
    'cylindrical': ((r, th, z), (r * cos(th), r * sin(th), z), (1, 1, 1), True),
    'spherical': ((r, th, ph), (r * sin(th) * cos(ph), r * sin(th) * sin(ph), r * cos(th)), (1, 1, 1), True),
    'helix': ((r, th, z), (r * cos(th), r * sin(th), z + th), (1, 1, 1), False),
    'shear3': ((u, v, w), (u, v + u * u, w + u * v), (1, 1, 1), False),
    'curve': ((u,), (u ** 3 / 3 + u,), (1,), True),
    'mink_sph': ((t, r, th), (t, r * cos(th), r * sin(th)), (1, -1, -1), True),
    'id3': ((u, v, w), (u, v, w), (1, -1, 1), True),
    'mink_cyl4': ((t, r, th, z), (t, r * cos(th), r * sin(th), z), (1, -1, -1, -1), True),
    'mink_sph4': ((t, r, th, ph), (t, r * sin(th) * cos(ph), r * sin(th) * sin(ph), r * cos(th)), (1, -1, -1, -1), True),
    'two_polar': ((r, th, u, v), (r * cos(th), r * sin(th), exp(u) * cos(v), exp(u) * sin(v)), (1, 1, 1, 1), True),
    'shear4': ((u, v, w, t), (u, v + u * u, w, t + w * u), (1, 1, 1, -1), False),
}
TWO = [k for k, c in CHARTS.items() if len(c[0]) <= 2]
THREE = [k for k, c in CHARTS.items() if len(c[0]) == 3]
LIGHT = [k for k in TWO if k not in ('elliptic', 'inverse', 'skewpolar', 'stretch', 'stretch_null', 'curve')]
FOUR = [k for k, c in CHARTS.items() if len(c[0]) == 4]
FAST3 = ['cylindrical', 'mink_sph', 'spherical', 'id3']


@st.composite
def sfield(draw, n, lite=False):
    return [[draw(G.small), [draw(st.sampled_from([0, 1, 0, 2, 1])) for _ in range(n)], draw(st.sampled_from(['', '', 'a'] if lite else ['', '', '', 'sin', 'exp', 'a']))]
            for _ in range(1 if lite else draw(st.integers(1, 2)))]


def sf(s, X):
    e = S.Zero
    for c, p, fn in s:
        q = sp(c)
        for x_, k in zip(X, p):
            q *= x_ ** k
        if fn == 'a':
            q *= Symbol('a', real=True)
        elif fn:
            q *= getattr(sympy, fn)(X[len(p) // 2])
        e += q
    return e


@st.composite
def field(draw, n, maxterms=3, lite=False):
    ms = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=1, max_size=maxterms, unique=True))
    return [[m, draw(sfield(n, lite))] for m in sorted(ms)]


_cache = {}


def build(name, norm, how):
    """algebra of a chart; 'how' selects g matrix, g list, g string-free lol or X"""
    X, pos, sig, ortho = CHARTS[name]
    n = len(X)
    key = (name, norm, how)
    if key in _cache:
        return _cache[key]
    J = Matrix([[sympy.diff(p, q) for q in X] for p in pos])
    eta = sympy.diag(*sig)
    g = (J.T * eta * J).applyfunc(lambda e: sympy.trigsimp(sympy.simplify(sympy.expand(e))))
    kw = dict(coords=X, norm=norm)
    basis = 'e' if n > 1 else 'e_u,'
    if how == 'X' and all(s == 1 for s in sig):
        ga = Ga(basis, X=list(pos), **kw)
    elif how == 'list' and ortho:
        ga = Ga(basis, g=[g[i, i] for i in range(n)], **kw)
    elif how == 'lol':
        ga = Ga(basis, g=g.tolist(), **kw)
    else:
        ga = Ga(basis, g=g, **kw)
    _cache[key] = (ga, X, J, sig, g)
    return _cache[key]


class Emb:
    """Cartesian image of the chart: exact symbolic frame, evaluated at sample points"""

    def __init__(self, name, norm, how):
        self.ga, self.X, self.J, self.sig, self.g = build(name, norm, how)
        self.n = n = len(self.X)
        self.R = RefGA([[F(self.sig[i]) if i == j else F(0) for j in range(n)] for i in range(n)])
        en = self.ga.e_norm if norm else [S.One] * n
        self.en = en
        self.cols = [[self.J[k, i] / en[i] for k in range(n)] for i in range(n)]
        # basis blade -> Cartesian components (symbolic)
        self.bl = {0: {0: S.One}}
        for m in masks(n)[1:]:
            i = bits(m)[0]
            rest = self.bl[m & ~(1 << i)]
            out = {}
            for k in range(n):
                if self.cols[i][k] == 0:
                    continue
                for q, c in rest.items():
                    if not q >> k & 1:
                        out[q | 1 << k] = out.get(q | 1 << k, S.Zero) + ref.wedge_sign(1 << k, q) * self.cols[i][k] * c
            self.bl[m] = out
        self.Jinv = None

    def cart(self, d):
        """curvilinear components (symbolic) -> Cartesian components (symbolic)"""
        out = {}
        for m, c in d.items():
            for q, b in self.bl[m].items():
                out[q] = out.get(q, S.Zero) + c * b
        return out

    def dcart(self, dc):
        """Cartesian partial derivatives of Cartesian components: list over k of dicts"""
        if self.Jinv is None:
            self.Jinv = self.J.inv() if self.n < 3 else self.J.adjugate() / self.J.det()
        dq = [{m: sympy.diff(c, q) for m, c in dc.items()} for q in self.X]
        out = []
        for k in range(self.n):
            o = {}
            for j in range(self.n):
                for m, c in dq[j].items():
                    o[m] = o.get(m, S.Zero) + self.Jinv[j, k] * c
            out.append(o)
        return out

    def grad(self, dc, op, left=True):
        f = {'*': self.R.mul, '^': self.R.wedge, '|': self.R.dot, '<': self.R.lc, '>': self.R.rc}[op]
        out = {}
        for k, d in enumerate(self.dcart(dc)):
            e = {1 << k: F(self.sig[k])}
            for m, c in d.items():
                for q, b in (f(e, {m: F(1)}) if left else f({m: F(1)}, e)).items():
                    out[q] = out.get(q, S.Zero) + sp(b) * c
        return out


PTS = [[sympy.Rational(7, 10), sympy.Rational(11, 10), sympy.Rational(13, 10), sympy.Rational(9, 8)], [sympy.Rational(19, 10), sympy.Rational(3, 5), sympy.Rational(17, 20), sympy.Rational(4, 7)]]


def ev(d, X, k):
    pt = dict(zip(X, PTS[k]))
    pt[Symbol('a', real=True)] = sympy.Rational(5, 7)
    return {m: sympy.N(S(c).xreplace(pt), 30) for m, c in d.items()}


def close(x, E, got, want, what):
    """got: curvilinear Mv / dict, want: Cartesian dict"""
    gd = E.cart(coefs_of(got, E.n)) if not isinstance(got, dict) else got
    for k in range(2):
        a, b = ev(gd, E.X, k), ev(want, E.X, k)
        sc = 1 + max([abs(q) for q in list(a.values()) + list(b.values())] or [0])
        for m in set(a) | set(b):
            if not abs(a.get(m, 0) - b.get(m, 0)) < sc * sympy.Float('1e-18'):
                x.fail('%s: Cartesian blade %s is %s, expected %s at %s' % (what, bits(m), a.get(m, 0), b.get(m, 0), PTS[k][:E.n]))


def mkfield(ga, f, X):
    bl = dict(zip(masks(ga.n), ga.mv_blades.flat))
    M, d = ga.mv(S.Zero), {}
    for m, s in f:
        e = sf(s, X)
        d[m] = d.get(m, S.Zero) + e
        M = M + e * bl[m]
    return M, d


def apply(op, a, b):
    return {'*': lambda: a * b, '^': lambda: a ^ b, '|': lambda: a | b, '<': lambda: a < b, '>': lambda: a > b}[op]()


@st.composite
def cases(draw, names, nf=1, maxterms=3, lite=False):
    name = draw(st.sampled_from(names))
    n = len(CHARTS[name][0])
    return {'chart': name, 'norm': draw(st.booleans()) and CHARTS[name][3], 'how': draw(st.sampled_from(['matrix', 'list', 'lol', 'X'])),
            'fs': [draw(field(n, maxterms, lite)) for _ in range(nf)], 'op': draw(st.sampled_from(OPS)), 'op2': draw(st.sampled_from(OPS)),
            'base': draw(st.booleans())}


def first_order(c, x, ops=OPS):
    E = Emb(c['chart'], c['norm'], c['how'])
    ga, n, X = E.ga, E.n, E.X
    M, d = mkfield(ga, c['fs'][0], X)
    x.label(c['chart'], 'norm' if c['norm'] else 'coordinate basis')
    x.nt(ga.connect_flg and any(m for m in d))
    A = M.base_rep() if c['base'] else M
    dc = E.cart(d)
    close(x, E, A, dc, 'the field itself')
    for op in ops:
        close(x, E, apply(op, ga.grad, A), E.grad(dc, op), 'grad %s F' % op)
        close(x, E, apply(op, A, ga.rgrad), E.grad(dc, op, False), 'F %s rgrad' % op)
    for i, q in enumerate(X):
        w = {m: sympy.diff(e, q) for m, e in dc.items()}
        close(x, E, A.diff(q), w, 'diff(%s)' % q)
        close(x, E, A.pdiff(q), w, 'pdiff(%s)' % q)
        close(x, E, Pdop(q)(A), w, 'Pdop(%s)' % q)
    a = Symbol('a', real=True)
    close(x, E, A.pdiff(a), {m: sympy.diff(e, a) for m, e in dc.items()}, 'derivative by a parameter')


@check(P, cases(TWO), quick=120, shards=8, rule='position-dependent basis and a non-scalar field')
def gradients_2d(c, x):
    """every product of grad / rgrad with a field, and its partial derivatives, equal the flat Cartesian derivative of the same
    field (1-D and 2-D charts: orthogonal, oblique, Minkowski; normalised or coordinate basis)"""
    first_order(c, x)


@check(P, cases(FAST3 + ['helix', 'shear3'], maxterms=2), quick=40, thorough=640, shards=8, rule='position-dependent basis and a non-scalar field')
def gradients_3d(c, x):
    """the same in three dimensions"""
    first_order(c, x, sorted({c['op'], c['op2'], '*'}))


@check(P, cases(FOUR, maxterms=2, lite=True), quick=64, thorough=960, shards=8, rule='position-dependent basis and a non-scalar field')
def gradients_4d(c, x):
    """the same in four dimensions, space-time charts included"""
    first_order(c, x, sorted({c['op'], c['op2']}))


@check(P, cases(LIGHT, nf=2, maxterms=2, lite=True), quick=48, thorough=800, shards=8, rule='position-dependent basis and non-scalar fields')
def second_order(c, x):
    """nested gradients, (grad*grad), grad^grad, the product rule, and F op grad as an operator in curvilinear charts"""
    E = Emb(c['chart'], c['norm'], c['how'])
    ga, n, X = E.ga, E.n, E.X
    M, d = mkfield(ga, c['fs'][0], X)
    H, h = mkfield(ga, c['fs'][1], X)
    x.nt(ga.connect_flg and any(m for m in d) and any(m for m in h))
    x.label(c['chart'])
    dc, hc = E.cart(d), E.cart(h)
    lap = E.grad(E.grad(dc, '*'), '*')
    close(x, E, ga.grad * (ga.grad * M), lap, 'grad(grad F)')
    close(x, E, (ga.grad * ga.grad) * M, lap, '(grad*grad) F')
    close(x, E, (M * ga.rgrad) * ga.rgrad, lap, '(F rgrad) rgrad')
    close(x, E, M * (ga.rgrad * ga.rgrad), lap, 'F (rgrad*rgrad)')
    close(x, E, ga.grad ^ (ga.grad ^ M), {}, 'grad^(grad^F)')
    op, op2 = c['op'], c['op2']
    close(x, E, apply(op, ga.grad, apply(op2, M, ga.rgrad)), E.grad(E.grad(dc, op2, False), op), 'grad %s (F %s rgrad)' % (op, op2))
    # operators: (F * grad) * H and (H * rgrad-side)
    R = E.R
    out, out2 = {}, {}
    for k, dk in enumerate(E.dcart(hc)):
        e = {1 << k: F(E.sig[k])}
        for m, q in dc.items():
            co, co2 = R.mul({m: F(1)}, e), R.mul(e, {m: F(1)})
            for p, s in dk.items():
                for mm, b in R.mul(co, {p: F(1)}).items():
                    out[mm] = out.get(mm, S.Zero) + sp(b) * q * s
                for mm, b in R.mul({p: F(1)}, co2).items():
                    out2[mm] = out2.get(mm, S.Zero) + sp(b) * q * s
    close(x, E, (M * ga.grad) * H, out, '(F*grad)*H')
    close(x, E, H * (ga.rgrad * M), out2, 'H*(rgrad*F)')
    q = X[-1]
    for o in OPS:
        close(x, E, E.cart(coefs_of(apply(o, M, H).diff(q) - apply(o, M.diff(q), H) - apply(o, M, H.diff(q)), n)), {}, 'product rule for ' + o)


@check(P, st.fixed_dictionaries({'chart': st.sampled_from(sorted(k for k in CHARTS if k not in FOUR)), 'norm': st.booleans(), 'how': st.sampled_from(['matrix', 'list', 'lol', 'X'])}), quick=64, shards=8,
       rule='position-dependent basis')
def basis_derivatives(c, x):
    """ga.de, the Christoffel symbols of both kinds, dg, e_norm and the metric equal those of the embedding"""
    norm = c['norm'] and CHARTS[c['chart']][3]
    E = Emb(c['chart'], norm, c['how'])
    ga, n, X, J = E.ga, E.n, E.X, E.J
    x.label(c['chart'])
    x.nt(ga.connect_flg)
    eta = sympy.diag(*E.sig)
    for i in range(n):
        for j in range(n):
            x.ok(same_expr(ga.g_raw[i, j], E.g[i, j]), 'g_raw')
            want = E.g[i, j] / (E.en[i] * E.en[j])
            for k in range(2):
                a, b = ev({0: ga.g[i, j], 1: want}, X, k).values()
                x.ok(abs(a - b) < sympy.Float('1e-18') * (1 + abs(b)), lambda: 'g[%d,%d] = %s, expected %s' % (i, j, ga.g[i, j], want))
        if norm:
            for k in range(2):
                a, b = ev({0: ga.e_norm[i] ** 2, 1: E.g[i, i]}, X, k).values()
                x.ok(abs(a - abs(b)) < sympy.Float('1e-18') * (1 + abs(b)), lambda: 'e_norm[%d] = %s, g = %s' % (i, ga.e_norm[i], E.g[i, i]))
    x.ok(bool(ga.connect_flg) == any(sympy.simplify(sympy.diff(E.g[i, j], q)) != 0 for i in range(n) for j in range(n) for q in X), 'connect_flg')
    if ga.connect_flg:
        for i in range(n):
            for j in range(n):
                wc = {1 << k: sympy.diff(E.cols[j][k], X[i]) for k in range(n)}
                close(x, E, ga.mv(ga.de[i][j]), wc, 'de[%d][%d]' % (i, j))
                close(x, E, ga.mv(ga.blade_derivation(ga.basis[j], i)), wc, 'blade_derivation')
    else:
        x.ok(ga.de is None, 'de of a constant metric')
    m = Metric('e' if n > 1 else 'e_u,', g=E.g, coords=X)
    if m.connect_flg:
        G1, G2 = m.Christoffel_symbols(1), m.Christoffel_symbols(mode=2)
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    x.ok(same_expr(m.dg[i][j][k], sympy.diff(E.g[i, j], X[k])), 'dg')
                    w1 = sum(sympy.diff(J[a, j], X[i]) * eta[a, a] * J[a, k] for a in range(n))
                    x.ok(same_expr(G1[i][j][k], w1), lambda: 'Gamma1[%d][%d][%d] = %s, expected %s' % (i, j, k, G1[i][j][k], w1))
                w2 = [sum(G2[i][j][k] * J[a, k] for k in range(n)) for a in range(n)]
                for a in range(n):
                    x.ok(same_expr(w2[a], sympy.diff(J[a, j], X[i])), lambda: 'Gamma2[%d][%d] = %s' % (i, j, G2[i][j]))
        try:
            m.Christoffel_symbols(mode=3)
            x.fail('mode=3 accepted')
        except ValueError:
            pass
    else:
        x.ok(m.Christoffel_symbols(1) is None, 'Christoffel symbols of a constant metric')


@check(P, st.fixed_dictionaries({'chart': st.sampled_from(LIGHT + FAST3 + ['helix', 'chebyshev']), 'norm': st.booleans(), 'how': st.just('matrix'),
                                 'calls': st.lists(st.tuples(st.integers(0, 7), st.sampled_from(OPS), st.booleans(), st.integers(0, 2)), min_size=1, max_size=5)}),
       quick=64, shards=8, rule='position-dependent basis, a blade that is not a scalar')
def connections(c, x):
    """Ga.connection(e^j, blade, op, left) is sum_j e^j op D_j blade (or with the factors exchanged), on the first call and on every later one"""
    norm = c['norm'] and CHARTS[c['chart']][3]
    E = Emb(c['chart'], norm, c['how'])
    ga, n, X = E.ga, E.n, E.X
    if not ga.connect_flg:
        x.reject('constant basis')
    x.label(c['chart'])
    for m, op, left, j in c['calls'] * 2:
        m %= 1 << n
        if m == 0:
            continue
        x.nt()
        sym = ga.indexes_to_blades_dict[tuple(bits(m))]
        got = ga.mv(ga.connection(ga.r_basis[j % n], sym, op, left))
        close(x, E, got, E.grad(E.cart({m: S.One}), op, left), 'connection of %s under %s, left=%s' % (sym, op, left))


# ---- intrinsic metrics without an embedding ------------------------------
@st.composite
def intrinsic(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    ent = st.sampled_from(['1+x**2', 'exp(x)', 'x**2', '2+y', '1', 'y**2+1', 'x*y', '-1-y**2', '3', '1/x', '1-1/x', 'sin(y)**2'])
    off = st.sampled_from(['0', 'x', 'y/2', '1/3', 'x*y/4', '0'])
    g = [[None] * n for _ in range(n)]
    ortho = draw(st.booleans()) or n == 3
    for i in range(n):
        g[i][i] = draw(ent)
        for j in range(i):
            g[i][j] = g[j][i] = '0' if ortho else draw(off)
    return {'g': g, 'norm': draw(st.booleans()) and ortho, 'f': draw(field(n, 2))}


@check(P, intrinsic(), quick=64, shards=8, rule='position-dependent metric')
def connection_axioms(c, x):
    """for any metric field (curved ones included) the basis derivatives are metric compatible and torsion free; partial
    derivatives obey the product rule; a normalised basis is orthonormal"""
    xs = sympy.symbols('x y z', real=True)[:len(c['g'])]
    n = len(xs)
    g = Matrix([[sympy.sympify(e, locals={'x': xs[0], 'y': xs[1]}) for e in row] for row in c['g']])
    dg = sympy.det(g)
    if sympy.simplify(dg) == 0:
        x.reject('singular')
    pts = [dict(zip(xs, p)) for p in PTS]
    if any(abs(sympy.N(dg.xreplace(p))) < 1e-9 for p in pts):
        x.reject('singular at a sample point')
    ga = Ga('e', g=g, coords=xs, norm=c['norm'])
    x.nt(ga.connect_flg)
    x.label('norm' if c['norm'] else 'plain', 'ortho' if ga.is_ortho else 'oblique')
    e = ga.mv()

    def zero(q, what):
        for p in pts:
            val = sympy.N(S(q).xreplace(p), 30)
            x.ok(abs(val) < 1e-18, lambda: '%s: %s is not zero at %s (%s)' % (what, q, p, val))
    if c['norm']:
        for i in range(n):
            for p in pts:
                q = sympy.N(ga.g[i, i].xreplace(p))
                s = sympy.N(g[i, i].xreplace(p))
                x.ok(abs(q * abs(s) - s) < 1e-9 * (1 + abs(s)), lambda: 'normalised g[%d,%d] = %s for %s' % (i, i, ga.g[i, i], g[i, i]))
    if not ga.connect_flg:
        return
    en = ga.e_norm if c['norm'] else [S.One] * n
    D = lambda i, j: ga.mv(ga.de[i][j])
    for k in range(n):
        for i in range(n):
            for j in range(i, n):
                zero((D(k, i) | e[j]).scalar() + (e[i] | D(k, j)).scalar() - sympy.diff(ga.g[i, j], xs[k]), 'metric compatibility')
    for i in range(n):
        for j in range(i):
            # [d_i e_j - d_j e_i] of the coordinate vectors e_norm * e
            T = (en[j] * e[j]).diff(xs[i]) - (en[i] * e[i]).diff(xs[j])
            for q in coefs_of(T, n).values():
                zero(q, 'torsion')
    M, d = mkfield(ga, c['f'], xs)
    q = ga.grad ^ (ga.grad ^ M)
    if n == 2 or all(popcount(m) <= 1 for m in d):      # Bianchi: grad^grad^F vanishes in every torsion-free geometry
        for v_ in coefs_of(q, n).values():
            zero(v_, 'grad^(grad^F)')
    f = sf(c['f'][0][1], xs)
    lhs = ga.grad * (f * M) - (ga.grad * f) * M - f * (ga.grad * M)
    for v_ in coefs_of(lhs, n).values():
        zero(v_, 'grad(fF) - (grad f)F - f grad F')
