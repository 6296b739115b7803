"""Submanifolds: metric, products and calculus against the embedding in flat space."""
import warnings
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.ga import Sm
from galgebra.metric import Simp

DEFAULT = list(Simp.modes)

P = 'C18'
sin, cos, exp = sympy.sin, sympy.cos, sympy.exp
r, th, ph, z = sympy.symbols('r theta phi z', real=True)
x_, y_, z_ = sympy.symbols('x y z', real=True)
a, b, c3 = sympy.symbols('a b c', real=True)

# parent name -> coordinates, Cartesian position of the chart, ambient Gram matrix, orthogonal?
PAR = {
    'e2': ((x_, y_), (x_, y_), [[1, 0], [0, 1]], True),
    'e3': ((x_, y_, z_), (x_, y_, z_), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], True),
    'm3': ((x_, y_, z_), (x_, y_, z_), [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], True),
    'o2': ((x_, y_), (x_, y_), [[1, '1/2'], ['1/2', 2]], False),
    'o3': ((x_, y_, z_), (x_, y_, z_), [[1, '1/2', 0], ['1/2', 2, -1], [0, -1, 3]], False),
    'polar': ((r, th), (r * cos(th), r * sin(th)), [[1, 0], [0, 1]], True),
    'spherical': ((r, th, ph), (r * sin(th) * cos(ph), r * sin(th) * sin(ph), r * cos(th)), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], True),
    'cylinder': ((r, ph, z_), (r * cos(ph), r * sin(ph), z_), [[1, 0, 0], [0, 1, 0], [0, 0, 1]], True),
    'shear': ((x_, y_), (x_, y_ + x_ ** 2), [[1, 0], [0, 1]], False),
}
FLAT = ('e2', 'e3', 'm3', 'o2', 'o3')

# components of the coordinate map as functions of two symbols
COMP = ['p', 'q', 'p+q', 'p*q', 'p**2', 'p-q**2', '2', 'p-2*q', 'q', 'p', 'p/2', 'q**2+1', 'p', 'q', 'exp(p)', 'cos(p)']
NICE = {  # well-known surfaces / curves
    'sphere': ['sin(p)*cos(q)', 'sin(p)*sin(q)', 'cos(p)'], 'cylinder': ['cos(p)', 'sin(p)', 'q'], 'cone': ['q*cos(p)', 'q*sin(p)', 'q'],
    'saddle': ['p', 'q', 'p*q'], 'paraboloid': ['q*cos(p)', 'q*sin(p)', 'q**2'], 'plane': ['p', 'q', 'p+q'], 'swap': ['q', 'p', '2'], 'torus': ['(2+cos(q))*cos(p)', '(2+cos(q))*sin(p)', 'sin(q)'],
}


def comp(s, p, q):
    return sympy.sympify(s, locals={'p': p, 'q': q})


SIMPLE = ['p', 'q', 'p', 'q', '2', '2', 'p/2', 'p+q', 'q**2']


@st.composite
def smap(draw, n, k, pn):
    if pn in ('e3', 'm3') and draw(st.integers(0, 1)):
        m = list(NICE[draw(st.sampled_from(sorted(NICE) if pn == 'e3' else ['cylinder', 'plane', 'saddle', 'swap']))])
    else:
        pool = COMP if pn in ('e2', 'e3', 'm3', 'o2') else SIMPLE
        m = [draw(st.sampled_from(pool)) for _ in range(n)]
        if k == 2 and pn in ('spherical', 'cylinder', 'polar', 'o3'):
            # at most one component that mixes the coordinates: keeps the symbolic metric small
            mixed = [i for i, s in enumerate(m) if s in ('p+q', 'q**2')]
            for i in mixed[1:]:
                m[i] = '3'
    if k == 1:
        m = [s.replace('q', '3') for s in m]
    return m


@st.composite
def cases(draw, parents=tuple(sorted(PAR)), ks=(1, 2, 2)):
    pn = draw(st.sampled_from(parents))
    n = len(PAR[pn][0])
    k = draw(st.sampled_from(ks))
    return {'par': pn, 'map': draw(smap(n, k, pn)), 'k': k, 'names': draw(st.sampled_from(['ab', 'ab', 'ab', 'xy', 'parent', 'rev'])), 'pnorm': draw(st.booleans()),
            'norm': draw(st.booleans()), 'root': draw(st.sampled_from(['e', 'e', 'f'])), 'simp': draw(st.integers(0, 9)) == 0}


def parent(c):
    X, pos, gram, ortho = PAR[c['par']]
    n = len(X)
    names = ' '.join('E_%s' % s for s in X)
    if c['par'] in FLAT:
        return Ga(names, g=Matrix([[sp(v) for v in row] for row in gram]), coords=X), X, pos, gram
    J = Matrix([[sympy.diff(p, q) for q in X] for p in pos])
    g = (J.T * Matrix([[sp(v) for v in row] for row in gram]) * J).applyfunc(sympy.trigsimp)
    return Ga(names, g=g, coords=X, norm=bool(c['pnorm'] and ortho)), X, pos, gram


def subcoords(c, X):
    k = c['k']
    if c['names'] == 'ab':
        return (a, b)[:k]
    if c['names'] == 'xy':
        return (x_, y_)[:k]
    if c['names'] == 'parent':
        return tuple(X[:k])
    return tuple(X[::-1][:k])


def geometry(c, X, pos, gram, U):
    """tangent vectors in the flat ambient space, as columns of functions of the sub coordinates, and their Gram matrix"""
    p, q = (U + (sympy.Integer(3),))[:2]
    u = [comp(s, p, q) for s in c['map']]
    sub = dict(zip(X, u))
    flat = [S(e).subs(sub, simultaneous=True) for e in pos]
    J = Matrix([[sympy.diff(e, w) for w in U] for e in flat])
    Gm = Matrix([[sp(v) for v in row] for row in gram])
    return u, flat, J, J.T * Gm * J, Gm


def degenerate(g):
    return is_zero_expr(g.det()) is not False


def build(c, x, norm_ok=True):
    par, X, pos, gram = parent(c)
    U = subcoords(c, X)
    u, flat, J, g, Gm = geometry(c, X, pos, gram, U)
    if degenerate(g):
        x.reject('degenerate')
    k = len(U)
    diag = all(is_zero_expr(g[i, j]) is True for i in range(k) for j in range(k) if i != j)
    norm = bool(c['norm'] and diag and norm_ok)
    x.label(c['par'], 'k%d' % k, 'norm' if norm else 'raw', c['names'])
    # the built-in simplification is slow on these metrics; installing a cheaper one is a documented feature and must not change values
    Simp.profile(DEFAULT if c.get('simp') else [sympy.factor_terms])
    try:
        sm = par.sm(u, U, norm=norm, root=c['root'])
    finally:
        Simp.profile(DEFAULT)
    return par, X, U, u, flat, J, g, Gm, sm, norm, diag


@check(P, cases(), quick=240, shards=8, rule='a submanifold with non-constant metric or a curvilinear parent')
def pullback_metric(c, x):
    """the metric of a submanifold is the pull-back of the (flat ambient) metric along its embedding; the basis squares and products follow it;
    names, coordinates and reciprocal pairing are right"""
    par, X, U, u, flat, J, g, Gm, sm, norm, diag = build(c, x)
    k = len(U)
    x.nt(bool(g.free_symbols) or c['par'] not in FLAT)
    x.ok(isinstance(sm, Sm) and sm.ga is par and sm.n == k and tuple(sm.coords) == U, 'submanifold data')
    x.ok([str(e) for e in sm.basis] == ['%s_%s' % (c['root'], w) for w in U], lambda: 'basis names %s' % (sm.basis,))
    raw = sm.g_raw
    for i in range(k):
        for j in range(k):
            x.ok(same_expr(raw[i, j], g[i, j]) is not False, lambda: 'metric[%d,%d] is %s, pull-back is %s' % (i, j, raw[i, j], g[i, j]))
            if not norm:
                x.ok(same_expr(sm.g[i, j], g[i, j]) is not False, lambda: 'g[%d,%d]' % (i, j))
            elif i == j:
                x.ok(same_expr(sm.g[i, i] ** 2, 1) is not False and same_expr(sm.g[i, i] * sm.e_norm[i] ** 2, g[i, i]) is not False,
                     lambda: 'normalised metric %s' % sm.g)
    es = sm.mv()
    for i in range(k):
        for j in range(k):
            same_mv(x, es[i] | es[j], {0: sm.g[i, j]}, k, 'e_%d|e_%d' % (i, j))
            same_mv(x, sm.mvr()[i] | es[j], {0: S.One if i == j else S.Zero}, k, 'reciprocal basis')
    if not norm and k == 2:
        same_mv(x, (es[0] ^ es[1]) * (es[0] ^ es[1]), {0: g[0, 1] ** 2 - g[0, 0] * g[1, 1]}, k, 'area element')


@st.composite
def calc_cases(draw):
    c = draw(cases(parents=('e2', 'e3', 'e3', 'm3', 'o2', 'polar', 'cylinder', 'spherical'), ks=(1, 2, 2, 2)))
    fl = st.sampled_from(['p', 'q', 'p*q', 'p**2', '1', 'q**2-p', 'sin(p)', 'p+2*q', '3*q'])
    k = c['k']
    c['f'] = [[m, draw(fl)] for m in range(1 << k) if draw(st.integers(0, 2))] or [[1, 'p*q']]
    c['s'] = draw(st.sampled_from(['x', 'y', 'x*y', 'x**2+y', 'x+y**2', 'x**2*y']))
    c['op'] = draw(st.sampled_from(['*', '^', '|', '<', '>']))
    return c


def ap(op, A, B):
    return {'*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B, '<': lambda: A < B, '>': lambda: A > B}[op]()


@check(P, calc_cases(), quick=120, shards=8, rule='a field with a non-scalar part on a curved or curvilinear submanifold')
def calculus(c, x):
    """partial derivatives of a field are the tangential projections of the derivatives of the embedded field; grad is the sum of e^i with them
    for each product and both sides; the gradient of a scalar function is the projection of the ambient gradient; vpds() is grads()"""
    par, X, U, u, flat, J, g, Gm, sm, norm, diag = build(c, x)
    k = len(U)
    gi = g.adjugate() / g.det()
    # Gamma_ij^l = g^lm  d_i b_j . b_m
    Gam = [[[sum((gi[l, m] * (sympy.diff(J[:, j], U[i]).T * Gm * J[:, m])[0] for m in range(k)), S.Zero) for l in range(k)] for j in range(k)] for i in range(k)]
    p, q = (U + (sympy.Integer(3),))[:2]
    scale = [sm.e_norm[i] if norm else S.One for i in range(k)]          # b_i = scale_i * (algebra basis)_i
    fd = {m: comp(s, p, q) for m, s in c['f']}                            # coefficients on the algebra's basis blades
    x.nt(any(m for m in fd) and bool(g.free_symbols))
    F = sm.mv(S.Zero)
    for m, bl in zip(masks(k), sm.mv_blades.flat):
        if m in fd:
            F = F + fd[m] * bl
    # the same field on the coordinate tangent blades b_I
    bd = {m: e / sympy.prod([scale[i] for i in bits(m)]) for m, e in fd.items()}

    def wedge_coef(idx):
        """b_idx[0]^b_idx[1].. -> (mask, sign) or None"""
        if len(set(idx)) < len(idx):
            return None
        s = 1
        l = list(idx)
        for i in range(len(l)):
            for j in range(len(l) - 1 - i):
                if l[j] > l[j + 1]:
                    l[j], l[j + 1] = l[j + 1], l[j]
                    s = -s
        return sum(1 << i for i in l), s
    D = []
    for i in range(k):
        out = {}
        for m, e in bd.items():
            out[m] = out.get(m, S.Zero) + sympy.diff(e, U[i])
            bs = bits(m)
            for pos_, j in enumerate(bs):
                for l in range(k):
                    t = wedge_coef(bs[:pos_] + [l] + bs[pos_ + 1:])
                    if t:
                        out[t[0]] = out.get(t[0], S.Zero) + t[1] * e * Gam[i][j][l]
        out = {m: e * sympy.prod([scale[i_] for i_ in bits(m)]) for m, e in out.items()}
        D.append(out)
        same_mv(x, F.diff(U[i]), out, k, 'derivative along %s' % U[i])
    # grad: e^i (algebra reciprocal basis / scale) times derivative
    er = [sm.mvr()[i] / scale[i] for i in range(k)]
    grad, rgrad = sm.grads()
    bl = dict(zip(masks(k), sm.mv_blades.flat))
    Dm = [sum((e * bl[m] for m, e in d.items()), sm.mv(S.Zero)) for d in D]
    op = c['op']
    same_mv(x, ap(op, grad, F), coefs_of(sum((ap(op, er[i], Dm[i]) for i in range(k)), sm.mv(S.Zero)), k), k, 'grad %s F' % op)
    same_mv(x, ap(op, F, rgrad), coefs_of(sum((ap(op, Dm[i], er[i]) for i in range(k)), sm.mv(S.Zero)), k), k, 'F %s rgrad' % op)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v, rv = sm.vpds()
    x.ok(v.cmpflg is False and rv.cmpflg is True, 'vpds sides')
    same_mv(x, ap(op, v, F), coefs_of(ap(op, grad, F), k), k, 'vpds')
    same_mv(x, ap(op, F, rv), coefs_of(ap(op, F, rgrad), k), k, 'vpds (right)')
    # scalar function of the ambient flat space restricted to the submanifold
    xs = sympy.symbols('x y w', real=True)[:len(flat)]
    fs = comp(c['s'], S.Zero, S.Zero) if False else sympy.sympify(c['s'], locals={'x': xs[0], 'y': xs[1]})
    sub = dict(zip(xs, flat))
    rest = fs.subs(sub, simultaneous=True)
    gr = coefs_of(grad * rest, k)
    for m in gr:
        x.ok(popcount(m) == 1, 'gradient of a scalar is not a vector')
    dfd = [sympy.diff(fs, q_).subs(sub, simultaneous=True) for q_ in xs]
    for i in range(k):
        # (grad f).b_i equals the ambient directional derivative along the embedded tangent vector b_i
        lhs = sum((gr.get(1 << j, S.Zero) * sm.g[j, i] for j in range(k)), S.Zero) * scale[i]
        rhs = sum((dfd[m] * J[m, i] for m in range(len(flat))), S.Zero)
        x.ok(same_expr(lhs, rhs) is not False, lambda: '(grad f).b_%d is %s, expected %s' % (i, lhs, rhs))


@st.composite
def nested_cases(draw):
    c = draw(cases(parents=('e3', 'm3', 'o3', 'spherical', 'cylinder'), ks=(2,)))
    c['norm'] = draw(st.booleans())
    k2 = draw(st.sampled_from([1, 1, 2]))
    c['map2'] = [s.replace('q', '3') if k2 == 1 else s for s in (draw(st.sampled_from(['p', 'q', 'p+q', 'p*q', '2', 'p', 'q', 'p/2', 'p**2'])) for _ in range(2))]
    c['k2'] = k2
    c['names2'] = draw(st.sampled_from(['cd', 'same', 'rev']))
    return c


@check(P, nested_cases(), quick=100, shards=8, rule='the outer submanifold metric is not constant')
def nested(c, x):
    """a submanifold of a submanifold has the metric of the composed map, also when the first is normalised or coordinate names recur"""
    par, X, U, u, flat, J, g, Gm, sm, norm, diag = build(c, x)
    cd = sympy.symbols('c d', real=True)
    V = {'cd': cd, 'same': U, 'rev': U[::-1]}[c['names2']][:c['k2']]
    p, q = (tuple(V) + (sympy.Integer(3),))[:2]
    m2 = [comp(s, p, q) for s in c['map2']]
    flat2 = [e.subs(dict(zip(U, m2)), simultaneous=True) for e in flat]
    J2 = Matrix([[sympy.diff(e, w) for w in V] for e in flat2])
    g2 = J2.T * Gm * J2
    if degenerate(g2):
        x.reject('degenerate')
    x.nt(bool(g.free_symbols))
    Simp.profile([sympy.factor_terms])
    try:
        inner = sm.sm(m2, V, root='h')
        direct = par.sm([e.subs(dict(zip(U, m2)), simultaneous=True) for e in u], V, root='h')
    finally:
        Simp.profile(DEFAULT)
    k2 = len(V)
    x.ok(inner.ga is sm and inner.n == k2, 'nested data')
    for i in range(k2):
        for j in range(k2):
            x.ok(same_expr(inner.g[i, j], g2[i, j]) is not False, lambda: 'nested metric[%d,%d] is %s, composed map gives %s' % (i, j, inner.g[i, j], g2[i, j]))
    # and composed directly
    for i in range(k2):
        for j in range(k2):
            x.ok(same_expr(direct.g[i, j], inner.g[i, j]) is not False, 'direct and nested submanifold disagree')


@check(P, cases(parents=FLAT, ks=(1, 2, 2)), quick=120, shards=8, rule='a curved embedding')
def vector_manifold(c, x):
    """giving the embedding as a vector function of the coordinates yields the metric of the coordinate map and the embedded tangent vectors"""
    par, X, U, u, flat, J, g, Gm, sm, norm, diag = build(c, x)
    if set(U) & set(X):
        # a vector function of the parent's own coordinates is a field; its derivatives are the same in a constant metric
        x.label('shared names')
    k, n = len(U), par.n
    x.nt(bool(g.free_symbols))
    Y = sum((e * v for e, v in zip(u, par.mv())), par.mv(S.Zero))
    Simp.profile([sympy.factor_terms])
    try:
        vm = par.sm(Y, U, norm=norm, root=c['root'])
    finally:
        Simp.profile(DEFAULT)
    x.ok([str(e) for e in vm.basis] == [str(e) for e in sm.basis] and vm.ga is par, 'names')
    for i in range(k):
        same_mv(x, vm.ebasis[i], {1 << j: J[j, i] for j in range(n)}, n, 'embedded tangent vector %d' % i)
        for j in range(k):
            x.ok(same_expr(vm.g_raw[i, j], g[i, j]) is not False, lambda: 'vector manifold metric[%d,%d] is %s, pull-back %s' % (i, j, vm.g_raw[i, j], g[i, j]))
            x.ok(same_expr(vm.g[i, j], sm.g[i, j]) is not False, 'the two ways of giving the embedding disagree')
            same_mv(x, vm.ebasis[i] | vm.ebasis[j], {0: vm.g_raw[i, j]}, n, 'tangent products')
    f = sympy.sympify('p*q+p**2', locals={'p': U[0], 'q': U[-1]})
    same_mv(x, vm.grad * f, coefs_of(sm.grad * f, k), k, 'gradient of a scalar')


@check(P, st.fixed_dictionaries({'par': st.sampled_from(sorted(PAR)), 'len': st.integers(0, 4), 'pnorm': st.booleans()}), quick=16, shards=1, rule='length differs from the parent dimension')
def malformed(c, x):
    """a map with the wrong number of components is rejected"""
    par, X, pos, gram = parent(c)
    u = [a, b, a * b, a + b][:c['len']]
    if len(u) == par.n:
        return
    x.nt()
    try:
        par.sm(u, (a, b))
    except ValueError:
        pass
    else:
        x.fail('a map with %d components into %d dimensions was accepted' % (len(u), par.n))
    try:
        Sm([a] * par.n, (a,), ga=None)
    except ValueError:
        return
    x.fail('no parent accepted')
