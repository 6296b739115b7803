"""Geometric derivative with a constant metric."""
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.dop import Pdop, Sdop
from galgebra.mv import Dop

P = 'C15'
CN = ['x', 'y', 'z', 'w', 'u']
NAMESETS = [['x', 'y', 'z', 'w', 'u'], ['t', 'x', 'y', 'z', 'u'], ['r', 'theta', 'phi', 's', 'q']]
OPS = ['*', '^', '|', '<', '>']


def apply(op, a, b):
    return {'*': lambda: a * b, '^': lambda: a ^ b, '|': lambda: a | b, '<': lambda: a < b, '>': lambda: a > b}[op]()


def rop(R, op):
    return {'*': R.mul, '^': R.wedge, '|': R.dot, '<': R.lc, '>': R.rc}[op]


def coords_for(c, n):
    return sympy.symbols(' '.join(NAMESETS[c.get('cn', 0)][:n]), real=True, seq=True)


# a scalar field is a list of [coef, powers, fn, arg] : coef * prod x_i^p_i * fn(sum arg_i x_i) (fn may be '' or 'a' = a symbolic constant)
@st.composite
def sfield(draw, n, fns=('', '', '', 'sin', 'exp', 'a')):
    return [[draw(G.small), [draw(st.sampled_from([0, 1, 0, 2, 1])) for _ in range(n)], draw(st.sampled_from(fns)),
             [draw(st.sampled_from([0, 1, -1, 2])) for _ in range(n)]] for _ in range(draw(st.integers(1, 2)))]


def sf(s, X):
    e = S.Zero
    for c, p, fn, a in s:
        t = sp(c)
        for x_, k in zip(X, p):
            t *= x_ ** k
        if fn == 'a':
            t *= Symbol('a', real=True)
        elif fn:
            t *= getattr(sympy, fn)(sum((k * x_ for k, x_ in zip(a, X)), S.Zero))
        e += t
    return e


@st.composite
def field(draw, n, maxterms=3, minterms=1, fns=('', '', '', 'sin', 'exp', 'a')):
    ms = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=min(minterms, 1 << n), max_size=min(maxterms, 1 << n), unique=True))
    return [[m, draw(sfield(n, fns))] for m in sorted(ms)]


def mkfield(ga, f, X):
    n = ga.n
    bl = dict(zip(masks(n), ga.mv_blades.flat))
    M = ga.mv(S.Zero)
    d = {}
    for m, s in f:
        e = sf(s, X)
        d[m] = d.get(m, S.Zero) + e
        M = M + e * bl[m]
    return M, d


def recips(c):
    g = [[fr(v) for v in r] for r in c['g']]
    gi = ref.mat_inv(g)
    n = len(g)
    return [ref.clean({1 << j: gi[i][j] for j in range(n)}) for i in range(n)], gi


def acc(out, d, s):
    for m, c in d.items():
        out[m] = out.get(m, S.Zero) + sp(c) * s
    return out


def ref_grad(R, rec, X, d, op, left=True):
    f = rop(R, op)
    out = {}
    for i, xi in enumerate(X):
        for m, e in d.items():
            de = sympy.diff(e, xi)
            if de == 0:
                continue
            b = {m: F(1)}
            acc(out, f(rec[i], b) if left else f(b, rec[i]), de)
    return out


def base_case(nmin=1, nmax=3, kinds=('euclid', 'signature', 'diag', 'sym', 'sym'), ns=None):
    return G.ga_nd(nmin, nmax, kinds, ns)


@st.composite
def grad_cases(draw, ns=(1, 2, 3, 3)):
    gc = draw(base_case(ns=list(ns)))
    n = len(gc['g'])
    return {'ga': gc, 'f': draw(field(n)), 'h': draw(field(n, 2)), 'op': draw(st.sampled_from(OPS)), 'op2': draw(st.sampled_from(OPS)),
            'cn': draw(st.integers(0, 2)), 'base': draw(st.booleans())}


def setup(c):
    n = len(c['ga']['g'])
    X = coords_for(c, n)
    ga, R = mk(c['ga'], coords=tuple(X))
    rec, gi = recips(c['ga'])
    return ga, R, n, X, rec, gi


def nontrivial(d, X):
    return any(m and any(sympy.diff(e, q) != 0 for q in X) for m, e in d.items())


@check(P, grad_cases(), quick=400, shards=8, rule='a field with a non-scalar part depending on a coordinate')
def grad_definition(c, x):
    """grad op F and F op rgrad are the sums of e^j op d_jF and d_jF op e^j for each of the five products"""
    ga, R, n, X, rec, gi = setup(c)
    M, d = mkfield(ga, c['f'], X)
    x.nt(nontrivial(d, X))
    x.label(c['ga']['kind'], 'n%d' % n, c['op'])
    grad, rgrad = ga.grads()
    x.ok(grad is ga.grad and rgrad is ga.rgrad, 'grads()')
    A = M.base_rep() if c['base'] else M
    for op in OPS:
        same_mv(x, apply(op, grad, A), ref_grad(R, rec, X, d, op, True), n, 'grad %s F' % op)
        same_mv(x, apply(op, A, rgrad), ref_grad(R, rec, X, d, op, False), n, 'F %s rgrad' % op)
    same_mv(x, A, d, n, 'the field afterwards')
    if n > 1:
        # scalar functions given as plain expressions
        e = sf(c['f'][0][1], X)
        same_mv(x, grad * e, ref_grad(R, rec, X, {0: e}, '*'), n, 'grad * expression')
        same_mv(x, e * rgrad, ref_grad(R, rec, X, {0: e}, '*', False), n, 'expression * rgrad')
        same_mv(x, grad ^ e, ref_grad(R, rec, X, {0: e}, '^'), n, 'grad ^ expression')


@check(P, grad_cases(ns=(1, 2, 2, 3)), quick=240, shards=8, rule='both fields non-scalar and coordinate dependent')
def grad_as_operator(c, x):
    """F op grad is the operator with coefficients F op e^j (rgrad op F likewise), so (F op grad) op2 H = sum (F op e^j) op2 d_jH"""
    ga, R, n, X, rec, gi = setup(c)
    M, d = mkfield(ga, c['f'], X)
    H, h = mkfield(ga, c['h'], X)
    x.nt(nontrivial(d, X) and nontrivial(h, X))
    op, op2 = c['op'], c['op2']
    x.label(op, op2)
    f, f2 = rop(R, op), rop(R, op2)

    def want(left):
        out = {}
        for i, xi in enumerate(X):
            for m, e in d.items():
                co = f({m: F(1)}, rec[i]) if left else f(rec[i], {m: F(1)})
                for k, q in h.items():
                    dq = sympy.diff(q, xi)
                    if dq != 0:
                        acc(out, f2(co, {k: F(1)}) if left else f2({k: F(1)}, co), e * dq)
        return out
    L = apply(op, M, ga.grad)
    x.ok(isinstance(L, Dop) and not L.cmpflg, 'F %s grad is not an operator' % op)
    same_mv(x, apply(op2, L, H), want(True), n, '(F %s grad) %s H' % (op, op2))
    Rr = apply(op, ga.rgrad, M)
    x.ok(isinstance(Rr, Dop) and Rr.cmpflg, 'rgrad %s F is not an operator' % op)
    same_mv(x, apply(op2, H, Rr), want(False), n, 'H %s (rgrad %s F)' % (op2, op))


@check(P, grad_cases(ns=(1, 2, 2, 3)), quick=200, shards=8, rule='a field with a non-scalar part depending on a coordinate')
def second_order(c, x):
    """grad(grad F) = (grad*grad) F = sum g^jk d_j d_k F (a scalar operator); grad^(grad^F) = 0; two-fold operators with any
    pair of products act as the nested application"""
    ga, R, n, X, rec, gi = setup(c)
    M, d = mkfield(ga, c['f'], X)
    x.nt(nontrivial(d, X))
    grad, rgrad = ga.grad, ga.rgrad
    lap = {}
    for m, e in d.items():
        s = sum((sp(gi[i][j]) * sympy.diff(e, X[i], X[j]) for i in range(n) for j in range(n)), S.Zero)
        lap[m] = s
    same_mv(x, grad * (grad * M), lap, n, 'grad(grad F)')
    L = grad * grad
    x.ok(L.is_scalar(), 'grad*grad is not a scalar operator: %s' % L)
    same_mv(x, L * M, lap, n, '(grad*grad) F')
    same_mv(x, (grad | grad) * M, lap, n, '(grad|grad) F')
    same_mv(x, (M * rgrad) * rgrad, lap, n, '(F rgrad) rgrad')
    same_mv(x, M * (rgrad * rgrad), lap, n, 'F (rgrad*rgrad)')
    same_mv(x, grad ^ (grad ^ M), {}, n, 'grad^(grad^F)')
    W = grad ^ grad
    x.ok(len(W.terms) == 0 or (W * M).is_zero(), 'grad^grad is not zero: %s' % W)
    a, b = c['op'], c['op2']
    if a in '*^' and b in '*^' and a == b:     # associative products: (grad a grad) a F = grad a (grad a F)
        same_mv(x, apply(a, apply(a, grad, grad), M), ref_grad(R, rec, X, ref_grad(R, rec, X, d, a), a), n, '(grad %s grad) %s F' % (a, a))
    same_mv(x, apply(b, grad, apply(a, grad, M)), ref_grad(R, rec, X, ref_grad(R, rec, X, d, a), b), n, 'grad %s (grad %s F)' % (b, a))
    same_mv(x, apply(b, grad, apply(a, M, rgrad)), ref_grad(R, rec, X, ref_grad(R, rec, X, d, a, False), b), n, 'grad %s (F %s rgrad)' % (b, a))


@st.composite
def tall_cases(draw):
    n = draw(st.sampled_from([4, 4, 5, 5, 6]))
    gc = draw(base_case(ns=[n], kinds=('euclid', 'signature', 'diag') + (('sym',) if n == 4 else ())))

    def fld(k):
        ms = draw(st.lists(st.integers(1, (1 << n) - 1), min_size=k, max_size=k, unique=True))
        return [[m, [[draw(G.small), [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(n)], draw(st.sampled_from(['', '', 'a'])), [0] * n]]] for m in sorted(ms)]
    return {'ga': gc, 'f': fld(draw(st.integers(1, 3))), 'h': fld(1), 'op': draw(st.sampled_from(OPS)), 'op2': draw(st.sampled_from(OPS)), 'perm': draw(st.permutations(list(range(n)))), 'base': draw(st.booleans())}


@check(P, tall_cases(), quick=96, shards=8, rule='both fields depend on a coordinate')
def many_dimensions(c, x):
    """the definitions of grad op F, F op rgrad, the second-order operators and F op grad as an operator in 4 to 6 dimensions"""
    n = len(c['ga']['g'])
    X = [Symbol('xyztuvw'[i], real=True) for i in c['perm']]
    ga, R = mk(c['ga'], coords=tuple(X))
    rec, gi = recips(c['ga'])
    M, d = mkfield(ga, c['f'], X)
    H, h = mkfield(ga, c['h'], X)
    x.nt(nontrivial(d, X) and nontrivial(h, X), 'n%d' % n)
    grad, rgrad = ga.grads()
    A = M.base_rep() if c['base'] and n < 6 else M
    op, op2 = c['op'], c['op2']
    g1, g2 = ref_grad(R, rec, X, d, op, True), ref_grad(R, rec, X, d, op, False)
    same_mv(x, apply(op, grad, A), g1, n, 'grad %s F' % op)
    same_mv(x, apply(op, A, rgrad), g2, n, 'F %s rgrad' % op)
    same_mv(x, apply(op2, grad, apply(op, grad, M)), ref_grad(R, rec, X, g1, op2, True), n, 'grad %s (grad %s F)' % (op2, op))
    lap = {m: sum((sp(gi[i][j]) * sympy.diff(e, X[i], X[j]) for i in range(n) for j in range(n)), S.Zero) for m, e in d.items()}
    same_mv(x, (grad * grad) * M, lap, n, '(grad*grad) F')
    same_mv(x, M * (rgrad * rgrad), lap, n, 'F (rgrad*rgrad)')
    f, f2 = rop(R, op), rop(R, op2)
    want = {}
    for i, xi in enumerate(X):
        for m, e in d.items():
            co = f({m: F(1)}, rec[i])
            for k, q in h.items():
                dq = sympy.diff(q, xi)
                if dq != 0:
                    acc(want, f2(co, {k: F(1)}), e * dq)
    same_mv(x, apply(op2, apply(op, M, grad), H), want, n, '(F %s grad) %s H' % (op, op2))
    for q in (X[0], X[-1]):
        same_mv(x, A.diff(q), {m: sympy.diff(e, q) for m, e in d.items()}, n, 'diff(%s)' % q)
    same_mv(x, Pdop({X[1]: 1, X[-1]: 2})(A), {m: sympy.diff(e, X[1], X[-1], X[-1]) for m, e in d.items()}, n, 'Pdop of third order')


@check(P, grad_cases(), quick=240, shards=8, rule='both fields non-scalar and coordinate dependent')
def partial_derivatives(c, x):
    """diff / pdiff / Pdop act coefficient-wise, for coordinates and other symbols, and satisfy the product rule; (F|grad)H and
    directional derivatives are combinations of them"""
    ga, R, n, X, rec, gi = setup(c)
    M, d = mkfield(ga, c['f'], X)
    H, h = mkfield(ga, c['h'], X)
    x.nt(nontrivial(d, X) and nontrivial(h, X))
    A = M.base_rep() if c['base'] else M
    a = Symbol('a', real=True)
    for q in list(X) + [a]:
        w = {m: sympy.diff(e, q) for m, e in d.items()}
        same_mv(x, A.diff(q), w, n, 'diff(%s)' % q)
        same_mv(x, A.pdiff(q), w, n, 'pdiff(%s)' % q)
        same_mv(x, Pdop(q)(A), w, n, 'Pdop(%s)' % q)
    same_mv(x, Pdop({X[0]: 2, X[-1]: 1} if n > 1 else {X[0]: 3})(A),
            {m: sympy.diff(e, X[0], X[0], X[-1]) for m, e in d.items()}, n, 'Pdop of higher order')
    q = X[0]
    for op in OPS:
        same_mv(x, apply(op, A, H).diff(q) - apply(op, A.diff(q), H) - apply(op, A, H.diff(q)), {}, n, 'product rule for ' + op)
    same_mv(x, ga.pDiff(A, [1] + [0] * (n - 2) + [1] if n > 1 else [2]), {m: sympy.diff(e, X[0], X[-1]) for m, e in d.items()}, n, 'pDiff with orders')
    for o in ([3] + [0] * (n - 1), [0] * (n - 1) + [4], [2] * n, [3, 2, 1][:n]):
        same_mv(x, ga.pDiff(A, o), {m: sympy.diff(e, *[(xi, k) for xi, k in zip(X, o) if k]) for m, e in d.items()}, n, 'pDiff with orders %s' % o)
    same_mv(x, ga.pDiff(M.obj, q), {m: sympy.diff(e, q) for m, e in d.items()}, n, 'pDiff of the sympy object')
    # directional derivative
    v = [1, -2, 3, 1][:n]
    V = sum((k * e for k, e in zip(v, ga.mv())), ga.mv(S.Zero))
    D = V | ga.grad
    same_mv(x, D * A, {m: sum(k * sympy.diff(e, xi) for k, xi in zip(v, X)) for m, e in d.items()}, n, '(V|grad) F')


@st.composite
def vd_cases(draw):
    gc = draw(base_case(ns=[1, 2, 3, 3]))
    n = len(gc['g'])
    return {'ga': gc, 'f': draw(field(n, 2, fns=('',))), 'op': draw(st.sampled_from(OPS)), 'coords': draw(st.booleans()),
            'vars': draw(st.sampled_from(['vec', 'list', 'grade', 'mv', 'even'])), 'r': draw(st.integers(0, 3)), 'h': draw(G.mv(n, 3, 1))}


@check(P, vd_cases(), quick=240, shards=8, rule='dimension at least two')
def derivative_by_multivector(c, x):
    """make_grad(a) is sum over the components of a of (reciprocal blade) d/da_I, for vectors, lists, pure grades and general
    multivectors, from either side, with and without coordinates, cached per side"""
    n = len(c['ga']['g'])
    X = coords_for(c, n)
    ga, R = mk(c['ga'], **({'coords': tuple(X)} if c['coords'] else {}))
    rec, gi = recips(c['ga'])
    x.nt(n > 1)
    x.label(c['vars'])
    kind = c['vars']
    r = c['r'] % (n + 1)
    ms = {'vec': [m for m in masks(n) if popcount(m) == 1], 'list': [m for m in masks(n) if popcount(m) == 1],
          'grade': [m for m in masks(n) if popcount(m) == r], 'mv': masks(n), 'even': [m for m in masks(n) if popcount(m) % 2 == 0]}[kind]
    sy = {m: Symbol('k%d' % m, real=True) for m in ms}
    bl = dict(zip(masks(n), ga.mv_blades.flat))
    A = sum((sy[m] * bl[m] for m in ms), ga.mv(S.Zero))
    arg = [sy[1 << i] for i in range(n)] if kind == 'list' else A
    G1, G2 = ga.make_grad(arg), ga.make_grad(arg, cmpflg=True)
    x.ok(not G1.cmpflg and G2.cmpflg, 'cmpflg')
    # reciprocal blades: e^I with <e^I e_J> = delta
    recb = {}
    for m in ms:
        d = {0: F(1)}
        for i in reversed(bits(m)):
            d = R.wedge(d, rec[i])
        recb[m] = d
    vs = [sy[m] for m in ms]
    # field polynomial in the components: product of powers, on the blades of c['f']
    fd = {}
    for k, (m, s) in enumerate(c['f']):
        e = sum(sp(co) * sympy.prod([vs[(j + k) % len(vs)] ** p for j, p in enumerate(pw)]) for co, pw, fn, _ in s)
        fd[m] = fd.get(m, S.Zero) + e
    # and the linear function A*h
    h = mvd(c['h'])
    H = to_mv(ga, h)
    T = sum((e * bl[m] for m, e in fd.items()), ga.mv(S.Zero))
    AH = A * H
    ahd = {}
    for m in ms:
        acc(ahd, R.mul({m: F(1)}, h), sy[m])
    for FF, dd, what in ((T, fd, 'F'), (AH, ahd, 'A h')):
        for left in (True, False):
            f = rop(R, c['op'])
            out = {}
            for m in ms:
                for k, e in dd.items():
                    de = sympy.diff(e, sy[m])
                    if de != 0:
                        acc(out, f(recb[m], {k: F(1)}) if left else f({k: F(1)}, recb[m]), de)
            same_mv(x, apply(c['op'], G1, FF) if left else apply(c['op'], FF, G2), out, n, 'derivative by A (%s) of %s, left=%s' % (kind, what, left))
            if kind == 'list':
                same_mv(x, FF.Grad(arg, c['op'], left), out, n, 'Mv.Grad')
    x.ok(ga.make_grad(arg) == G1 and ga.make_grad(arg, True) == G2, 'make_grad on a second call')
    if c['coords'] and n > 1:
        rv = ga.mv(ga.coord_vec)
        x.ok(ga.make_grad(rv) == ga.grad and ga.make_grad(rv, cmpflg=True) == ga.rgrad, 'make_grad of the position vector is not grad')


@check(P, st.fixed_dictionaries({'ga': base_case(ns=[2, 3]), 'cat': st.sampled_from(['vector', 'mv', 'spinor', 'bivector', 'scalar', 'pseudo'])}), quick=48, shards=8,
       rule='metric not the identity')
def named_fields(c, x):
    """the same definition for named unknown function fields f=True"""
    ga, R, n, X, rec, gi = setup(c)
    A = ga.mv('A', c['cat'], f=True)
    x.nt(c['ga']['kind'] != 'euclid')
    d = coefs_of(A, n)
    for op in OPS:
        got, want = coefs_of(apply(op, ga.grad, A), n), ref_grad(R, rec, X, d, op)
        for m in set(got) | set(want):
            x.ok(sympy.expand(S(got.get(m, 0)) - S(want.get(m, 0)).doit()) == 0, lambda: 'grad %s A at %s: %s, expected %s' % (op, bits(m), got.get(m, 0), want.get(m, 0)))
    W = ga.grad ^ (ga.grad ^ A)
    x.ok(W.is_zero(), 'grad^grad^A')


PAR = ['t', 't**2', 'sin(t)', '2', '3*t-1', 'cos(s)', 's*t', 't+s', '0']


@st.composite
def par_cases(draw):
    gc = draw(base_case(ns=[1, 2, 3]))
    n = len(gc['g'])
    f = draw(field(n, 3))
    return {'ga': gc, 'f': f, 'tf': [draw(st.sampled_from(['1', 't', '1', 's*t', 't**2'])) for _ in f], 'par': [draw(st.sampled_from(PAR)) for _ in range(n)],
            'polar': draw(st.integers(0, 2)) == 0 and n == 2, 'base': draw(st.booleans())}


@check(P, par_cases(), quick=100, shards=4, rule='the field depends on a coordinate whose parametric function depends on the parameter')
def parametric(c, x):
    """after parametric([f1..fn]) the derivative with respect to a parameter is the total derivative along x_i = f_i; derivatives with
    respect to coordinates and unrelated symbols stay what they were"""
    n = len(c['ga']['g'])
    X = coords_for(c, n)
    t, s, q = sympy.symbols('t s q', real=True)
    pc = [sympy.sympify(p, locals={'t': t, 's': s}) for p in c['par']]
    if c['polar']:
        ga = Ga('e', g=[1, X[0] ** 2], coords=tuple(X))
        gb = Ga('e', g=[1, X[0] ** 2], coords=tuple(X))
    else:
        ga, gb = mk_ga(c['ga'], coords=tuple(X)), mk_ga(c['ga'], coords=tuple(X))
    f = [[m, w] for m, w in c['f']]
    fac = [sympy.sympify(w, locals={'t': t, 's': s}) for w in c['tf']]

    def build(alg):
        bl = dict(zip(masks(n), alg.mv_blades.flat))
        M, d = alg.mv(S.Zero), {}
        for (m, w), k in zip(f, fac):
            e = sf(w, X) * k
            d[m] = d.get(m, S.Zero) + e
            M = M + e * bl[m]
        return (M.base_rep() if c['base'] else M), d
    M, d = build(ga)
    M0, _ = build(gb)                         # the same field without parametric functions
    x.nt(any(sympy.diff(e, xi) != 0 and sympy.diff(p, t) != 0 for e in d.values() for xi, p in zip(X, pc)), 'polar' if c['polar'] else 'const')
    for bad in ([S.One] * (n + 1), tuple(pc)):
        try:
            ga.parametric(bad)
        except (TypeError, ValueError):
            continue
        x.fail('parametric(%r) was accepted' % (bad,))
    ga.parametric(pc)
    parts = [coefs_of(M0.diff(xi), n) for xi in X]
    if not c['polar']:
        for xi, w in zip(X, parts):
            same_mv(x, w, {m: sympy.diff(e, xi) for m, e in d.items()}, n, 'derivative by ' + str(xi))
    for par in (t, s, q):
        want = {m: sympy.diff(e, par) for m, e in d.items()}
        for w, p in zip(parts, pc):
            dp = sympy.diff(p, par)
            if dp != 0:
                for m, e in w.items():
                    want[m] = want.get(m, S.Zero) + dp * e
        same_mv(x, M.diff(par), want, n, 'derivative by the parameter %s along %s' % (par, pc))
    for xi, w in zip(X, parts):
        same_mv(x, M.diff(xi), w, n, 'derivative by the coordinate %s after parametric()' % xi)
