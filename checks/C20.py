"""Algebra of linear transformations against exact matrix algebra."""
import importlib.util
import os
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra import lt as ltmod

_s = importlib.util.spec_from_file_location('c19', os.path.join(os.path.dirname(__file__), 'C19.py'))
c19 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c19)
build, amat, cols_of, FORMS, same = c19.build, c19.amat, c19.cols_of, c19.FORMS, c19.same

P = 'C20'


def frm(A):
    return [[fr(v) for v in r] for r in A]


def madd(A, B, s=1):
    return [[a + s * b for a, b in zip(p, q)] for p, q in zip(A, B)]


def T(A):
    return [list(r) for r in zip(*A)]


def meq(x, L, W, what):
    n = len(W)
    M = L.matrix()
    x.ok(M.shape == (n, n), '%s: matrix has shape %s' % (what, M.shape))
    for i in range(n):
        for j in range(n):
            if tofrac(M[i, j]) != W[i][j]:
                x.fail('%s: matrix is %s, expected %s' % (what, M.tolist(), [[str(v) for v in r] for r in W]))


@st.composite
def pair(draw):
    gc = draw(G.ga(1, 4, ns=[1, 2, 2, 3, 3, 3, 4]))
    n = len(gc['g'])
    return {'ga': gc, 'A': draw(amat(n)), 'B': draw(amat(n)), 'fa': draw(st.sampled_from(FORMS)), 'fb': draw(st.sampled_from(FORMS)),
            'k': draw(G.nz), 'm': draw(G.mv(n, 3, 1)), 'sym': draw(st.booleans())}


@check(P, pair(), quick=240, shards=4, rule='both matrices have at least two non-zero entries and differ')
def arithmetic(c, x):
    ga, R = mk(c['ga'])
    n = ga.n
    A, B = frm(c['A']), frm(c['B'])
    L, M = build(ga, c['A'], c['fa']), build(ga, c['B'], c['fb'])
    x.nt(all(sum(v != 0 for r in Q for v in r) >= 2 for Q in (A, B)) and A != B, c['fa'], 'n%d' % n)
    k = sp(c['k'])
    d = mvd(c['m'])
    X = to_mv(ga, d)
    AB = ref.mat_mul(A, B)
    for S_, W, what in ((L + M, madd(A, B), 'L + M'), (L - M, madd(A, B, -1), 'L - M'), (L * M, AB, 'L * M'), (M * L, ref.mat_mul(B, A), 'M * L'),
                        (k * L, [[fr(c['k']) * v for v in r] for r in A], 'k*L'), (L * k, [[fr(c['k']) * v for v in r] for r in A], 'L*k'),
                        (L * L * M, ref.mat_mul(A, AB), 'L*L*M'), (L - L, [[F(0)] * n for _ in range(n)], 'L - L'), ((L + M) * L - M * L, ref.mat_mul(A, A), '(L+M)L - ML')):
        meq(x, S_, W, what)
        cols = [ref.clean({1 << i: W[i][j] for i in range(n)}) for j in range(n)]
        eq_ref(x, S_(X), R.outermorphism(cols, d), n, '(%s)(A)' % what)
    # composition is application after application, on every multivector
    x.ok(same((L * M)(X), L(M(X)), n), '(L*M)(A) != L(M(A))')
    # operands unchanged
    meq(x, L, A, 'L afterwards')
    meq(x, M, B, 'M afterwards')
    if c['sym']:
        s = sympy.Symbol('s', real=True)
        W = (s * L + M).matrix()
        for i in range(n):
            for j in range(n):
                x.ok(sympy.expand(W[i, j] - s * sp(A[i][j]) - sp(B[i][j])) == 0, 's*L + M has entry %s' % W[i, j])


@st.composite
def one(draw, nd=False):
    gc = draw((G.ga_nd if nd else G.ga)(1, 4, ns=[1, 2, 2, 3, 3, 3, 4]))
    n = len(gc['g'])
    return {'ga': gc, 'A': draw(amat(n)), 'B': draw(amat(n)), 'fa': draw(st.sampled_from(FORMS)), 'coords': draw(st.booleans()), 'v': draw(G.vec(n)), 'w': draw(G.vec(n))}


def mk_c(c):
    n = len(c['ga']['g'])
    if c['coords']:
        return mk_ga(c['ga'], coords=sympy.symbols('x y z w', real=True)[:n]), RefGA(gmat(c['ga']))
    return mk(c['ga'])


@check(P, one(), quick=280, shards=4, rule='at least two non-zero entries, neither identity nor zero')
def scalars(c, x):
    """determinant, trace and singularity in every metric, degenerate ones included; the inverse of the regular ones"""
    ga, R = mk_c(c)
    n = ga.n
    A, B = frm(c['A']), frm(c['B'])
    L = build(ga, c['A'], c['fa'])
    det = ref.mat_det(A)
    x.nt(sum(v != 0 for r in A for v in r) >= 2 and A != [[F(int(i == j)) for j in range(n)] for i in range(n)], 'singular' if det == 0 else 'regular', c['ga']['kind'])
    for got, what in ((L.det(), 'det'), (ltmod.det(L), 'lt.det')):
        x.ok(not isinstance(got, Mv), '%s is not a scalar expression' % what)
        x.ok(tofrac(got) == det, '%s is %s, expected %s' % (what, got, det))
    x.ok(tofrac(L.tr()) == sum(A[i][i] for i in range(n)), 'trace is %s' % L.tr())
    M = build(ga, c['B'], 'lol')
    x.ok(tofrac((L * M).det()) == det * ref.mat_det(B), 'det(LM) != det(L)det(M)')
    x.ok(tofrac((L * M).tr()) == tofrac((M * L).tr()), 'tr(LM) != tr(ML)')
    s = L.is_singular()
    x.ok(bool(s) == (det == 0), 'is_singular() is %s, determinant %s' % (s, det))
    # L(E) == det(L) E
    eq_ref(x, L(ga.E()), ref.clean({(1 << n) - 1: det}), n, 'L(E)')
    if det == 0:
        try:
            L.inv()
        except ValueError:
            pass
        else:
            x.fail('inv() of a singular transformation did not raise ValueError')
        return
    Li = L.inv()
    meq(x, Li, ref.mat_inv(A), 'inverse')
    meq(x, Li * L, [[F(int(i == j)) for j in range(n)] for i in range(n)], 'L^-1 L')
    meq(x, Li.inv(), A, 'inverse of the inverse')
    x.ok(tofrac(Li.det()) * det == 1, 'det of the inverse')


@check(P, one(nd=True), quick=240, shards=4, rule='the matrix is not symmetric and has at least two non-zero entries')
def adjoint(c, x):
    ga, R = mk_c(c)
    n = ga.n
    A, B = frm(c['A']), frm(c['B'])
    g = gmat(c['ga'])
    L, M = build(ga, c['A'], c['fa']), build(ga, c['B'], 'matrix')
    x.nt(A != T(A) and sum(v != 0 for r in A for v in r) >= 2, c['ga']['kind'])
    adj = lambda Q: ref.mat_mul(ref.mat_inv(g), ref.mat_mul(T(Q), g))
    meq(x, L.adj(), adj(A), 'adjoint')
    meq(x, L.adj().adj(), A, 'adjoint of the adjoint')
    meq(x, (L * M).adj(), adj(ref.mat_mul(A, B)), '(LM)~')
    meq(x, M.adj() * L.adj(), adj(ref.mat_mul(A, B)), 'M~ L~')
    v = to_mv(ga, ref.clean({1 << i: fr(z) for i, z in enumerate(c['v'])}))
    w = to_mv(ga, ref.clean({1 << i: fr(z) for i, z in enumerate(c['w'])}))
    x.ok(same(v | L(w), w | L.adj()(v), n), 'a.L(b) != b.L~(a)')
    x.ok(tofrac(L.adj().det()) == ref.mat_det(A), 'det of the adjoint')
    x.ok(tofrac(L.adj().tr()) == sum(A[i][i] for i in range(n)), 'trace of the adjoint')
    # for bivectors: A * L(B) scalar part is preserved by the adjoint too
    if n > 2:
        b1, b2 = v ^ w, ga.mv()[0] ^ ga.mv()[n - 1]
        x.ok(same((b1 | L(b2)), (b2 | L.adj()(b1)), n), 'adjoint on bivectors')


# ---- orthogonal transformations --------------------------------------------
@check(P, c19.versor_cases(), quick=60, shards=2, rule='invertible versor')
def versor_algebra(c, x):
    ga, R = mk(c['ga'])
    n = ga.n
    V = {0: F(1)}
    for w in c['vecs']:
        v = ref.clean({1 << i: fr(z) for i, z in enumerate(w)})
        if not v or R.mul(v, v).get(0, 0) == 0:
            x.reject('null factor')
        V = R.mul(V, v)
    Vi = R.inverse(V)
    x.nt(True)
    L = ga.lt(to_mv(ga, V))
    img = [R.mul(R.mul(R.invol(V), {1 << i: F(1)}), Vi) for i in range(n)]
    A = [[img[j].get(1 << i, F(0)) for j in range(n)] for i in range(n)]
    I = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    meq(x, L, A, 'matrix of a versor')
    x.ok(tofrac(L.det()) == (-1) ** len(c['vecs']), 'determinant of a versor with %d factors is %s' % (len(c['vecs']), L.det()))
    meq(x, L.adj() * L, I, 'L~ L')
    meq(x, L.inv(), ref.mat_inv(A), 'inverse of a versor map')
    K = ga.lt([[1 if i == j else 0 for i in range(n)] for j in range(n)])
    meq(x, L + K, madd(A, I), 'V + L')
    meq(x, L - K, madd(A, I, -1), 'V - L')
    meq(x, 2 * L, madd(A, A), '2 V')
    meq(x, L * L, ref.mat_mul(A, A), 'V V')
    x.ok(L.is_singular() is False or not L.is_singular(), 'a versor map is not singular')


# ---- symbolic ----------------------------------------------------------------
@check(P, st.fixed_dictionaries({'n': st.integers(1, 3), 'metric': st.sampled_from(['euclid', 'gen', 'lorentz', 'rat']), 'mode': st.sampled_from(['g', 's', 'a']), 'mode2': st.sampled_from(['g', 's', 'a']), 'f': st.booleans()}),
       quick=60, shards=2, rule='dimension >= 2')
def symbolic(c, x):
    n = c['n']
    coords = sympy.symbols('x y z', real=True)[:n]
    if c['metric'] == 'gen' and n <= 2:
        ga = Ga('e' if n > 1 else 'e_1,', g=None, coords=coords)
        gm = ga.g
    else:
        g = {'euclid': G.diag([1] * n), 'lorentz': G.diag([1, -1, -1][:n])}.get(c['metric'], [[[2, '1/2', 0], ['1/2', 1, 1], [0, 1, -1]][i][:n] for i in range(n)])
        ga = mk_ga({'g': g}, coords=coords)
        gm = Matrix([[sp(v) for v in r] for r in g])
    x.nt(n >= 2, c['metric'], c['mode'])
    L, M = ga.lt('A', mode=c['mode'], f=c['f']), ga.lt('B', mode=c['mode2'])
    QL, QM = Matrix(L.matrix()), Matrix(M.matrix())

    def chk(got, want, what):
        got, want = Matrix(got), Matrix(want)
        for i in range(n):
            for j in range(n):
                if is_zero_expr(got[i, j] - want[i, j]) is False:
                    x.fail('%s: entry %s is %s, expected %s' % (what, (i, j), got[i, j], want[i, j]))
    one = lambda v: Matrix(1, 1, [v])
    chk((L + M).matrix(), QL + QM, 'L + M')
    chk((L - M).matrix(), QL - QM, 'L - M')
    chk((L * M).matrix(), QL * QM, 'L * M')
    gi = gm.inv()
    chk(L.adj().matrix(), gi * QL.T * gm, 'adj')
    if c['mode'] == 's':
        chk(L.adj().matrix(), QL, 'adj of symmetric')
    if c['mode'] == 'a':
        chk(L.adj().matrix(), -QL, 'adj of antisymmetric')
    if is_zero_expr(L.tr() - QL.trace()) is False:
        x.fail('trace is %s' % L.tr())
    if is_zero_expr(L.det() - QL.det(method='berkowitz')) is False:
        x.fail('det is %s' % L.det())
    if n <= 2 or c['mode'] != 'a':
        sing = is_zero_expr(QL.det(method='berkowitz'))
        x.ok(sing is None or bool(L.is_singular()) == sing, 'is_singular is %s' % L.is_singular())


@check(P, st.fixed_dictionaries({'sys': st.sampled_from(['polar', 'spherical', 'flat', 'skew', 'degenerate']), 'norm': st.booleans(),
                                 'A': st.lists(st.lists(st.sampled_from(['1', '0', 'u', 'v', 'u*v', '-2', 'sin(v)', 'u**2']), min_size=3, max_size=3), min_size=3, max_size=3),
                                 'rank': st.booleans()}), quick=70, shards=2, rule='entries depend on the coordinates')
def manifold(c, x):
    """coordinate-dependent transformations, in curvilinear coordinates: still plain matrix algebra at every point"""
    u, v, w = sympy.symbols('u v w', real=True)
    norm = c['norm']
    sin = sympy.sin
    if c['sys'] == 'polar':
        n, g, gk = 2, [1, u ** 2], dict(norm=norm)
    elif c['sys'] == 'spherical':
        n, g, gk = 3, [1, u ** 2, u ** 2 * sin(v) ** 2], dict(norm=norm)
    elif c['sys'] == 'flat':
        n, g, gk = 3, [1, 1, -1], {}
    elif c['sys'] == 'skew':
        n, g, gk = 2, [[1, u], [u, u ** 2 + 1]], {}
    else:
        n, g, gk = 3, [1, 1, 0], {}
    ga = Ga('e', g=g, coords=(u, v, w)[:n], **gk)
    gm = ga.g
    A = Matrix(n, n, lambda i, j: sympy.sympify(c['A'][i][j], locals={'u': u, 'v': v}))
    if c['rank'] and n > 1:
        A[:, n - 1] = u * A[:, 0]
    x.nt(bool(A.free_symbols), c['sys'], 'norm' if norm else 'raw')
    L = ga.lt(A)
    if is_zero_expr(L.tr() - A.trace()) is False:
        x.fail('trace is %s, expected %s' % (L.tr(), A.trace()))
    det = A.det(method='berkowitz')
    if is_zero_expr(L.det() - det) is False:
        x.fail('det is %s, expected %s' % (L.det(), det))
    sing = is_zero_expr(det)
    if sing or det.is_polynomial(u, v):
        x.ok(bool(L.is_singular()) == sing, 'is_singular is %s for determinant %s' % (L.is_singular(), det))
    if c['sys'] != 'degenerate':
        want = gm.inv() * A.T * gm
        got = L.adj().matrix()
        for i in range(n):
            for j in range(n):
                if is_zero_expr(got[i, j] - want[i, j]) is False:
                    x.fail('adjoint entry %s is %s, expected %s' % ((i, j), got[i, j], want[i, j]))


@st.composite
def tall(draw):
    n = draw(st.sampled_from([5, 5, 6]))
    gc = draw(G.ga_nd(1, 6, ns=[n], kinds=('euclid', 'signature', 'diag', 'sym') if n == 5 else ('euclid', 'signature', 'diag')))

    def mat():
        rows = [[0] * n for _ in range(n)]
        p = draw(st.permutations(list(range(n))))
        for i in range(n):
            rows[i][p[i]] = draw(G.nz)
        for i, j, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), G.nz), max_size=5)):
            rows[i][j] = v
        if draw(st.integers(0, 4)) == 0:
            i, j = draw(st.sampled_from([(0, n - 1), (n - 1, 1), (2, 3)]))
            rows[i] = list(rows[j])
        return rows
    return {'ga': gc, 'A': mat(), 'B': mat(), 'fa': draw(st.sampled_from(FORMS)), 'k': draw(G.nz)}


@check(P, tall(), quick=48, shards=4, rule='the product of the two is neither of them nor zero')
def many_dimensions(c, x):
    """sum, product, determinant, trace, inverse and adjoint in five and six dimensions"""
    ga, R = mk(c['ga'])
    n = ga.n
    A, B = frm(c['A']), frm(c['B'])
    g = gmat(c['ga'])
    AB = ref.mat_mul(A, B)
    dA = ref.mat_det(A)
    x.nt(AB not in (A, B) and any(v for r in AB for v in r), 'n%d' % n, 'singular' if dA == 0 else 'regular')
    L, M = build(ga, c['A'], c['fa']), build(ga, c['B'], 'matrix')
    meq(x, L + M, madd(A, B), 'L + M')
    meq(x, sp(c['k']) * L - M, madd([[fr(c['k']) * v for v in r] for r in A], B, -1), 'k L - M')
    meq(x, L * M, AB, 'L * M')
    x.ok(tofrac(L.det()) == dA, 'det is %s, expected %s' % (L.det(), dA))
    x.ok(tofrac(L.tr()) == sum(A[i][i] for i in range(n)), 'trace is %s' % L.tr())
    x.ok(bool(L.is_singular()) == (dA == 0), 'is_singular() is %s, determinant %s' % (L.is_singular(), dA))
    if dA == 0:
        try:
            L.inv()
        except ValueError:
            pass
        else:
            x.fail('inv() of a singular transformation did not raise ValueError')
    else:
        meq(x, L.inv(), ref.mat_inv(A), 'inverse')
    meq(x, L.adj(), ref.mat_mul(ref.mat_inv(g), ref.mat_mul(T(A), g)), 'adjoint')
