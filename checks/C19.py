"""Linear transformations: construction from every accepted specification, outermorphism extension, rejections."""
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.lt import Lt, Symbolic_Matrix, Matrix_to_dictionary, Dictionary_to_Matrix

P = 'C19'
FORMS = ['matrix', 'imatrix', 'lol', 'lmv', 'lmv_base', 'dict', 'dict_mv', 'dict_partial', 'func', 'func_base', 'copy']


def cols_of(A):
    """columns (images of the basis vectors) of a matrix given as rows, as reference vectors"""
    n = len(A)
    return [ref.clean({1 << i: fr(A[i][j]) for i in range(n)}) for j in range(n)]


def build(ga, A, form, coords=None):
    """Lt with matrix A (list of rows) through the given kind of specification"""
    n = ga.n
    M = Matrix([[sp(x) for x in row] for row in A])
    bs = ga.basis
    mvs = ga.mv() if n > 1 else (ga.mv()[0],)
    img = lambda j: sum((M[i, j] * mvs[i] for i in range(n)), ga.mv(S.Zero))
    raw = lambda j: sum((M[i, j] * bs[i] for i in range(n)), S.Zero)
    if form == 'matrix':
        return ga.lt(M)
    if form == 'imatrix':
        return ga.lt(sympy.ImmutableMatrix(M))
    if form == 'lol':
        return ga.lt([[M[i, j] for i in range(n)] for j in range(n)])
    if form == 'lmv':
        return ga.lt([img(j) for j in range(n)])
    if form == 'lmv_base':
        return ga.lt([img(j).base_rep() for j in range(n)])
    if form == 'dict':
        return ga.lt({bs[j]: raw(j) for j in range(n)})
    if form == 'dict_mv':
        return ga.lt({bs[j]: img(j) for j in reversed(range(n))})
    if form == 'dict_partial':
        return ga.lt({bs[j]: raw(j) for j in range(n) if any(M[i, j] != 0 for i in range(n))})
    if form in ('func', 'func_base'):
        def f(x):
            c = x.blade_rep().get_coefs(1) if not x.is_zero() else [S.Zero] * n
            r = sum((c[j] * img(j) for j in range(n)), ga.mv(S.Zero))
            return r.base_rep() if form == 'func_base' and not ga.is_ortho else r
        return ga.lt(f)
    if form == 'copy':
        L = ga.lt(M)
        return ga.lt(dict(L.lt_dict))
    raise ValueError(form)


@st.composite
def amat(draw, n, kinds=('gen', 'gen', 'sparse', 'rank1', 'perm', 'sing', 'zero', 'id')):
    k = draw(st.sampled_from(kinds))
    if k == 'gen':
        return [[draw(G.coef) for _ in range(n)] for _ in range(n)]
    if k == 'sparse':
        A = [[0] * n for _ in range(n)]
        for _ in range(draw(st.integers(1, n))):
            A[draw(st.integers(0, n - 1))][draw(st.integers(0, n - 1))] = draw(G.nz)
        return A
    if k == 'perm':
        p = draw(st.permutations(list(range(n))))
        return [[draw(G.small) if p[i] == j else 0 for j in range(n)] for i in range(n)]
    if k == 'rank1':
        u, v = [draw(G.sint) for _ in range(n)], [draw(G.sint) for _ in range(n)]
        return [[a * b for b in v] for a in u]
    if k == 'sing':
        A = [[draw(G.sint) for _ in range(n)] for _ in range(n)]
        if n > 1:
            i, j = draw(st.permutations(list(range(n))))[:2]
            f = draw(st.sampled_from([1, -1, 2, 0]))
            for r in A:
                r[i] = f * r[j]
        else:
            A = [[0]]
        return A
    if k == 'zero':
        return [[0] * n for _ in range(n)]
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


@st.composite
def outer_cases(draw):
    gc = draw(G.ga(1, 4, ns=[1, 2, 2, 3, 3, 3, 4]))
    n = len(gc['g'])
    return {'ga': gc, 'A': draw(amat(n)), 'form': draw(st.sampled_from(FORMS)), 'm': draw(G.mv(n, 5, 1)),
            'arg': draw(st.sampled_from(['mv', 'mv', 'base', 'obj', 'unexp', 'grade', 'sym'])), 'vecs': [draw(G.vec(n, False)) for _ in range(2)], 'k': draw(st.integers(0, n))}


@check(P, outer_cases(), quick=320, shards=4, rule='the map is not the identity or zero, and the argument has a part of grade >= 2')
def outermorphism(c, x):
    ga, R = mk(c['ga'])
    n, A = ga.n, c['A']
    L = build(ga, A, c['form'])
    cols = cols_of(A)
    d = mvd(c['m'])
    x.nt(any(popcount(m) > 1 for m in d) and any(cols[i] and cols[i] != {1 << i: 1} for i in range(n)), c['form'], c['arg'], 'n%d' % n)
    # basis vectors, through every way of naming them
    mvs = list(ga.mv()) if n > 1 else [ga.mv()[0]]
    for i in range(n):
        eq_ref(x, L(mvs[i]), cols[i], n, 'L(e_%d)' % (i + 1))
        eq_ref(x, L(ga.basis[i]), cols[i], n, 'L(basis symbol %d)' % (i + 1))
    want = R.outermorphism(cols, d)
    M = to_mv(ga, d)
    before = dict(coefs_of(M, n))
    arg = c['arg']
    if arg == 'mv':
        got = L(M)
    elif arg == 'base':
        got = L(M.base_rep())
    elif arg == 'obj':
        o = L(M, obj=True)
        x.ok(not isinstance(o, Mv), 'obj=True returned a multivector')
        got = ga.mv(S(o))
    elif arg == 'sym':
        got = L(M.obj)
    elif arg == 'unexp':
        s, t = sympy.symbols('s t', real=True)
        M2 = to_mv(ga, {m: None for m in ()}) + ga.mv(((s + 1) * M.obj))
        got2 = coefs_of(L(M2), n)
        for m in set(got2) | set(want):
            if is_zero_expr(S(got2.get(m, 0)) - (s + 1) * sp(want.get(m, 0))) is False:
                x.fail('unexpanded symbolic multiple: blade %s has %s' % (bits(m), got2.get(m, 0)))
        got = L(M)
    else:
        got = L(M.grade(c['k']))
        want = R.outermorphism(cols, R.grade(d, c['k']))
    eq_ref(x, got, want, n, 'L(A)')
    if coefs_of(M, n) != before:
        x.fail('the argument was changed')
    # scalars are fixed
    eq_ref(x, L(ga.mv(S(7))), {0: F(7)}, n, 'L(7)')
    eq_ref(x, L(S(7)), {0: F(7)}, n, 'L(sympy 7)')
    # L(a^b) == L(a)^L(b), L of an embedded result, linearity
    u, v = [to_mv(ga, ref.clean({1 << i: fr(z) for i, z in enumerate(w)})) for w in c['vecs']]
    x.ok(same(L(u ^ v), L(u) ^ L(v), n), 'L(a^b) != L(a)^L(b)')
    x.ok(same(L(2 * u + M), 2 * L(u) + L(M), n), 'L is not linear')
    x.ok(same(L(u ^ M), L(u) ^ L(M), n), 'L(a^A) != L(a)^L(A)')
    # matrix(): columns are the images
    mat = L.matrix()
    x.ok(mat.shape == (n, n) and all(tofrac(mat[i, j]) == fr(A[i][j]) for i in range(n) for j in range(n)), 'matrix() is %s' % (mat,))
    x.ok(Matrix(L.matrix()) == Matrix(mat), 'matrix() changes between calls')


def same(a, b, n):
    return not diff_mv(a, b, n)


# ---- versors -------------------------------------------------------------
@st.composite
def versor_cases(draw):
    gc = draw(G.ga_nd(1, 4, ns=[2, 2, 3, 3, 4]))
    n = len(gc['g'])
    nf = draw(st.integers(1, 3 if n < 4 else 2))
    return {'ga': gc, 'vecs': [draw(G.vec(n)) for _ in range(nf)], 'm': draw(G.mv(n, 3, 1)), 'exp': draw(st.booleans()), 'base': draw(st.booleans())}


@check(P, versor_cases(), quick=100, shards=2, rule='the versor is invertible and has at least one factor')
def versor(c, x):
    ga, R = mk(c['ga'])
    n = ga.n
    V = {0: F(1)}
    for w in c['vecs']:
        v = ref.clean({1 << i: fr(z) for i, z in enumerate(w)})
        if not v or R.mul(v, v).get(0, 0) == 0:
            x.reject('null factor')
        V = R.mul(V, v)
    Vi = R.inverse(V)
    x.nt(True, 'f%d' % len(c['vecs']), c['ga']['kind'])
    MV = to_mv(ga, V)
    if c['base'] and not ga.is_ortho:
        MV = MV.base_rep()
    L = ga.lt(MV)
    img = [R.mul(R.mul(R.invol(V), {1 << i: F(1)}), Vi) for i in range(n)]
    for i in range(n):
        eq_ref(x, L(ga.basis[i]), img[i], n, 'versor image of e_%d' % (i + 1))
    d = mvd(c['m'])
    eq_ref(x, L(to_mv(ga, d)), R.outermorphism(img, d), n, 'versor outermorphism')
    # the outermorphism of a versor is the (sign corrected) sandwich
    odd = len(c['vecs']) % 2
    sand = R.mul(R.mul(V, R.invol(d) if odd else d), Vi)
    eq_ref(x, L(to_mv(ga, d)), sand, n, 'versor sandwich')
    # preserves inner products
    for i in range(n):
        for j in range(i, n):
            s = L(ga.basis[i]) | L(ga.basis[j])
            eq_ref(x, s, ref.clean({0: fr(c['ga']['g'][i][j])}), n, 'versor map does not preserve the metric')


@check(P, st.fixed_dictionaries({'sig': st.sampled_from([[1, 1], [1, 1, 1], [-1, 1, 1], [1, -1, -1], [1, 1, 1, 1]]), 'i': st.integers(0, 5), 'ang': st.sampled_from(['t', '2*t', 't+s', '1']), 'm': st.lists(st.tuples(st.integers(0, 15), st.integers(-3, 3)).map(list), min_size=1, max_size=3)}),
       quick=24, shards=1, rule='a symbolic rotor')
def symbolic_rotor(c, x):
    sig = c['sig']
    n = len(sig)
    ga, R = mk({'g': G.diag(sig)})
    t, s = sympy.symbols('t s', real=True)
    ang = sympy.sympify(c['ang'], locals={'t': t, 's': s})
    planes = [(i, j) for i in range(n) for j in range(i + 1, n)]
    i, j = planes[c['i'] % len(planes)]
    ei, ej = ga.mv()[i], ga.mv()[j]
    B = ei ^ ej
    x.nt(True)
    euclid = sig[i] * sig[j] > 0
    Rt = (sympy.cos(ang / 2) if euclid else sympy.cosh(ang / 2)) + (sympy.sin(ang / 2) if euclid else sympy.sinh(ang / 2)) * B
    L = ga.lt(Rt)
    C, Sn = (sympy.cos(ang), sympy.sin(ang)) if euclid else (sympy.cosh(ang), sympy.sinh(ang))
    bsq = -sig[i] * sig[j]
    # V e_i V^-1 with V = exp(B a/2), B e_i = -e_i B: exp(B a) e_i = (C + S B) e_i
    for k, e in enumerate(ga.mv()):
        if k in (i, j):
            want = (C + Sn * B) * e
        else:
            want = e
        same_mv(x, L(e), want, n, 'rotor image of e_%d' % (k + 1))
    d = {}
    for m, v in c['m']:
        d[m % (1 << n)] = F(v)
    M = to_mv(ga, ref.clean(d))
    same_mv(x, L(M), Rt * M * Rt.inv(), n, 'rotor outermorphism')
    if is_zero_expr(L.det() - 1) is False:
        x.fail('determinant of a rotation is %s' % L.det())


# ---- symbolic (string) transformations -------------------------------------
@st.composite
def string_cases(draw):
    gc = draw(G.ga_nd(1, 4, ns=[1, 2, 2, 3, 3]))
    n = len(gc['g'])
    return {'ga': gc, 'mode': draw(st.sampled_from(['g', 's', 'a'])), 'f': draw(st.booleans()), 'name': draw(st.sampled_from(['A', 'T', 'L'])), 'm': draw(G.mv(n, 3, 1)), 'cn': draw(st.sampled_from(['xyz', 'uvw', 'x_1 x_2 x_3']))}


@check(P, string_cases(), quick=80, shards=2, rule='dimension >= 2')
def symbolic(c, x):
    n = len(c['ga']['g'])
    names = c['cn'].split() if ' ' in c['cn'] else list(c['cn'])
    coords = tuple(sympy.Symbol(s, real=True) for s in names[:n])
    ga = mk_ga(c['ga'], coords=coords)
    R = RefGA(gmat(c['ga']))
    L = ga.lt(c['name'], mode=c['mode'], f=c['f'])
    x.nt(n >= 2, c['mode'], 'f' if c['f'] else 'const')
    Q = L.matrix()
    gm = Matrix(n, n, lambda i, j: sp(c['ga']['g'][i][j]))
    core = (Q if c['mode'] == 'g' else (gm * Q)).applyfunc(sympy.expand)
    # independent entries: general n*n, symmetric n(n+1)/2, antisymmetric n(n-1)/2
    atoms = core.atoms(sympy.core.function.AppliedUndef) if c['f'] else core.free_symbols
    nind = {'g': n * n, 's': n * (n + 1) // 2, 'a': n * (n - 1) // 2}[c['mode']]
    x.ok(len(atoms) == nind, '%d independent entries instead of %d' % (len(atoms), nind))
    if c['f']:
        x.ok(all(a.args == coords for a in atoms), 'entries are not functions of the coordinates')
    else:
        x.ok(all(a.is_real for a in atoms), 'entries are not real')
    x.ok(all(c['name'] in str(a) for a in atoms), 'entry names do not contain the given name')
    if c['mode'] == 's':
        x.ok(core == core.T, 'symmetric core is not symmetric')
    if c['mode'] == 'a':
        x.ok(core == -core.T, 'antisymmetric core is not antisymmetric')
    # a.L(b) == +- b.L(a)
    if c['mode'] != 'g':
        sg = 1 if c['mode'] == 's' else -1
        for e in ga.basis:
            for h in ga.basis:
                lhs = (ga.mv(e) | L(h)) - sg * (ga.mv(h) | L(e))
                if any(is_zero_expr(v) is False for v in coefs_of(lhs, n).values()):
                    x.fail('a.L(b) != %s b.L(a)' % ('+' if sg > 0 else '-'))
    # numeric instance == reference outermorphism with that matrix
    vals = {a: Rational((7 * k * k + 3 * k + 2) % 11 - 5, 1 + k % 3) for k, a in enumerate(sorted(atoms, key=str))}
    num = Q.subs(vals)
    cols = [ref.clean({1 << i: tofrac(num[i, j]) for i in range(n)}) for j in range(n)]
    d = mvd(c['m'])
    eq_ref(x, L(to_mv(ga, d)).subs(vals), R.outermorphism(cols, d), n, 'symbolic L(A)')
    if n > 1:
        for j in range(n):
            eq_ref(x, L(ga.mv()[j]).subs(vals), cols[j], n, 'symbolic L(e)')


# ---- coordinate dependent transformations on a manifold ----------------------
@check(P, st.fixed_dictionaries({'sys': st.sampled_from(['polar', 'spherical', 'flat']), 'norm': st.booleans(), 'A': st.lists(st.lists(st.sampled_from(['1', '0', 'u', 'v', 'u*v', '-2', 'sin(v)', 'u**2']), min_size=3, max_size=3), min_size=3, max_size=3),
                                 'form': st.sampled_from(['matrix', 'lol', 'lmv', 'dict']), 'm': st.lists(st.tuples(st.integers(0, 7), st.sampled_from(['1', 'u', '-3', 'v**2', 'cos(u)'])).map(list), min_size=1, max_size=3)}),
       quick=40, shards=1, rule='entries depend on the coordinates')
def manifold(c, x):
    u, v, w = sympy.symbols('u v w', real=True)
    if c['sys'] == 'polar':
        n, ga = 2, Ga('e', g=[1, u ** 2], coords=(u, v), norm=c['norm'])
    elif c['sys'] == 'spherical':
        n, ga = 3, Ga('e', g=[1, u ** 2, u ** 2 * sympy.sin(v) ** 2], coords=(u, v, w), norm=c['norm'])
    else:
        n, ga = 3, Ga('e', g=[1, 1, -1], coords=(u, v, w))
    loc = {'u': u, 'v': v}
    A = Matrix(n, n, lambda i, j: sympy.sympify(c['A'][i][j], locals=loc))
    x.nt(bool(A.free_symbols), c['sys'], 'norm' if c['norm'] else 'raw')
    mvs, bs = ga.mv(), ga.basis
    if c['form'] == 'matrix':
        L = ga.lt(A)
    elif c['form'] == 'lol':
        L = ga.lt([[A[i, j] for i in range(n)] for j in range(n)])
    elif c['form'] == 'lmv':
        L = ga.lt([sum((A[i, j] * mvs[i] for i in range(n)), ga.mv(S.Zero)) for j in range(n)])
    else:
        L = ga.lt({bs[j]: sum((A[i, j] * bs[i] for i in range(n)), S.Zero) for j in range(n)})
    d = {}
    for m, k in c['m']:
        d[m % (1 << n)] = sympy.sympify(k, locals=loc)
    M = to_mv(ga, d)
    want = {}
    for m, k in d.items():
        bl = bits(m)
        for T in masks(n):
            if popcount(T) == len(bl):
                minor = A.extract(list(bits(T)), list(bl)).det() if bl else S.One
                want[T] = want.get(T, 0) + k * minor
    same_mv(x, L(M), want, n, 'L(A) on a manifold')


# ---- compound matrices: larger dimension ------------------------------------
@st.composite
def big_cases(draw):
    n = draw(st.sampled_from([5, 5, 6]))
    return {'g': [draw(st.sampled_from([1, -1, 1, 0])) for _ in range(n)], 'A': draw(amat(n, ('gen', 'sparse', 'perm', 'sing'))), 'form': draw(st.sampled_from(['matrix', 'lol', 'dict'])), 'm': draw(G.mv(n, 2, 1))}


@check(P, big_cases(), quick=12, shards=2, rule='argument of grade >= 2 and < n')
def large(c, x):
    gc = {'g': G.diag(c['g'])}
    ga, R = mk(gc)
    n = ga.n
    d = mvd(c['m'])
    x.nt(any(1 < popcount(m) < n for m in d))
    L = build(ga, c['A'], c['form'])
    eq_ref(x, L(to_mv(ga, d)), R.outermorphism(cols_of(c['A']), d), n, 'L(A)')
    want = ref.mat_det([[fr(v) for v in r] for r in c['A']])
    x.ok(tofrac(L.det()) == want, 'det is %s, expected %s' % (L.det(), want))


# ---- rejections ---------------------------------------------------------------
BAD = ['nonsquare', 'small', 'large', 'square_fn', 'affine', 'nonlinear_coef', 'homog_ratio', 'homog_root', 'abs_coef', 'const_fn', 'scalar_fn', 'bivector_fn', 'mixed_fn', 'tuple', 'int', 'nonversor', 'string_nocoords', 'badmode', 'foreign', 'addforeign']


@st.composite
def bad_cases(draw):
    gc = draw(G.ga_nd(2, 3, ns=[2, 3, 3]))
    n = len(gc['g'])
    return {'ga': gc, 'bad': draw(st.sampled_from(BAD)), 'v': draw(G.vec(n)), 'w': draw(G.vec(n))}


@check(P, bad_cases(), quick=180, shards=2, rule='always')
def rejections(c, x):
    ga, R = mk(c['ga'])
    n = ga.n
    vd = ref.clean({1 << i: fr(z) for i, z in enumerate(c['v'])})
    wd = ref.clean({1 << i: fr(z) for i, z in enumerate(c['w'])})
    v, w = to_mv(ga, vd), to_mv(ga, wd)
    bad = c['bad']
    x.nt(True, bad)
    I = sympy.eye(n)

    def go():
        if bad == 'nonsquare':
            return ga.lt(sympy.zeros(n, n + 1))
        if bad == 'small':
            return ga.lt(sympy.eye(n - 1))
        if bad == 'large':
            return ga.lt(sympy.eye(n + 1))
        if bad == 'square_fn':
            return ga.lt(lambda X: (X | X) * v)
        if bad == 'affine':
            return ga.lt(lambda X: X + v)
        if bad == 'nonlinear_coef':
            return ga.lt(lambda X: X.get_coefs(1)[0] * X)
        if bad == 'homog_ratio':  # F(k*X) = k*F(X) without additivity

            def ratio(X):
                p, q = X.blade_coefs(ga.mv())[:2]
                return (p**3 / (p**2 + q**2)) * v + q * ga.mv()[0]
            return ga.lt(ratio)
        if bad == 'homog_root':
            return ga.lt(lambda X: sympy.sqrt(X.blade_coefs(ga.mv())[0]**2 + X.blade_coefs(ga.mv())[1]**2) * v + X)
        if bad == 'abs_coef':
            return ga.lt(lambda X: sympy.Abs(X.blade_coefs(ga.mv())[0]) * v)
        if bad == 'const_fn':
            return ga.lt(lambda X: v)
        if bad == 'scalar_fn':
            return ga.lt(lambda X: X | v)
        if bad == 'bivector_fn':
            return ga.lt(lambda X: X ^ v)
        if bad == 'mixed_fn':
            return ga.lt(lambda X: X * v)
        if bad == 'tuple':
            return ga.lt(tuple([0] * n))
        if bad == 'int':
            return ga.lt(3)
        if bad == 'nonversor':
            return ga.lt(1 + v)
        if bad == 'string_nocoords':
            return ga.lt('A')
        if bad == 'badmode':
            return mk_ga(c['ga'], coords=sympy.symbols('x y z', real=True)[:n]).lt('A', mode='q')
        other = mk_ga({'g': G.diag([2] * n)})
        if bad == 'foreign':
            return ga.lt(I)(other.mv()[0])
        return ga.lt(I) + other.lt(I)
    if bad == 'nonversor':
        # 1 + v is a versor only when it is not mixed: v must be non-zero, and invertible or not it is mixed
        pass
    if bad == 'scalar_fn' and not any((v | e).obj != 0 for e in ga.mv()):
        x.reject('zero function')
    try:
        out = go()
    except (ValueError, TypeError) as e:
        return
    x.fail('malformed specification %r was accepted: %s' % (bad, str(out).replace('\n', '; ')))


# ---- conversions between the representations ---------------------------------
@check(P, st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries({'n': st.just(n), 'A': amat(n)})), quick=60, shards=1, rule='non-zero matrix')
def conversions(c, x):
    n, A = c['n'], c['A']
    ga = mk_ga({'g': G.diag([1] * n)})
    M = Matrix([[sp(v) for v in r] for r in A])
    x.nt(any(v != 0 for v in M))
    D = Matrix_to_dictionary(M, ga.basis)
    x.ok(set(D) == set(ga.basis), 'keys of the dictionary')
    back = Dictionary_to_Matrix(D, ga)
    x.ok(Matrix(back) == M, 'Dictionary_to_Matrix(Matrix_to_dictionary(M)) is %s' % (back,))
    for j in range(n):
        eq_ref(x, ga.mv(S(D[ga.basis[j]])), cols_of(A)[j], n, 'column %d' % j)
    for bad in (sympy.zeros(n, n + 1), sympy.zeros(n + 1, n + 1)):
        try:
            Matrix_to_dictionary(bad, ga.basis)
        except ValueError:
            continue
        x.fail('Matrix_to_dictionary accepted a matrix of the wrong size')
