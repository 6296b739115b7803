from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.metric import Metric
import warnings

P = 'C14'


def vd(w):
    return ref.clean({1 << i: fr(v) for i, v in enumerate(w)})


def gmx(gc):
    return Matrix([[sp(q) for q in r] for r in gc['g']])


@check(P, st.fixed_dictionaries({'ga': G.ga_nd(1, 4), 'v': st.lists(G.sint, min_size=4, max_size=4)}), quick=320, shards=8, rule='non-orthogonal metric')
def reciprocal_basis(c, x):
    """e_i|e^j is the Kronecker delta (E^2 times it when not normalised and not orthogonal); the inverse and adjugate
    metric are those of the metric; every vector is its expansion in either basis"""
    ga, R = mk(c['ga'])
    n = R.n
    g = gmx(c['ga'])
    e = ga.mv()
    x.label(c['ga']['kind'], 'n%d' % n)
    x.nt(not ga.is_ortho)
    raw = S.One if ga.is_ortho else sp(R.e_sq())
    r1, r0 = ga.mvr(), ga.mvr(norm=False)
    rt = ga.mvr(True)
    gi = g.inv()
    x.ok(len(r1) == len(r0) == n, 'lengths')
    for i in range(n):
        want = {1 << j: tofrac(gi[i, j]) for j in range(n)}
        eq_ref(x, r1[i], ref.clean(want), n, 'reciprocal vector %d' % i)
        eq_ref(x, rt[i], ref.clean(want), n, 'mvr(True)')
        for j in range(n):
            d = S.One if i == j else S.Zero
            x.ok((e[i] | r1[j]) == d, lambda: 'e_%d|e^%d = %s' % (i, j, e[i] | r1[j]))
            x.ok((e[i] | r0[j]) == raw * d, lambda: 'unnormalised e_%d|e^%d = %s' % (i, j, e[i] | r0[j]))
        x.ok(same_mv(x, ga.mv(ga.r_basis[i]), r0[i], n, 'r_basis') is None and ga.r_basis_mv[i] == r0[i], 'r_basis_mv')
        x.ok(ga.mv(ga.r_basis_dict[ga.r_symbols[i]]) == r0[i], 'r_basis_dict')
    x.ok(sympy.simplify(ga.g_inv - gi) == sympy.zeros(n, n), lambda: 'ga.g_inv is %s' % ga.g_inv)
    x.ok(ga.g_adj == g.adjugate(), lambda: 'ga.g_adj is %s' % ga.g_adj)
    m = Metric(names_for(n) if n > 1 else 'e_1,', g=g)
    x.ok(sympy.simplify(m.g_inv - gi) == sympy.zeros(n, n), lambda: 'Metric.g_inv is %s' % m.g_inv)
    v = vd(c['v'][:n])
    V = to_mv(ga, v)
    eq_ref(x, sum(((V | e[i]).scalar() * r1[i] for i in range(n)), ga.mv(S.Zero)), v, n, 'sum (v.e_i) e^i')
    eq_ref(x, sum(((V | r1[i]).scalar() * e[i] for i in range(n)), ga.mv(S.Zero)), v, n, 'sum (v.e^i) e_i')


@check(P, st.fixed_dictionaries({'ga': G.ga_nd(1, 4), 'frame': st.lists(st.lists(G.sint, min_size=4, max_size=4), min_size=1, max_size=4)}), quick=320, shards=8,
       rule='a frame of at least two vectors')
def reciprocal_frames(c, x):
    """ReciprocalFrame of any independent non-null frame: v^i|v_j = delta ('norm'), E^2 delta with E^2 appended ('append');
    the reciprocal vectors span the frame's space; other mode strings behave like 'append' with a DeprecationWarning"""
    ga, R = mk(c['ga'])
    n = R.n
    fr_ = [vd(w[:n]) for w in c['frame']][:n]
    E = {0: F(1)}
    for v in fr_:
        E = R.wedge(E, v)
    E2 = R.mul(E, E).get(0, F(0)) if E else F(0)
    if not E or E2 == 0:
        x.reject()
    k = len(fr_)
    x.label('k%d' % k, 'n%d' % n)
    x.nt(k >= 2)
    V = [to_mv(ga, v) for v in fr_]
    r = ga.ReciprocalFrame(V)
    r2 = ga.ReciprocalFrame(tuple(V), mode='norm')
    a = ga.ReciprocalFrame(V, mode='append')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        o = ga.ReciprocalFrame(V, mode='whatever')
    x.ok(any(issubclass(q.category, DeprecationWarning) for q in w), 'no DeprecationWarning')
    x.ok(len(r) == len(r2) == k and len(a) == len(o) == k + 1, 'lengths')
    x.ok(tofrac(a[k]) == E2 and tofrac(o[k]) == E2, 'appended factor is %s, expected %s' % (a[k], E2))
    for i in range(k):
        ri = from_mv(r[i], n)
        x.ok(all(popcount(m) == 1 for m in ri) and not R.wedge(ri, E), 'reciprocal vector %d leaves the span' % i)
        eq_ref(x, r2[i], ri, n, "mode='norm'")
        eq_ref(x, a[i], ref.smul(E2, ri), n, "mode='append'")
        eq_ref(x, o[i], ref.smul(E2, ri), n, 'other mode')
        for j in range(k):
            d = R.dot(ri, fr_[j]).get(0, F(0))
            x.ok(d == (1 if i == j else 0), 'v^%d.v_%d = %s' % (i, j, d))
    for v, q in zip(V, fr_):
        eq_ref(x, v, q, n, 'frame vector afterwards')


@check(P, st.fixed_dictionaries({'ga': G.ga_nd(1, 3), 'b': G.mv(3, 4, 1), 'v': st.lists(G.sint, min_size=3, max_size=3), 'kind': st.sampled_from(['mv', 'vector', 'list', 'grade']),
                                 'gr': st.integers(0, 3)}), quick=200, shards=8, rule='non-orthogonal metric or multivector variable')
def multivector_derivative(c, x):
    """make_grad(A): the derivative by a multivector variable satisfies d/dA <A B> = B (projected to the grades of A),
    d/da a^2 = 2a and d/da a = dimension, from the left and (cmpflg) from the right; blades pair as <e^I e_J> = delta"""
    ga, R = mk(c['ga'])
    n = R.n
    b = mvd([[m % (1 << n), v] for m, v in c['b']])
    B = to_mv(ga, b)
    k = c['kind']
    x.label(k)
    x.nt(not ga.is_ortho or k in ('mv', 'grade'))
    if k in ('vector', 'list'):
        cs = sympy.symbols('k1:%d' % (n + 1))
        a = sum((s * e for s, e in zip(cs, ga.mv())), ga.mv(S.Zero))
        arg = list(cs) if k == 'list' else a
        D = ga.make_grad(arg)
        D2 = ga.make_grad(arg)
        Dr = ga.make_grad(arg, cmpflg=True)
        v = vd(c['v'][:n])
        V = to_mv(ga, v)
        for op in (D, D2):
            same_mv(x, op * (a | V), V, n, 'd/da (a.v)')
            same_mv(x, op * (a * a), 2 * a, n, 'd/da a^2')
            same_mv(x, op * a, ga.mv(S(n)), n, 'd/da a')
        same_mv(x, (a | V) * Dr, V, n, '(a.v) d/da')
        same_mv(x, a * Dr, ga.mv(S(n)), n, 'a d/da')
        # d/da (a B) from the left: sum e^i e_i B = n B ;  from the right (B a) d/da = n B
        same_mv(x, D * (a * B), n * B, n, 'd/da (a B)')
        same_mv(x, (B * a) * Dr, n * B, n, '(B a) d/da')
        # d/da (B a) = sum e^i B e_i = sum_r (-1)^r (n - 2r) B_r
        w = {}
        for r in range(n + 1):
            w = ref.add(w, R.grade(b, r), (-1)**r * (n - 2 * r))
        eq_ref(x, D * (B * a), w, n, 'd/da (B a)')
    else:
        a = ga.mv('A', 'mv') if k == 'mv' else ga.mv('A', 'grade', min(c['gr'], n))
        D = ga.make_grad(a)
        Dr = ga.make_grad(a, cmpflg=True)
        want = b if k == 'mv' else R.grade(b, min(c['gr'], n))
        eq_ref(x, D * ga.mv((a * B).scalar()), want, n, 'd/dA <A B>')
        eq_ref(x, ga.mv((B * a).scalar()) * Dr, want, n, '<B A> d/dA')


@check(P, st.fixed_dictionaries({'n': st.integers(2, 3), 'off': st.lists(st.sampled_from(['0', 'r', 't', '1/2', 'r*t', 'c']), min_size=3, max_size=3),
                                 'd': st.lists(st.sampled_from(['1', 'r**2', '-1', '2', 'r**2*t**2', '#', 'c+2']), min_size=3, max_size=3), 'gs': st.booleans()}),
       quick=120, shards=4, rule='symbolic non-orthogonal metric')
def symbolic_reciprocals(c, x):
    """with symbolic or position-dependent metrics the pairings hold at every sample point"""
    r, t, cc = sympy.symbols('r t c', positive=True)
    env = dict(r=r, t=t, c=cc)
    n = c['n']
    if c['gs'] and n == 2:
        ga = Ga('a b')
    else:
        g = sympy.zeros(n, n)
        for i in range(n):
            g[i, i] = sympy.sympify(c['d'][i].replace('#', 'c'), locals=env)
            for j in range(i):
                g[i, j] = g[j, i] = sympy.sympify(c['off'][i + j - 1], locals=env)
        if sympy.simplify(g.det()) == 0:
            x.reject()
        ga = Ga(names_for(n), g=g)
    x.nt(not ga.is_ortho and bool(ga.g.free_symbols or c['gs']))
    e = ga.mv()
    sub = {}
    if c['gs'] and n == 2:
        sub = {ga.g[0, 0]: S(2), ga.g[0, 1]: Rational(1, 3), ga.g[1, 1]: S(-5)}
    for i in range(n):
        for j, rj in enumerate(ga.mvr()):
            v = S((e[i] | rj).scalar()).xreplace(sub)
            x.ok(same_expr(v, 1 if i == j else 0) is True, lambda: 'e_%d|e^%d = %s' % (i, j, v))
    gi = (ga.g_inv * ga.g).xreplace(sub)
    for i in range(n):
        for j in range(n):
            x.ok(same_expr(gi[i, j], 1 if i == j else 0) is True, 'g_inv*g')


SPARSE = st.lists(st.tuples(st.integers(0, 5), st.sampled_from([-2, -1, 1, 1, 1, 2, 3])), min_size=1, max_size=3)


@check(P, st.fixed_dictionaries({'n': st.sampled_from([5, 5, 6]), 'd': st.lists(st.sampled_from([1, 1, 1, -1, 2, -3, '1/2']), min_size=6, max_size=6), 'off': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.sampled_from([1, -1, 2])), max_size=1),
                                 'frame': st.lists(SPARSE, min_size=3, max_size=6), 'blades': st.lists(st.tuples(st.integers(0, 63), st.integers(0, 63)), min_size=2, max_size=4)}),
       quick=48, shards=8, rule='a frame of at least four vectors')
def larger(c, x):
    """five and six dimensions: reciprocal basis, reciprocal frames of up to six vectors and the pairing of reciprocal blades with blades"""
    n = c['n']
    g = sympy.zeros(n, n)
    for i in range(n):
        g[i, i] = sp(c['d'][i])
    if n == 5:
        for i, j, v in c['off']:
            if i % n != j % n:
                g[i % n, j % n] = g[j % n, i % n] = sp(v)
    if g.det() == 0:
        x.reject()
    gc = {'n': n, 'g': [[str(q) for q in g.row(i)] for i in range(n)], 'kind': 'sym'}
    R = ref.RefGA(gmat(gc))
    ga = Ga(names_for(n), g=g)
    x.label('orthogonal' if ga.is_ortho else 'non-orthogonal', 'n%d' % n)
    # frame: e_i plus a few other components, independent and not null
    fr_ = []
    for k, w in enumerate(c['frame'][:n]):
        v = {1 << k: F(1)}
        for m, q in w:
            v[1 << (m % n)] = v.get(1 << (m % n), F(0)) + q
        fr_.append(ref.clean(v))
    E = {0: F(1)}
    for v in fr_:
        E = R.wedge(E, v)
    E2 = R.mul(E, E).get(0, F(0)) if E else F(0)
    if E2 == 0:
        x.reject()
    k = len(fr_)
    x.nt(k >= 4, 'frame of %d' % k)
    e, r1 = ga.mv(), ga.mvr()
    gi = g.inv()
    for i in range(n):
        eq_ref(x, r1[i], ref.clean({1 << j: tofrac(gi[i, j]) for j in range(n)}), n, 'reciprocal vector %d' % i)
    V = [to_mv(ga, v) for v in fr_]
    r = ga.ReciprocalFrame(V)
    for i in range(k):
        ri = from_mv(r[i], n)
        x.ok(all(popcount(m) == 1 for m in ri) and not R.wedge(ri, E), 'reciprocal vector %d leaves the span of the frame' % i)
        for j in range(k):
            d = R.dot(ri, fr_[j]).get(0, F(0))
            x.ok(d == (1 if i == j else 0), 'v^%d.v_%d = %s for a frame of %d' % (i, j, d, k))
    s = sympy.Symbol('s')
    for a, b in c['blades']:
        a, b = a % (1 << n), b % (1 << n)
        A, B = to_mv(ga, {a: F(1)}), to_mv(ga, {b: F(1)})
        D = ga.make_grad(s * A)         # e^A d/ds
        got = from_mv(D * ga.mv(s * S.One), n)
        for other, q in ((a, 1), (b, 1 if a == b else 0)):
            v = R.mul(got, {other: F(1)}).get(0, F(0))
            x.ok(v == q, 'reciprocal of blade %s and blade %s pair to %s' % (bin(a), bin(other), v))
