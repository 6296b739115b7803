from runner import check
from gu import *
import gens as G
from gens import st

P = 'C01'


def sz(c):
    return any(len(m) >= 2 for m in c['mvs'])


@check(P, G.ga_and_mvs(2, 1, 4, maxterms=4, minterms=1), quick=480, shards=8,
       rule='both factors non-zero, and the metric non-orthogonal or degenerate or a factor of two or more terms')
def product_vs_reference(c, x):
    """A*B computed by galgebra equals the Clifford product computed from the Gram matrix"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    x.label(c['ga']['kind'], 'n%d' % R.n, 'diag' if G.is_diag(c['ga']['g']) else 'offdiag')
    x.nt(bool(a and b) and (sz(c) or c['ga']['kind'] in ('sym', 'symdeg', 'degenerate')))
    eq_ref(x, A, a, R.n, 'construction of A')
    eq_ref(x, A * B, R.mul(a, b), R.n, 'A*B')
    eq_ref(x, B * A, R.mul(b, a), R.n, 'B*A')
    eq_ref(x, A * B, R.mul(a, b), R.n, 'A*B repeated')


@check(P, G.ga_and_mvs(2, 5, 6, maxterms=3, minterms=1, kinds=('signature', 'degenerate', 'diag')), quick=60, shards=8,
       rule='both factors non-zero in dimension 5 or 6')
def product_high_dim(c, x):
    """as product_vs_reference in dimension 5 and 6, orthogonal metrics"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    x.label('n%d' % R.n)
    x.nt(bool(a and b))
    eq_ref(x, to_mv(ga, a) * to_mv(ga, b), R.mul(a, b), R.n, 'A*B')


@check(P, G.high(2), quick=60, shards=4, rule='both factors non-zero')
def product_of_high_grades(c, x):
    """as product_vs_reference for factors of every grade in dimension seven to nine, orthogonal metrics"""
    product_high_dim(c, x)


@st.composite
def nonortho5(draw):
    c = draw(G.ga_and_mvs(2, 5, 5, maxterms=2, minterms=1, kinds=('sym', 'symdeg')))
    return c


@check(P, nonortho5(), quick=24, thorough=200, shards=8, rule='both factors non-zero, dimension 5, non-orthogonal metric')
def product_nonortho_5(c, x):
    """dimension 5 with a general Gram matrix"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    x.nt(bool(a and b))
    eq_ref(x, to_mv(ga, a) * to_mv(ga, b), R.mul(a, b), R.n, 'A*B')


@check(P, G.ga_and_mvs(3, 1, 4, maxterms=3, minterms=1), quick=160, shards=8,
       rule='three non-zero factors, at least one of two or more terms')
def ring_laws(c, x):
    """associativity, both distributive laws, unit and zero, stated on galgebra results alone"""
    ga, R = mk(c['ga'])
    A, B, C = [to_mv(ga, mvd(m)) for m in c['mvs']]
    n = R.n
    x.label(c['ga']['kind'], 'n%d' % n)
    x.nt(all(c['mvs']) and sz(c))
    L = (A * B) * C
    same_mv(x, L, A * (B * C), n, '(A*B)*C == A*(B*C)')
    same_mv(x, A * (B + C), A * B + A * C, n, 'left distributivity')
    same_mv(x, (A + B) * C, A * C + B * C, n, 'right distributivity')
    one = ga.mv(S.One)
    same_mv(x, one * A, A, n, '1*A')
    same_mv(x, A * one, A, n, 'A*1')
    same_mv(x, A * ga.mv(S.Zero), {}, n, 'A*0')
    for k in range(0, 4):
        P_ = A ** k
        eq_ref(x, P_, R.pow(mvd(c['mvs'][0]), k), n, 'A**%d' % k)


@check(P, st.tuples(G.ga_and_mvs(1, 1, 3, maxterms=3, minterms=1), st.integers(2, 12), st.booleans()), quick=160, shards=8, rule='an exponent of at least 4 and a non-zero operand of two or more terms')
def powers(c, x):
    """A**k is the k-fold product for exponents up to 12 (and the inverse of it for negative ones), in either representation"""
    c, k, base = c
    ga, R = mk(c['ga'])
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    if base:
        A = A.base_rep()
    x.label('k%d' % k, 'n%d' % R.n)
    x.nt(k >= 4 and len(a) >= 2)
    p = R.pow(a, k)
    eq_ref(x, (A ** k).blade_rep(), p, R.n, 'A**%d' % k)
    if k <= 5 and R.inverse(a) is not None:
        try:
            Q = A ** -k
        except Exception:
            return                           # C07 decides which inverses are refused
        eq_ref(x, Q.blade_rep() * A ** k, {0: F(1)}, R.n, 'A**-%d * A**%d' % (k, k))


@check(P, G.ga(1, 5), quick=60, shards=4, rule='every case: all pairs of basis vectors')
def anticommutator(c, x):
    """e_i e_j + e_j e_i = 2 g_ij for the basis vectors handed to the user"""
    ga, R = mk(c)
    es = ga.mv()
    x.nt()
    x.label(c['kind'])
    if len(es) != R.n:
        x.fail('basis has %d vectors' % len(es))
    for i in range(R.n):
        for j in range(R.n):
            eq_ref(x, es[i] * es[j] + es[j] * es[i], {0: 2 * R.g[i][j]}, R.n, 'e%d e%d' % (i, j))
            eq_ref(x, ga.mv(ga.g[i, j]), ref.clean({0: R.g[i][j]}), R.n, 'g[%d,%d]' % (i, j))


# ---- symbolic metrics: specialise afterwards -----------------------------
@st.composite
def symbolic(draw):
    n = draw(st.sampled_from([2, 3, 3, 2, 4]))
    form = draw(st.sampled_from(['hash', 'symbols', 'mixed', 'diagsym', 'default']))
    if n == 4:
        form = draw(st.sampled_from(['diagsym', 'mixed']))
    kind, g = draw(G.metric(n, ('sym', 'symdeg', 'diag')))
    if form == 'diagsym':
        g = G.diag([draw(G.nz) for _ in range(n)])
    pat = [[draw(st.booleans()) for _ in range(n)] for _ in range(n)]
    return {'n': n, 'form': form, 'g': g, 'pat': pat,
            'mvs': [draw(G.mv(n, 3 if n < 4 else 2, 1)) for _ in range(2)], 'symcoef': draw(st.booleans())}


@check(P, symbolic(), quick=120, thorough=1200, shards=8,
       rule='both factors non-zero; the metric has symbolic entries')
def symbolic_metric(c, x):
    """with symbolic metric entries (and symbolic coefficients) the product, specialised to rational values
    afterwards, equals the reference product for those values"""
    n = c['n']
    pt = {}
    gs = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            v = sp(c['g'][i][j])
            symb = c['pat'][i][j] or c['form'] in ('hash', 'default', 'symbols')
            if c['form'] == 'diagsym':
                symb = (i == j)
            if symb:
                s = Symbol('g%d%d' % (i, j), real=True)
                gs[i][j] = gs[j][i] = s
            else:
                gs[i][j] = gs[j][i] = v
    names = names_for(n)
    x.label(c['form'], 'n%d' % n)
    if c['form'] == 'default':
        ga = Ga(names)
    elif c['form'] == 'hash':
        ga = Ga(names, g=','.join(' '.join('#' for _ in range(n)) for _ in range(n)))
    elif c['form'] == 'mixed':
        ga = Ga(names, g=','.join(' '.join('#' if gs[i][j].is_Symbol else str(gs[i][j]) for j in range(n)) for i in range(n)))
    else:
        ga = Ga(names, g=Matrix(gs))
    for i in range(n):
        for j in range(n):
            e = ga.g[i, j]
            v = sp(c['g'][i][j])
            if e.free_symbols or not e.is_Rational:
                pt[e] = v
            else:
                x.ok(e == v, 'numeric metric entry %d,%d is %s not %s' % (i, j, e, v))
    if any(ga.g[i, j] != ga.g[j, i] for i in range(n) for j in range(n)):
        x.fail('metric not symmetric')
    R = RefGA([[fr(v) for v in r] for r in c['g']])
    a, b = [mvd(m) for m in c['mvs']]
    x.nt(bool(a and b))
    if c['symcoef']:
        sa = {m: Symbol('a%d' % m, real=True) for m in a}
        sb = {m: Symbol('b%d' % m, real=True) for m in b}
        for m in a:
            pt[sa[m]] = sp(a[m])
        for m in b:
            pt[sb[m]] = sp(b[m])
        A, B = to_mv(ga, sa), to_mv(ga, sb)
    else:
        A, B = to_mv(ga, a), to_mv(ga, b)
    got = {m: tofrac(S(v).xreplace(pt)) for m, v in coefs_of(A * B, n).items()}
    want = R.mul(a, b)
    if ref.clean(got) != want:
        x.fail('A*B specialised: got %s expected %s' % (show(ref.clean(got)), show(want)))





@st.composite
def inexact(draw):
    gc = draw(G.ga(1, 4, ns=[1, 2, 2, 3, 3, 4]))
    n = len(gc['g'])
    q = st.integers(-12, 12).filter(bool)
    return {'ga': gc, 'how': draw(st.sampled_from(['float', 'complex', 'mixed'])),
            'mvs': [[[m, draw(q), draw(q), draw(st.sampled_from(['py', 'sympy']))] for m in draw(st.lists(st.integers(0, (1 << n) - 1), min_size=1, max_size=3, unique=True))] for _ in range(2)]}


@check(P, inexact(), quick=160, shards=4, rule='both factors have a part that is not a scalar')
def floats_and_complex_numbers(c, x):
    """products and sums with floating-point and complex coefficients (quarters, so exact in binary), python's and sympy's, follow the same tables"""
    ga, R = mk(c['ga'])
    n = R.n
    bl = dict(zip(masks(n), ga.mv_blades.flat))
    parts, mvs_ = [], []
    for k, m in enumerate(c['mvs']):
        re, im, M = {}, {}, ga.mv(S.Zero)
        for b, p, q, typ in m:
            cplx = c['how'] == 'complex' or c['how'] == 'mixed' and k
            re[b] = F(p, 4)
            if cplx:
                im[b] = F(q, 4)
                v = complex(p / 4, q / 4) if typ == 'py' else sympy.Float(p / 4) + sympy.I * sympy.Rational(q, 4)
            else:
                v = p / 4 if typ == 'py' else sympy.Float(p / 4)
            M = M + v * bl[b]
        parts.append((re, im))
        mvs_.append(M)
    A, B = mvs_
    (a, ai), (b, bi) = parts
    x.nt(all(any(t[0] for t in m) for m in c['mvs']), c['how'], 'n%d' % n)

    def near(got, re, im, what):
        w = {m: complex(re.get(m, 0), im.get(m, 0)) for m in set(re) | set(im)}
        g = {m: complex(sympy.N(v)) for m, v in coefs_of(got, n).items()}
        for m in set(w) | set(g):
            if abs(w.get(m, 0) - g.get(m, 0)) > 1e-9 * (1 + abs(w.get(m, 0))):
                x.fail('%s: blade %s has %s, expected %s' % (what, bits(m), g.get(m, 0), w.get(m, 0)))

    def add(p, q, s=1):
        return {m: p.get(m, F(0)) + s * q.get(m, F(0)) for m in set(p) | set(q)}
    near(A, a, ai, 'A')
    near(A + B, add(a, b), add(ai, bi), 'A + B')
    near(A - B, add(a, b, -1), add(ai, bi, -1), 'A - B')
    near(A - A, {}, {}, 'A - A')
    for what, f, got in (('A*B', R.mul, A * B), ('A^B', R.wedge, A ^ B), ('A|B', R.dot, A | B), ('A<B', R.lc, A < B), ('A>B', R.rc, A > B)):
        near(got, add(f(a, b), f(ai, bi), -1), add(f(a, bi), f(ai, b)), what)
    near(A.rev(), {m: (-1) ** (popcount(m) * (popcount(m) - 1) // 2) * v for m, v in a.items()},
         {m: (-1) ** (popcount(m) * (popcount(m) - 1) // 2) * v for m, v in ai.items()}, 'rev')
    for r in range(n + 1):
        near(A.grade(r), {m: v for m, v in a.items() if popcount(m) == r}, {m: v for m, v in ai.items() if popcount(m) == r}, 'grade %d' % r)
