from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C05'


@check(P, G.ga_and_mvs(2, 1, 5, maxterms=5, minterms=0, kinds=('euclid', 'signature', 'degenerate', 'diag', 'sym')),
       quick=300, shards=8, rule='a multivector with two or more grades')
def parts_and_involutions(c, x):
    """grade parts, even/odd parts, reverse, grade involution and Clifford conjugate act on each grade with the
    textbook sign; grades add up; methods, module functions and indexing agree"""
    if len(c['ga']['g']) >= 5 and not G.is_diag(c['ga']['g']):
        c['ga']['g'] = G.diag([c['ga']['g'][i][i] for i in range(len(c['ga']['g']))])
    ga, R = mk(c['ga'])
    n = R.n
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    gs = R.grades(a)
    x.nt(len(gs) >= 2)
    x.label('n%d' % n, 'grades%d' % len(gs))
    for k in range(n + 1):
        w = R.grade(a, k)
        eq_ref(x, A.grade(k), w, n, 'grade(%d)' % k)
        eq_ref(x, A.get_grade(k), w, n, 'get_grade(%d)' % k)
        eq_ref(x, A[k], w, n, 'A[%d]' % k)
        eq_ref(x, gmv.grade(A, k), w, n, 'grade(A,%d)' % k)
    eq_ref(x, A.grade(), R.grade(a, 0), n, 'grade() default')
    eq_ref(x, sum([A.grade(k) for k in range(n + 1)], ga.mv(S.Zero)), a, n, 'sum of grades')
    for nm, w in (('even', R.even(a)), ('odd', R.odd(a)), ('rev', R.rev(a)), ('g_invol', R.invol(a)),
                  ('ccon', R.conj(a))):
        eq_ref(x, getattr(A, nm)(), w, n, 'A.%s()' % nm)
        eq_ref(x, getattr(gmv, nm)(A), w, n, '%s(A)' % nm)
    eq_ref(x, ~A, R.rev(a), n, '~A')
    eq_ref(x, A.scalar(), R.grade(a, 0), n, 'scalar()')
    eq_ref(x, gmv.scalar(A), R.grade(a, 0), n, 'scalar(A)')
    x.ok(not isinstance(A.scalar(), Mv), 'scalar() is not a plain expression')
    # algebraic laws on the code's own product
    AB = A * B
    same_mv(x, AB.rev(), B.rev() * A.rev(), n, '(AB)~ = B~A~')
    same_mv(x, AB.g_invol(), A.g_invol() * B.g_invol(), n, '(AB)^ = A^B^')
    same_mv(x, AB.ccon(), B.ccon() * A.ccon(), n, 'ccon antiautomorphism')


@check(P, G.ga_and_mvs(2, 6, 8, maxterms=4, minterms=1, kinds=('euclid', 'signature', 'degenerate', 'diag')), quick=40, shards=4, rule='a multivector with two or more grades')
def parts_in_many_dimensions(c, x):
    """the same in algebras of six to eight dimensions"""
    parts_and_involutions(c, x)


@check(P, G.high(2), quick=60, shards=4, rule='a multivector with two or more grades')
def parts_of_the_highest_grades(c, x):
    """the same for parts of every grade in algebras of seven to nine dimensions"""
    parts_and_involutions(c, x)


@check(P, G.ga_and_mvs(1, 5, 6, maxterms=4, minterms=1, kinds=('euclid', 'signature', 'degenerate', 'diag')), quick=40, shards=4, rule='a multivector with two or more components')
def components_in_many_dimensions(c, x):
    """blade_coefs and the splitters in algebras of five and six dimensions"""
    components(c, x)


@check(P, G.ga_and_mvs(1, 1, 4, maxterms=5, minterms=0), quick=300, shards=8, rule='a multivector with two or more components')
def components(c, x):
    """blade_coefs, get_coefs, components, proj, list, collect and the Ga-level splitters return exactly the
    coefficients of the multivector"""
    ga, R = mk(c['ga'])
    n = R.n
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    ms = masks(n)
    bl = ga.mv_blades.flat
    gs = R.grades(a)
    x.nt(len(a) >= 2)
    x.label('terms%d' % len(a))
    x.ok([tofrac(v) for v in A.blade_coefs()] == [a.get(m, F(0)) for m in ms], lambda: 'blade_coefs() = %s' % A.blade_coefs())
    # in any order, any subset, with repeats
    sel = [i for i in range(len(ms)) if (i * 7 + len(a)) % 3][::-1] + [len(ms) - 1]
    got = [tofrac(v) for v in A.blade_coefs([bl[i] for i in sel])]
    x.ok(got == [a.get(ms[i], F(0)) for i in sel], lambda: 'blade_coefs(list) = %s' % got)
    for k in range(n + 1):
        km = [m for m in ms if popcount(m) == k]
        if all(popcount(m) == k for m in a):
            got = [tofrac(v) for v in A.get_coefs(k)]
            x.ok(got == [a.get(m, F(0)) for m in km], lambda: 'get_coefs(%d) = %s' % (k, got))
        else:
            try:
                A.get_coefs(k)
                x.fail('get_coefs(%d) accepted a multivector with other grades' % k)
            except ValueError:
                pass
    cs = A.components()
    if a:
        x.ok(len(cs) == len(a), lambda: '%d components for %d terms' % (len(cs), len(a)))
        want = [{m: a[m]} for m in ms if m in a]
        for g, w in zip(cs, want):
            eq_ref(x, g, w, n, 'component')
    pm = [ms[i] for i in sel]
    eq_ref(x, A.proj([bl[i] for i in sel]), {m: v for m, v in a.items() if m in pm}, n, 'proj')
    x.ok([tofrac(v) for v in A.list()] == [a.get(1 << i, F(0)) for i in range(n)], lambda: 'list() = %s' % A.list())
    eq_ref(x, A.collect(), a, n, 'collect')
    eq_ref(x, A.collect(deep=True), a, n, 'collect(deep)')
    d = ga.grade_decomposition(A)
    x.ok(all(a == {} or d[k] is not None for k in gs), 'grade_decomposition keys')
    for k in set(list(d) + gs):
        eq_ref(x, d.get(k, S.Zero), R.grade(a, k), n, 'grade_decomposition[%d]' % k)
    s, rest = ga.split_multivector(A)
    eq_ref(x, s, R.grade(a, 0), n, 'split scalar')
    eq_ref(x, ga.mv(S(rest)), {m: v for m, v in a.items() if m}, n, 'split rest')
    eq_ref(x, ga.mv(S(ga.remove_scalar_part(A))), {m: v for m, v in a.items() if m}, n, 'remove_scalar_part')
    eq_ref(x, ga.scalar_part(A), R.grade(a, 0), n, 'scalar_part')
    eq_ref(x, ga.mv(ga.get_grade(A.obj, 2)), R.grade(a, 2), n, 'Ga.get_grade')
    eq_ref(x, ga.mv(ga.even_odd(A.obj, True)), R.even(a), n, 'Ga.even_odd')
    eq_ref(x, ga.mv(ga.even_odd(A.obj, False)), R.odd(a), n, 'Ga.even_odd')
    eq_ref(x, ga.mv(ga.reverse(A.obj)), R.rev(a), n, 'Ga.reverse')


@check(P, G.ga_and_mvs(1, 1, 4, maxterms=3, minterms=0), quick=300, shards=4, rule='a non-zero multivector')
def grade_predicates(c, x):
    """is_scalar, is_vector, is_zero, is_base, pure_grade and Ga.grades describe the grades actually present"""
    ga, R = mk(c['ga'])
    n = R.n
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    gs = R.grades(a)
    x.nt(bool(a))
    x.label('grades%s' % gs)
    x.ok(A.is_zero() is (not a), 'is_zero %r' % A.is_zero())
    x.ok(A.is_scalar() is (gs == [0] or not a), 'is_scalar %r for %s' % (A.is_scalar(), show(a)))
    x.ok(A.is_vector() is (gs == [1]), 'is_vector %r for %s' % (A.is_vector(), show(a)))
    x.ok(A.is_base() is (len(a) == 1 and list(a.values()) == [1]), 'is_base %r for %s' % (A.is_base(), show(a)))
    want = gs[0] if len(gs) == 1 else (0 if not gs else -gs[-1])
    x.ok(A.pure_grade() == want, lambda: 'pure_grade %r, expected %r for %s' % (A.pure_grade(), want, show(a)))
    if a:
        x.ok(list(ga.grades(A.obj)) == gs, lambda: 'grades %s expected %s' % (ga.grades(A.obj), gs))
    # asking twice, and asking a derived value, gives the same answers
    x.ok(A.pure_grade() == want and A.is_zero() is (not a), 'repeated query differs')
    Bv = A + A
    x.ok(Bv.pure_grade() == want, 'pure_grade(A+A)')


@st.composite
def setc(draw):
    c = draw(G.ga_and_mvs(1, 1, 3, maxterms=3, minterms=0))
    n = len(c['ga']['g'])
    c['sets'] = [[draw(st.integers(0, (1 << n) - 1)), draw(G.coef)] for _ in range(draw(st.integers(1, 3)))]
    c['query'] = draw(st.booleans())
    return c


@check(P, setc(), quick=120, shards=4, rule='a coefficient actually changed')
def set_coef(c, x):
    """set_coef replaces exactly one coefficient; later queries see the new value"""
    ga, R = mk(c['ga'])
    n = R.n
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    if c['query']:
        A.is_blade(), A.is_versor(), A.pure_grade()
    old = dict(a)
    for m, v in c['sets']:
        k = popcount(m)
        idx = [q for q in masks(n) if popcount(q) == k].index(m)
        A.set_coef(k, idx, sp(v))
        a[m] = fr(v)
        a = ref.clean(a)
        eq_ref(x, A, a, n, 'after set_coef(%d,%d,%s)' % (k, idx, v))
    x.nt(a != old)
    gs = R.grades(a)
    want = gs[0] if len(gs) == 1 else (0 if not gs else -gs[-1])
    x.ok(A.pure_grade() == want, lambda: 'pure_grade %r expected %r' % (A.pure_grade(), want))
    fresh = to_mv(ga, a)
    x.ok(A.is_blade() == fresh.is_blade() and A.is_versor() == fresh.is_versor(), 'stale is_blade/is_versor')
    x.ok(A == fresh, 'not equal to the multivector with those coefficients')


@st.composite
def coefval(draw):
    return {'v': draw(st.sampled_from([-1, -2, 3, '-7/2', '5/3'])), 'neg': True}


@check(P, coefval(), quick=6, thorough=6, shards=1, rule='every case')
def coefficient_comparable(c, x):
    """a returned coefficient that is a number compares equal to that number"""
    x.known('KF-C05-1') if fr(c['v']) < 0 and c['v'] != -1 else None
    ga = Ga('e_x e_y', g=[1, 1])
    ex, ey = ga.mv()
    x.nt()
    v = sp(c['v'])
    cs = (v * ex).blade_coefs([ex, ey])
    x.ok(cs[0] == v and cs[1] == 0, lambda: 'blade_coefs of %s e_x is not == %s (got %s)' % (v, v, sympy.srepr(cs[0]) if False else str(cs[0])))
