from runner import check, CaseTimeout
from gu import *
import gens as G
from gens import st
from galgebra.lt import Mlt, sym as lsym
from galgebra.dop import Pdop
from galgebra.printer import latex
import galgebra.mv as gmv

P = 'C04'
NONORTH = ('sym', 'sym', 'symdeg', 'signature', 'diag')


def base_product(R, m):
    """the geometric product of the basis vectors named in mask m, in increasing order"""
    r = {0: F(1)}
    for i in bits(m):
        r = R.mul(r, {1 << i: F(1)})
    return r


@check(P, G.ga_and_mvs(1, 1, 4, maxterms=4, minterms=1, kinds=NONORTH), quick=240, shards=8,
       rule='non-orthogonal metric and a component of grade two or more')
def round_trip(c, x):
    """blade -> base -> blade is the identity, and the base form denotes the same element when its products of
    basis vectors are multiplied out by the reference"""
    ga, R = mk(c['ga'])
    n = R.n
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    off = not G.is_diag(c['ga']['g'])
    x.label('offdiag' if off else 'diag')
    x.nt(off and any(popcount(m) >= 2 for m in a))
    Bs = A.base_rep()
    eq_ref(x, Bs.blade_rep(), a, n, 'A.base_rep().blade_rep()')
    eq_ref(x, A.blade_rep(), a, n, 'A.blade_rep()')
    eq_ref(x, Bs.base_rep().blade_rep(), a, n, 'base_rep twice')
    x.ok(A.is_blade_rep is True, 'is_blade_rep of a blade form')
    if off:
        x.ok(Bs.is_blade_rep is False, 'is_blade_rep of a base form')
        # read the base form literally
        bs = ga.bases.flat
        tot = {}
        rest = expand(Bs.obj)
        for m, b in zip(masks(n), bs):
            cf = rest.coeff(b) if b != 1 else rest.as_independent(*[q for q in bs if q != 1], as_Add=True)[0]
            if cf != 0:
                tot = ref.add(tot, base_product(R, m), tofrac(cf))
        x.ok(ref.clean(tot) == a, lambda: 'base form denotes %s, not %s' % (show(ref.clean(tot)), show(a)))
    x.ok(ga.base_to_blade_rep(ga.blade_to_base_rep(A.obj)) is not None, '')
    eq_ref(x, ga.mv(ga.base_to_blade_rep(ga.blade_to_base_rep(A.obj))), a, n, 'base_to_blade(blade_to_base)')


@st.composite
def wide_case(draw):
    n = draw(st.sampled_from([5, 5, 6]))
    g = G.diag(draw(st.lists(st.sampled_from([1, -1, 2, 0, 3]), min_size=n, max_size=n)))
    for i, j, v in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([1, -1, 2, '1/2'])), min_size=1, max_size=3)):
        if i != j:
            g[i][j] = g[j][i] = v
    ms = [draw(st.sampled_from([m for m in range(1 << n) if popcount(m) <= 4])) for _ in range(draw(st.integers(1, 3)))]
    return {'ga': {'g': g, 'form': 'matrix', 'names': draw(st.sampled_from(['plain', 'under', 'roots'])), 'kind': 'sym'}, 'mvs': [[[m, draw(G.nz)] for m in sorted(set(ms))]]}


@check(P, wide_case(), quick=32, shards=8, rule='non-orthogonal metric and a component of grade two or more')
def round_trip_in_many_dimensions(c, x):
    """the same in algebras of five and six dimensions with a few off-diagonal metric entries"""
    round_trip(c, x)


@check(P, G.ga(2, 4, kinds=('sym', 'symdeg', 'sym')), quick=60, shards=8, rule='non-orthogonal metric')
def expansion_tables(c, x):
    """each product of basis vectors expands into blades as the reference says, and conversely"""
    ga, R = mk(c)
    n = R.n
    off = not G.is_diag(c['g'])
    x.nt(off)
    if not off:
        x.reject()
    for m, b, e in zip(masks(n), ga.bases.flat, ga.blades.flat):
        eq_ref(x, ga.mv(ga.base_to_blade_rep(S(b))), base_product(R, m), n, 'base %s as blades' % bits(m))
        eq_ref(x, ga.mv(ga.base_to_blade_rep(ga.blade_to_base_rep(S(e)))), {m: F(1)}, n, 'blade %s via bases' % bits(m))


OPS2 = {'+': (lambda A, B: A + B, lambda R, a, b: ref.add(a, b)),
        '-': (lambda A, B: A - B, lambda R, a, b: ref.add(a, b, -1)),
        '*': (lambda A, B: A * B, lambda R, a, b: R.mul(a, b)),
        '^': (lambda A, B: A ^ B, lambda R, a, b: R.wedge(a, b)),
        '|': (lambda A, B: A | B, lambda R, a, b: R.dot(a, b)),
        '<': (lambda A, B: A < B, lambda R, a, b: R.lc(a, b)),
        '>': (lambda A, B: A > B, lambda R, a, b: R.rc(a, b)),
        '<<': (lambda A, B: A << B, lambda R, a, b: R.acom(a, b)),
        '>>': (lambda A, B: A >> B, lambda R, a, b: R.com(a, b)),
        'sp': (lambda A, B: A.sp(B), lambda R, a, b: {0: R.sp(a, b)})}

OPS1 = {'rev': (lambda A: A.rev(), lambda R, a: R.rev(a)),
        'g_invol': (lambda A: A.g_invol(), lambda R, a: R.invol(a)),
        'ccon': (lambda A: A.ccon(), lambda R, a: R.conj(a)),
        'even': (lambda A: A.even(), lambda R, a: R.even(a)),
        'odd': (lambda A: A.odd(), lambda R, a: R.odd(a)),
        'grade0': (lambda A: A.grade(0), lambda R, a: R.grade(a, 0)),
        'grade1': (lambda A: A.get_grade(1), lambda R, a: R.grade(a, 1)),
        'grade2': (lambda A: A.get_grade(2), lambda R, a: R.grade(a, 2)),
        'scalar': (lambda A: A.scalar(), lambda R, a: R.grade(a, 0)),
        'neg': (lambda A: -A, lambda R, a: ref.smul(-1, a)),
        'smul': (lambda A: 3 * A, lambda R, a: ref.smul(3, a)),
        'mulr': (lambda A: A * sp('1/3'), lambda R, a: ref.smul(F(1, 3), a)),
        'div': (lambda A: A / 2, lambda R, a: ref.smul(F(1, 2), a)),
        'expand': (lambda A: A.expand(), lambda R, a: a),
        'simplify': (lambda A: A.simplify(), lambda R, a: a),
        'pow2': (lambda A: A ** 2, lambda R, a: R.mul(a, a)),
        'qform': (lambda A: A.qform(), lambda R, a: {0: R.sp(R.rev(a), a)}),
        'copy': (lambda A: A.Ga.mv(A), lambda R, a: a)}


@st.composite
def repcase(draw):
    c = draw(G.ga_and_mvs(2, 2, 4, maxterms=3, minterms=1, kinds=NONORTH))
    c['reps'] = [draw(st.booleans()), draw(st.booleans())]
    return c


@check(P, repcase(), quick=240, shards=8, rule='non-orthogonal metric, an operand in base form with a grade>=2 component')
def operations_ignore_representation(c, x):
    """every operation gives the same element whichever of the two representations its operands are in"""
    ga, R = mk(c['ga'])
    n = R.n
    ab = [mvd(m) for m in c['mvs']]
    AB = [to_mv(ga, m) for m in ab]
    AB = [M.base_rep() if r else M for M, r in zip(AB, c['reps'])]
    off = not G.is_diag(c['ga']['g'])
    x.label('offdiag' if off else 'diag', 'reps%s' % c['reps'])
    x.nt(off and any(r and any(popcount(m) > 1 for m in a) for r, a in zip(c['reps'], ab)))
    for name, (f, w) in OPS2.items():
        eq_ref(x, f(*AB), ref.clean(w(R, *ab)), n, 'A %s B with base forms %s' % (name, c['reps']))
    for name, (f, w) in OPS1.items():
        eq_ref(x, f(AB[0]), ref.clean(w(R, ab[0])), n, '%s of %s form' % (name, 'base' if c['reps'][0] else 'blade'))
    A, a = AB[0], ab[0]
    x.ok(A.is_scalar() is (R.grades(a) == [0]), 'is_scalar')
    x.ok(A.is_vector() is (R.grades(a) == [1]), 'is_vector')
    gs = R.grades(a)
    want = gs[0] if len(gs) == 1 else -gs[-1]
    x.ok(A.pure_grade() == want, lambda: 'pure_grade %r expected %r' % (A.pure_grade(), want))
    x.ok([tofrac(v) for v in A.blade_coefs()] == [a.get(m, F(0)) for m in masks(n)], 'blade_coefs')
    eq_ref(x, sum(A.components(), ga.mv(S.Zero)), a, n, 'sum of components')
    d = ga.grade_decomposition(A)
    for k in range(n + 1):
        eq_ref(x, d.get(k, S.Zero), R.grade(a, k), n, 'grade_decomposition[%d]' % k)


# ---------------------------------------------------------------- every method, both representations, same outcome
OPSX = {
    'components': lambda A, B, ga: A.components(),
    'get_coefs': lambda A, B, ga: [A.grade(k).get_coefs(k) for k in range(ga.n + 1)],
    'list': lambda A, B, ga: A.list(),
    'blade_coefs sel': lambda A, B, ga: A.blade_coefs(list(ga.mv_blades.flat)[1:5]),
    'blade_coefs base sel': lambda A, B, ga: A.blade_coefs([b.base_rep() for b in ga.mv_blades[1]]),
    'proj': lambda A, B, ga: A.proj(list(ga.mv_blades.flat)[::2]),
    'proj all': lambda A, B, ga: A.proj(list(ga.mv_blades.flat)),
    'dual': lambda A, B, ga: A.dual(),
    'undual': lambda A, B, ga: A.undual(),
    'inv': lambda A, B, ga: A.inv(),
    'shirokov': lambda A, B, ga: A.shirokov_inverse(),
    'hitzer': lambda A, B, ga: A.hitzer_inverse(),
    'div': lambda A, B, ga: A / B,
    'rdiv': lambda A, B, ga: 3 / A,
    'project': lambda A, B, ga: B.project_in_blade(A.grade(1)),
    'reflect': lambda A, B, ga: B.reflect_in_blade(A.grade(2)),
    'project into': lambda A, B, ga: A.project_in_blade(ga.mv_blades[1][0] + ga.mv_blades[1][-1]),
    'reflect in': lambda A, B, ga: A.reflect_in_blade(ga.mv_blades[1][0]),
    'rotate': lambda A, B, ga: A.rotate_multivector(2 * ga.mv_blades[2][0]) if ga.g[0, 0] > 0 and ga.g[1, 1] > 0 else None,
    'norm2': lambda A, B, ga: A.norm2(),
    'norm': lambda A, B, ga: A.norm(),
    'mag2': lambda A, B, ga: A.mag2(),
    'mag': lambda A, B, ga: A.mag(),
    'sp rev': lambda A, B, ga: A.sp(B, 'rev'),
    'is_blade': lambda A, B, ga: A.is_blade(),
    'is_versor': lambda A, B, ga: A.is_versor(),
    'is_zero': lambda A, B, ga: A.is_zero(),
    'pure_grade': lambda A, B, ga: A.pure_grade(),
    'hash': lambda A, B, ga: hash(A),
    '==': lambda A, B, ga: (bool(A == B), bool(A == A.blade_rep()), bool(A == 0)),
    'subs': lambda A, B, ga: A.subs({Symbol('t', real=True): 2}),
    'subs2': lambda A, B, ga: A.subs(Symbol('t', real=True), -1),
    'trigsimp': lambda A, B, ga: A.trigsimp(),
    'collect': lambda A, B, ga: A.collect(),
    'getitem': lambda A, B, ga: A[2],
    'com': lambda A, B, ga: Ga.com(A, B),
    'scalar_part': lambda A, B, ga: ga.scalar_part(A),
    'decomposition': lambda A, B, ga: [v for _, v in sorted(ga.grade_decomposition(A).items())],
    'radd': lambda A, B, ga: 2 + A - 3,
    'rsub': lambda A, B, ga: Symbol('t', real=True) - A,
    'lt': lambda A, B, ga: ga.lt(Matrix(ga.n, ga.n, lambda i, j: (i + 2 * j) % 3 - 1))(A),
    'lt from': lambda A, B, ga: ga.lt([A.grade(1) + b for b in ga.mv_blades[1]]).matrix(),
    'mlt': lambda A, B, ga: Mlt(A.grade(1) + ga.mv_blades[1][0], ga)(B.grade(1) + ga.mv_blades[1][-1]),
    'diff': lambda A, B, ga: A.diff(Symbol('t', real=True)) if ga.coords is None else A.diff(ga.coords[0]),
    'pdiff': lambda A, B, ga: A.pdiff(Symbol('t', real=True)),
    'grad': lambda A, B, ga: ga.grad * A if ga.coords is not None else None,
    'A grad': lambda A, B, ga: (A * ga.grad) * B if ga.coords is not None else None,
    'grad|': lambda A, B, ga: ga.grad | A if ga.coords is not None else None,
    'rgrad': lambda A, B, ga: A ^ ga.rgrad if ga.coords is not None else None,
    'make_grad': lambda A, B, ga: ga.make_grad(A.grade(1) + ga.mv_blades[1][0]) * B if ga.coords is not None else None,
    'frame': lambda A, B, ga: list(ga.ReciprocalFrame([A.grade(1) + 5 * ga.mv_blades[1][0], ga.mv_blades[1][1]])),
    'compare': lambda A, B, ga: gmv.compare(A, A + B),
    'lsym': lambda A, B, ga: lsym(A.grade(1)),
    'mvctor': lambda A, B, ga: ga.mv(A),
    'exp': lambda A, B, ga: A.grade(2).exp() if A.grade(2).obj != 0 and ga.n < 4 and not (A.grade(2).blade_rep().obj.free_symbols & {Symbol('t', real=True)}) else None,
}


def dops(A, B, ga):
    t = Symbol('t', real=True)
    return gmv.Dop([(A, Pdop(t)), (B, Pdop({})), (A * 2, Pdop({t: 2}))], ga=ga)


def dterms(D):
    return [[str(pd), cf] for cf, pd in sorted(D.terms, key=lambda q: str(q[1]))]


OPSX.update({
    'dop components': lambda A, B, ga: [dterms(C) for C in dops(A, B, ga).components()],
    'dop str': lambda A, B, ga: str(dops(A, B, ga)),
    'dop latex': lambda A, B, ga: latex(dops(A, B, ga)),
    'dop simplify': lambda A, B, ga: dterms(dops(A, B, ga).simplify()) + dterms(dops(A, B, ga).TSimplify()),
    'dop is_scalar': lambda A, B, ga: (dops(A, B, ga).is_scalar(), dops(A.grade(0), B.grade(0), ga).is_scalar()),
    'dop ==': lambda A, B, ga: (dops(A, B, ga) == dops(A.blade_rep(), B.blade_rep(), ga), dops(A, B, ga) == dops(B, A, ga)),
    'dop sum': lambda A, B, ga: dterms(dops(A, B, ga) + dops(B, A.blade_rep(), ga) - B),
    'dop on field': lambda A, B, ga: dops(A, B, ga) * (Symbol('t', real=True) ** 2 * B.blade_rep() + A),
    'A dop': lambda A, B, ga: dterms(A * dops(A, B, ga)) + dterms(dops(A, B, ga) ^ gmv.Dop([(B, Pdop({}))], ga=ga)) + dterms(dops(A, B, ga) / 3),
})


def outcome(f, *a):
    try:
        return f(*a)
    except CaseTimeout:
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__


def alike(p, q, n):
    if isinstance(p, (list, tuple)):
        return isinstance(q, (list, tuple)) and len(p) == len(q) and all(alike(a, b, n) for a, b in zip(p, q))
    if isinstance(p, (str, bool)) or p is None or isinstance(q, (str, bool)) or q is None:
        return type(p) is type(q) and p == q
    if isinstance(p, sympy.MatrixBase):
        return p.shape == q.shape and all(alike(a, b, n) for a, b in zip(p, q))
    return not diff_mv(coefs_of(p, n), coefs_of(q, n), n)


@st.composite
def everycase(draw):
    c = draw(G.ga_and_mvs(2, 2, 3, maxterms=3, minterms=1, kinds=NONORTH))
    c['rep'] = draw(st.sampled_from([[1, 0], [0, 1], [1, 1]]))
    c['ops'] = draw(st.lists(st.integers(0, len(OPSX) - 1), min_size=12, max_size=12, unique=True))
    c['sym'] = [draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))]
    c['co'] = draw(st.booleans())
    return c


@check(P, everycase(), quick=360, shards=8, rule='non-orthogonal metric and a base form operand with a grade>=2 component')
def every_method(c, x):
    """the outcome of every method (value, predicate, text or refusal) is the same whichever representation its operands are in (printing shows the representation, set_coef, is_base and split_multivector act on it: C22, C05)"""
    n = len(c['ga']['g'])
    t = Symbol('t', real=True)
    co = sympy.symbols('t u w', real=True)[:n] if c['co'] else None
    ga = mk_ga(c['ga'], **({'coords': co} if co else {}))
    off = not G.is_diag(c['ga']['g'])
    AB = []
    for m, s in zip(c['mvs'], c['sym']):
        M = to_mv(ga, mvd(m))
        if s:
            M = M + t * ga.mv_blades.flat[c['ops'][0] % (2 ** n)]
        AB.append(M)
    x.nt(off and any(r and any(popcount(k) > 1 for k, _ in m) for r, m in zip(c['rep'], c['mvs'])))
    names = sorted(OPSX)
    for i in c['ops']:
        f = OPSX[names[i]]
        A2 = [M.base_rep() if r else M for M, r in zip(AB, c['rep'])]
        p, q = outcome(f, *AB, ga), outcome(f, *A2, ga)
        x.ok(alike(p, q, n), lambda: '%s: %s from blade forms, %s from base forms %s' % (names[i], p, q, c['rep']))
        x.label(names[i] if not (isinstance(p, str) and p.startswith('raises')) else 'refused: %s %s' % (names[i], p))
    M = AB[0]
    for b in ga.mv_blades.flat:
        bb = b.base_rep()
        if bb.is_base():                 # this blade is a single base product as well
            x.ok(alike(outcome(lambda: M.blade_coefs([b])), outcome(lambda: M.blade_coefs([bb])), n), lambda: 'blade_coefs([%s]) of %s: %s, in base form %s' % (b, M, outcome(lambda: M.blade_coefs([b])), outcome(lambda: M.blade_coefs([bb]))))
