from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C07'


def finite(M, n):
    for c in coefs_of(M, n).values():
        if S(c).has(sympy.zoo, sympy.oo, sympy.nan, -sympy.oo):
            return False
    return True


def is_scalar(d):
    return all(m == 0 for m in d)


def scal(d):
    return d.get(0, F(0))


ONE = {0: F(1)}


@st.composite
def elements(draw, nmin=1, nmax=4):
    kind = draw(st.sampled_from(['versor', 'versor', 'blade', 'scalar', 'general', 'general', 'two', 'bireal', 'idem']))
    c = draw(G.ga(nmin, nmax) if draw(st.integers(0, 2)) == 0 else G.ga_nd(nmin, nmax))
    n = len(c['g'])
    out = {'ga': c, 'kind': kind}
    if kind in ('versor', 'blade'):
        k = draw(st.integers(1, min(3, n + 1) if kind == 'versor' else min(3, n)))
        out['vecs'] = [draw(G.vec(n)) for _ in range(k)]
    elif kind == 'scalar':
        out['s'] = draw(st.one_of(G.coef, st.just('3/7')))
    elif kind == 'two':
        out['m'] = draw(G.mv(n, 2, 2))
    elif kind == 'bireal':
        out['m'] = [[0, draw(G.nz)], [(1 << n) - 1, draw(G.nz)]]
    elif kind == 'idem':
        out['m'] = [[0, draw(G.small)], [draw(st.integers(1, (1 << n) - 1)), draw(G.small)]]
    else:
        out['m'] = draw(G.mv(n, 4, 1))
    out['other'] = draw(G.mv(n, 3, 1))
    return out


def build(c, R):
    n = R.n
    k = c['kind']
    if k == 'scalar':
        return ref.clean({0: fr(c['s'])})
    if 'vecs' in c:
        vs = [ref.clean({1 << i: fr(v) for i, v in enumerate(w)}) for w in c['vecs']]
        d = {0: F(1)}
        for v in vs:
            d = R.mul(d, v) if k == 'versor' else R.wedge(d, v)
        return d
    return mvd(c['m'])


@check(P, elements(), quick=560, shards=8, rule='the element has an inverse, is no scalar, and inv() is defined for it')
def inv_division_powers(c, x):
    """inv(), galgebra.mv.inv, **-k, A/B and s/B give the exact two-sided inverse whenever B, B*B or B*B.rev() is a
    scalar; a singular operand raises or gives a visibly infinite result; any other operand raises TypeError"""
    ga, R = mk(c['ga'])
    n = R.n
    b = build(c, R)
    a = mvd(c['other'])
    B, A = to_mv(ga, b), to_mv(ga, a)
    want = R.inverse(b)
    dom = is_scalar(b) or is_scalar(R.mul(b, b)) or is_scalar(R.mul(b, R.rev(b)))
    x.label(c['kind'], 'singular' if want is None else 'invertible', 'domain' if dom else 'outside')
    x.nt(want is not None and dom and not is_scalar(b))
    forms = [('inv()', lambda: B.inv(), None), ('inv(B)', lambda: gmv.inv(B), None), ('B**-1', lambda: B**-1, None),
             ('A/B', lambda: A / B, a), ('3/B', lambda: 3 / B, {0: F(3)}), ('1/2/B', lambda: Rational(1, 2) / B, {0: F(1, 2)})]
    for what, f, lhs in forms:
        if not dom:
            try:
                f()
            except TypeError:
                continue
            x.fail('%s of %s accepted although neither its square nor B*B.rev() is a scalar' % (what, show(b)))
        if want is None:
            try:
                r = f()
            except (ValueError, ZeroDivisionError):
                continue
            x.ok(lhs == {} or not finite(r, n), '%s of the singular %s returned the finite %s' % (what, show(b), r))
        else:
            eq_ref(x, f(), want if lhs is None else R.mul(lhs, want), n, '%s for B = %s' % (what, show(b)))
    if want is not None and dom:
        I = B.inv()
        eq_ref(x, B * I, ONE, n, 'B*B.inv()')
        eq_ref(x, I * B, ONE, n, 'B.inv()*B')
        x.ok(B * I == 1 and I * B == 1, 'B*B.inv() == 1')
        eq_ref(x, (A / B) * B, a, n, '(A/B)*B')
        eq_ref(x, B**-2, R.mul(want, want), n, 'B**-2')
        eq_ref(x, B**-3, R.mul(want, want, want), n, 'B**-3')
        eq_ref(x, B, b, n, 'operand afterwards')


@check(P, elements(1, 5), quick=240, shards=8, rule='a non-scalar element with an inverse')
def general_inverses(c, x):
    """shirokov_inverse (any dimension) and hitzer_inverse (dimension <= 5) give the exact inverse of every invertible
    multivector and raise ValueError for every singular one"""
    ga, R = mk(c['ga'])
    n = R.n
    b = build(c, R)
    if n == 5 and len(b) > 3:
        b = dict(list(sorted(b.items()))[:3])
    B = to_mv(ga, b)
    want = R.inverse(b)
    x.label(c['kind'], 'n%d' % n, 'singular' if want is None else 'invertible')
    x.nt(want is not None and not is_scalar(b))
    fs = [('hitzer', B.hitzer_inverse), ('hitzer()', lambda: gmv.hitzer_inverse(B))]
    if n < 5:
        fs += [('shirokov', B.shirokov_inverse), ('shirokov()', lambda: gmv.shirokov_inverse(B))]
    elif len(b) <= 2:
        fs += [('shirokov', B.shirokov_inverse)]
    for what, f in fs:
        try:
            r = f()
        except ValueError:
            x.ok(want is None, '%s refused the invertible %s' % (what, show(b)))
            continue
        x.ok(want is not None, '%s inverted the singular %s' % (what, show(b)))
        eq_ref(x, r, want, n, '%s inverse of %s' % (what, show(b)))
        eq_ref(x, B * r, ONE, n, 'B*' + what)
        eq_ref(x, r * B, ONE, n, what + '*B')


@check(P, st.fixed_dictionaries({'n': st.integers(1, 3), 'sig': st.lists(st.sampled_from([1, -1]), min_size=3, max_size=3),
                                 'k': st.integers(1, 2), 'pt': st.lists(G.rat, min_size=3, max_size=3),
                                 'co': st.lists(st.sampled_from(['a', 'b', 'a*b', 'a+b', '1', '2*b', '0', 'a**2', 'sqrt(a)']), min_size=6, max_size=6)}),
       quick=120, shards=4, rule='a symbolic non-null versor')
def symbolic_inverse(c, x):
    """the inverse of a product of vectors with symbolic coefficients is an inverse for every value of the symbols"""
    n = c['n']
    ga, R = mk({'g': G.diag(c['sig'][:n])})
    a, b = sympy.symbols('a b', positive=True)
    env = {'a': a, 'b': b}
    vs = []
    for j in range(c['k']):
        co = [sympy.sympify(c['co'][3 * j + i], locals=env) for i in range(n)]
        if not any(q != 0 for q in co):
            co[0] = a
        vs.append(sum((q * e for q, e in zip(co, ga.mv())), ga.mv(S.Zero)))
    B = vs[0]
    for v in vs[1:]:
        B = B * v
    q = (B * B.rev())
    s = expand(q.scalar())
    if s == 0:
        x.reject()
    x.nt(bool(s.free_symbols))
    fs = [('inv', B.inv), ('hitzer', B.hitzer_inverse), ('shirokov', B.shirokov_inverse)]
    for what, f in fs:
        try:
            r = f()
        except TypeError:
            x.ok(what == 'inv', what)
            x.label('inv refused')
            continue
        same_mv(x, B * r, ga.mv(S.One), n, 'B*%s' % what)
        same_mv(x, r * B, ga.mv(S.One), n, '%s*B' % what)


@check(P, st.fixed_dictionaries({'ga': G.ga(1, 3), 's': G.nz, 'm': st.integers(0, 7), 'c': G.nz}), quick=150, shards=2,
       rule='a non-zero multivector divided by a non-zero scalar')
def scalar_division(c, x):
    """A/s multiplies by 1/s for Python ints, rationals and symbols; A**0 = 1; non-integer powers are rejected"""
    ga, R = mk(c['ga'])
    n = R.n
    a = {c['m'] % (1 << n): fr(c['c'])}
    A = to_mv(ga, a)
    s = fr(c['s'])
    x.nt()
    eq_ref(x, A / sp(s), {m: v / s for m, v in a.items()}, n, 'A/s')
    if s.denominator == 1:
        eq_ref(x, A / int(s), {m: v / s for m, v in a.items()}, n, 'A/int')
    t = Symbol('t', nonzero=True)
    same_mv(x, (A / t) * t, A, n, '(A/t)*t')
    eq_ref(x, A**0, ONE, n, 'A**0')
    eq_ref(x, A / ga.mv(sp(s)), {m: v / s for m, v in a.items()}, n, 'A/scalar mv')
    for bad in (S.Half, 0.5, t):
        try:
            A**bad
        except ValueError:
            continue
        x.fail('A**%s accepted' % bad)


@st.composite
def many_dims(draw):
    n = draw(st.sampled_from([5, 6, 7, 7, 8]))
    sig = draw(st.lists(st.sampled_from([1, 1, -1]), min_size=n, max_size=n))
    if draw(st.integers(0, 4)) == 0:
        sig[draw(st.integers(0, n - 1))] = 0
    full = draw(st.booleans())      # as many independent commuting blades as the algebra has: the longest minimal polynomials
    sizes = [2] * (n // 2) + [1] * (n % 2) if full else draw(st.lists(st.integers(1, 3), min_size=2, max_size=4))
    axes = draw(st.permutations(range(n)))
    terms, at = [], 0
    for k in sizes:
        if at + k > n:
            break
        terms.append(sum(1 << i for i in axes[at:at + k]))
        at += k
    if not full and draw(st.integers(0, 2)) == 0:
        terms.append(draw(st.integers(1, (1 << n) - 1)))
    cs = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 7, 8, -1, -2, -3, '1/2']), min_size=len(terms), max_size=len(terms), unique=full))
    return {'n': n, 'sig': sig, 'terms': [[m, q] for m, q in zip(terms, cs)], 's': draw(st.integers(-9, 9))}


def min_poly_invertible(R, b):
    """whether b is invertible: its minimal polynomial, found among the powers of b, has a non-zero constant term"""
    rows, pw, k = [], {0: F(1)}, 0
    while True:
        d, comb = dict(pw), {k: F(1)}
        for piv, rd, rc in rows:
            f = d.get(piv, F(0))
            if f:
                for m, v in rd.items():
                    d[m] = d.get(m, F(0)) - f * v
                for m, v in rc.items():
                    comb[m] = comb.get(m, F(0)) - f * v
        d = {m: v for m, v in d.items() if v}
        if not d:
            return comb.get(0, F(0)) != 0
        piv = min(d)
        f = d[piv]
        rows.append((piv, {m: v / f for m, v in d.items()}, {m: v / f for m, v in comb.items()}))
        pw = R.mul(pw, b)
        k += 1


@check(P, many_dims(), quick=64, shards=8, rule='an invertible element with at least three terms')
def many_dimensions(c, x):
    """shirokov_inverse of sparse elements of algebras of five to eight dimensions is an exact two-sided inverse, and refuses singular
    elements only"""
    n = c['n']
    ga, R = mk({'g': G.diag(c['sig'])})
    b = mvd([[0, c['s']]] + c['terms'])
    if not b:
        x.reject('zero')
    B = to_mv(ga, b)
    inv = min_poly_invertible(R, b)
    x.nt(inv and len(b) > 2, 'n%d' % n, 'invertible' if inv else 'singular')
    try:
        r = B.shirokov_inverse()
    except ValueError:
        x.ok(not inv, 'shirokov_inverse refused the invertible %s' % show(b))
        return
    x.ok(inv, 'shirokov_inverse inverted the singular %s' % show(b))
    d = ref.clean({m: fr(str(expand(S(v).doit()))) for m, v in coefs_of(r, n).items()})
    x.ok(R.mul(b, d) == ONE and R.mul(d, b) == ONE, lambda: 'shirokov_inverse of %s gave %s' % (show(b), r))
