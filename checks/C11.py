from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C11'


def vecd(w):
    return ref.clean({1 << i: fr(v) for i, v in enumerate(w)})


@st.composite
def bladecase(draw, nmin=1, nmax=4, nd=False):
    c = draw((G.ga_nd if nd else G.ga)(nmin, nmax))
    n = len(c['g'])
    k = draw(st.sampled_from([0] + 3 * list(range(1, n + 1))))
    if k == 0:
        out = {'ga': c, 's': draw(G.nz)}
    else:
        out = {'ga': c, 'vecs': [draw(G.vec(n)) for _ in range(k)]}
    out['a'] = draw(G.mv(n, 4, 2))
    out['b'] = draw(G.mv(n, 2, 1))
    return out


def blade(c, R):
    if 's' in c:
        return {0: fr(c['s'])}
    d = {0: F(1)}
    for w in c['vecs']:
        d = R.wedge(d, vecd(w))
    return d


@check(P, bladecase(), quick=480, shards=8, rule='blade of grade >= 1, mixed-grade operand, result differs from the operand')
def project_and_reflect(c, x):
    """projection into and reflection in a blade (methods and functions) equal (A<B)B^-1 and
    sum_r (-1)^(r(s+1)) B<A>_r B^-1; projecting twice is projecting once, reflecting twice is the identity, reflection is
    multiplicative up to the grade sign and preserves the quadratic form; null blades are refused"""
    ga, R = mk(c['ga'])
    n = R.n
    bl = blade(c, R)
    if not bl:
        x.reject('dependent vectors')
    s = popcount(next(iter(bl)))
    a, a2 = mvd(c['a']), mvd(c['b'])
    A, B, A2 = to_mv(ga, a), to_mv(ga, bl), to_mv(ga, a2)
    q = R.sp(R.rev(bl), bl)
    x.label('grade%d' % s, c['ga']['kind'], 'null' if q == 0 else 'nonnull')
    if q == 0:
        for f in (lambda: A.project_in_blade(B), lambda: A.reflect_in_blade(B), lambda: gmv.proj(B, A), lambda: gmv.refl(B, A)):
            try:
                f()
            except ValueError:
                continue
            x.fail('null blade %s accepted' % show(bl))
        return
    binv = ref.smul(1 / q, R.rev(bl))
    wp = R.mul(R.lc(a, bl), binv)
    wr = {}
    for r in range(n + 1):
        t = R.mul(R.mul(bl, R.grade(a, r)), binv)
        wr = ref.add(wr, t, -1 if (r * (s + 1)) % 2 else 1)
    x.nt(s >= 1 and len(R.grades(a)) > 1 and wr != a)
    eq_ref(x, A.project_in_blade(B), wp, n, 'A.project_in_blade(B)')
    eq_ref(x, gmv.proj(B, A), wp, n, 'proj(B, A)')
    eq_ref(x, A.reflect_in_blade(B), wr, n, 'A.reflect_in_blade(B)')
    eq_ref(x, gmv.refl(B, A), wr, n, 'refl(B, A)')
    p = A.project_in_blade(B)
    eq_ref(x, p.project_in_blade(B), wp, n, 'projection of the projection')
    m = A.reflect_in_blade(B)
    eq_ref(x, m.reflect_in_blade(B), a, n, 'reflection of the reflection')
    eq_ref(x, A2.project_in_blade(B) + p, ref.add(R.mul(R.lc(a2, bl), binv), wp), n, 'additivity')
    x.ok(R.sp(R.rev(wr), wr) == R.sp(R.rev(a), a), 'reference')
    x.ok(tofrac(m.qform()) == R.sp(R.rev(a), a), 'reflection changed the quadratic form')
    # outermorphism on vectors: reflecting an outer product = outer product of the reflections
    if n >= 2:
        u, v = {1: F(1)}, {2: F(1), 1: F(2)}
        U, V = to_mv(ga, u), to_mv(ga, v)
        lhs = (U ^ V).reflect_in_blade(B)
        rhs = U.reflect_in_blade(B) ^ V.reflect_in_blade(B)
        eq_ref(x, lhs, from_mv(rhs, n), n, 'reflection of u^v')
        lhs = (U ^ V).project_in_blade(B)
        rhs = U.project_in_blade(B) ^ V.project_in_blade(B)
        eq_ref(x, lhs, from_mv(rhs, n), n, 'projection of u^v')
    # operands afterwards
    eq_ref(x, A, a, n, 'A afterwards')
    eq_ref(x, B, bl, n, 'B afterwards')


@check(P, bladecase(nd=True), quick=240, shards=8, rule='vector operand with non-zero projection and rejection')
def vector_geometry(c, x):
    """for vectors: the projection lies in the blade, v minus it is orthogonal to the blade, and reflection keeps the
    one and negates the other"""
    ga, R = mk(c['ga'])
    n = R.n
    bl = blade(c, R)
    if not bl or R.sp(R.rev(bl), bl) == 0:
        x.reject()
    s = popcount(next(iter(bl)))
    v = vecd([m % 5 - 2 for m, _ in c['a']][:n] + [1] * (n - min(n, len(c['a']))))
    V, B = to_mv(ga, v), to_mv(ga, bl)
    if not v or s == 0:
        x.reject()
    par = V.project_in_blade(B)
    p = from_mv(par, n)
    r = ref.add(v, p, -1)
    x.nt(bool(p) and bool(r))
    x.ok(all(popcount(m) == 1 for m in p), 'projection of a vector is no vector')
    x.ok(not R.wedge(p, bl), 'projection leaves the blade')
    x.ok(not R.lc(r, bl), 'rejection not orthogonal to the blade')
    eq_ref(x, V.reflect_in_blade(B), ref.add(p, r, -1), n, 'reflection of a vector in a blade')
    x.label('s%d' % s)


@check(P, st.fixed_dictionaries({'ga': G.ga(2, 4), 'm': st.lists(st.tuples(st.integers(0, 15), G.small), min_size=2, max_size=4)}),
       quick=160, shards=4, rule='a sum of two different grades')
def non_blades_refused(c, x):
    """mirrors and subspaces that are no blades raise ValueError, operands that are no multivectors too"""
    ga, R = mk(c['ga'])
    n = R.n
    d = mvd([[m % (1 << n), v] for m, v in c['m']])
    if len({popcount(m) for m in d}) < 2 and d:
        if not (n == 4 and all(popcount(m) == 2 for m in d) and R.wedge(d, d)):
            x.reject()
    x.nt(bool(d))
    M, A = to_mv(ga, d), ga.mv()[0]
    for f in (lambda: A.project_in_blade(M), lambda: A.reflect_in_blade(M), lambda: gmv.proj(M, A), lambda: gmv.refl(M, A),
              lambda: gmv.proj(A, 2), lambda: gmv.refl(A, Symbol('a')), lambda: gmv.rot(A, 3)):
        try:
            f()
        except ValueError:
            continue
        x.fail('accepted: %s' % show(d))


@st.composite
def pure_case(draw):
    c = draw(G.ga(4, 5))
    n = len(c['g'])
    return {'ga': c, 'w': draw(st.lists(G.small, min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2)), 'a': draw(G.vec(n)),
            'f': draw(st.sampled_from(['project', 'reflect', 'proj', 'refl']))}


@check(P, pure_case(), quick=120, shards=4, rule='bivector with B^B non-zero')
def pure_non_blades_refused(c, x):
    """a bivector that is no outer product of two vectors (B^B != 0) is refused although it has a single grade"""
    ga, R = mk(c['ga'])
    n = R.n
    masks = [m for m in range(1 << n) if popcount(m) == 2]
    d = ref.clean({m: fr(v) for m, v in zip(masks, c['w'])})
    x.nt(True, c['f'])
    if not R.wedge(d, d):
        x.reject('a blade')
    M, A = to_mv(ga, d), to_mv(ga, vecd(c['a']))
    f = {'project': lambda: A.project_in_blade(M), 'reflect': lambda: A.reflect_in_blade(M), 'proj': lambda: gmv.proj(M, A), 'refl': lambda: gmv.refl(M, A)}
    try:
        r = f[c['f']]()
    except ValueError:
        return
    x.fail('%s accepted %s and gave %s' % (c['f'], show(d), r))


@check(P, st.fixed_dictionaries({'ga': G.ga(2, 4, kinds=('euclid', 'signature', 'diag', 'sym', 'degenerate')), 'i': st.integers(0, 3), 'j': st.integers(0, 3),
                                 'a': G.mv(4, 3, 1), 'ang': st.sampled_from(['t', '2*t', 't/2', '-t', 't+p']), 'hint': st.sampled_from(['-', '+', None])}),
       quick=240, shards=8, rule='moved operand in a plane with non-zero square')
def rotate_symbolic(c, x):
    """rotation by an angle bivector e_i^e_j is exp(-B/2) A exp(B/2): linear, grade preserving, multiplicative, undone by
    the opposite angle, and in a Euclidean unit plane turns e_i towards e_j"""
    ga, R = mk(c['ga'])
    n = R.n
    i, j = c['i'] % n, c['j'] % n
    if i == j:
        j = (i + 1) % n
    t, p = sympy.symbols('t p', real=True)
    ang = sympy.sympify(c['ang'], locals=dict(t=t, p=p))
    e = ga.mv()
    B = ang * (e[i] ^ e[j])
    a = mvd([[m % (1 << n), v] for m, v in c['a']])
    A = to_mv(ga, a)
    kw = {} if c['hint'] is None else {'hint': c['hint']}
    got = A.rotate_multivector(B, **kw)
    bsq = R.mul(R.wedge({1 << i: F(1)}, {1 << j: F(1)}), R.wedge({1 << i: F(1)}, {1 << j: F(1)})).get(0, F(0))
    x.label('sq%s' % ('+' if bsq > 0 else '-' if bsq < 0 else '0'))
    h = sp(bsq) if bsq else S.Zero
    th = ang / 2
    if bsq < 0:
        w = sympy.sqrt(-h)
        C, Sn = sympy.cos(w * th), sympy.sin(w * th) / w
    elif bsq > 0:
        w = sympy.sqrt(h)
        C, Sn = sympy.cosh(w * th), sympy.sinh(w * th) / w
    else:
        C, Sn = S.One, th
    pl = R.wedge({1 << i: F(1)}, {1 << j: F(1)})
    # (C - Sn pl) a (C + Sn pl)
    want = {}
    for d, co in ((a, C * C), (R.mul(a, pl), C * Sn), (R.mul(pl, a), -C * Sn), (R.mul(R.mul(pl, a), pl), -Sn * Sn)):
        for m, v in d.items():
            want[m] = want.get(m, S.Zero) + co * sp(v)
    same_mv(x, got, want, n, 'A.rotate_multivector')
    same_mv(x, gmv.rot(B, A, **kw), want, n, 'rot(B, A)')
    x.nt(bsq != 0 and got != A)
    same_mv(x, got.rotate_multivector(-B, **kw), A, n, 'rotation undone')
    if bsq == -1 and R.mul({1 << i: F(1)}, {1 << i: F(1)}) == {0: F(1)} and R.mul({1 << j: F(1)}, {1 << j: F(1)}) == {0: F(1)}:
        same_mv(x, e[i].rotate_multivector(B, **kw), sympy.cos(ang) * e[i] + sympy.sin(ang) * e[j], n, 'rotated e_i')
