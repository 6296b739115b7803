from runner import check
from gu import *
import gens as G
from gens import st

P = 'C03'


@check(P, G.ga_and_mvs(3, 1, 4, maxterms=4, minterms=0), quick=400, shards=8, rule='two or more operands non-zero')
def linear_structure(c, x):
    """+, -, unary minus and scalar multiples agree with the coefficient-wise operations; vector-space laws"""
    ga, R = mk(c['ga'])
    n = R.n
    a, b, d = [mvd(m) for m in c['mvs']]
    A, B, D = [to_mv(ga, v) for v in (a, b, d)]
    x.nt(sum(map(bool, (a, b, d))) >= 2)
    x.label(c['ga']['kind'])
    eq_ref(x, A + B, ref.add(a, b), n, 'A+B')
    eq_ref(x, A - B, ref.add(a, b, -1), n, 'A-B')
    eq_ref(x, -A, ref.smul(-1, a), n, '-A')
    eq_ref(x, +A if hasattr(A, '__pos__') else A, a, n, '+A')
    eq_ref(x, (A + B) + D, ref.add(ref.add(a, b), d), n, 'A+B+D')
    eq_ref(x, sum([A, B, D], ga.mv(S.Zero)), ref.add(ref.add(a, b), d), n, 'sum')
    eq_ref(x, A - A, {}, n, 'A-A')
    eq_ref(x, A * sp('3/7') - sp('3/7') * A, {}, n, 'scalar multiples')
    eq_ref(x, A / 4, ref.smul(F(1, 4), a), n, 'A/4')
    eq_ref(x, A / sp('3/7'), ref.smul(F(7, 3), a), n, 'A/(3/7)')
    # in-place spellings create new values and leave the operands alone
    A2 = A
    A2 += B
    A2 -= D
    eq_ref(x, A2, ref.add(ref.add(a, b), d, -1), n, 'A+=B, A-=D')
    eq_ref(x, A, a, n, 'A after A2 += B')


@check(P, G.ga_and_mvs(3, 5, 7, maxterms=4, minterms=1, kinds=('euclid', 'signature', 'degenerate', 'diag')), quick=40, shards=4, rule='two or more operands non-zero')
def linear_structure_in_many_dimensions(c, x):
    """the same in algebras of five to seven dimensions"""
    linear_structure(c, x)


@st.composite
def eqcase(draw):
    c = draw(G.ga_and_mvs(1, 1, 4, maxterms=4, minterms=0))
    n = len(c['ga']['g'])
    # B is A, or A with one coefficient changed / removed / added
    c['edit'] = draw(st.sampled_from(['same', 'same', 'change', 'add', 'sign', 'drop', 'scalar']))
    c['mask'] = draw(st.integers(0, (1 << n) - 1))
    c['delta'] = draw(G.nz)
    c['route'] = draw(st.sampled_from(['direct', 'sum', 'wedge1', 'unexpanded', 'base', 'expr']))
    return c


def rebuild(ga, R, d, route):
    """the multivector with components d, arrived at by different routes"""
    A = to_mv(ga, d)
    if route == 'sum':
        h = {m: F(v) / 3 for m, v in d.items()}
        return to_mv(ga, h) + 2 * to_mv(ga, h)
    if route == 'wedge1':
        return 2 ^ to_mv(ga, {m: F(v) / 2 for m, v in d.items()})
    if route == 'unexpanded':
        z = to_mv(ga, {m: F(1) for m in d})
        return (3 ^ (A + z)) - (2 ^ (A + z)) - z
    if route == 'base':
        return A.base_rep()
    if route == 'expr':
        return ga.mv(A.obj)
    return A


@check(P, eqcase(), quick=500, shards=8, rule='A non-zero, B obtained by another route or differing in one coefficient')
def equality(c, x):
    """A == B exactly when all components agree, however A and B were arrived at; != is its negation;
    equal rational multivectors hash equally; comparison with numbers treats them as scalars"""
    ga, R = mk(c['ga'])
    a = mvd(c['mvs'][0])
    b = dict(a)
    m, dl = c['mask'], fr(c['delta'])
    e = c['edit']
    if e == 'change' or e == 'add':
        b = ref.add(b, {m: dl})
    elif e == 'sign':
        b = {k: -v if k == m else v for k, v in b.items()}
    elif e == 'drop':
        b.pop(m, None)
    elif e == 'scalar':
        a = {0: dl}
        b = dict(a)
    x.label(e, c['route'])
    x.nt(bool(a))
    A, B = to_mv(ga, a), rebuild(ga, R, b, c['route'])
    same = ref.clean(a) == ref.clean(b)
    x.label('equal' if same else 'unequal')
    x.ok((A == B) is bool(same), lambda: 'A == B gives %r for %s vs %s' % (A == B, show(a), show(b)))
    x.ok((B == A) is bool(same), lambda: 'B == A gives %r for %s vs %s' % (B == A, show(a), show(b)))
    x.ok((A != B) is (not same), lambda: 'A != B gives %r' % (A != B,))
    x.ok((A - B == 0) is bool(same), lambda: 'A - B == 0 gives %r' % (A - B == 0,))
    x.ok((A - B).is_zero() is bool(same), lambda: '(A-B).is_zero() gives %r' % ((A - B).is_zero(),))
    if same:
        x.ok(hash(A) == hash(B), 'equal multivectors hash differently')
        x.ok(len({A, B}) == 1, 'equal multivectors are two set members')
    else:
        x.ok(len({A, B}) == 2, 'unequal multivectors are one set member')
    # scalars
    s0 = set(b) <= {0}
    v = b.get(0, F(0))
    for k in ([sp(v)] + ([int(v)] if v.denominator == 1 else [])):
        x.ok((B == k) is s0, lambda: 'B == %r gives %r for %s' % (k, B == k, show(b)))
        if s0:
            x.ok(hash(B) == hash(k), 'hash(B) != hash(%r) though equal' % (k,))
    x.ok(not (B == sp(v) + 1), 'B == its scalar part + 1')
    x.ok(not (B == 'e1') and not (B == None) and not (B == [1]), 'equal to a non-number')


@st.composite
def symeq(draw):
    n = draw(st.integers(1, 3))
    c = {'ga': draw(G.ga(n, n, kinds=('euclid', 'signature', 'sym')))}
    c['masks'] = draw(st.lists(st.integers(0, (1 << n) - 1), min_size=1, max_size=3, unique=True))
    c['forms'] = [draw(st.sampled_from(draw(st.sampled_from([[0, 2], [0, 1, 2, 3, 4, 5]])))) for _ in c['masks']]
    c['diff'] = draw(st.sampled_from([0, 0, 1, -1, '1/3']))
    return c


@check(P, st.fixed_dictionaries({'ga': G.ga_nd(1, 4), 'a': G.mv(4, 4, 1), 'b': G.mv(4, 4, 1), 'op': st.sampled_from(['|', '<', 'sp', 'mulscalar', 'sandwich', 'diff'])}), quick=240, shards=4,
       rule='non-orthogonal metric and both factors non-zero')
def computed_scalars(c, x):
    """a scalar result of a product compares equal to, and hashes like, the number it is, and unlike its neighbours"""
    ga, R = mk(c['ga'])
    n = R.n
    a, b = [mvd([[m % (1 << n), v] for m, v in c[k]]) for k in 'ab']
    r = c['op']
    if r in ('|', '<', 'sandwich'):
        a, b = [ref.clean({m: v for m, v in q.items() if popcount(m) == 1}) for q in (a, b)]
    A, B = to_mv(ga, a), to_mv(ga, b)
    x.nt(not ga.is_ortho and a and b, r)
    if r == '|':
        s, want = A | B, R.dot(a, b)
    elif r == '<':
        s, want = A < B, R.dot(a, b)
    elif r == 'sp':
        s, want = ga.mv(A.sp(B)), R.grade(R.mul(a, b), 0)
    elif r == 'mulscalar':
        s, want = (A * B).grade(0), R.grade(R.mul(a, b), 0)
    elif r == 'sandwich':
        s, want = A * (A * B + B * A) * A, R.mul(R.mul(a, ref.add(R.mul(a, b), R.mul(b, a))), a)
    else:
        s, want = A * B - A * B.expand(), {}
    w = sp(want.get(0, F(0)))
    x.ok(s == w, lambda: '%s != %s' % (s, w))
    x.ok(w == s and not (s != w), 'reflected comparison')
    x.ok(not (s == w + 1) and s != w - sympy.Rational(1, 3), 'equal to a different number')
    x.ok(hash(s) == hash(w) == hash(ga.mv(w)), lambda: 'hash of %s (%s) differs from that of the number' % (s, sympy.srepr(s.obj)))


@check(P, symeq(), quick=120, shards=4, rule='every case: the two sides are written with different sympy expressions')
def symbolic_equality(c, x):
    """equality sees through polynomial and trigonometric rewriting of coefficients"""
    ga, R = mk(c['ga'])
    t, u = sympy.symbols('t u', real=True)
    pairs = [((t + u)**2, t**2 + 2 * t * u + u**2), (sympy.sin(t)**2 + sympy.cos(t)**2, S.One),
             ((t**2 - u**2), (t - u) * (t + u)), (2 * sympy.sin(t) * sympy.cos(t), sympy.sin(2 * t)),
             (1 / t + 1 / u, (t + u) / (t * u)), (sympy.cosh(u)**2 - sympy.sinh(u)**2, S.One)]
    a = {m: pairs[k][0] for m, k in zip(c['masks'], c['forms'])}
    b = {m: pairs[k][1] for m, k in zip(c['masks'], c['forms'])}
    d = sp(c['diff'])
    if d != 0:
        b[c['masks'][0]] += d
    A, B = to_mv(ga, a), to_mv(ga, b)
    x.nt()
    x.label('same' if d == 0 else 'different')
    x.ok((A == B) is bool(d == 0), 'A == B is %r for %s vs %s' % (A == B, a, b))
    if not set(c['forms']) <= {0, 2}:
        return      # comparison with a scalar is decided by expansion, which settles polynomial coefficients only
    x.ok((A - B == 0) is bool(d == 0), 'A - B == 0 is %r' % (A - B == 0,))
    if c['masks'] == [0]:
        x.ok((A == b[0]) is bool(d == 0), 'scalar multivector == expression is %r' % (A == b[0],))


@st.composite
def mixed(draw):
    n = draw(st.integers(1, 3))
    gc = draw(G.ga(n, n))
    return {'ga': gc, 'mvs': [draw(G.mv(n, 3, 1, masks=list(range(1, 1 << n)))) for _ in range(2)],
            'op': draw(st.sampled_from(['+', '-', '*', '^', '|', '<', '>', '<<', '>>', '/', '==', 'proj', 'refl']))}


@check(P, mixed(), quick=100, shards=2, rule='every case: operands from two different algebras')
def algebras_do_not_mix(c, x):
    """combining multivectors of two different algebras (even with the same basis names and metric) raises"""
    ga, R = mk(c['ga'])
    gb, _ = mk(c['ga'])
    A, B = to_mv(ga, mvd(c['mvs'][0])), to_mv(gb, mvd(c['mvs'][1]))
    x.nt()
    x.label(c['op'])
    f = {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '^': lambda: A ^ B, '|': lambda: A | B,
         '<': lambda: A < B, '>': lambda: A > B, '<<': lambda: A << B, '>>': lambda: A >> B,
         '/': lambda: A * B.rev(), '==': lambda: A == B,
         'proj': lambda: A.project_in_blade(B), 'refl': lambda: A.reflect_in_blade(B)}[c['op']]
    try:
        r = f()
    except (ValueError, TypeError):
        return
    if c['op'] == '==' and r is False:
        return
    x.fail('%s of multivectors from different algebras gave %r' % (c['op'], type(r).__name__))
