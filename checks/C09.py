from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C09'


def series(R, a):
    """exp(a) by its power series, exact to ~1e-30 relative to the largest term"""
    tot, term = {0: F(1)}, {0: F(1)}
    for k in range(1, 90):
        term = ref.smul(F(1, k), R.mul(term, a))
        if not term:
            break
        # keep the numbers small: 60 decimal digits are plenty
        term = {m: F(round(v * 10**60), 10**60) for m, v in term.items()}
        term = ref.clean(term)
        tot = ref.add(tot, term)
    return ref.clean(tot)


def spd(d):
    return {m: Rational(v.numerator, v.denominator) for m, v in d.items()}


def num_same(x, M, d, n, what):
    got = coefs_of(M, n)
    for m in set(got) | set(d):
        g = sympy.N(S(got.get(m, 0)), 45)
        w = sympy.N(S(d.get(m, 0)), 45)
        if not g.is_number or abs(g - w) > sympy.Float('1e-20', 45) * (1 + abs(w)):
            x.fail('%s: blade %s has %s, expected %s' % (what, bits(m), sympy.N(g, 12), sympy.N(w, 12)))


def scalar_sq(R, a):
    return all(m == 0 for m in R.mul(a, a))


@st.composite
def expcase(draw, nmin=1, nmax=4, kw={}):
    c = draw(G.ga(nmin, nmax, **kw))
    n = len(c['g'])
    kind = draw(st.sampled_from(['vector', 'bivector', 'bivector', 'blade', 'scalar', 'general', 'nullish', 'vplus']))
    if kind == 'vector':
        m = [[1 << i, v] for i, v in enumerate(draw(G.vec(n))) if v]
    elif kind == 'bivector' and n > 1:
        u, v = draw(G.vec(n)), draw(G.vec(n))
        return {'ga': c, 'kind': kind, 'vecs': [u, v], 'hint': draw(st.sampled_from(['-', '+', None])), 'div': draw(st.sampled_from([1, 2, 3, 4]))}
    elif kind == 'blade':
        m = [[draw(st.integers(1, (1 << n) - 1)), draw(G.nz)]]
    elif kind == 'scalar':
        m = [[0, draw(G.coef)]]
    elif kind == 'nullish':
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        m = [[1 << i, 1], [1 << j, -1]] if i != j else [[1 << i, 2]]
    else:
        m = draw(G.mv(n, 3, 1))
    return {'ga': c, 'kind': kind, 'm': m, 'hint': draw(st.sampled_from(['-', '+', None])), 'div': draw(st.sampled_from([1, 2, 3, 4]))}


def case_value(c, R):
    if 'vecs' in c:
        vs = [ref.clean({1 << i: fr(v) for i, v in enumerate(w)}) for w in c['vecs']]
        a = R.wedge(*vs)
    else:
        a = mvd(c['m'])
    return ref.smul(F(1, c['div']), a)


@check(P, expcase(), quick=480, shards=8, rule='non-zero operand with non-zero scalar square')
def exp_is_series(c, x):
    """exp(A) (method and function, any hint) is the power series when A*A is a scalar and ValueError otherwise;
    exp(A)exp(-A) = 1; derived queries on the result see the same value"""
    ga, R = mk(c['ga'])
    n = R.n
    a = case_value(c, R)
    A = to_mv(ga, a)
    kw = {} if c['hint'] is None else {'hint': c['hint']}
    x.label(c['kind'], str(c['hint']))
    if not scalar_sq(R, a):
        x.label('rejected')
        for f in (lambda: A.exp(**kw), lambda: gmv.exp(A, **kw)):
            try:
                f()
            except ValueError:
                continue
            x.fail('exp of %s accepted, its square is not a scalar' % show(a))
        return
    s = R.mul(a, a).get(0, F(0))
    x.label('sq>0' if s > 0 else 'sq<0' if s < 0 else 'sq=0')
    x.nt(bool(a) and s != 0)
    if abs(s) > 40:
        x.reject('series too long')
    w = spd(series(R, a))
    E = A.exp(**kw)
    num_same(x, E, w, n, 'exp(%s)' % show(a))
    num_same(x, gmv.exp(A, **kw), w, n, 'galgebra.mv.exp')
    num_same(x, A.exp(), w, n, 'exp with the default hint')
    num_same(x, E * (-A).exp(**kw), {0: S.One}, n, 'exp(A)*exp(-A)')
    num_same(x, ga.mv(E.scalar()), {0: w.get(0, 0)}, n, 'exp(A).scalar()')
    for k in range(1, n + 1):
        num_same(x, E.get_grade(k), {m: v for m, v in w.items() if popcount(m) == k}, n, 'exp(A).get_grade(%d)' % k)
    num_same(x, E.rev(), {m: v * (-1)**(popcount(m) * (popcount(m) - 1) // 2) for m, v in w.items()}, n, 'exp(A).rev()')
    num_same(x, E.even(), {m: v for m, v in w.items() if popcount(m) % 2 == 0}, n, 'exp(A).even()')
    num_same(x, E * ga.mv()[0], spd(R.mul(series(R, a), {1: F(1)})), n, 'exp(A)*e1')
    eq_ref(x, A, a, n, 'operand afterwards')


@check(P, expcase(5, 7, {'kinds': ('euclid', 'signature', 'degenerate', 'diag')}), quick=48, shards=8, rule='non-zero operand with non-zero scalar square')
def exp_in_many_dimensions(c, x):
    """the same in algebras of five to seven dimensions"""
    exp_is_series(c, x)


@check(P, st.fixed_dictionaries({'c': expcase(), 'ang': st.sampled_from(['t', 't/2', '2*t', 't**2', 'a*t', '-t']),
                                 'val': st.sampled_from(['1/3', '-2/5', '7/4', '1/10'])}),
       quick=280, shards=8, rule='symbolic factor times an element with non-zero scalar square')
def symbolic_angle(c, x):
    """exp(theta*B) evaluated at a number equals the series of the evaluated operand, whatever the hint"""
    cc = c['c']
    ga, R = mk(cc['ga'])
    n = R.n
    b = case_value(cc, R)
    if not scalar_sq(R, b) or not b:
        x.reject()
    s = R.mul(b, b).get(0, F(0))
    if abs(s) > 12:
        x.reject()
    t, a = sympy.symbols('t a', real=True)
    ang = sympy.sympify(c['ang'], locals={'t': t, 'a': a})
    pt = {t: sp(c['val']), a: Rational(3, 7)}
    kw = {} if cc['hint'] is None else {'hint': cc['hint']}
    x.label(cc['kind'], str(cc['hint']), 'sq>0' if s > 0 else 'sq<0' if s < 0 else 'sq=0')
    x.nt(s != 0)
    A = ang * to_mv(ga, b)
    v = ang.xreplace(pt)
    av = ref.smul(F(int(v.p), int(v.q)), b)
    w = spd(series(R, av))
    for f in (lambda: A.exp(**kw), lambda: gmv.exp(A, **kw)):
        E = f()
        d = {m: S(q).xreplace(pt) for m, q in coefs_of(E, n).items()}
        for m in set(d) | set(w):
            g = sympy.N(d.get(m, S.Zero), 40)
            x.ok(g.is_number and abs(g - sympy.N(w.get(m, 0), 40)) < sympy.Float('1e-18', 40) * (1 + abs(sympy.N(w.get(m, 0)))),
                 lambda: 'exp(%s * %s) at %s: blade %s is %s, expected %s' % (ang, show(b), c['val'], bits(m), sympy.N(g, 12), sympy.N(w.get(m, 0), 12)))


@check(P, st.fixed_dictionaries({'ga': G.ga(2, 4), 'u': st.lists(G.sint, min_size=4, max_size=4), 'v': st.lists(G.sint, min_size=4, max_size=4),
                                 'p': st.lists(G.sint, min_size=4, max_size=4), 'q': st.lists(G.sint, min_size=4, max_size=4),
                                 'div': st.sampled_from([2, 3, 5])}),
       quick=160, shards=8, rule='B^2 != 0 and both vectors moved')
def rotors_preserve_metric(c, x):
    """the rotor exp(-B/2) of a simple bivector maps vectors to vectors and preserves inner products, in every metric"""
    ga, R = mk(c['ga'])
    n = R.n
    V = [ref.clean({1 << i: fr(w[i]) for i in range(n)}) for w in (c['u'], c['v'], c['p'], c['q'])]
    b = ref.smul(F(1, c['div']), R.wedge(V[0], V[1]))
    s = R.mul(b, b).get(0, F(0))
    if not b or abs(s) > 12 or not V[2] or not V[3]:
        x.reject()
    B, p, q = to_mv(ga, b), to_mv(ga, V[2]), to_mv(ga, V[3])
    rm = series(R, ref.smul(F(-1, 2), b))
    rp = series(R, ref.smul(F(1, 2), b))
    P1 = p.rotate_multivector(B)
    Q1 = gmv.rot(B, q)
    wp = R.mul(R.mul(rm, V[2]), rp)
    wq = R.mul(R.mul(rm, V[3]), rp)
    x.nt(s != 0 and abs(wp.get(1, 0) - V[2].get(1, 0)) > F(1, 10**9))
    num_same(x, P1, spd(wp), n, 'p rotated by B = %s' % show(b))
    num_same(x, Q1, spd(wq), n, 'rot(B, q)')
    num_same(x, P1 | Q1, spd(R.dot(V[2], V[3])) if R.dot(V[2], V[3]) else {}, n, 'inner product of rotated vectors')
    num_same(x, (p * q).rotate_multivector(B), spd(R.mul(R.mul(rm, R.mul(V[2], V[3])), rp)), n, 'rotated product')
    num_same(x, p.rotate_multivector(B, '+'), spd(wp), n, "hint '+'")


@check(P, st.fixed_dictionaries({'s': st.one_of(G.coef, st.just('5/7')), 'n': st.integers(1, 3), 'hint': st.sampled_from(['+', '-'])}), quick=60, shards=1,
       rule='non-zero scalar')
def exp_of_scalars(c, x):
    """exp of plain scalars and of scalar multivectors is the scalar exponential"""
    ga, R = mk({'g': G.diag([1] * c['n'])})
    s = sp(c['s'])
    x.nt(s != 0)
    num_same(x, ga.mv(s).exp(c['hint']), {0: sympy.exp(s)}, c['n'], 'exp of scalar multivector')
    x.ok(same_expr(gmv.exp(s, c['hint']), sympy.exp(s)) is True, 'exp(s)')
    t = Symbol('t', real=True)
    r = gmv.exp(t)
    x.ok(r == sympy.exp(t), 'exp(t) is %s' % r)
