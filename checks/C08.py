from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C08'
MODES = ['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']
BAD = ['', 'I', '+', '-', 'Iinv', 'i+', 'I++', '+-I', 'inv+', 'I-+', ' I+', 'I +', 'Iinv+ ', '+Iinv+', 'None', 'iinv-', '-I-']


def want_dual(R, a, mode):
    """(dual of a) * sqrt(|E^2|) in exact arithmetic"""
    E = R.E()
    esq = R.e_sq()
    s = F(-1) if '-' in mode else F(1)
    if 'inv' in mode and esq < 0:
        s = -s
    return ref.smul(s, R.mul(E, a) if mode[0] in '+-' else R.mul(a, E))


def root(R):
    q = abs(R.e_sq())
    return sympy.sqrt(Rational(q.numerator, q.denominator))


@check(P, st.fixed_dictionaries({'c': G.ga_and_mvs(2, 1, 4, minterms=1, nd=True), 'modes': st.lists(st.sampled_from(MODES), min_size=1, max_size=4)}),
       quick=400, shards=8, rule='a non-zero multivector, an algebra of dimension >= 2')
def dual_in_each_mode(c, x):
    """after any sequence of dual_mode calls, A.dual() (and dual(A)) is the documented product with I or I^-1 of the mode
    last set, also in algebras created before the switch; undual inverts it on both sides"""
    ga, R = mk(c['c']['ga'])
    n = R.n
    a, b = [mvd(m) for m in c['c']['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    rt = root(R)
    x.label('n%d' % n, c['c']['ga']['kind'], 'esq%s' % ('+' if R.e_sq() > 0 else '-'))
    x.nt(n > 1)
    ga2, R2 = mk({'g': [[-1]]})
    E2 = ga2.mv()[0]
    try:
        for m in c['modes']:
            Ga.dual_mode(m)
            x.ok(Ga.dual_mode_value == m, 'dual_mode_value after dual_mode(%r)' % m)
            x.label(m)
            eq_ref(x, rt * A.dual(), want_dual(R, a, m), n, 'A.dual() in mode %s times sqrt|E^2|' % m)
            eq_ref(x, rt * gmv.dual(B), want_dual(R, b, m), n, 'dual(B) in mode %s' % m)
            eq_ref(x, A.dual().undual(), a, n, 'A.dual().undual() in mode ' + m)
            eq_ref(x, A.undual().dual(), a, n, 'A.undual().dual() in mode ' + m)
            eq_ref(x, gmv.undual(gmv.dual(B)), b, n, 'undual(dual(B)) in mode ' + m)
            eq_ref(x, E2.dual(), want_dual(R2, {1: F(1)}, m), 1, 'one-dimensional dual')
            fresh, _ = mk({'g': [[1, 0], [0, 1]]})
            x.ok(fresh.dual_mode_value == m, 'mode seen by a new algebra')
        eq_ref(x, A, a, n, 'operand afterwards')
    finally:
        Ga.dual_mode('I+')


@check(P, st.fixed_dictionaries({'c': G.high(2, nd=True), 'modes': st.lists(st.sampled_from(MODES), min_size=1, max_size=2)}),
       quick=40, shards=4, rule='a non-zero multivector, an algebra of dimension >= 2')
def dual_in_many_dimensions(c, x):
    """the same in seven to nine dimensions"""
    dual_in_each_mode(c, x)


@check(P, st.one_of(G.ga_nd(1, 4), G.ga_nd(2, 3), G.ga_nd(5, 6, kinds=('diag', 'signature'))), quick=240, shards=8, rule='dimension >= 2 and |E^2| != 1')
def pseudoscalars(c, x):
    """E() is the outer product of the basis vectors, e_sq its square, I() = E/sqrt|E^2| with I^2 = sign(E^2), i_inv
    its inverse"""
    ga, R = mk(c)
    n = R.n
    x.label('n%d' % n)
    x.nt(n > 1 and abs(R.e_sq()) != 1)
    eq_ref(x, ga.E(), R.E(), n, 'E()')
    W = ga.mv(S.One)
    for e in ga.mv():
        W = W ^ e
    eq_ref(x, W, R.E(), n, 'wedge of the basis')
    x.ok(tofrac(ga.e_sq) == R.e_sq(), lambda: 'e_sq = %s, expected %s' % (ga.e_sq, R.e_sq()))
    eq_ref(x, ga.E() * ga.E(), {0: R.e_sq()}, n, 'E*E')
    eq_ref(x, root(R) * ga.I(), R.E(), n, 'I*sqrt|E^2|')
    sgn = F(1) if R.e_sq() > 0 else F(-1)
    eq_ref(x, ga.I() * ga.I(), {0: sgn}, n, 'I*I')
    eq_ref(x, ga.I() * ga.i_inv, {0: F(1)}, n, 'I*i_inv')
    eq_ref(x, ga.i_inv * ga.I(), {0: F(1)}, n, 'i_inv*I')


@check(P, st.fixed_dictionaries({'seq': st.lists(st.one_of(st.sampled_from(MODES), st.sampled_from(BAD), st.text('I+-inv ', max_size=6)), min_size=1, max_size=6)}),
       quick=300, shards=2, rule='the sequence mixes valid and invalid names')
def mode_names(c, x):
    """dual_mode accepts exactly the eight documented names; a rejected call raises ValueError and leaves the mode"""
    cur = None
    x.nt(any(m in MODES for m in c['seq']) and any(m not in MODES for m in c['seq']))
    try:
        Ga.dual_mode()
        x.ok(Ga.dual_mode_value == 'I+', 'default mode')
        cur = 'I+'
        for m in c['seq']:
            try:
                Ga.dual_mode(m)
                x.ok(m in MODES, 'dual_mode(%r) accepted' % m)
                cur = m
            except ValueError:
                x.ok(m not in MODES, 'dual_mode(%r) rejected' % m)
            x.ok(Ga.dual_mode_value == cur, 'mode is %r, expected %r' % (Ga.dual_mode_value, cur))
    finally:
        Ga.dual_mode('I+')


ENTRY = ['1', '-1', 'r**2', '-r**2', 'a', 'r**2*sin(t)**2', '1+r**2', '-a**2', '4']


@check(P, st.fixed_dictionaries({'g': st.lists(st.sampled_from(ENTRY), min_size=2, max_size=4), 'off': st.sampled_from([None, 'b', 'r']),
                                 'Isq': st.sampled_from(['+', '-', None]), 'mode': st.sampled_from(MODES), 'm': G.mv(2, 3, 1)}),
       quick=120, shards=4, rule='E^2 is symbolic')
def symbolic_metric(c, x):
    """with a symbolic metric I^2 is +1 or -1 as requested by Isq (default -), and undual inverts dual"""
    r, t, a, b = sympy.symbols('r t a b', positive=True)
    env = dict(r=r, t=t, a=a, b=b)
    n = len(c['g'])
    g = sympy.diag(*[sympy.sympify(q, locals=env) for q in c['g']])
    if c['off'] and n < 4:
        g[0, 1] = g[1, 0] = env[c['off']]
    if sympy.expand(g.det()) == 0:
        x.reject()
    kw = {} if c['Isq'] is None else {'Isq': c['Isq']}
    ga = Ga(names_for(n), g=g, **kw)
    E2 = sympy.expand(g.det()) * (-1)**(n * (n - 1) // 2)
    x.ok(same_expr(ga.e_sq, E2) is not False, lambda: 'e_sq %s, expected %s' % (ga.e_sq, E2))
    num = S(E2).is_number
    want = sympy.sign(E2) if num else (1 if c['Isq'] == '+' else -1)
    x.nt(not num)
    I = ga.I()
    same_mv(x, I * I, {0: want}, n, 'I*I')
    A = to_mv(ga, mvd(c['m'])) + a * ga.mv()[n - 1]
    try:
        Ga.dual_mode(c['mode'])
        same_mv(x, A.dual().undual(), A, n, 'A.dual().undual()')
        same_mv(x, A.undual().dual(), A, n, 'A.undual().dual()')
        J = I if 'inv' not in c['mode'] else want * I
        s = -1 if '-' in c['mode'] else 1
        same_mv(x, A.dual(), s * (J * A) if c['mode'][0] in '+-' else s * (A * J), n, 'A.dual() in mode ' + c['mode'])
    finally:
        Ga.dual_mode('I+')
