"""Cl(p,q,r) builders, Ga.build and Ga.preset against the advertised signature, names, dual convention and coordinates."""
import sympy
from runner import check
from gu import *
import ref
import gens as G
from gens import st
from galgebra import interop
import galgebra
from galgebra.interop import kingdon

P = 'C27'
SIGS = [(p, q, r) for n in range(1, 7) for p in range(n + 1) for q in range(n + 1 - p) for r in [n - p - q]]
ROOTS = ['e', 'e', 'gamma', 'a', 'ex', 'E']
x_, y_, z_, w_ = sympy.symbols('x y z w', real=True)
KIND = {'cl': (interop.Cl, 1, 'I+'), 'kingdon': (kingdon.Cl, 0, 'Iinv+')}


def call(kind, sig, root, how, **kw):
    p, q, r = sig
    f = KIND[kind][0]
    if root != 'e' or how == 'root':
        kw['root'] = root
    if how == 'kw':
        return f(p=p, q=q, r=r, **kw)
    if r == 0 and q == 0 and how == 'short':
        return f(p, **kw)
    if r == 0 and how == 'short':
        return f(p, q, **kw)
    return f(p, q, r, **kw)


def refsig(sig):
    p, q, r = sig
    return [1] * p + [-1] * q + [0] * r


def refga(s):
    n = len(s)
    return ref.RefGA([[F(s[i]) if i == j else F(0) for j in range(n)] for i in range(n)])


def expected_dual(R, d, mode, n):
    I = {(1 << n) - 1: F(1)}
    if 'Iinv' in mode:
        I = R.inverse(I)
    v = R.mul(d, I) if mode.endswith(('+', '-')) and mode[0] == 'I' else R.mul(I, d)
    return ref.smul(-1, v) if '-' in mode else v


@st.composite
def cl_cases(draw):
    sig = draw(st.sampled_from(SIGS))
    n = sum(sig)
    return {'kind': draw(st.sampled_from(['cl', 'kingdon'])), 'sig': list(sig), 'root': draw(st.sampled_from(ROOTS)), 'how': draw(st.sampled_from(['full', 'short', 'kw', 'root'])),
            'wedge': draw(st.sampled_from([None, None, True, False])), 'coords': draw(st.booleans()) and n <= 4,
            'a': draw(G.mv(n, 4, 1)), 'b': draw(G.mv(n, 4, 1))}


@check(P, cl_cases(), quick=700, rule='dimension at least two')
def builders(c, x):
    sig, n, s = c['sig'], sum(c['sig']), refsig(c['sig'])
    _, first, mode = KIND[c['kind']]
    kw = {}
    if c['wedge'] is not None:
        kw['wedge'] = c['wedge']
    co = (x_, y_, z_, w_)[:n]
    if c['coords']:
        kw['coords'] = co
    old = Ga.dual_mode_value
    try:
        out = call(c['kind'], sig, c['root'], c['how'], **kw)
        x.nt(n > 1, c['kind'], 'n=%d' % n, 'degenerate' if sig[2] else 'nondegenerate')
        x.ok(isinstance(out, tuple) and len(out) == n + 1, 'returned %d values for %d dimensions' % (len(out), n))
        ga, es = out[0], out[1:]
        x.ok(isinstance(ga, Ga) and ga.n == n and all(isinstance(e, Mv) and e.Ga is ga for e in es), 'kinds of the returned values')
        names = [c['root'] + '_' + str(i + first) for i in range(n)]
        x.ok([str(e) for e in es] == names and [str(b) for b in ga.basis] == names, 'basis %s / %s, advertised %s' % ([str(e) for e in es], ga.basis, names))
        for i in range(n):
            for j in range(n):
                v = es[i] | es[j]
                x.ok(S(v.obj if isinstance(v, Mv) else v) == (s[i] if i == j else 0), '%s|%s is %s' % (names[i], names[j], v))
                x.ok(ga.g[i, j] == (s[i] if i == j else 0), 'metric %s' % ga.g)
            eq_ref(x, es[i], {1 << i: F(1)}, n, 'basis vector %d' % i)
            eq_ref(x, es[i] * es[i], {0: F(s[i])}, n, '%s squared' % names[i])
        R = refga(s)
        a, b = mvd(c['a']), mvd(c['b'])
        # built from the returned vectors only
        def frm(d):
            A = ga.mv(S.Zero)
            for m, v in d.items():
                t = ga.mv(sp(v))
                for i in bits(m):
                    t = t ^ es[i]
                A = A + t
            return A
        A, B = frm(a), frm(b)
        eq_ref(x, A * B, R.mul(a, b), n, 'geometric product')
        eq_ref(x, A ^ B, R.wedge(a, b), n, 'outer product')
        eq_ref(x, A.rev(), R.rev(a), n, 'reverse')
        full = ga.mv(S.One)
        for e in es:
            full = full * e
        eq_ref(x, full, {(1 << n) - 1: F(1)}, n, 'product of the basis')
        x.ok(ga.dual_mode_value == mode and Ga.dual_mode_value == mode, 'dual mode %s, advertised %s' % (Ga.dual_mode_value, mode))
        if not sig[2]:
            eq_ref(x, A.dual(), expected_dual(R, a, mode, n), n, 'dual in mode %s' % mode)
            eq_ref(x, A.dual().undual(), a, n, 'undual of dual')
        if c['coords']:
            f = sum((k + 2) * t ** 2 for k, t in enumerate(co)) + co[0]
            if not sig[2]:
                want = {1 << i: sympy.diff(f, co[i]) * s[i] for i in range(n)}
                same_mv(x, ga.grad * ga.mv(f), want, n, 'gradient')
            x.ok(tuple(ga.coords) == tuple(co), 'coordinates')
        if c['wedge'] is False and n > 1 and c['root'] != 'ex':
            x.ok('^' not in str(es[0] * es[1]) and str(es[0] * es[1]).startswith(c['root'] + '_'), 'wedge=False prints %s' % (es[0] * es[1]))
        elif n > 1 and c['wedge'] is not False:
            x.ok(str(es[0] * es[1]) == names[0] + '^' + names[1], 'prints %s' % (es[0] * es[1]))
    finally:
        Ga.dual_mode(old)


@check(P, st.tuples(st.sampled_from(['cl', 'kingdon']), st.lists(st.integers(0, 5), min_size=3, max_size=3).filter(lambda l: 7 <= sum(l) <= 12)), quick=60, rule='every case (7 to 12 dimensions)')
def large(case, x):
    """more than nine basis vectors: two-digit names, no ambiguity"""
    kind, sig = case
    n, s = sum(sig), refsig(sig)
    x.nt(True, 'n=%d' % n)
    old = Ga.dual_mode_value
    try:
        ga, *es = KIND[kind][0](*sig)
        first = KIND[kind][1]
        x.ok([str(e) for e in es] == ['e_%d' % (i + first) for i in range(n)], 'names %s' % (es,))
        x.ok(len(set(map(str, es))) == n, 'ambiguous names')
        for i in (0, n // 2, n - 1):
            v = es[i] * es[i]
            x.ok(S(v.obj) == s[i], '%s squared is %s' % (es[i], v))
            for j in (0, n - 1):
                if i != j:
                    p, q = es[i] * es[j], es[j] * es[i]
                    x.ok((p + q).obj == 0 and p.obj != 0, 'basis vectors %d and %d' % (i, j))
    finally:
        Ga.dual_mode(old)


STEP = st.one_of(st.tuples(st.sampled_from(['cl', 'kingdon']), st.sampled_from([list(t) for t in SIGS if sum(t) <= 3 and t[2] == 0])), st.tuples(st.just('mode'), st.sampled_from(['I+', '+I', '-I', 'I-', '+Iinv', '-Iinv', 'Iinv+', 'Iinv-'])),
                 st.tuples(st.just('ga'), st.sampled_from([[1, 1], [1, -1, -1]])), st.tuples(st.just('dual'), st.integers(0, 9)), st.tuples(st.just('dual'), st.integers(0, 9)), st.tuples(st.just('zero'), st.sampled_from(['cl', 'kingdon'])))


@check(P, st.lists(STEP, min_size=3, max_size=9), quick=400, rule='both conventions are used and a dual is taken')
def convention_histories(ops, x):
    """the dual convention in force is that of the last call that set it; everything else about earlier algebras stays"""
    old = Ga.dual_mode_value
    try:
        Ga.dual_mode('I+')
        mode, made = 'I+', []
        kinds = set()
        for op in ops + [('dual', 0), ('dual', 3)]:
            if op[0] in ('cl', 'kingdon'):
                ga, *es = KIND[op[0]][0](*op[1])
                mode = KIND[op[0]][2]
                made.append((ga, refsig(op[1]), [str(e) for e in es], op[0]))
                kinds.add(op[0])
            elif op[0] == 'zero':
                try:
                    KIND[op[1]][0](0)
                except ValueError:
                    pass
                else:
                    x.fail('an algebra of dimension zero was built')
            elif op[0] == 'mode':
                Ga.dual_mode(op[1])
                mode = op[1]
            elif op[0] == 'ga':
                made.append((Ga('u*' + '|'.join(str(i) for i in range(len(op[1]))), g=op[1]), op[1], ['u_%d' % i for i in range(len(op[1]))], 'ga'))
            elif made:
                ga, s, names, _ = made[op[1] % len(made)]
                n = len(s)
                R = refga(s)
                d = {m: F(m + 1) for m in range(1 << n)}
                eq_ref(x, to_mv(ga, d).dual(), expected_dual(R, d, mode, n), n, 'dual in mode %s' % mode)
                x.ok([str(b) for b in ga.basis] == names, 'names of an earlier algebra changed')
            x.ok(Ga.dual_mode_value == mode and all(m[0].dual_mode_value == mode for m in made), 'mode %s, expected %s' % (Ga.dual_mode_value, mode))
        x.nt(len(kinds) == 2, 'algebras: %d' % len(made))
    finally:
        Ga.dual_mode(old)


# --- presets: the coordinates of flat space they are named after

PRE = {'o3d': ('x y z', lambda a, b, c: (a, b, c)), 'cyl3d': ('r theta z', lambda r, t, z: (r * sympy.cos(t), r * sympy.sin(t), z)),
       'sph3d': ('r theta phi', lambda r, t, p: (r * sympy.cos(t) * sympy.cos(p), r * sympy.cos(t) * sympy.sin(p), r * sympy.sin(t))),
       'para3d': ('u v z', lambda u, v, z: (u * v, (u ** 2 - v ** 2) / 2, z))}
CART = ['x', 'y', 'z', 'x*y', 'x**2', 'y*z', 'x*z**2', '1', 'y**2-x', 'x*y*z', 'z**3']


@check(P, st.tuples(st.sampled_from(sorted(PRE)), st.sampled_from([None, 'e', 'h']), st.lists(st.sampled_from(CART), min_size=4, max_size=4)), quick=120, rule='curvilinear preset and a field that is not constant')
def presets(case, x):
    name, root, fs = case
    ga = Ga.preset(name) if root is None else Ga.preset(name, root=root)
    co, emb = PRE[name]
    X = ga.coords
    x.ok([str(v) for v in X] == co.split(), 'coordinates %s' % (X,))
    x.ok([str(b) for b in ga.basis] == ['%s_%s' % (root or 'e', v) for v in co.split()], 'basis %s' % (ga.basis,))
    x.nt(name != 'o3d' and any(f != '1' for f in fs), name)
    pos = emb(*X)
    J = sympy.Matrix(3, 3, lambda i, j: sympy.diff(pos[i], X[j]))
    h2 = [sum(J[i, j] ** 2 for i in range(3)) for j in range(3)]
    sc = [sympy.sqrt(sympy.simplify(v)) for v in h2]
    env = {'x': sympy.Symbol('x', real=True), 'y': sympy.Symbol('y', real=True), 'z': sympy.Symbol('z', real=True)}
    C = [env[k] for k in 'xyz']
    back = dict(zip(C, pos))
    loc = lambda e: S(e).subs(back, simultaneous=True)
    fc = [sympy.sympify(f, locals=env) for f in fs]
    x.ok(all(is_zero_expr(ga.g[i, j] - (i == j)) is not False for i in range(3) for j in range(3)), 'metric is not normalised: %s' % ga.g)
    unit = lambda j: [J[i, j] / sc[j] for i in range(3)]
    comp = lambda v: [sum(loc(v[i]) * unit(j)[i] for i in range(3)) for j in range(3)]      # cartesian -> along the unit vectors
    f = ga.mv(loc(fc[0]))
    pr = lambda A, want, what: near(x, ga, A, want, what)
    pr(ga.grad * f, {1 << j: v for j, v in enumerate(comp([sympy.diff(fc[0], c) for c in C]))}, '%s gradient' % name)
    V = fc[1:]
    vm = comp(V)
    es = ga.mv()
    vec = sum((vm[j] * es[j] for j in range(3)), ga.mv(S.Zero))
    pr(ga.grad | vec, {0: loc(sum(sympy.diff(V[i], C[i]) for i in range(3)))}, '%s divergence' % name)
    cu = [sympy.diff(V[2], C[1]) - sympy.diff(V[1], C[2]), sympy.diff(V[0], C[2]) - sympy.diff(V[2], C[0]), sympy.diff(V[1], C[0]) - sympy.diff(V[0], C[1])]
    k = comp(cu)
    orient = sympy.sign(J.det().subs({v: sympy.Rational(7, 10) for v in X}))
    pr(ga.grad ^ vec, {6: orient * k[0], 5: -orient * k[1], 3: orient * k[2]}, '%s curl' % name)
    pr(ga.grad | (ga.grad * f), {0: loc(sum(sympy.diff(fc[0], c, 2) for c in C))}, '%s laplacian' % name)


def near(x, ga, A, want, what):
    got = coefs_of(A, ga.n)
    for m in set(got) | set(want):
        e = S(got.get(m, 0)) - S(want.get(m, 0))
        pts = [dict(zip(ga.coords, p)) for p in ((sympy.Rational(7, 10), sympy.Rational(3, 10), sympy.Rational(2, 5)), (sympy.Rational(13, 10), sympy.Rational(6, 11), sympy.Rational(9, 7)))]
        for p in pts:
            v = sympy.N(e.subs(p), 30)
            x.ok(abs(v) < sympy.Float(10) ** -18, '%s: blade %s has %s, expected %s' % (what, bits(m), got.get(m, 0), want.get(m, 0)))


# --- Ga.build and the package itself

@check(P, G.ga_and_mvs(2, 1, 4, maxterms=3, minterms=1), quick=150, rule='at least two dimensions')
def build_tuple(c, x):
    ga0, R = mk(c['ga'])
    n = ga0.n
    x.nt(n > 1)
    names = [str(b) for b in ga0.basis]
    out = Ga.build(','.join(names) + (',' if n == 1 else ''), g=sympy.Matrix(ga0.g))
    x.ok(len(out) == n + 1, 'Ga.build returned %d values' % len(out))
    ga, *es = out
    x.ok([str(e) for e in es] == names, 'names %s' % (es,))
    for i, e in enumerate(es):
        eq_ref(x, e, {1 << i: F(1)}, n, 'vector %d' % i)
    a, b = mvd(c['mvs'][0]), mvd(c['mvs'][1])
    eq_ref(x, to_mv(ga, a) * to_mv(ga, b), R.mul(a, b), n, 'product in the built algebra')
    x.ok(galgebra.Cl is interop.Cl, 'galgebra.Cl is not the galgebra convention')
    try:
        Ga.preset('nothing')
    except ValueError:
        pass
    else:
        x.fail('unknown preset accepted')
