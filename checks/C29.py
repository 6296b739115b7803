"""Module-level functions against the methods they stand for, and the helpers with definitions of their own."""
import contextlib
import io
import re
from runner import check, CaseTimeout
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv
import galgebra.lt as glt

P = 'C29'
t = Symbol('t', real=True)

# name -> (call of the function, the method) ; extra: int parameter
PAIRS = {
    'dual': (lambda A, B, k: gmv.dual(A), lambda A, B, k: A.dual()),
    'undual': (lambda A, B, k: gmv.undual(A), lambda A, B, k: A.undual()),
    'even': (lambda A, B, k: gmv.even(A), lambda A, B, k: A.even()),
    'odd': (lambda A, B, k: gmv.odd(A), lambda A, B, k: A.odd()),
    'g_invol': (lambda A, B, k: gmv.g_invol(A), lambda A, B, k: A.g_invol()),
    'ccon': (lambda A, B, k: gmv.ccon(A), lambda A, B, k: A.ccon()),
    'rev': (lambda A, B, k: gmv.rev(A), lambda A, B, k: A.rev()),
    'grade': (lambda A, B, k: gmv.grade(A, k), lambda A, B, k: A.grade(k)),
    'grade default': (lambda A, B, k: gmv.grade(A), lambda A, B, k: A.grade(0)),
    'scalar': (lambda A, B, k: gmv.scalar(A), lambda A, B, k: A.scalar()),
    'inv': (lambda A, B, k: gmv.inv(A), lambda A, B, k: A.inv()),
    'shirokov_inverse': (lambda A, B, k: gmv.shirokov_inverse(A), lambda A, B, k: A.shirokov_inverse()),
    'hitzer_inverse': (lambda A, B, k: gmv.hitzer_inverse(A), lambda A, B, k: A.hitzer_inverse()),
    'qform': (lambda A, B, k: gmv.qform(A), lambda A, B, k: A.qform()),
    'norm2': (lambda A, B, k: gmv.norm2(A, '0+-'[k % 3]), lambda A, B, k: A.norm2('0+-'[k % 3])),
    'norm2 default': (lambda A, B, k: gmv.norm2(A), lambda A, B, k: A.norm2()),
    'norm': (lambda A, B, k: gmv.norm(A, '0+-'[k % 3]), lambda A, B, k: A.norm('0+-'[k % 3])),
    'norm kw': (lambda A, B, k: gmv.norm(A, hint='0+-'[k % 3]), lambda A, B, k: A.norm(hint='0+-'[k % 3])),
    'norm default': (lambda A, B, k: gmv.norm(A), lambda A, B, k: A.norm()),
    'mag2': (lambda A, B, k: gmv.mag2(A), lambda A, B, k: A.mag2()),
    'mag': (lambda A, B, k: gmv.mag(A), lambda A, B, k: A.mag()),
    'proj': (lambda A, B, k: gmv.proj(B.grade(1), A), lambda A, B, k: A.project_in_blade(B.grade(1))),
    'proj2': (lambda A, B, k: gmv.proj(B, A), lambda A, B, k: A.project_in_blade(B)),
    'refl': (lambda A, B, k: gmv.refl(B.grade(1), A), lambda A, B, k: A.reflect_in_blade(B.grade(1))),
    'refl2': (lambda A, B, k: gmv.refl(B, A), lambda A, B, k: A.reflect_in_blade(B)),
    'rot': (lambda A, B, k: gmv.rot(k * A.Ga.mv_blades[2][0], A, '-+'[k % 2]), lambda A, B, k: A.rotate_multivector(k * A.Ga.mv_blades[2][0], '-+'[k % 2])),
    'rot default': (lambda A, B, k: gmv.rot(k * A.Ga.mv_blades[2][-1], A), lambda A, B, k: A.rotate_multivector(k * A.Ga.mv_blades[2][-1])),
    'sp': (lambda A, B, k: gmv.sp(A, B), lambda A, B, k: A.sp(B)),
    'sp rev': (lambda A, B, k: gmv.sp(A, B, 'rev'), lambda A, B, k: A.sp(B, 'rev')),
    'exp': (lambda A, B, k: gmv.exp(k * A.Ga.mv_blades[2][0], '-+'[k % 2]), lambda A, B, k: (k * A.Ga.mv_blades[2][0]).exp('-+'[k % 2])),
    'exp default': (lambda A, B, k: gmv.exp(B.grade(1)), lambda A, B, k: B.grade(1).exp()),
    'lt.det': (lambda A, B, k: glt.det(_L(A)), lambda A, B, k: _L(A).det()),
    'lt.sym': (lambda A, B, k: A.Ga.mv(glt.sym(A.grade(1))), lambda A, B, k: A.grade(1)),
}
MULTI = {'hitzer_inverse', 'shirokov_inverse', 'inv'}


def _L(A):
    v = A.grade(1)
    return A.Ga.lt([v + 2 * b for b in A.Ga.mv_blades[1]])


# what independent definitions say, for rational operands
REFS = {
    'even': lambda R, a, b, k: R.even(a), 'odd': lambda R, a, b, k: R.odd(a), 'g_invol': lambda R, a, b, k: R.invol(a), 'ccon': lambda R, a, b, k: R.conj(a),
    'rev': lambda R, a, b, k: R.rev(a), 'grade': lambda R, a, b, k: R.grade(a, k), 'grade default': lambda R, a, b, k: R.grade(a, 0), 'scalar': lambda R, a, b, k: R.grade(a, 0),
    'qform': lambda R, a, b, k: {0: R.sp(R.rev(a), a)}, 'sp': lambda R, a, b, k: {0: R.sp(a, b)}, 'sp rev': lambda R, a, b, k: {0: R.sp(R.rev(a), b)},
    'norm2': lambda R, a, b, k: {0: abs(R.sp(R.rev(a), a))}, 'norm2 default': lambda R, a, b, k: {0: abs(R.sp(R.rev(a), a))},
    'mag2': lambda R, a, b, k: {0: sum(abs(R.sp(R.rev(R.grade(a, j)), R.grade(a, j))) for j in range(R.n + 1))},
    'lt.sym': lambda R, a, b, k: R.grade(a, 1),
}


def outcome(f, *a):
    try:
        return f(*a)
    except CaseTimeout:
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__


@st.composite
def pcase(draw):
    c = draw(G.ga_and_mvs(2, 2, 4, maxterms=3, minterms=1))
    c['ops'] = draw(st.lists(st.integers(0, len(PAIRS) - 1), min_size=8, max_size=8, unique=True))
    c['k'] = draw(st.integers(0, 4))
    c['base'] = [draw(st.booleans()), draw(st.booleans())]
    c['sym'] = draw(st.sampled_from([0, 0, 1]))
    return c


@check(P, pcase(), quick=640, shards=8, rule='both operands have at least two terms and some function returned a value')
def delegates(c, x):
    """every module-level function gives what the method of its name gives (or is refused alike), and agrees with the definition"""
    ga, R = mk(c['ga'])
    n, k = R.n, c['k']
    ab = [mvd(m) for m in c['mvs']]
    A, B = [to_mv(ga, m) for m in ab]
    if c['sym']:
        A = A + t * ga.mv_blades.flat[k % (2 ** n)]
    if c['base'][0]:
        A = A.base_rep()
    if c['base'][1]:
        B = B.base_rep()
    names = sorted(PAIRS)
    got = 0
    for i in c['ops']:
        nm = names[i]
        if n == 4 and nm in MULTI and not G.is_diag(c['ga']['g']):
            continue
        f, m = PAIRS[nm]
        p, q = outcome(f, A, B, k), outcome(m, A, B, k)
        if isinstance(p, str) or isinstance(q, str):
            x.ok(p == q, lambda: '%s: function gives %s, method %s' % (nm, p, q))
            x.label('refused ' + nm)
            continue
        x.ok(isinstance(p, Mv) == isinstance(q, Mv), lambda: '%s: function gives %s, method %s' % (nm, type(p), type(q)))
        if p != q if not isinstance(p, Mv) else (p.obj != q.obj or p.is_blade_rep != q.is_blade_rep):
            d = diff_mv(coefs_of(p, n), coefs_of(q, n), n)
            x.ok(not d, lambda: '%s(%s): function gives %s, method %s' % (nm, A, p, q))
        if nm in REFS and not c['sym']:
            eq_ref(x, p, ref.clean(REFS[nm](R, ab[0], ab[1], k)), n, 'function %s' % nm)
        x.label(nm)
        got += 1
    x.nt(got and all(len(a) > 1 for a in ab))


NOTMV = [lambda: 3, lambda: Rational(1, 2), lambda: t, lambda: t ** 2 + 1, lambda: 'A', lambda: [1, 2], lambda: None, lambda: 2.5, lambda: Matrix([1, 2]), lambda: S.Zero]
UN = ['dual', 'undual', 'even', 'odd', 'g_invol', 'ccon', 'rev', 'grade', 'scalar', 'inv', 'shirokov_inverse', 'hitzer_inverse', 'qform', 'norm2', 'norm', 'mag2', 'mag']


@check(P, st.fixed_dictionaries({'f': st.integers(0, len(UN) + 5), 'v': st.integers(0, len(NOTMV) - 1), 'm': G.ga_and_mvs(1, 2, 3, 3, 1)}), quick=320, shards=4, rule='every case')
def non_multivectors(c, x):
    """the functions refuse what is not a multivector; exp of an expression is sympy's"""
    ga, R = mk(c['m']['ga'])
    A = to_mv(ga, mvd(c['m']['mvs'][0]))
    v = NOTMV[c['v']]()
    x.nt(True)
    if c['f'] < len(UN):
        calls = [(UN[c['f']], lambda: getattr(gmv, UN[c['f']])(v))]
    elif c['f'] == len(UN):
        if isinstance(v, (str, list, type(None), sympy.MatrixBase)):
            x.reject()
        p = gmv.exp(v)
        x.ok(not isinstance(p, Mv) and same_expr(p, sympy.exp(v)) is not False, lambda: 'exp(%s) = %s' % (v, p))
        x.label('exp')
        return
    else:
        k = c['f'] - len(UN)
        calls = [(('proj', 'refl', 'rot', 'sp', 'compare')[k - 1],
                  {1: lambda: gmv.proj(A, v), 2: lambda: gmv.refl(A, v), 3: lambda: gmv.rot(A, v), 4: lambda: gmv.sp(v, A),
                   5: lambda: gmv.compare(v, A)}[k])]
        if k == 5:
            calls.append(('compare', lambda: gmv.compare(A, v)))
    for nm, f in calls:
        x.label(nm)
        try:
            r = f()
        except (TypeError, ValueError):
            continue
        x.fail('%s accepted %r and returned %r' % (nm, v, r))


# ---------------------------------------------------------------- cross product
@st.composite
def euclid3(draw):
    """a positive definite metric M^T M, M invertible with determinant d"""
    k = draw(st.sampled_from(['id', 'diag', 'gen']))
    if k == 'id':
        M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    elif k == 'diag':
        M = [[draw(st.sampled_from([1, 2, 3])) if i == j else 0 for j in range(3)] for i in range(3)]
    else:
        M = [[draw(st.integers(-2, 2)) for _ in range(3)] for _ in range(3)]
        j = 0
        while ref.mat_det([[F(v) for v in r] for r in M]) == 0:
            M[j % 3][j % 3] += 1
            j += 1
    return {'M': M, 'u': draw(G.vec(3)), 'v': draw(G.vec(3)), 'w': draw(G.vec(3)), 'base': draw(st.booleans()), 'sym': draw(st.sampled_from([0, 0, 1])), 'mode': draw(st.sampled_from(['I+', 'I+', '+I', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']))}


@check(P, euclid3(), quick=240, shards=8, rule='u and v are linearly independent')
def cross_product(c, x):
    """in every Euclidean 3-space, orthonormal basis or not, and whatever the dual mode, cross is the vector product of the vectors' Cartesian components"""
    M = Matrix(3, 3, lambda i, j: S(c['M'][i][j]))       # columns: the basis vectors in Cartesian components
    g = M.T * M
    ga = Ga('a b c', g=g)
    m = Matrix(c['u']), Matrix(c['v'])
    bs = ga.mv()
    u, v = [sum((k * b for k, b in zip(w, bs)), ga.mv(S.Zero)) for w in m]
    if c['sym']:
        u = u + t * bs[0]
        m = (m[0] + Matrix([t, 0, 0]), m[1])
    if c['base']:
        u = u.base_rep()
    if u.is_zero() or v.is_zero():
        x.reject()
    U, V = M * m[0], M * m[1]
    want = U.cross(V)
    if M.det() < 0:
        want = -want                     # the orientation is that of the basis
    x.nt(want != sympy.zeros(3, 1))
    try:
        Ga.dual_mode(c['mode'])          # has no part in the cross product
        p = gmv.cross(u, v)
    finally:
        Ga.dual_mode('I+')
    cs = p.blade_rep().get_coefs(1) if p.obj != 0 else [0, 0, 0]
    x.ok(isinstance(p, Mv) and set(popcount(k) for k in coefs_of(p, 3)) <= {1}, lambda: 'cross(%s, %s) = %s is not a vector' % (u, v, p))
    got = M * Matrix(cs)
    x.ok(all(is_zero_expr(a - b) is not False for a, b in zip(got, want)), lambda: 'cross(%s, %s) = %s, Cartesian %s expected %s' % (u, v, p, list(got), list(want)))


@check(P, G.ga_and_mvs(2, 2, 4, 3, 1), quick=120, shards=4, rule='a refusal is due')
def cross_refusals(c, x):
    """cross refuses anything but two vectors of one three dimensional algebra"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    ok = R.grades(a) == [1] and R.grades(b) == [1] and R.n == 3
    ga2 = mk_ga(c['ga'])
    A2 = to_mv(ga2, a)
    x.nt(not ok)
    for p, q, o in ((A, B, ok), (A2, B, False)):
        try:
            gmv.cross(p, q)
            done = True
        except ValueError:
            done = False
        except Exception:
            if o:
                x.reject()               # no pseudoscalar of a degenerate metric
            raise
        if done and not o:
            x.fail('cross(%s, %s) was accepted' % (p, q))
        if not done and o and ref.mat_det([[F(v) for v in r] for r in R.g]) != 0:
            x.fail('cross(%s, %s) was refused' % (p, q))


# ---------------------------------------------------------------- compare
@st.composite
def cmpcase(draw):
    c = draw(G.ga_and_mvs(2, 2, 3, 4, 1))
    c['mode'] = draw(st.sampled_from(['mult', 'mult', 'multsym', 'other', 'drop', 'tweak', 'symco', 'symco_not']))
    c['c'] = draw(G.nz)
    c['i'] = draw(st.integers(0, 3))
    c['base'] = [draw(st.booleans()), draw(st.booleans())]
    return c


@check(P, cmpcase(), quick=400, shards=8, rule='the first multivector has at least two terms')
def compare_def(c, x):
    """compare(A, B) is the scalar c with B = c*A, and 0 when there is none (nothing is printed)"""
    ga, R = mk(c['ga'])
    n = R.n
    a, b = [mvd(m) for m in c['mvs']]
    bl = dict(zip(masks(n), ga.mv_blades.flat))
    A = to_mv(ga, a)
    k = sp(c['c'])
    mode = c['mode']
    ms = sorted(a)
    m0 = ms[c['i'] % len(ms)]
    if mode == 'mult':
        B, want = to_mv(ga, ref.smul(fr(c['c']), a)), k
    elif mode == 'multsym':
        want = k * (t ** 2 + 1) / (t ** 2 + 3)
        B = want * A
    elif mode == 'other':
        B = to_mv(ga, b)
        q = None
        if set(a) == set(b):
            rs = {b[m] / a[m] for m in a}
            q = rs.pop() if len(rs) == 1 else None
        want = S.Zero if q is None else sp(q)
    elif mode == 'drop':
        d = {m: v for m, v in a.items() if m != m0}
        B, want = to_mv(ga, d), S.Zero
        if c['i'] % 2:
            A, B = B, A
            if len(a) == 1:
                want = S.Zero
    elif mode == 'tweak':
        d = {m: 2 * v for m, v in a.items()}
        d[m0] = d[m0] + 1
        B = to_mv(ga, ref.clean(d))
        want = S.Zero if len(a) > 1 else sp(d[m0] / a[m0])
    else:
        A = sum((sp(v) * (t ** j + 2) * bl[m] for j, (m, v) in enumerate(sorted(a.items()))), ga.mv(S.Zero))
        f = sympy.cos(t) + 2
        B = f * A
        want = f
        if mode == 'symco_not':
            B = B + (sympy.sin(t) ** 2 + sympy.cos(t) ** 2 - (1 if c['i'] % 2 else 0)) * bl[m0]
            if c['i'] % 2 == 0 and len(a) > 1:
                want = S.Zero
            elif c['i'] % 2 == 0:
                want = None
    if c['base'][0]:
        A = A.base_rep()
    if c['base'][1]:
        B = B.base_rep()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = gmv.compare(A, B)
    x.label(mode)
    x.nt(len(a) > 1)
    if want is not None:
        x.ok(same_expr(r, want) is not False, lambda: 'compare(%s, %s) = %s, expected %s' % (A, B, r, want))
    elif r != 0:
        same_mv(x, r * A, B, n, 'compare(A, B)*A')
    x.ok(out.getvalue() == '', lambda: 'compare printed %r' % out.getvalue())


# ---------------------------------------------------------------- correlation
@st.composite
def corrcase(draw):
    n = draw(st.integers(2, 6))
    return {'u': [draw(G.coef) for _ in range(n)], 'v': [draw(G.coef) for _ in range(n)], 'row': draw(st.booleans()), 'dec': draw(st.sampled_from([None, 3, 5, 10, 15]))}


@check(P, corrcase(), quick=240, shards=4, rule='neither vector is constant')
def correlation_def(c, x):
    """correlation(u, v) is Pearson's coefficient to the requested number of digits, and leaves u and v alone"""
    import mpmath
    u, v = [fr(q) for q in c['u']], [fr(q) for q in c['v']]
    n = len(u)
    du, dv = [q - sum(u) / n for q in u], [q - sum(v) / n for q in v]
    if not any(du) or not any(dv):
        x.reject()
    num = sum(a * b for a, b in zip(du, dv))
    den2 = sum(a * a for a in du) * sum(b * b for b in dv)
    want = mpmath.mpf(num.numerator) / num.denominator / mpmath.sqrt(mpmath.mpf(den2.numerator) / den2.denominator)
    mk_ = (lambda q: Matrix([[sp(e) for e in q]])) if c['row'] else (lambda q: Matrix([sp(e) for e in q]))
    U, V = mk_(c['u']), mk_(c['v'])
    U0, V0 = U.copy(), V.copy()
    r = gmv.correlation(U, V) if c['dec'] is None else gmv.correlation(U, V, c['dec'])
    x.nt(True, 'row' if c['row'] else 'column')
    d = c['dec'] or 3
    x.ok(S(r).is_number and abs(mpmath.mpf(str(sympy.N(r, 20))) - want) <= mpmath.mpf(10) ** -d * 3, lambda: 'correlation(%s, %s, %s) = %s expected %s' % (c['u'], c['v'], c['dec'], r, want))
    x.ok(U == U0 and V == V0, 'correlation changed its arguments')


# ---------------------------------------------------------------- printed linear algebra
def printed(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **k)
    return out.getvalue()


@st.composite
def matcase(draw):
    r = draw(st.integers(1, 4))
    k = draw(st.integers(1, 5))
    return {'m': [[draw(G.coef) for _ in range(k)] for _ in range(r)], 'vars': draw(st.sampled_from([None, 'abcdefg', 'xy']))}


@check(P, matcase(), quick=200, shards=4, rule='at least two rows')
def printrref_def(c, x):
    """printrref prints one equation per row of the reduced row echelon form of the (augmented) matrix"""
    M = Matrix([[sp(v) for v in r] for r in c['m']])
    rows, cols = M.shape
    vs = c['vars'] or 'xyzuvwrs'
    out = printed(gmv.printrref, M, c['vars']) if c['vars'] else printed(gmv.printrref, M)
    E = M.rref()[0]
    x.nt(rows > 1)
    if len(vs) < cols - 1:
        x.ok(out.strip() == 'Not enough variables.', lambda: out)
        x.label('too few variables')
        return
    lines = out.strip('\n').split('\n')
    x.ok(len(lines) == rows, lambda: '%d lines for %d rows' % (len(lines), rows))
    for i, l in enumerate(lines):
        lhs, rhs = l.rsplit('=', 1)
        want = [E[i, j] for j in range(cols)]
        got = []
        terms = [w.strip() for w in lhs.split(' + ')] if cols > 1 else []
        for j, w in enumerate(terms):
            x.ok(w.endswith(vs[j]), lambda: 'term %r of %r lacks %s' % (w, l, vs[j]))
            got.append(Rational(w[:-1]))
        got.append(Rational(rhs.strip()))
        x.ok(got == want, lambda: 'row %d printed %r, rref has %s' % (i, l, want))


@st.composite
def gscase(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(1, n))
    V = [[draw(G.sint) for _ in range(n)] for _ in range(k)]
    for i in range(k):
        V[i][i] = V[i][i] + 7 if i % 2 else V[i][i] - 7            # independent by diagonal dominance
    return {'V': V, 'norm': draw(st.booleans())}


@check(P, gscase(), quick=160, shards=4, rule='at least two vectors')
def printGS_def(c, x):
    """printGS prints the Gram-Schmidt vectors of the list to three digits"""
    V = [Matrix(v) for v in c['V']]
    out = printed(gmv.printGS, V, c['norm'])
    # oracle: exact Gram-Schmidt with fractions
    W = []
    for v in c['V']:
        w = [F(q) for q in v]
        for u in W:
            f = sum(F(a) * b for a, b in zip(v, u)) / sum(b * b for b in u)
            w = [a - f * b for a, b in zip(w, u)]
        W.append(w)
    x.nt(len(W) > 1)
    num = r'-?\d+\.?\d*(?:e[-+]?\d+)?|-?\.\d+'
    got = [[float(q) for q in re.findall(num, part)] for part in re.findall(r'\[([^\[\]]*)\]', out)]
    x.ok(len(got) == len(W) and all(len(g) == len(w) for g, w in zip(got, W)), lambda: 'printed %r for %s' % (out, W))
    for g, w in zip(got, W):
        s = float(sum(b * b for b in w)) ** .5 if c['norm'] else 1.0
        for a, b in zip(g, w):
            b = float(b) / s
            x.ok(abs(a - b) <= 6e-3 * max(abs(b), 1e-6) + 1e-9, lambda: 'printed %s, expected %s' % (g, [float(q) / s for q in w]))


@st.composite
def eigcase(draw):
    n = draw(st.integers(1, 3))
    d = [draw(st.integers(-3, 3)) for _ in range(n)]
    M = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = draw(st.integers(-2, 2))
    return {'d': d, 'P': M, 'jordan': draw(st.booleans())}


@check(P, eigcase(), quick=120, shards=4, rule='at least two dimensions')
def printeigen_def(c, x):
    """printeigen prints each eigenvalue with its multiplicity, followed by eigenvectors (three digits) that are ones"""
    D = sympy.diag(*c['d'])
    if c['jordan'] and len(c['d']) > 1:
        D[0, 1] = 1
    Q = Matrix(c['P'])
    M = Q * D * Q.inv()
    out = printed(gmv.printeigen, M)
    vals = {}
    cur = None
    for l in out.strip().split('\n'):
        m = re.match(r"\('Eigenvalue =', (-?[\d/]+), '  Multiplicity =', (\d+), ", l)
        if m:
            cur = int(m.group(1))
            x.ok(cur not in vals, lambda: 'eigenvalue %s printed twice' % cur)
            vals[cur] = int(m.group(2))
            continue
        v = [float(q) for q in re.findall(r'-?\d*\.?\d+(?:e[-+]?\d+)?', l)]
        x.ok(cur is not None and len(v) == len(c['d']) and any(v), lambda: 'unexpected line %r' % l)
        w = M * Matrix([Rational(q) for q in map(str, v)])
        big = max(abs(float(e)) for e in M) * max(map(abs, v)) * len(v) + 1
        x.ok(all(abs(float(a) - cur * b) < 2e-2 * big for a, b in zip(w, v)), lambda: '%s is no eigenvector of %s for %s' % (v, M.tolist(), cur))
    want = {}
    for e in c['d']:
        want[e] = want.get(e, 0) + 1
    x.nt(len(c['d']) > 1)
    x.ok(vals == want, lambda: 'eigenvalues %s expected %s' % (vals, want))
