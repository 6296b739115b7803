"""Bridging between JSON cases, galgebra objects and the reference algebra."""
import itertools
import hashlib
from fractions import Fraction as F

import sympy
from sympy import S, Rational, Matrix, expand, Expr, Symbol

from galgebra.ga import Ga
from galgebra.mv import Mv
import ref
from ref import RefGA, popcount, bits

sympy_eval_prec = 40


def fr(c):
    """JSON coefficient -> Fraction"""
    return F(c)


def sp(c):
    """JSON coefficient / Fraction -> sympy Rational"""
    f = F(c)
    return Rational(f.numerator, f.denominator)


def tofrac(x):
    """sympy/int -> Fraction (raises ValueError when it is not rational)"""
    if isinstance(x, (int, F)):
        return F(x)
    x = S(x)
    if not x.is_Rational:
        x = expand(x.doit())
    if not x.is_Rational:
        x = sympy.simplify(x)
    if not x.is_Rational:
        x = sympy.sqrtdenest(sympy.radsimp(x))
        if not x.is_Rational:
            raise ValueError('not a rational number: %r' % (x,))
    return F(int(x.p), int(x.q))


def masks(n):
    """bitmasks in galgebra's canonical (graded, lexicographic) blade order"""
    out = []
    for k in range(n + 1):
        for c in itertools.combinations(range(n), k):
            out.append(sum(1 << i for i in c))
    return out


def names_for(n, style='plain'):
    if style == 'plain':
        return ' '.join('e%d' % (i + 1) for i in range(n))
    if style == 'under':
        return ' '.join('e_%s' % 'xyzuvwst'[i] for i in range(n))
    if style == 'star':
        return 'e*' + '|'.join('xyzuvwst'[i] for i in range(n))
    if style == 'letters':
        return ' '.join('abcdfghk'[i] for i in range(n))
    if style == 'roots':        # basis vectors of different roots that share their indexes
        return ' '.join(['u_1', 'u_2', 'v_1', 'v_2', 'w_1', 'w_2', 'r_1', 'r_2'][i] for i in range(n))
    raise ValueError(style)


def gmat(gc):
    return [[fr(x) for x in row] for row in gc['g']]


def mk_ga(gc, **kw):
    """build a fresh Ga from a JSON algebra case {'g': matrix, 'form':, 'names':}"""
    n = len(gc['g'])
    form = gc.get('form', 'matrix')
    g = gc['g']
    diag = all(i == j or fr(g[i][j]) == 0 for i in range(n) for j in range(n))
    if form == 'list' and not diag:
        form = 'lol'
    if form == 'list':
        gg = [sp(g[i][i]) for i in range(n)]
    elif form == 'lol':
        gg = [[sp(x) for x in row] for row in g]
    elif form == 'string':
        if diag:
            gg = ' '.join(str(sp(g[i][i])) for i in range(n))
        else:
            gg = ','.join(' '.join(str(sp(x)) for x in row) for row in g)
    else:
        gg = Matrix([[sp(x) for x in row] for row in g])
    names = gc.get('names', 'plain')
    if n == 1:
        # a one-dimensional basis string needs a separator
        return Ga('e_1,', g=[sp(g[0][0])], **kw)
    kw = dict(kw)
    if 'wedge' in gc and 'wedge' not in kw:
        kw['wedge'] = gc['wedge']
    return Ga(names_for(n, names), g=gg, **kw)


def mk(gc, **kw):
    return mk_ga(gc, **kw), RefGA(gmat(gc))


def mvd(m):
    """JSON multivector [[mask, coef], ...] -> reference dict"""
    r = {}
    for k, c in m:
        r[k] = r.get(k, F(0)) + fr(c)
    return ref.clean(r)


def _shear(d):
    """image of a reference multivector under e1 -> e1 - e2 (the other basis vectors fixed)"""
    r = dict(d)
    for m, c in d.items():
        if m & 1 and not m & 2:
            k = m ^ 3
            r[k] = r.get(k, 0) - c
    return r


def derived(ga, d, how):
    """Mv with the value d that is the result of computations rather than a plain sum of blades:
    its expression is not expanded the way a constructed one is"""
    n = ga.n
    half = {m: F(c) / 2 for m, c in d.items()}
    if how == 1:                         # twice the image of half of the inverse image
        bv = ga.mv_blades[1]
        L = ga.lt([bv[0] + bv[1]] + list(bv[1:]))
        X = L(plain_mv(ga, _shear(half)))
        return X + X
    if how == 2 and not ga.is_ortho and ga.g[0, 0].is_Rational and ga.g[0, 1].is_Rational:     # a contraction with several terms, halved and doubled
        bv = ga.mv_blades[1]
        b = ga.mv_blades[2][0]
        X = (bv[0] / 2) < b              # = (g11 e2 - g12 e1)/2
        rest = dict(d)
        g11, g12 = tofrac(ga.g[0, 0]), tofrac(ga.g[0, 1])
        rest[2] = rest.get(2, F(0)) - g11
        rest[1] = rest.get(1, F(0)) + g12
        return plain_mv(ga, rest) + X + X
    if how == 3:                         # common factors pulled out
        M = plain_mv(ga, d)
        return (M / 3 + plain_mv(ga, half)) * sp('6/5')
    return plain_mv(ga, d)


def to_mv(ga, d):
    """reference dict -> Mv; the way it comes about varies (deterministically) with its terms"""
    if len(d) > 1 and ga.n > 1 and all(isinstance(c, (int, F)) for c in d.values()):
        how = int(hashlib.md5(repr(sorted(d.items())).encode()).hexdigest(), 16) % 6
        if how and all(c for c in d.values()):
            return derived(ga, d, how)
    return plain_mv(ga, d)


def plain_mv(ga, d):
    """reference dict -> Mv, built from the algebra's basis blades"""
    n = ga.n
    bl = ga.mv_blades.flat
    M = ga.mv(S.Zero)
    for m, b in zip(masks(n), bl):
        if m in d and d[m] != 0:
            c = d[m]
            M = M + (sp(c) if isinstance(c, (int, F, str)) else c) * b
    return M


def coefs_of(x, n):
    """Mv / scalar -> dict mask -> sympy coefficient (zero entries dropped)"""
    if isinstance(x, Mv):
        cs = x.blade_rep().expand().blade_coefs()
    else:
        x = S(x)
        return {0: x} if x != 0 else {}
    return {m: c for m, c in zip(masks(n), cs) if c != 0}


def from_mv(x, n):
    """Mv / scalar with rational coefficients -> reference dict"""
    return ref.clean({m: tofrac(c) for m, c in coefs_of(x, n).items()})


def show(d):
    return '{' + ', '.join('%s:%s' % ('.'.join(str(i + 1) for i in bits(m)) or '1', c) for m, c in sorted(d.items())) + '}'


# ---- numeric equality of sympy expressions -------------------------------
_primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def point(symbols, k=0, lo=None):
    """deterministic rational sample point for the given symbols"""
    out = {}
    for i, s in enumerate(sorted(symbols, key=lambda s: s.name)):
        h = int(hashlib.md5(('%s/%d' % (s.name, k)).encode()).hexdigest()[:6], 16)
        out[s] = Rational(300 + h % 1100, 1000 + (h // 1100) % 7)
    return out


def numval(e, pt):
    e = S(e)
    v = e.xreplace(pt)
    if v.has(sympy.Derivative, sympy.Subs):
        v = v.doit()
    v = sympy.N(v, sympy_eval_prec)
    return v


def _fast_zero(e, pts):
    """big expressions: compiled evaluation with 60 digits; None when no point could be evaluated"""
    import mpmath
    fs = sorted(e.free_symbols, key=lambda s: s.name)
    if len({s.name for s in fs}) != len(fs):
        return None
    try:
        f = sympy.lambdify([sympy.Symbol('v%d' % i) for i in range(len(fs))], e.xreplace({s: sympy.Symbol('v%d' % i) for i, s in enumerate(fs)}), 'mpmath', cse=True)
    except Exception:
        return None
    got = 0
    with mpmath.workdps(60):
        for k in range(pts + 4):
            pt = point(fs, k)
            try:
                v = f(*[mpmath.mpf(int(pt[s].p)) / int(pt[s].q) for s in fs])
                v = abs(mpmath.mpmathify(v))
            except (ZeroDivisionError, ValueError, TypeError, OverflowError, NameError):
                continue
            if not mpmath.isfinite(v):
                continue
            if v > mpmath.mpf(10) ** -25:
                return False
            got += 1
            if got >= pts:
                return True
    return None


def opaque(e):
    """unknown functions and their derivatives replaced by independent symbols (they are arbitrary)"""
    if e.has(sympy.Derivative, sympy.Subs):
        e = e.doit()
    fn = sympy.core.function.AppliedUndef
    if not e.has(fn):
        return e
    rep = {a: sympy.Symbol('_o_' + sympy.srepr(a)) for a in e.atoms(sympy.Derivative) | e.atoms(fn)}
    return e.xreplace(rep)


def is_zero_expr(e, pts=3, tol=sympy.Float('1e-22', 30), scale=None):
    """decide e == 0 by exact normalisation, then by high-precision sampling at
    several points; None when no sample point could be evaluated"""
    e = S(e)
    if e == 0:
        return True
    if e.is_Rational:
        return False
    if e.has(sympy.Derivative, sympy.Subs, sympy.core.function.AppliedUndef):
        e = opaque(e)
        if e == 0:
            return True
    if e.count_ops() > 250 and e.free_symbols and not e.has(sympy.Derivative, sympy.Subs, sympy.core.function.AppliedUndef):
        r = _fast_zero(e, pts)
        if r is not None:
            return r
    x = expand(e)
    if x == 0:
        return True
    if x.is_Rational:
        return False
    fs = x.free_symbols
    got = 0
    for k in range(pts + 4):
        try:
            v = numval(x, point(fs, k))
            if not v.is_number or v.has(sympy.nan, sympy.zoo, sympy.oo):
                continue
            if abs(v) > tol:
                return False
            got += 1
            if got >= pts or not fs:
                return True
        except (ZeroDivisionError, ValueError, TypeError):
            continue
    return True if got else None


def same_expr(a, b, **kw):
    return is_zero_expr(S(a) - S(b), **kw)


def diff_mv(A, B, n, **kw):
    """list of differing masks between two Mv/dicts with sympy coefficients"""
    a = A if isinstance(A, dict) else coefs_of(A, n)
    b = B if isinstance(B, dict) else coefs_of(B, n)
    out = []
    for m in set(a) | set(b):
        r = is_zero_expr(S(a.get(m, 0)) - S(b.get(m, 0)), **kw)
        if r is False:
            out.append((m, a.get(m, 0), b.get(m, 0)))
    return out


def same_mv(ctx, A, B, n, what, **kw):
    d = diff_mv(A, B, n, **kw)
    if d:
        ctx.fail('%s: blade %s has %s, expected %s' % (what, bits(d[0][0]), d[0][1], d[0][2]))


def eq_ref(ctx, got, want, n, what):
    """exact comparison of a galgebra result with a reference dict"""
    g = from_mv(got, n)
    w = {m: c for m, c in want.items() if c != 0}
    if g != w:
        ctx.fail('%s: got %s expected %s' % (what, show(g), show(w)))


def rational_only(d):
    return all(S(c).is_Rational for c in d.values())
