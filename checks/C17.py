"""Differential operators as linear operators: every way of combining them against the direct evaluation of their action."""
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.dop import Pdop, Sdop
from galgebra.mv import Dop
from galgebra.metric import Simp
import importlib.util, os
_s = importlib.util.spec_from_file_location('c15lib', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'C15.py'))
c15 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c15)
sfield, sf, field, mkfield, rop, apply, OPS = c15.sfield, c15.sf, c15.field, c15.mkfield, c15.rop, c15.apply, c15.OPS

P = 'C17'
XS = sympy.symbols('x y z', real=True)
FN = ('',) * 9 + ('sin', 'exp')
PROFILES = [sympy.expand, sympy.factor_terms, lambda e: sympy.expand(e)]


def tsimplify(D):
    old = Simp.modes
    Simp.profile([sympy.expand, sympy.factor_terms])
    try:
        return D.TSimplify()
    finally:
        Simp.profile(old)


def midx(n, top=2):
    return st.lists(st.sampled_from([0, 0, 1, 1, top]), min_size=n, max_size=n)


def pd(ix, X):
    return Pdop({x: k for x, k in zip(X, ix) if k})


def dd(e, ix, X):
    for q, k in zip(X, ix):
        if k:
            e = sympy.diff(e, q, k)
    return e


# ---------------------------------------------------------------- Pdop
@check(P, st.fixed_dictionaries({'f': sfield(3, FN), 'm': field(2, 3, 1, FN), 'i': midx(3), 'j': midx(3), 'o': st.permutations([0, 1, 2])}), quick=300, shards=8,
       rule='the composed derivative of the function does not vanish')
def pdop_action(c, x):
    """a Pdop is the partial derivative it names; composition adds multi-indices, order and equality follow them, the empty one is the identity"""
    X = XS
    f = sf(c['f'], X) + (X[0] * X[1] * X[2]) ** 4 + X[0] ** 5
    i, j = c['i'], c['j']
    A, B = pd(i, X), pd(j, X)
    x.nt(dd(dd(f, i, X), j, X) != 0 and any(i) and any(j))
    full = dict(zip(X, i))
    Z = Pdop(full)   # with the zero orders written out
    x.ok(Z == A and A == Z and str(Z) == str(Pdop({q: k for q, k in full.items() if k})) and Z.order == sum(i), lambda: 'Pdop(%s) is %s' % (full, Z))
    full[X[0]] = 7
    x.ok(Z == A and Z(X[0] ** 3) == dd(X[0] ** 3, i, X), 'a Pdop follows the dictionary it was made from')
    same = lambda a, b, w: x.ok(same_expr(a, b) is not False, lambda: '%s: %s vs %s' % (w, a, b))
    same(A(f), dd(f, i, X), 'Pdop(f)')
    same(A * f, dd(f, i, X), 'Pdop*f')
    C = A * B
    x.ok(isinstance(C, Pdop), 'product of Pdops is %s' % type(C))
    same(C(f), dd(dd(f, i, X), j, X), '(Pdop*Pdop) f')
    same((B * A)(f), C(f), 'commutation')
    x.ok(A * B == B * A, 'A*B == B*A for Pdops')
    x.ok(A.order == sum(i) and C.order == sum(i) + sum(j), 'order')
    k = [p + q for p, q in zip(i, j)]
    x.ok(C == pd(k, X) and {s: v for s, v in C.pdiffs.items() if v} == {s: v for s, v in zip(X, k) if v}, 'multi-index of the product')
    x.ok((A == B) == (i == j) and (A != B) == (i != j), '== on Pdops')
    sh = Pdop({X[o]: i[o] for o in c['o'] if i[o]})
    x.ok(sh == A, 'Pdop equality depends on insertion order')
    same(sh(f), A(f), 'action depends on insertion order')
    x.ok((A == 1) == (sum(i) == 0), 'comparison with the identity')
    x.ok(Pdop({})(f) == f, 'identity operator')
    S_ = f * A
    x.ok(isinstance(S_, Sdop), 'f*Pdop')
    g = X[0] ** 2 * X[1] * X[2] + X[1] ** 3
    same(S_(g), f * dd(g, i, X), '(f*Pdop) g')
    x.ok(A(5) == (5 if sum(i) == 0 else 0), 'Pdop of a number')
    if i == [1, 0, 0]:
        x.ok(Pdop(X[0]) == A and Sdop(X[0]).terms == ((S.One, A),), 'Pdop(symbol)')
    ga = Ga('e_1 e_2', g=[1, -1], coords=X[:2])
    M, d = mkfield(ga, c['m'], X[:2])
    same_mv(x, pd(i[:2], X)(M), {m: dd(e, i[:2], X) for m, e in d.items()}, 2, 'Pdop(Mv)')


# ---------------------------------------------------------------- Sdop
@st.composite
def sexpr(draw, n, depth=2):
    k = draw(st.sampled_from(['leaf', 'leaf', 'sym', 'const'] if depth == 0 else
                             ['leaf', 'add', 'sub', 'neg', 'scale', 'comp', 'comp', 'pcomp', 'compp', 'addf', 'fadd', 'fsub', 'subf', 'simp', 'cons', 'tsimp', 'diff']))
    if k == 'leaf':
        return ['leaf', [[draw(sfield(n, FN)), draw(midx(n))] for _ in range(draw(st.integers(0, 3)))]]
    if k == 'sym':
        return ['sym', draw(st.integers(0, n - 1))]
    if k == 'const':
        return ['leaf', [[[[draw(G.small), [0] * n, '', [0] * n]], draw(midx(n))] for _ in range(draw(st.integers(1, 2)))]]
    if k in ('add', 'sub', 'comp'):
        return [k, draw(sexpr(n, depth - 1)), draw(sexpr(n, depth - 1))]
    if k in ('scale', 'addf', 'fadd', 'fsub', 'subf'):
        return [k, draw(sfield(n, FN)), draw(sexpr(n, depth - 1))]
    if k in ('pcomp', 'compp'):
        return [k, draw(midx(n, 1)), draw(sexpr(n, depth - 1))]
    if k == 'diff':
        return [k, draw(st.integers(0, n - 1)), draw(sexpr(n, depth - 1))]
    return [k, draw(sexpr(n, depth - 1))]


def build_s(t, X):
    k = t[0]
    if k == 'leaf':
        return Sdop([(sf(f, X), pd(ix, X)) for f, ix in t[1]])
    if k == 'sym':
        return Sdop(X[t[1]])
    if k in ('add', 'sub', 'comp'):
        a, b = build_s(t[1], X), build_s(t[2], X)
        return a + b if k == 'add' else a - b if k == 'sub' else a * b
    if k == 'pcomp':
        return pd(t[1], X) * build_s(t[2], X)
    if k == 'compp':
        return build_s(t[2], X) * pd(t[1], X)
    if k == 'diff':
        return Pdop(X[t[1]])(build_s(t[2], X))
    if k in ('scale', 'addf', 'fadd', 'fsub', 'subf'):
        f, a = sf(t[1], X), build_s(t[2], X)
        return {'scale': lambda: f * a, 'addf': lambda: a + f, 'fadd': lambda: f + a, 'fsub': lambda: f - a, 'subf': lambda: a - f}[k]()
    a = build_s(t[1], X)
    if k == 'neg':
        return -a
    if k == 'simp':
        return a.simplify(sympy.factor_terms)
    if k == 'cons':
        return Sdop.consolidate_coefs(a)
    if k == 'tsimp':
        return tsimplify(a)
    raise ValueError(k)


def act_s(t, e, X):
    k = t[0]
    if k == 'leaf':
        return sum((sf(f, X) * dd(e, ix, X) for f, ix in t[1]), S.Zero)
    if k == 'sym':
        return sympy.diff(e, X[t[1]])
    if k == 'add':
        return act_s(t[1], e, X) + act_s(t[2], e, X)
    if k == 'sub':
        return act_s(t[1], e, X) - act_s(t[2], e, X)
    if k == 'comp':
        return act_s(t[1], act_s(t[2], e, X), X)
    if k == 'pcomp':
        return dd(act_s(t[2], e, X), t[1], X)
    if k == 'compp':
        return act_s(t[2], dd(e, t[1], X), X)
    if k == 'diff':
        return sympy.diff(act_s(t[2], e, X), X[t[1]])
    if k == 'scale':
        return sf(t[1], X) * act_s(t[2], e, X)
    if k in ('addf', 'fadd'):
        return sf(t[1], X) * e + act_s(t[2], e, X)
    if k == 'fsub':
        return sf(t[1], X) * e - act_s(t[2], e, X)
    if k == 'subf':
        return act_s(t[2], e, X) - sf(t[1], X) * e
    if k == 'neg':
        return -act_s(t[1], e, X)
    return act_s(t[1], e, X)


@check(P, st.fixed_dictionaries({'t': sexpr(2, 2), 'f': sfield(2, FN), 'm': field(2, 3, 1, FN), 'p': st.integers(1, 3)}), quick=360, shards=8,
       rule='an operator expression with at least one composite node whose action on the function is not zero')
def sdop_expressions(c, x):
    """every expression of scalar operators (sums, functions, scalings, compositions with operators and partials on either side, derivatives
    of operators, simplification, consolidation) acts as the corresponding composition of actions"""
    X = XS[:2]
    D = build_s(c['t'], X)
    if isinstance(D, Pdop):
        x.label('pdop')
    # the first factor is generic enough not to be annihilated
    f = sf(c['f'], X) + X[0] ** 3 * X[1] ** c['p'] + X[1] ** 3
    want = act_s(c['t'], f, X)
    x.nt(c['t'][0] not in ('leaf', 'sym') and want != 0)
    x.label(c['t'][0])
    same = lambda a, b, w: x.ok(same_expr(a, b) is not False, lambda: '%s: %s vs %s' % (w, a, b))
    same(D(f), want, 'action')
    same(D * f, want, 'D*f')
    ga = Ga('e_1 e_2', g=[[1, Rational(1, 2)], [Rational(1, 2), -1]], coords=X)
    M, d = mkfield(ga, c['m'], X)
    same_mv(x, D * M, {m: act_s(c['t'], e, X) for m, e in d.items()}, 2, 'action on a multivector field')
    if isinstance(D, Sdop):
        # canonical invariance
        same(D.simplify(PROFILES[c['p'] - 1])(f), want, 'simplify')
        same(Sdop.consolidate_coefs(D)(f), want, 'consolidate_coefs')
        same(sum((co * p(f) for co, p in Sdop.consolidate_coefs(D.terms)), S.Zero), want, 'consolidate_coefs of terms')
        same(tsimplify(D)(f), want, 'TSimplify')
        x.ok(len({frozenset(p.pdiffs.items()) for _, p in Sdop.consolidate_coefs(D).terms}) == len(Sdop.consolidate_coefs(D).terms), 'repeated partials after consolidation')
        x.ok(D == D and Sdop(list(reversed(D.terms))) == D, 'D is not equal to itself with its terms reversed')
        Z = D - D
        x.ok(len(Z.terms) == 0 and Z(f) == 0, 'D - D')
        x.ok((D + D) == 2 * D, 'D + D == 2*D')
        x.ok(not (D == D + 1) and D != D + 1, 'D == D + 1')
        x.ok(not (D == D + Sdop([(S.One, Pdop({X[0]: 7}))])), 'D == D + D_x^7')
        same((D - (-D))(f), 2 * want, 'D - (-D)')


@check(P, st.fixed_dictionaries({'a': sexpr(2, 1), 'b': sexpr(2, 1), 'f': st.lists(st.integers(0, 4), min_size=2, max_size=2)}), quick=240, shards=8,
       rule='operators with different actions')
def sdop_equality_sound(c, x):
    """two scalar operators that compare equal have the same action; operators that act differently compare unequal, in both orders"""
    X = XS[:2]
    A, B = build_s(c['a'], X), build_s(c['b'], X)
    if isinstance(A, Pdop) or isinstance(B, Pdop):
        x.reject()
    eq = A == B
    x.ok(eq == (B == A) and (A != B) == (not eq), 'equality is not symmetric')
    diff = False
    for p in [(i, j) for i in range(4) for j in range(4)] + [tuple(c['f'])]:
        f = X[0] ** p[0] * X[1] ** p[1]
        r = same_expr(act_s(c['a'], f, X), act_s(c['b'], f, X))
        if r is False:
            diff = True
            break
    x.nt(diff)
    if diff:
        x.ok(not eq, lambda: 'operators that act differently on %s compare equal: %s, %s' % (f, A, B))


# ---------------------------------------------------------------- Dop
@st.composite
def dop_leaf(draw, n, maxterms=2):
    return [[draw(field(n, 2, 1, FN)), draw(midx(n))] for _ in range(draw(st.integers(1, maxterms)))]


def mk_dop(ga, t, X, left=False):
    return Dop([(mkfield(ga, f, X)[0], pd(ix, X)) for f, ix in t], ga=ga, cmpflg=left)


def red(d):
    return {m: e for m, e in d.items() if e != 0}


def padd(a, b, s=1):
    out = dict(a)
    for m, e in b.items():
        out[m] = out.get(m, S.Zero) + s * e
    return out


def fd(ga, f, X):
    return mkfield(ga, f, X)[1]


def pmul(R, op, a, b):
    f = rop(R, op)
    out = {}
    for m, e in a.items():
        for k, g in b.items():
            if e == 0 or g == 0:
                continue
            for q, co in f({m: F(1)}, {k: F(1)}).items():
                out[q] = out.get(q, S.Zero) + sp(co) * e * g
    return out


def pdd(d, ix, X):
    return {m: dd(e, ix, X) for m, e in d.items()}


@st.composite
def dexpr(draw, n, depth=2, left=False):
    kinds = ['leaf', 'add', 'sub', 'neg', 'mul', 'mul', 'smul', 'mvside', 'mvside', 'addm', 'madd', 'msub', 'subm', 'div', 'simp', 'cons', 'comp', 'diff', 'adds', 'tsimp']
    if not left:
        kinds += ['sdop', 'pdop']
    k = draw(st.sampled_from(['leaf', 'leaf', 'grad'] if depth == 0 else kinds))
    sub = lambda: draw(dexpr(n, depth - 1, left))
    if k == 'leaf':
        return ['leaf', draw(dop_leaf(n))]
    if k == 'grad':
        return ['grad']
    if k in ('add', 'sub', 'mul'):
        return [k, sub(), sub()]
    if k in ('mvside', 'addm', 'madd', 'msub', 'subm'):
        return [k, draw(field(n, 2, 1, FN)), sub()]
    if k in ('smul', 'adds'):
        return [k, draw(sfield(n, ('', 'exp'))), sub()]
    if k == 'div':
        return [k, draw(st.sampled_from([2, -3, 5])), sub()]
    if k == 'diff':
        return [k, draw(st.integers(0, n - 1)), sub()]
    if k == 'sdop':
        return [k, draw(sexpr(n, 0)), sub()]
    if k == 'pdop':
        return [k, draw(midx(n, 1)), sub()]
    return [k, sub()]


def build_d(t, ga, X, op, left):
    k = t[0]
    B = lambda u: build_d(u, ga, X, op, left)
    if k == 'leaf':
        return mk_dop(ga, t[1], X, left)
    if k == 'grad':
        return ga.rgrad if left else ga.grad
    if k == 'add':
        return B(t[1]) + B(t[2])
    if k == 'sub':
        return B(t[1]) - B(t[2])
    if k == 'mul':
        return apply(op, B(t[1]), B(t[2]))
    if k == 'neg':
        return -B(t[1])
    if k == 'simp':
        return B(t[1]).simplify([sympy.factor_terms, sympy.expand])
    if k == 'tsimp':
        return tsimplify(B(t[1]))
    if k == 'cons':
        return B(t[1]).consolidate_coefs()
    if k == 'comp':
        D = B(t[1])
        return sum(D.components(), Dop([], ga=ga, cmpflg=left))
    if k == 'div':
        return B(t[2]) / t[1]
    if k == 'diff':
        return Pdop(X[t[1]])(B(t[2]))
    if k == 'sdop':
        return build_s(t[1], X) * B(t[2])
    if k == 'pdop':
        return pd(t[1], X) * B(t[2])
    if k == 'smul':
        f, D = sf(t[1], X), B(t[2])
        return D * f if left else f * D
    if k == 'adds':
        return B(t[2]) + sf(t[1], X)
    M, D = mkfield(ga, t[1], X)[0], B(t[2])
    if k == 'mvside':
        return apply(op, D, M) if left else apply(op, M, D)
    return {'addm': lambda: D + M, 'madd': lambda: M + D, 'msub': lambda: M - D, 'subm': lambda: D - M}[k]()


def act_d(t, d, ga, R, rec, X, op, left):
    """the action of the operator expression on the field d (a dict)"""
    k = t[0]
    A = lambda u, d_=d: act_d(u, d_, ga, R, rec, X, op, left)
    mulside = lambda m, v: pmul(R, op, v, m) if left else pmul(R, op, m, v)
    if k == 'leaf':
        out = {}
        for f, ix in t[1]:
            out = padd(out, mulside(fd(ga, f, X), pdd(d, ix, X)))
        return out
    if k == 'grad':
        out = {}
        for i, q in enumerate(X):
            out = padd(out, mulside({m: sp(v) for m, v in rec[i].items()}, {m: sympy.diff(e, q) for m, e in d.items()}))
        return out
    if k == 'add':
        return padd(A(t[1]), A(t[2]))
    if k == 'sub':
        return padd(A(t[1]), A(t[2]), -1)
    if k == 'mul':
        return A(t[2], A(t[1])) if left else A(t[1], A(t[2]))
    if k == 'neg':
        return padd({}, A(t[1]), -1)
    if k in ('simp', 'cons', 'comp', 'tsimp'):
        return A(t[1])
    if k == 'div':
        return {m: e / t[1] for m, e in A(t[2]).items()}
    if k == 'diff':
        return {m: sympy.diff(e, X[t[1]]) for m, e in A(t[2]).items()}
    if k == 'sdop':
        return {m: act_s(t[1], e, X) for m, e in A(t[2]).items()}
    if k == 'pdop':
        return pdd(A(t[2]), t[1], X)
    if k == 'smul':
        return {m: sf(t[1], X) * e for m, e in A(t[2]).items()}
    if k == 'adds':
        return padd(A(t[2]), mulside({0: sf(t[1], X)}, d))
    M = fd(ga, t[1], X)
    if k == 'mvside':
        return mulside(M, A(t[2]))
    MF = mulside(M, d)
    return {'addm': lambda: padd(A(t[2]), MF), 'madd': lambda: padd(A(t[2]), MF), 'subm': lambda: padd(A(t[2]), MF, -1), 'msub': lambda: padd(MF, A(t[2]), -1)}[k]()


def has(t, names):
    return isinstance(t, list) and ((t and isinstance(t[0], str) and t[0] in names) or any(has(u, names) for u in t))


@st.composite
def dcases(draw, left, depth=2):
    gc = draw(G.ga_nd(ns=[2, 2, 2, 3], kinds=('euclid', 'signature', 'diag', 'sym', 'sym')))
    n = len(gc['g'])
    op = draw(st.sampled_from(['*', '*', '^']))
    return {'ga': gc, 't': draw(dexpr(n, depth if n == 2 else 1, left)), 'f': draw(field(n, 2, 1, FN)), 'op': op, 'base': draw(st.booleans())}


def run_dop(c, x, left):
    n = len(c['ga']['g'])
    X = XS[:n]
    ga, R = mk(c['ga'], coords=tuple(X))
    rec, _ = c15.recips(c['ga'])
    op = c['op']
    # 'diff' and mixed scalar products differentiate on the outside: only meaningful for right-acting/left-acting alike as d(D F) = (dD)F + D dF,
    # which is how a partial of an operator is defined
    M, d = mkfield(ga, c['f'], X)
    want = act_d(c['t'], d, ga, R, rec, X, op, left)
    D = build_d(c['t'], ga, X, op, left)
    if not isinstance(D, Dop):
        x.fail('not an operator: %s' % type(D))
    x.ok(D.cmpflg == left or not D.terms, 'complement flag')
    x.nt(c['t'][0] not in ('leaf', 'grad') and bool(red(want)))
    x.label(c['t'][0], op)
    A = M.base_rep() if c['base'] else M
    ac = (lambda D_: apply(op, A, D_)) if left else (lambda D_: apply(op, D_, A))
    same_mv(x, ac(D), want, n, 'action')
    same_mv(x, ac(D.consolidate_coefs()), want, n, 'consolidate_coefs')
    same_mv(x, ac(D.simplify(sympy.factor_terms)), want, n, 'simplify')
    same_mv(x, ac(sum(D.components(), Dop([], ga=ga, cmpflg=left))), want, n, 'sum of components')
    ev = {}
    for sd, base in D.Dop_mv_expand():
        b = ga.mv(base)
        Z = {0: ac(Dop([(sd, b)], ga=ga, cmpflg=left))}
        ev = padd(ev, coefs_of(Z[0], n))
    same_mv(x, ev, want, n, 'Dop_mv_expand')
    x.ok(D == D and (len((D - D).terms) == 0), 'D == D')
    x.ok(Dop(list(reversed(D.terms)), ga=ga, cmpflg=left) == D, 'terms reversed')
    x.ok(not (D == D + 1), 'D == D + 1')
    if D.is_scalar():
        x.ok(all(not bits(m) for co, _ in D.terms for m in coefs_of(co, n)), 'is_scalar')
    else:
        x.ok(any(bits(m) for co, _ in D.terms for m in coefs_of(co, n)), 'not is_scalar')


@check(P, dcases(False), quick=280, shards=8, rule='a composite operator expression with a non-zero action')
def dop_expressions(c, x):
    """expressions of multivector operators acting to the right (+, -, scaling, *, ^, division, multivectors and scalars as operators, partials
    and scalar operators from the left, components, simplification) act as the composition of the actions"""
    run_dop(c, x, False)


@check(P, dcases(True), quick=200, shards=8, rule='a composite operator expression with a non-zero action')
def dop_expressions_left(c, x):
    """the same for operators acting to the left (complement flag set), composing in the opposite order"""
    run_dop(c, x, True)


@st.composite
def mixed_cases(draw):
    gc = draw(G.ga_nd(ns=[1, 2, 2, 3], kinds=('euclid', 'signature', 'diag', 'sym', 'sym')))
    n = len(gc['g'])
    return {'ga': gc, 'a': draw(dop_leaf(n)), 'b': draw(dop_leaf(n)), 'm': draw(field(n, 2, 1, FN)), 'f': draw(field(n, 2, 1, FN)),
            'op': draw(st.sampled_from(OPS)), 'op2': draw(st.sampled_from(OPS))}


@check(P, mixed_cases(), quick=240, shards=8, rule='the two products differ and the action is not zero')
def dop_products(c, x):
    """for every pair of products, (D1 op1 D2) op2 F has the documented terms (a op1 d(b)) op2 F + (a op1 b) op2 dF, on both sides"""
    n = len(c['ga']['g'])
    X = XS[:n]
    ga, R = mk(c['ga'], coords=tuple(X))
    op, op2 = c['op'], c['op2']
    # rich enough that third derivatives do not all vanish
    fx = [[m, s_ + [[2, [3, 2, 2][:n], '', [0] * n], [1, [4] + [0] * (n - 1), '', [0] * n]]] for m, s_ in c['f']]
    M, d = mkfield(ga, fx, X)
    N, md = mkfield(ga, c['m'], X)

    def terms(t):
        return [(fd(ga, f, X), list(ix)) for f, ix in t]

    def prod(ta, tb, left):
        # right acting: a_i d_i (b_j d_j); left acting: (terms of A differentiated by those of B)
        out = []
        for (a, i) in (tb if left else ta):
            for (b, j) in (ta if left else tb):
                cur = [(b, j)]
                for ax, k in enumerate(i):
                    for _ in range(k):
                        nxt = []
                        for co, ix in cur:
                            nxt.append(({m: sympy.diff(e, X[ax]) for m, e in co.items()}, ix))
                            jx = list(ix)
                            jx[ax] += 1
                            nxt.append((co, jx))
                        cur = nxt
                for co, ix in cur:
                    out.append((pmul(R, op, co, a) if left else pmul(R, op, a, co), ix))
        return out

    def act(ts, d, left):
        out = {}
        for co, ix in ts:
            v = pdd(d, ix, X)
            out = padd(out, pmul(R, op2, v, co) if left else pmul(R, op2, co, v))
        return out
    for left in (False, True):
        A, B = mk_dop(ga, c['a'], X, left), mk_dop(ga, c['b'], X, left)
        want = act(prod(terms(c['a']), terms(c['b']), left), d, left)
        C = apply(op, A, B)
        x.ok(isinstance(C, Dop) and C.cmpflg == left, 'product')
        got = apply(op2, M, C) if left else apply(op2, C, M)
        same_mv(x, got, want, n, '(D1 %s D2) %s F, left=%s' % (op, op2, left))
        if red(want) and op != op2:
            x.nt()
        # product with a multivector on the coefficient side
        C = apply(op, A, N) if left else apply(op, N, A)
        x.ok(isinstance(C, Dop) and C.cmpflg == left, 'product with a multivector')
        want = act([(pmul(R, op, co, md) if left else pmul(R, op, md, co), ix) for co, ix in terms(c['a'])], d, left)
        same_mv(x, apply(op2, M, C) if left else apply(op2, C, M), want, n, '(M %s D) %s F, left=%s' % (op, op2, left))
    A, B = mk_dop(ga, c['a'], X, False), mk_dop(ga, c['b'], X, True)
    for f in (lambda: A + B, lambda: A * B, lambda: B * A, lambda: A - B):
        try:
            f()
        except ValueError:
            continue
        x.fail('operators acting on different sides were combined')
    ga2 = Ga('f_1 f_2', g=[1, 1], coords=XS[:2])
    for f in (lambda: ga2.grad * M, lambda: M * ga2.rgrad, lambda: A + ga2.grad, lambda: A * ga2.grad, lambda: N * ga2.grad, lambda: ga2.rgrad * N):
        try:
            f()
        except ValueError:
            continue
        x.fail('operators of different algebras were combined')
    x.ok(not (A == ga2.grad), 'operators of different algebras compare equal')


CH = c15_charts = {
    'polar': (sympy.symbols('r theta', real=True), lambda r, t: (r * sympy.cos(t), r * sympy.sin(t))),
    'parabolic': (sympy.symbols('u v', real=True), lambda u, v: ((u * u - v * v) / 2, u * v)),
    'shear': (sympy.symbols('u v', real=True), lambda u, v: (u, v + u * u)),
}


@st.composite
def curv_cases(draw):
    return {'chart': draw(st.sampled_from(sorted(CH))), 'norm': draw(st.booleans()), 'a': draw(dop_leaf(2, 1)), 'b': draw(dop_leaf(2, 1)),
            'm': draw(field(2, 1, 1, ('',))), 'f': draw(field(2, 2, 1, ('',))), 'g': draw(st.sampled_from(['ab', 'ag', 'ga', 'gg', 'mg'])), 'left': draw(st.booleans())}


@check(P, curv_cases(), quick=48, shards=8, rule='a non-scalar field')
def curvilinear_composition(c, x):
    """composition, sums and multiplication of operators act as compositions also where the basis depends on position"""
    X, f = CH[c['chart']]
    norm = c['norm'] and c['chart'] != 'shear'
    U = Ga('e_1 e_2', X=f(*X), coords=tuple(X), norm=norm)
    left = c['left']
    g = U.rgrad if left else U.grad
    low = lambda t: [[fl, [min(k, 1) for k in ix]] for fl, ix in t]
    A, B = (mk_dop(U, low(t), X, left) for t in (c['a'], c['b']))
    M, d = mkfield(U, c['f'], X)
    N, _ = mkfield(U, c['m'], X)
    x.nt(any(m for m in d))
    x.label(c['chart'], c['g'])
    D, E = {'ab': (A, B), 'ag': (A, g), 'ga': (g, A), 'gg': (g, g), 'mg': (Dop([(N, Pdop({}))], ga=U, cmpflg=left), g)}[c['g']]
    app = (lambda D_, v: v * D_) if left else (lambda D_, v: D_ * v)
    lhs = app(D * E, M)
    rhs = (M * D) * E if left else D * (E * M)
    same_mv(x, lhs, coefs_of(rhs, 2), 2, '(D E) F against D(E F)')
    same_mv(x, app(D + E, M), coefs_of(app(D, M) + app(E, M), 2), 2, '(D+E) F')
    same_mv(x, app(D - N, M), coefs_of(app(D, M) - (M * N if left else N * M), 2), 2, '(D-N) F')
    same_mv(x, app(D * N if left else N * D, M), coefs_of(app(D, M) * N if left else N * app(D, M), 2), 2, 'N D F')
    S1 = Sdop([(X[0], Pdop(X[1])), (X[1], Pdop({}))])
    same_mv(x, S1 * M, coefs_of(X[0] * M.diff(X[1]) + X[1] * M, 2), 2, 'scalar operator on a field')
    if not left:
        same_mv(x, (S1 * D) * M, coefs_of(S1 * (D * M), 2), 2, '(S D) F')


@check(P, st.fixed_dictionaries({'n': st.integers(0, 3), 'k': st.integers(0, 3)}), quick=16, shards=1, rule='lengths differ')
def malformed(c, x):
    """operator constructors reject mismatched or mistyped arguments"""
    X = XS[:2]
    ga = Ga('e_1 e_2', g=[1, 1], coords=X)
    ps = [Pdop(X[0])] * c['n']
    cs = [X[1]] * c['k']
    ms = [ga.mv()[0]] * c['k']
    for f, exc in ((lambda: Sdop(cs, ps), ValueError), (lambda: Dop(ms, ps, ga=ga), ValueError)):
        if c['n'] != c['k']:
            x.nt()
            try:
                f()
            except exc:
                continue
            x.fail('mismatched lengths accepted')
        else:
            f()
    for f in (lambda: Sdop('x'), lambda: Sdop(), lambda: Sdop(1, 2, 3), lambda: Pdop('x'), lambda: Sdop((X[0],), (Pdop(X[0]),)),
              lambda: Dop(ga=ga), lambda: Dop([(X[0], Pdop(X[0]))], ga=ga), lambda: ga.grad / ga.mv()[0], lambda: ga.grad / ga.grad):
        try:
            f()
        except TypeError:
            continue
        x.fail('accepted')
    try:
        Dop([], ga=None)
    except ValueError:
        pass
    else:
        x.fail('Dop without an algebra accepted')
    E = Dop([], ga=ga)
    x.ok((E * ga.mv()[0]).is_zero() and E == ga.grad - ga.grad, 'empty operator')
    x.ok((Sdop([]) * ga.mv()[0]).is_zero() and isinstance(Sdop([]) * ga.mv()[0], Mv) and Sdop([])(X[0]) == 0, 'empty scalar operator')


@st.composite
def wide_cases(draw):
    n = draw(st.integers(4, 6))
    ix = st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n)

    def op():
        return [[[draw(G.small), [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(n)]], draw(ix)] for _ in range(draw(st.integers(1, 3)))]
    return {'n': n, 'a': op(), 'b': op(), 'i': draw(ix), 'j': draw(ix), 'f': [[draw(G.small), [draw(st.sampled_from([1, 2, 3])) for _ in range(n)]] for _ in range(2)], 'perm': draw(st.permutations(list(range(n)))),
            'm': draw(st.lists(st.integers(0, 15), min_size=2, max_size=2, unique=True)), 'k': draw(st.integers(0, 15)), 'op': draw(st.sampled_from(['*', '^', '|', '<', '>']))}


@check(P, wide_cases(), quick=100, shards=4, rule='the composition does not vanish')
def many_variables(c, x):
    """composition, sums, equality and application of the operators in four to six variables"""
    n = c['n']
    X = [Symbol('xyztuvw'[i], real=True) for i in c['perm']]
    mono = lambda m: sp(m[0]) * sympy.Mul(*[q ** k for q, k in zip(X, m[1])])
    f = sum((mono(m) for m in c['f']), S.Zero)
    i, j = c['i'], c['j']
    same = lambda a, b, w: x.ok(sympy.expand(S(a) - b) == 0, lambda: '%s: %s vs %s' % (w, a, b))
    PA, PB = pd(i, X), pd(j, X)
    same((PA * PB)(f), dd(dd(f, i, X), j, X), 'product of Pdops')
    x.ok(PA * PB == PB * PA == pd([p + q for p, q in zip(i, j)], X), 'product of Pdops')
    x.ok((PA == PB) == (i == j), 'equality of Pdops')

    def mk_(o):
        return Sdop([mono(m) for m, _ in o], [pd(k, X) for _, k in o])

    def act(o, e):
        return sympy.expand(sum((mono(m) * dd(e, k, X) for m, k in o), S.Zero))
    A, B = mk_(c['a']), mk_(c['b'])
    w = act(c['a'], act(c['b'], f))
    x.nt(w != 0, 'n%d' % n)
    same((A * B)(f), w, '(A*B) f')
    same((A + B)(f), act(c['a'], f) + act(c['b'], f), '(A+B) f')
    same((A * B - B * A)(f), w - act(c['b'], act(c['a'], f)), 'commutator')
    same((PA * A)(f), dd(act(c['a'], f), i, X), '(Pdop*Sdop) f')
    same((A * PA)(f), act(c['a'], dd(f, i, X)), '(Sdop*Pdop) f')
    x.ok(A + B == B + A, 'A+B == B+A')
    # multivector-valued operators of a four-dimensional algebra over four of the variables
    ga = Ga('e_0 e_1 e_2 e_3', g=[1, -1, -1, -1], coords=X[:4])
    bl = [b for b in ga.mv_blades.flat]
    b1, b2, bk = bl[c['m'][0]], bl[c['m'][1]], bl[c['k']]
    pr = lambda o, p, q: {'*': lambda: p * q, '^': lambda: p ^ q, '|': lambda: p | q, '<': lambda: p < q, '>': lambda: p > q}[o]()
    D = Dop([(A, b1), (Sdop([S.One], [PB]), b2)], ga=ga)
    F_ = ga.mv(f) * bk
    got = pr(c['op'], D, F_)
    want = pr(c['op'], b1, bk) * act(c['a'], f) + pr(c['op'], b2, bk) * dd(f, j, X)
    x.ok((got - want).is_zero(), lambda: 'D %s F is %s, expected %s' % (c['op'], got, want))
    E = pr('*', D, D)
    w2 = sum((p * q * bk * e for p, q, e in [(b1, b1, act(c['a'], act(c['a'], f))), (b1, b2, act(c['a'], dd(f, j, X))), (b2, b1, dd(act(c['a'], f), j, X)), (b2, b2, dd(dd(f, j, X), j, X))]), ga.mv(S.Zero))
    got = E * F_
    x.ok((got - w2).is_zero(), lambda: '(D*D) F is %s, expected %s' % (got, w2))
