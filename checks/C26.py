"""Coefficient-wise operations: value-preserving ones keep every coefficient, mapping ones act once on every coefficient."""
import importlib.util
import os
import sympy
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra import metric
from galgebra.metric import Simp
from galgebra.mv import Dop, Nga
from galgebra.dop import Pdop, Sdop

_s = importlib.util.spec_from_file_location('c22', os.path.join(os.path.dirname(__file__), 'C22.py'))
c22 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c22)

P = 'C26'
X, mkalg, build, coefficient, mvcase, algebra = c22.X, c22.mkalg, c22.build, c22.coefficient, c22.mvcase, c22.algebra

MORE = ['sin(p)**2+cos(p)**2', '(p**2-q**2)/(p+q)', 'p/q+q/p', 'sin(p)*cos(p)', '(p+q)**2-p**2', 'p*(q+1)-p*q', '1/(1+1/p)', 'sin(p)**2-1', 'exp(p)*exp(q)', 'cosh(p)**2-sinh(p)**2', 'x*(x+p)**2', '(x+y)*(x-y)', 'p*x+q*x+p',
        'p*x**2+q*x**2', 'sqrt(p**2+2*p*q+q**2+1)', 'sin(2*x)/2', '2**(p+1)', 'sin(x)/cos(x)', 'm**p*m', 'p-p', '0']
POOL = c22.ALL + MORE + MORE


def refdict(m, loc):
    d = {}
    for k, s in m:
        d[k] = d.get(k, S.Zero) + coefficient(s, loc)
    return d


def coefs(A):
    """coefficients read off the expression itself, not with the methods under test"""
    ga = A.Ga
    A = A.blade_rep()
    key = {b: m for m, b in zip(masks(ga.n)[1:], list(ga.blades.flat)[1:])}
    d = {}
    for t in sympy.Add.make_args(sympy.expand(A.obj)):
        c, nc = t.args_cnc()
        assert len(nc) < 2, nc
        k = key[nc[0]] if nc else 0
        d[k] = d.get(k, S.Zero) + sympy.Mul(*c)
    return d


def same(x, got, want, what):
    for k in set(got) | set(want):
        a, b = S(got.get(k, 0)), S(want.get(k, 0))
        r = is_zero_expr(a - b)
        if r is False:
            x.fail('%s: coefficient of blade %s is %s, expected %s' % (what, bits(k), a, b))


@st.composite
def cases(draw, pool=None, mx=4):
    c = draw(algebra(3))
    c['m'] = draw(mvcase(c['n'], pool or POOL, mx))
    c['form'] = draw(st.sampled_from(['plain', 'plain', 'plain', 'base', 'raw', 'factored', 'nested']))
    return c


def make(c):
    """the multivector in one of several internal forms, and its reference coefficients"""
    ga, loc, _ = mkalg(c)
    d = refdict(c['m'], loc)
    bl = dict(zip(masks(ga.n), ga.mv_blades.flat))
    form = c['form']
    if form in ('plain', 'base'):
        A = build(ga, c['m'], loc, ga.n)
        if form == 'base':
            A = A.base_rep()
    elif form == 'raw':       # straight from an expression, products left as they are
        A = ga.mv(sum((v * bl[k].obj for k, v in d.items()), S.Zero))
    elif form == 'factored':  # a common factor outside
        p = loc['p'] + loc['q']
        A = ga.mv(p * sum((v * bl[k].obj for k, v in d.items()), S.Zero))
        d = {k: v * p for k, v in d.items()}
    else:                     # the same blade in several terms
        q = loc['q']
        A = ga.mv(sum(((v - q) * bl[k].obj for k, v in d.items()), S.Zero) + q * sum((bl[k].obj for k in d), S.Zero))
    return ga, loc, A, {k: v for k, v in d.items() if is_zero_expr(v) is not True}


MODES = {'simplify': sympy.simplify, 'expand': sympy.expand, 'trigsimp': sympy.trigsimp, 'factor': sympy.factor, 'together': sympy.together, 'cancel': sympy.cancel, 'powsimp': sympy.powsimp}
CHEAP = ['expand', 'trigsimp', 'factor', 'together', 'cancel', 'powsimp']


def safe(f):
    """sympy's own simplifiers raise on some inputs; that is not what is tested here"""
    def g(c):
        try:
            return f(c)
        except (NotImplementedError, ZeroDivisionError, sympy.PolynomialError, AttributeError, RecursionError):
            return c
    return g


MODE = st.one_of(st.sampled_from(CHEAP), st.sampled_from(sorted(MODES)))
OPS = st.one_of(st.sampled_from([['expand'], ['collect'], ['collect', True], ['collect', False], ['trigsimp'], ['simplify'], ['func']]),
                st.lists(MODE, min_size=1, max_size=3).map(lambda l: ['simplify', l]), MODE.map(lambda m: ['simplify1', m]), MODE.map(lambda m: ['func', m]))


def apply_op(A, op):
    if op[0] == 'expand':
        return A.expand()
    if op[0] == 'collect':
        return A.collect(*op[1:])
    if op[0] == 'trigsimp':
        return A.trigsimp()
    if op == ['simplify']:
        return A.simplify()
    if op[0] == 'simplify':
        return A.simplify(modes=[safe(MODES[m]) for m in op[1]])
    if op[0] == 'simplify1':
        return A.simplify(safe(MODES[op[1]]))
    return A.func(safe(MODES[op[1]]) if len(op) > 1 else lambda c: c)


@check(P, st.tuples(cases(), st.lists(OPS, min_size=1, max_size=3)), quick=400, rule='some coefficient is not a number and not just a symbol')
def preserving(case, x):
    """expand / collect / trigsimp / simplify / func with identities: same value, input untouched"""
    c, ops = case
    ga, loc, A, d = make(c)
    x.nt(any(S(v).args for v in d.values()), c['form'], c['kind'], *[o[0] for o in ops])
    before = A.obj
    B = A
    for op in ops:
        try:
            C = apply_op(B, op)
        except (NotImplementedError, ZeroDivisionError) as e:
            if op in (['simplify'], ['trigsimp'], ['collect', True]):
                x.reject('sympy refuses a coefficient')
            raise
        x.ok(isinstance(C, Mv) and C.Ga is ga, '%s does not give a multivector of the algebra' % op)
        same(x, coefs(C), d, str(op))
        B = C
    x.ok(A.obj == before, 'the multivector changed')
    same(x, coefs(A), d, 'the original')
    if ops[-1] == ['expand'] and c['form'] in ('plain', 'raw'):
        for t in sympy.Add.make_args(B.obj):
            cf = sympy.Mul(*t.args_cnc()[0])
            x.ok(cf.has(sympy.Pow) or cf == sympy.expand(cf), 'expand left the coefficient %s' % cf)
    if ops[-1][0] == 'collect' and c['form'] != 'base':
        ks = [tuple(t.args_cnc()[1]) for t in sympy.Add.make_args(B.obj) if t.args_cnc()[1]]
        x.ok(len(ks) == len(set(ks)), 'collect left a blade in several terms: %s' % B.obj)


# --- maps: fct is not linear, so applying it twice, or to parts of a coefficient, shows

MAPS = {'sq1': lambda c: c ** 2 + 1, 'half': lambda c: c / 2, 'sinp': lambda c: sympy.sin(c), 'neg3': lambda c: 3 - c, 'cube': lambda c: c ** 3, 'inv': lambda c: 1 / (c ** 2 + 2)}


@check(P, st.tuples(cases(mx=3), st.lists(st.sampled_from(sorted(MAPS)), min_size=1, max_size=2), st.booleans()), quick=400, rule='nonzero multivector whose coefficients are not all numbers')
def mapping(case, x):
    """func and simplify(modes) apply the given functions, in order, once to every coefficient"""
    c, names, through = case
    if c['form'] == 'base' and c['kind'] != 'ortho':
        c = dict(c, form='plain')   # func works on the coefficients of the representation at hand
    ga, loc, A, d = make(c)
    if not d:
        x.reject('zero')
    if any(v.has(sympy.Function('F'), sympy.Function('K')) and v.has(sympy.Derivative) for v in d.values()) and 'sinp' in names:
        x.reject('value of the derivative is unknown')
    x.nt(any(v.free_symbols for v in d.values()), c['form'], *names)
    seen = []

    def counting(f, name):
        def g(t):
            seen.append(t)
            return f(t)
        g.__name__ = name
        return g
    fs = [MAPS[m] for m in names]
    if through:
        B = A.simplify(modes=[counting(f, m) for f, m in zip(fs, names)])
    else:
        B = A
        for f, m in zip(fs, names):
            B = B.func(counting(f, m))
    want = dict(d)
    for f in fs:
        want = {k: f(v) for k, v in want.items()}
        want = {k: v for k, v in want.items() if through or is_zero_expr(v) is not True}
    same(x, coefs(B), want, '%s %s' % ('simplify' if through else 'func', names))
    x.ok(len(seen) <= len(names) * (len(d) + 1), 'functions were called %d times for %d coefficients' % (len(seen), len(d)))


SUBS = st.lists(st.tuples(st.sampled_from(['p', 'q', 'm', 'x', 'y', 'r_1', 'alpha']), st.sampled_from(['0', '2', '1/3', 'q', 'p', 'q+1', 'p*q', 'x', 'x+p', 'm', '-p', 'sin(q)', 'pi', '3*m'])), min_size=1, max_size=3, unique_by=lambda t: t[0])


@check(P, st.tuples(cases(mx=4), SUBS, st.sampled_from(['pair', 'dict', 'list', 'simultaneous'])), quick=400, rule='a substituted symbol occurs')
def substitution(case, x):
    c, subs, how = case
    ga, loc, A, d = make(c)
    if c['kind'] in ('curved', 'symbolic') and c['form'] == 'base':
        c = dict(c, form='plain')   # base products involve the metric, which depends on x
        ga, loc, A, d = make(c)
    if how == 'pair':
        subs = subs[:1]
    pairs = [(loc[a], coefficient(b, loc)) for a, b in subs]
    x.nt(any(v.has(*[a for a, _ in pairs]) for v in d.values()), how, c['form'])
    if how == 'pair':
        args, kw = pairs[0], {}
    elif how == 'dict':
        args, kw = (dict(pairs),), {}
    elif how == 'list':
        args, kw = (pairs,), {}
    else:
        args, kw = (dict(pairs),), {'simultaneous': True}
    want = {k: v.subs(*args, **kw) for k, v in d.items()}
    if any(v.has(sympy.nan, sympy.zoo, sympy.oo) for v in want.values()):
        x.reject('infinite')
    before = A.obj
    B = A.subs(*args, **kw)
    got = coefs(B)
    if any(v.has(sympy.nan, sympy.zoo, sympy.oo) for v in got.values()):
        x.reject('infinite')
    x.ok(B.Ga is ga and A.obj == before, 'subs changed its operand or the algebra')
    same(x, got, want, 'subs%r' % (args,))


NUMS = ['1', '-2', '1/3', '-22/7', 'sqrt(2)', 'pi', 'exp(1)', '1+sqrt(3)', 'p/3', 'sqrt(2)*p', 'p**2/7', '2*p+q/9', 'pi*x', 'sin(p)/3', '0.1234567890123', '1234.56789012', '1e-4*p', '123456789', 'sqrt(3)*F', '7/11*x*p', 'p**2', 'sin(1)', 'log(2)*q']


@check(P, st.tuples(cases(NUMS, 4), st.sampled_from([None, 3, 5, 8, 15, 20])), quick=300, rule='some number is not exact at the requested precision')
def rounding(case, x):
    """Nga: every number rounded to the precision, nothing else"""
    c, prec = case
    ga, loc, A, d = make(c)
    if c['form'] == 'factored' or (c['form'] == 'nested'):
        x.reject('rounding before expanding cancels digits')
    if c['form'] == 'base' and c['kind'] != 'ortho':
        c = dict(c, form='plain')
        ga, loc, A, d = make(c)
    x.nt(any(v.has(sympy.Rational, sympy.Float, sympy.pi, sympy.sqrt(2)) for v in d.values()), str(prec))
    B = Nga(A) if prec is None else Nga(A, prec)
    p = 5 if prec is None else prec
    got = coefs(B)
    x.ok(B.Ga is ga, 'algebra changed')
    x.ok(set(got) - {k for k, v in got.items() if v == 0} == set(d), 'blades %s, expected %s' % (sorted(got), sorted(d)))
    for k, v in d.items():
        e, g = opaque(v), opaque(S(got[k]))
        x.ok(g.free_symbols == e.free_symbols, 'symbols of %s changed: %s' % (v, got[k]))
        for i in range(2):
            pt = point(e.free_symbols, i)
            a, b = sympy.N(e.xreplace(pt), 40), sympy.N(g.xreplace(pt), 40)
            x.ok(abs(a - b) <= 4 * abs(a) * sympy.Float(10) ** (1 - min(p, 15)) + sympy.Float(10) ** -18, 'Nga(., %s): %s became %s' % (prec, v, got[k]))
        if e.is_number and not e.is_Integer and p <= 8 and not e.has(sympy.Float):
            x.ok(abs(a - b) > 0, 'Nga(., %s) did not round %s' % (prec, v))
    # scalars go to sympy
    s = list(d.values())[0] if d else S.Zero
    x.ok(Nga(s, p) == sympy.N(s, p), 'Nga of a scalar')


# --- linear_expand and friends, used by everything above

@check(P, cases(mx=6), quick=300, rule='at least two blades')
def expansion_helpers(c, x):
    ga, loc, A, d = make(c)
    x.nt(len(d) > 1, c['form'])
    cs, bs = metric.linear_expand(A.obj)
    x.ok(len(cs) == len(bs) == len(set(bs)), 'bases are not distinct: %s' % (bs,))
    x.ok(all(S(v).is_commutative for v in cs) and all(b == 1 or not b.is_commutative for b in bs), 'coefficients and bases mixed up: %s %s' % (cs, bs))
    x.ok(sympy.expand(sum((v * b for v, b in zip(cs, bs)), S.Zero) - A.obj) == 0, 'linear_expand does not add up')
    x.ok([tuple(t) for t in metric.linear_expand_terms(A.obj)] == list(zip(cs, bs)), 'linear_expand_terms differs')
    nc = [b for b in bs if b != 1]
    for sel in (nc, nc[:1], list(ga.blades.flat)[1:], []):
        r = metric.collect(A.obj, sel)
        x.ok(is_zero(sympy.expand(r - A.obj)), 'metric.collect changed the value')
        ts = [t.args_cnc()[1][0] for t in sympy.Add.make_args(r) if t.args_cnc()[1]]
        x.ok(all(ts.count(b) <= 1 for b in sel if sel and c['form'] != 'base'), 'metric.collect left %s in several terms' % sel)
    f = [lambda v: v + 1, lambda v: 2 * v, lambda v: v ** 2]
    x.ok(metric.apply_function_list(f, S(3)) == 64 and metric.apply_function_list(f[0], S(3)) == 4 and metric.apply_function_list(tuple(f[:2]), S(3)) == 8, 'apply_function_list')


def is_zero(e):
    return e == 0 or all(is_zero_expr(t) is not False for t in coefs_nc(e).values())


def coefs_nc(e):
    d = {}
    for t in sympy.Add.make_args(sympy.expand(e)):
        c, nc = t.args_cnc()
        d[tuple(nc)] = d.get(tuple(nc), S.Zero) + sympy.Mul(*c)
    return d


# --- installing another simplification function

PROFILES = {'simplify': [sympy.simplify], 'expand': [sympy.expand], 'trigsimp': [safe(sympy.trigsimp)], 'factor': [safe(sympy.factor)], 'two': [sympy.expand, safe(sympy.factor)], 'tuple': (sympy.expand, safe(sympy.cancel)), 'id': [lambda c: c], 'none': []}
HOP = st.one_of(st.tuples(st.just('profile'), st.sampled_from(sorted(PROFILES))), st.tuples(st.just('profile'), st.sampled_from(['expand', 'trigsimp', 'factor', 'id'])), st.just(('restore',)),
                st.sampled_from([('str',), ('applymv',), ('apply',), ('tsimplify',), ('sdop',), ('norm',), ('grad',), ('product',)]), st.sampled_from([('str',), ('applymv',), ('grad',), ('tsimplify',)]))


@check(P, st.tuples(cases(c22.NUM + c22.SYM + MORE, 3), st.lists(HOP, min_size=3, max_size=8)), quick=250, rule='something is computed under a replaced simplification function and again after restoring')
def profiles(case, x):
    """Simp.profile changes how coefficients look, never their value; and it can be put back"""
    c, ops = case
    if c['form'] == 'base':
        c = dict(c, form='plain')
    if c['names'] == 'letters' or c['kind'] == 'symbolic':
        c = dict(c, names='e', kind='ortho' if c['kind'] == 'symbolic' else c['kind'])
    original = Simp.modes
    cur = 'start'
    used = set()
    shown = {}
    try:
        ga, loc, A, d = make(c)
        R = c22.reader(ga, loc, c['wedge'] is False and ga.n > 1)
        gradref = None
        for op in ops + [('restore',)] + sorted({o for o in map(tuple, ops) if o[0] == 'str'}):
            k = op[0]
            if k == 'profile':
                Simp.profile(PROFILES[op[1]])
                cur = op[1]
                continue
            if k == 'restore':
                Simp.profile(original)
                cur = 'start'
                continue
            used.add((k, cur == 'start'))
            what = '%s under %s' % (k, cur)
            if k == 'str':
                s = str(A)
                shown.setdefault(cur, s)
                x.ok(shown[cur] == s, '%s: printed %r, before %r' % (what, s, shown[cur]))
                c22.read_mv(x, R, s, A, what)
            elif k == 'applymv':
                same(x, coefs(Simp.applymv(A)), d, what)
            elif k == 'apply':
                same(x, coefs(ga.mv(Simp.apply(A.obj))), d, what)
                Simp.profile([lambda v: v ** 2 + 1])
                try:
                    if d:
                        same(x, coefs(Simp.applymv(A)), {q: v ** 2 + 1 for q, v in d.items()}, 'Simp.applymv with c -> c**2 + 1')
                finally:
                    Simp.profile(original if cur == 'start' else PROFILES[cur])
            elif k in ('tsimplify', 'sdop'):
                if k == 'tsimplify':
                    D = Dop([(A, Pdop(ga.coords[0])), (ga.mv(loc['p']) + A, Pdop({}))], ga=ga)
                    T = D.TSimplify()
                    x.ok(T.Ga is ga and T.cmpflg == D.cmpflg, 'TSimplify changed the algebra or the side')
                    for E in (T, D.simplify(modes=list(PROFILES[cur]) if cur != 'start' else [sympy.expand])):
                        x.ok(len(E.terms) == len(D.terms), 'terms lost')
                        for (c1, p1), (c2, p2) in zip(D.terms, E.terms):
                            x.ok(p1 == p2, 'simplifying changed the derivative')
                            same(x, coefs(c2), coefs(c1), what)
                else:
                    D = Sdop([(v, Pdop(ga.coords[0])) for v in list(d.values())[:1]] + [(loc['p'] + v, Pdop({})) for v in list(d.values())[1:2]])
                    for E in (D.TSimplify(), D.simplify(), D.simplify(modes=[sympy.expand, sympy.expand]), D.simplify(sympy.expand)):
                        x.ok(isinstance(E, Sdop) and [p for _, p in E.terms] == [p for _, p in D.terms], 'terms changed')
                        for (c1, _), (c2, _) in zip(D.terms, E.terms):
                            x.ok(is_zero_expr(c1 - c2) is not False, '%s: %s became %s' % (what, c1, c2))
            elif k == 'norm':
                th = X[0]
                h = Ga('e_u e_v', g=[(sympy.sin(th) ** 2 + 1) ** 2, 1 + th ** 2], coords=X[:2], norm=True)
                x.ok(all(is_zero_expr(h.g[i, j] - (i == j)) is not False for i in range(2) for j in range(2)), '%s: normalised metric %s' % (what, h.g))
                same(x, coefs(h.grad | (h.mv()[1] * th)), {}, what)     # divergences known in closed form
                v = h.grad | h.mv()[0]
                a, b = (sympy.sin(th) ** 2 + 1), sympy.sqrt(1 + th ** 2)
                same(x, coefs(v), {0: sympy.diff(b, th) / (a * b)}, what)
            elif k == 'grad':
                g = coefs(ga.grad * A)
                if gradref is None:
                    Simp.profile(original)
                    ga2, loc2, A2, _ = make(c)
                    gradref = coefs(ga2.grad * A2)
                    Simp.profile(original if cur == 'start' else PROFILES[cur])
                same(x, g, gradref, what)
                Simp.profile(original if cur == 'start' else PROFILES[cur])
                ga3, _, A3, _ = make(c)
                same(x, coefs(ga3.grad * A3), gradref, what + ' (algebra built under it)')
            else:
                same(x, coefs(A * A), coefs(A ** 2), what)
    finally:
        Simp.profile(original)
    x.nt(any(not r for _, r in used) and any(r for _, r in used), *sorted(k for k, _ in used))
