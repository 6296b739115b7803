"""Symbolic plumbing: expansion into basis elements, substitution, symbol lists, roots, symbolic matrices, containers."""
import contextlib
import io
import pickle
import copy
import warnings
from runner import check, CaseTimeout
from gu import *
import gens as G
from gens import st
import galgebra.metric as gm
import galgebra.ga as gg
import galgebra.lt as glt
import galgebra.mv as gmv
from galgebra.atoms import BasisVectorSymbol, BasisBladeSymbol, BasisBladeNoWedgeSymbol, BasisBaseSymbol, DotProductSymbol

P = 'C30'
X, Y, Z = sympy.symbols('x y z', real=True)
NC = [sympy.Symbol(s, commutative=False) for s in ('N1', 'N2')] + [BasisVectorSymbol(s) for s in ('e1', 'e2', 'e3')]
NC += [BasisBladeSymbol(NC[2], NC[3]), BasisBaseSymbol(NC[2], NC[3]), BasisBladeSymbol(NC[2], NC[3], NC[4]), BasisBladeSymbol(NC[2], NC[4])]
CO = [lambda: S(1), lambda: S(-2), lambda: Rational(1, 2), lambda: X, lambda: X + Y, lambda: Rational(1, 3) * (X - 1), lambda: sympy.sin(X), lambda: 1 / (X + 2), lambda: X * Y - 3, lambda: (X + 1) ** 2, lambda: S(-1)]


# ---------------------------------------------------------------- linear combinations of noncommutative atoms
# an expression is a sum of   [coef indexes, [ [coef idx, nc idx or -1], ... ], divisor]   = prod(coefs) * (sum) / divisor, added repeat times
part = st.tuples(st.lists(st.integers(0, len(CO) - 1), max_size=2), st.lists(st.tuples(st.integers(0, len(CO) - 1), st.integers(-1, len(NC) - 1)), min_size=1, max_size=3),
                 st.sampled_from([1, 1, 2, 3]), st.sampled_from([1, 1, 2, 3]))
lincase = st.fixed_dictionaries({'p': st.lists(part, min_size=1, max_size=4), 'extra': st.permutations(list(range(len(NC)))), 'k': st.integers(0, len(NC))})


def mkexpr(c):
    """(sympy expression, {atom or 1: exact coefficient})"""
    e, want = S.Zero, {}
    for cs, terms, d, rep in c['p']:
        f = S.One
        for i in cs:
            f = f * CO[i]()
        f = f / d
        s = S.Zero
        for i, j in terms:
            b = NC[j] if j >= 0 else S.One
            s = s + CO[i]() * b
            want[b] = want.get(b, S.Zero) + rep * f * CO[i]()
        s = f * s
        for _ in range(rep):
            e = e + s
    return e, {b: v for b, v in want.items() if sympy.expand(v) != 0}


def check_lin(x, got, want, what):
    """got: list of (coef, base)"""
    bs = [b for _, b in got]
    x.ok(len(set(bs)) == len(bs), lambda: '%s repeats a base: %s' % (what, bs))
    d = {}
    for k, b in got:
        x.ok(S(k).is_commutative, lambda: '%s: coefficient %s of %s is not a scalar' % (what, k, b))
        d[b] = k
    for b in set(d) | set(want):
        x.ok(b == S.One or b in NC, lambda: '%s: %s is no base' % (what, b))
        x.ok(is_zero_expr(S(d.get(b, 0)) - want.get(b, 0)) is not False, lambda: '%s: coefficient of %s is %s, expected %s' % (what, b, d.get(b, 0), want.get(b, 0)))


@check(P, lincase, quick=600, shards=4, rule='at least two different bases')
def linear_expand_parts(c, x):
    """linear_expand splits every linear combination of noncommutative symbols, however it was put together, into distinct bases with their coefficients"""
    e, want = mkexpr(c)
    coefs, bases = gm.linear_expand(e)
    x.nt(len(want) > 1)
    x.ok(len(coefs) == len(bases), 'lengths differ')
    check_lin(x, list(zip(coefs, bases)), want, 'linear_expand(%s)' % e)
    check_lin(x, list(gm.linear_expand_terms(e)), want, 'linear_expand_terms(%s)' % e)
    f = gm.flat_sum(e)
    x.ok(not isinstance(f, sympy.Add) or not any(isinstance(a, sympy.Add) for a in f.args), lambda: 'flat_sum(%s) is nested' % e)
    check_lin(x, list(zip(*gm.linear_expand(f))), want, 'flat_sum(%s)' % e)


@check(P, lincase, quick=400, shards=4, rule='at least two different bases')
def collect_and_apply(c, x):
    """collect combines the coefficients of each listed symbol into one term and changes no value; Simp.apply changes no value and applies the profile to every coefficient"""
    e, want = mkexpr(c)
    x.nt(len(want) > 1)
    lst = [NC[i] for i in c['extra'][:c['k']]]
    if c['k'] % 2:
        lst.append(S.One)
    r = gm.collect(e, lst)
    check_lin(x, list(gm.linear_expand_terms(r)), want, 'collect(%s, %s)' % (e, lst))
    terms = r.args if isinstance(r, sympy.Add) else [r]
    for b in lst:
        if b != S.One:
            x.ok(sum(1 for w in terms if b in w.args_cnc()[1]) <= 1, lambda: 'collect(%s, %s) = %s lists %s twice' % (e, lst, r, b))
    seen = []

    def spy(k):
        seen.append(k)
        return k + 0
    old = gm.Simp.modes
    try:
        gm.Simp.profile(spy)
        check_lin(x, list(gm.linear_expand_terms(gm.Simp.apply(e))), want, 'Simp.apply, function')
        k = len(seen)
        x.ok(k >= len(want), lambda: 'profile applied to %d of %d coefficients' % (k, len(want)))
        gm.Simp.profile([sympy.factor, spy, sympy.expand])
        check_lin(x, list(gm.linear_expand_terms(gm.Simp.apply(e))), want, 'Simp.apply, list')
        x.ok(len(seen) >= k + len(want), 'profile list was not applied to every coefficient')
    finally:
        gm.Simp.modes = old
    check_lin(x, list(gm.linear_expand_terms(gm.Simp.apply(e))), want, 'Simp.apply, default')


@check(P, st.fixed_dictionaries({'l': lincase, 'keys': st.lists(st.integers(0, len(NC) - 1), min_size=1, max_size=6, unique=True), 'vals': st.lists(lincase, min_size=6, max_size=6), 'swap': st.booleans(), 'pairs': st.booleans()}),
       quick=500, shards=4, rule='a key occurs in the expression')
def simultaneous_substitution(c, x):
    """nc_subs replaces every listed symbol at once (values are not substituted into), coefficients and other terms stay"""
    e, want = mkexpr(c['l'])
    e = sympy.expand(e)
    keys = [NC[i] for i in c['keys']]
    if c['swap']:
        vals = keys[1:] + keys[:1]
        wv = [{v: S.One} for v in vals]
    else:
        vw = [mkexpr(v) for v in c['vals'][:len(keys)]]
        vals, wv = [v for v, _ in vw], [w for _, w in vw]
    r = gg.nc_subs(e, list(zip(keys, vals))) if c['pairs'] else gg.nc_subs(e, keys, vals)
    out = {}
    for b, k in want.items():
        for b2, k2 in (wv[keys.index(b)].items() if b in keys else [(b, S.One)]):
            out[b2] = out.get(b2, S.Zero) + k * k2
    x.nt(any(b in keys for b in want))
    x.label('permutation' if c['swap'] else 'general')
    check_lin(x, list(gm.linear_expand_terms(r)), out, 'nc_subs(%s)' % e)


@check(P, st.fixed_dictionaries({'m': G.ga_and_mvs(2, 2, 4, 4, 1), 'k': st.integers(0, 3)}), quick=200, shards=4, rule='both factors have at least two terms')
def product_tables(c, x):
    """update_and_substitute is bilinear in the product table; tables of deprecated names are the current ones"""
    ga, R = mk(c['m']['ga'])
    n = R.n
    a, b = [mvd(m) for m in c['m']['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    nm = ('mul', 'wedge', 'left_contract', 'right_contract')[c['k']]
    op = getattr(ga, nm)
    want = {'mul': R.mul, 'wedge': R.wedge, 'left_contract': R.lc, 'right_contract': R.rc}[nm](a, b)
    x.nt(len(a) > 1 and len(b) > 1)
    if nm == 'mul' and not ga.is_ortho:
        A, B = A.base_rep(), B.base_rep()
    if hasattr(op, 'table_dict'):
        eq_ref(x, mvof(ga, gg.update_and_substitute(A.obj, B.obj, op.table_dict), A.is_blade_rep), want, n, 'update_and_substitute, ' + nm)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dep = {'mul': 'mul_table_dict', 'wedge': 'wedge_table_dict', 'left_contract': 'left_contract_table_dict', 'right_contract': 'right_contract_table_dict'}[nm]
        x.ok(getattr(ga, dep) is op.table_dict, lambda: dep + ' is not the table in use')
        x.ok(ga.dot_table_dict is ga.hestenes_dot.table_dict, 'dot_table_dict is not the table in use')
        x.ok(tuple(ga.blades_lst) == ga.blades.flat[1:] and tuple(ga.indexes_lst) == ga.indexes.flat[1:], 'blades_lst, indexes_lst')
        x.ok(ga.is_ortho or tuple(ga.bases_lst) == ga.bases.flat[1:], 'bases_lst')
        x.ok(dict(ga.blades_to_indexes_dict) == {v: k for k, v in ga.indexes_to_blades_dict.items()}, 'blades_to_indexes_dict')
        x.ok(dict(ga.indexes_to_blades) == dict(ga.indexes_to_blades_dict) and dict(ga.blades_to_indexes) == dict(ga.blades_to_indexes_dict), 'indexes_to_blades')
        x.ok(ga.E() is ga.e and ga.I() is ga.i and ga.mv_I == ga.e, 'E, I, mv_I')
        x.ok(tuple(ga.mv_basis) == tuple(ga.mv()), 'mv_basis')
        if not ga.is_ortho:
            x.ok(ga.basic_mul_table_dict is ga.basic_mul.table_dict, 'basic_mul_table_dict')
            x.ok(dict(zip(ga.basic_mul_keys, ga.basic_mul_values)) == dict(ga.basic_mul_table_dict), 'basic_mul_keys/values')
            x.ok(dict(ga.base_expansion) == dict(ga.base_expansion_dict) and dict(ga.blade_expansion) == dict(ga.blade_expansion_dict) or
                 (list(ga.base_expansion), list(ga.blade_expansion)) == (list(ga.base_expansion_dict.values()), list(ga.blade_expansion_dict.values())), 'expansions')


def mvof(ga, obj, blade):
    m = ga.mv(obj)
    m.is_blade_rep = blade
    return m


# ---------------------------------------------------------------- symbol lists
word = st.text('abkxyz', min_size=1, max_size=3)
sname = st.builds(lambda a, sep, b: a + (sep + b if sep else ''), word, st.sampled_from(['', '_', '__', '^']), st.sampled_from(['1', '2', 'r', 'theta']))


@check(P, st.fixed_dictionaries({'kind': st.sampled_from(['comma', 'space', 'alt', 'count', 'indices', 'list', 'badcount', 'empty']), 'names': st.lists(sname, min_size=1, max_size=5, unique=True),
                                 'idx': st.lists(st.one_of(st.integers(0, 12), word), min_size=1, max_size=5, unique=True), 'base': word, 'n': st.integers(0, 6), 'trail': st.booleans(),
                                 'sub': st.booleans(), 'comm': st.booleans()}), quick=400, shards=2, rule='at least two symbols')
def symbol_lists(c, x):
    """symbols_list follows its documented grammar"""
    k, ns = c['kind'], list(c['names'])
    pos = '_' if c['sub'] else '__'
    kw = dict(sub=c['sub'], commutative=c['comm'])

    def sup(s):                                   # subscripts become superscripts on request
        if c['sub']:
            return s
        i = s.find('_')
        return s if i < 0 else s[:i] + '__' + s[i + 1:]
    if k == 'comma' or (k == 'space' and len(ns) == 1 and c['trail']):
        s = ','.join(ns) + (',' if c['trail'] or len(ns) == 1 else '')
        want = [sup(q) for q in ns]
    elif k == 'space':
        s, want = ' '.join(ns), [sup(q) for q in ns]
    elif k == 'alt':
        if len(c['idx']) < 2:
            x.reject()
        s, want = c['base'] + '*' + '|'.join(map(str, c['idx'])), [c['base'] + pos + str(i) for i in c['idx']]
    elif k == 'count':
        s, want = c['base'] + '*' + str(c['n']), [c['base'] + pos + str(i) for i in range(c['n'])]
    elif k == 'indices':
        s, want = c['base'], [c['base'] + pos + str(i) for i in c['idx']]
        kw['indices'] = tuple(c['idx']) if c['trail'] else list(c['idx'])
    elif k == 'list':
        lst = [sympy.Symbol(q) for q in ns]
        x.ok(gm.symbols_list(lst, **kw) == lst, 'a list of symbols was changed')
        x.label(k)
        return
    elif k == 'empty':
        x.ok(gm.symbols_list('', **kw) == [], 'empty string')
        x.label(k)
        return
    else:
        try:
            r = gm.symbols_list(c['base'] + '*' + c['base'], **kw)
        except ValueError:
            x.label(k)
            return
        x.fail('accepted %s*%s: %s' % (c['base'], c['base'], r))
    r = gm.symbols_list(s, **kw)
    x.nt(len(want) > 1)
    x.label(k)
    x.ok([q.name for q in r] == want, lambda: 'symbols_list(%r, %s) = %s, expected %s' % (s, kw, r, want))
    x.ok(all(q.is_commutative is c['comm'] and isinstance(q, Symbol if c['comm'] else BasisVectorSymbol) for q in r), lambda: 'commutativity of %s' % r)
    if k in ('comma', 'space', 'alt', 'count') and c['sub'] and not c['comm'] and 1 < len(want) < 5:
        ga = gg.Ga(s, g=[1] * len(want))
        x.ok([b.name for b in ga.basis] == want, lambda: 'basis of Ga(%r): %s' % (s, ga.basis))


# ---------------------------------------------------------------- roots and absolute values
facs = [lambda: X, lambda: X - 1, lambda: X + Y, lambda: X ** 2 + 1, lambda: X * Y + 2, lambda: Y, lambda: X ** 2 + Y ** 2 + 1, lambda: X - Y]
rootcase = st.fixed_dictionaries({'f': st.lists(st.tuples(st.integers(0, len(facs) - 1), st.sampled_from([1, 2, 2, 2, 4, -2, -2, 3, -1])), max_size=3), 'c': st.sampled_from([1, 4, -1, 2, '1/4', -9, '-2/3', 7]),
                                  'trig': st.sampled_from([0, 0, 1, 2]), 'hint': st.sampled_from(['0', '+', '-', None]), 'form': st.sampled_from(['as is', 'expand', 'together'])})


def near(a, b):
    a, b = sympy.N(a, 40), sympy.N(b, 40)
    return abs(a - b) <= sympy.Float('1e-25') * (1 + abs(b))


@check(P, rootcase, quick=500, shards=4, rule='the expression is not a number')
def roots(c, x):
    """square_root_of_expr(e)**2 is |e| wherever the sign of e is decidable or unknown, and e or -e as hinted"""
    e = sp(c['c'])
    even = True
    used = {}
    for i, p in c['f']:
        e = e * facs[i]() ** p
        used[i] = used.get(i, 0) + p
    even = all(p % 2 == 0 for p in used.values())
    if c['trig'] == 1:
        e = e * (sympy.sin(Z) ** 2 + sympy.cos(Z) ** 2)
    if c['trig'] == 2:
        e = e * sympy.sin(Z) ** 2
    if c['form'] == 'expand':
        e = sympy.expand(e)
    elif c['form'] == 'together':
        e = sympy.together(sympy.expand(e))
    hint = c['hint'] or '0'
    r = gm.square_root_of_expr(e, hint) if c['hint'] else gm.square_root_of_expr(e)
    x.nt(not e.is_number, 'even' if even else 'not even', 'hint ' + hint)
    x.ok(isinstance(r, Expr), 'no expression')
    sgn = None
    if e.is_number:
        sgn = sympy.sign(e)
    elif (e >= 0) == True:                        # noqa: E712
        sgn = S.One
    elif (e <= 0) == True:                        # noqa: E712
        sgn = -S.One
    if even and not r.has(sympy.Abs) and sgn is None and c['trig'] != 1:
        x.label('rational root')
    n = 0
    for k in range(8):
        pt = point({X, Y, Z}, k)
        if k % 2:
            pt = {s: (-v if (j + k // 2) % 2 else v) for j, (s, v) in enumerate(sorted(pt.items(), key=lambda q: q[0].name))}
        ev = e.xreplace(pt)
        if ev.has(sympy.zoo, sympy.nan) or ev == 0:
            continue
        r2 = sympy.N(r.xreplace(pt), 50) ** 2
        n += 1
        if hint == '0' or even or sgn is not None or (ev > 0) == (hint == '+'):
            # even powers: the root of the absolute value of the constant times the root powers
            x.ok(near(r2, abs(ev)), lambda: 'square_root_of_expr(%s, %s)**2 = (%s)**2 = %s at %s, |expr| = %s' % (e, hint, r, r2, pt, sympy.N(abs(ev))))
        else:                                     # the hint is wrong here (simplification may find that out)
            x.ok(near(abs(r2), abs(ev)), lambda: 'square_root_of_expr(%s, %s)**2 = (%s)**2 = %s at %s, expected %s or its negative' % (e, hint, r, r2, pt, sympy.N(ev)))


@check(P, st.fixed_dictionaries({'r': rootcase, 'bad': st.integers(0, 9)}), quick=300, shards=2, rule='the expression is not a number')
def absolute_values(c, x):
    """abs_with_hint is the absolute value, e or -e: e itself where it is >= 0, -e where <= 0, as hinted otherwise; other hints are refused"""
    e = sp(c['r']['c'])
    for i, p in c['r']['f']:
        e = e * facs[i]() ** p
    hint = c['r']['hint'] or '0'
    if c['bad'] == 0:
        hint = 'x'
    known = 0 if e == 0 else (1 if e.is_nonnegative else -1 if e.is_nonpositive else None)
    x.nt(not e.is_number, 'known' if known is not None else 'unknown', 'hint ' + hint)
    try:
        r = gm.abs_with_hint(e, hint)
    except ValueError:
        x.ok(hint == 'x' and not e.is_number, lambda: 'abs_with_hint(%s, %r) was refused' % (e, hint))
        return
    x.ok(hint != 'x' or known is not None, lambda: 'hint x was accepted for %s' % e)
    n = 0
    for k in range(6):
        pt = point({X, Y, Z}, k)
        if k % 2:
            pt = {s: -v for s, v in pt.items()}
        ev, rv = e.xreplace(pt), r.xreplace(pt)
        if ev.has(sympy.zoo, sympy.nan):
            continue
        want = abs(ev) if (hint in '0x' or known is not None) else ev if hint == '+' else -ev
        x.ok(near(rv, want), lambda: 'abs_with_hint(%s, %r) = %s' % (e, hint, r))


# ---------------------------------------------------------------- symbolic matrices
@check(P, st.fixed_dictionaries({'n': st.integers(1, 5), 'mode': st.sampled_from('gsax'), 'f': st.booleans(), 'kernel': st.sampled_from('ABM'), 'tuple': st.booleans(), 'kw': st.booleans(), 'bad': st.integers(0, 6)}),
       quick=150, shards=1, rule='at least 2 x 2')
def symbolic_matrices(c, x):
    """Symbolic_Matrix is square, real, general / symmetric / antisymmetric with all entries independent, functions of exactly the coordinates when asked"""
    n, mode = c['n'], c['mode']
    cs = list(sympy.symbols('x1:%d' % (n + 1), real=True))
    coords = tuple(cs) if c['tuple'] else cs
    x.nt(n > 1, mode)
    if c['bad'] == 0:
        coords = None if c['tuple'] else 'xyz'
    try:
        M = glt.Symbolic_Matrix(c['kernel'], coords=coords, f=c['f'], mode=mode)
        if mode == 'g' and c['kw']:
            M = glt.Symbolic_Matrix(c['kernel'], coords, c['f'])
    except ValueError:
        x.ok(mode == 'x' or c['bad'] == 0, 'refused')
        return
    x.ok(mode != 'x' and c['bad'] != 0, 'accepted mode %s, coords %s' % (mode, coords))
    x.ok(M.shape == (n, n), 'shape')
    if mode == 's':
        x.ok(M == M.T, 'not symmetric')
    if mode == 'a':
        x.ok(M == -M.T, 'not antisymmetric')
    ent = [M[i, j] for i in range(n) for j in range(n) if mode == 'g' or i < j or (mode == 's' and i == j)]
    x.ok(len(set(ent)) == len(ent), 'entries are not independent')
    for e in ent:
        if c['f']:
            x.ok(isinstance(e, sympy.core.function.AppliedUndef) and list(e.args) == cs, lambda: 'entry %s' % e)
        else:
            x.ok(isinstance(e, Symbol) and e.is_real and e not in cs, lambda: 'entry %s' % e)
        x.ok((e.func.__name__ if c['f'] else e.name).lstrip('{').startswith(c['kernel']), lambda: 'entry %s' % e)


@check(P, st.fixed_dictionaries({'ga': G.ga(2, 4), 'm': st.lists(st.lists(G.coef, min_size=4, max_size=4), min_size=4, max_size=4), 'mv': st.booleans(), 'scale': st.sampled_from([1, 2, 3])}), quick=150, shards=2, rule='every case')
def matrix_dictionary(c, x):
    """Matrix_to_dictionary maps basis vector j to column j; Dictionary_to_Matrix undoes it (values symbols or multivectors, however written); other shapes are refused"""
    ga = mk_ga(c['ga'])
    n = ga.n
    M = Matrix(n, n, lambda i, j: sp(c['m'][i][j]))
    if c['scale'] == 2:
        M[0, 0] = X ** 2 + 1
    D = glt.Matrix_to_dictionary(M, ga.basis)
    x.nt(True)
    x.ok(set(D) == set(ga.basis), 'keys')
    for j in range(n):
        d = sympy.expand(D[ga.basis[j]] - sum(M[i, j] * ga.basis[i] for i in range(n)))
        x.ok(d == 0, lambda: 'image of %s is %s' % (ga.basis[j], D[ga.basis[j]]))
    if c['mv']:
        D = {k: ga.mv(v) for k, v in D.items()}
    if c['scale'] == 3:
        D = {k: v / 3 + v / 3 + v / 3 for k, v in D.items()}
    x.ok(glt.Dictionary_to_Matrix(D, ga) == M, lambda: 'Dictionary_to_Matrix(Matrix_to_dictionary(%s)) = %s' % (M, glt.Dictionary_to_Matrix(D, ga)))
    try:
        glt.Matrix_to_dictionary(M, list(ga.basis)[:-1])
    except ValueError:
        return
    x.fail('a matrix of the wrong size was accepted')


# ---------------------------------------------------------------- containers
tree = st.recursive(st.one_of(st.integers(-3, 9), st.sampled_from(['ab', 'c', ''])), lambda s: st.one_of(st.lists(s, max_size=3), st.lists(s, max_size=3).map(lambda l: {'t': l})), max_leaves=12)


def deser(v):
    """{'t': list} stands for a tuple"""
    return tuple(deser(q) for q in v['t']) if isinstance(v, dict) else [deser(q) for q in v] if isinstance(v, list) else v


@check(P, st.fixed_dictionaries({'g': st.lists(st.lists(st.integers(-9, 9), max_size=4), max_size=5), 'd': st.lists(st.tuples(st.integers(0, 9), st.integers(10, 19)), max_size=6, unique_by=(lambda p: p[0], lambda p: p[1])),
                                 'ops': st.lists(st.integers(0, 14), max_size=12), 'tree': st.lists(tree, max_size=4)}), quick=300, shards=2, rule='at least two elements')
def containers(c, x):
    """GradedTuple, lazy_dict, OrderedBiMap, flatten and cached_property do what they document"""
    # graded tuples
    T = gg.GradedTuple(tuple(r) for r in c['g'])
    x.nt(sum(map(len, c['g'])) > 1)
    x.ok(T.flat == tuple(v for r in c['g'] for v in r), 'flat')
    x.ok(tuple(T) == tuple(tuple(r) for r in c['g']) and len(T) == len(c['g']) and all(T[i] == tuple(r) for i, r in enumerate(c['g'])), 'grades')
    Q = T._map(lambda v: v * v + 1)
    x.ok(isinstance(Q, gg.GradedTuple) and Q.flat == tuple(v * v + 1 for v in T.flat) and [len(r) for r in Q] == [len(r) for r in T], '_map')
    try:
        T.flat = ()
        x.fail('GradedTuple.flat was assigned')
    except AttributeError:
        pass
    x.ok(T == tuple(tuple(r) for r in c['g']) and hash(T) == hash(tuple(T)), 'equality')
    # lazy dictionaries
    calls = []
    base = {3: 'three'}
    L = gg.lazy_dict(base, f_value=lambda k: calls.append(k) or k * 2)
    model = dict(base)
    for k in c['ops']:
        if k % 5 == 4:
            x.ok((k in L) == (k in model) and L.get(k) == model.get(k), 'in/get created an entry')
        else:
            want = model.setdefault(k, k * 2)
            x.ok(L[k] == want, lambda: 'lazy_dict[%s] = %s' % (k, L[k]))
        x.ok(dict(L) == model and len(L) == len(model), lambda: 'entries %s, expected %s' % (dict(L), model))
    x.ok(sorted(calls) == sorted(set(calls)) and set(calls) == set(model) - {3}, lambda: 'f_value was called for %s' % calls)
    x.ok(base == {3: 'three'}, 'the dictionary passed was changed')
    # two-way maps
    B = gg.OrderedBiMap([tuple(p) for p in c['d']])
    x.ok(list(B.items()) == [tuple(p) for p in c['d']], 'order')
    x.ok(list(B.inverse.items()) == [(v, k) for k, v in c['d']], 'inverse')
    x.ok(B.inverse.inverse is B and all(B.inverse[B[k]] == k for k in B), 'inverse of the inverse')
    # flatten
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from galgebra.utils import flatten, isstr
    tr = deser(c['tree'])

    def fl(v):
        return [w for q in v for w in (fl(q) if isinstance(q, (list, tuple)) else [q])]
    x.ok(flatten(tr) == fl(tr), lambda: 'flatten(%s) = %s' % (tr, flatten(tr)))
    x.ok(isstr('a') and not isstr(3) and not isstr(['a']), 'isstr')
    # cached properties
    from galgebra._utils import cached_property

    class C:
        n = 0

        @cached_property
        def p(self):
            "doc"
            self.n += 1
            return [self.n]
    o, o2 = C(), C()
    x.ok(o.p is o.p and o.n == 1 and o2.p == [1] and o2.p is not o.p and isinstance(C.p, cached_property) and C.p.__doc__ == 'doc', 'cached_property')


@check(P, st.fixed_dictionaries({'kw': st.dictionaries(st.sampled_from(['a', 'b', 'f', 'recp', 'zz']), st.integers(0, 5), max_size=4), 'd': st.booleans()}), quick=120, shards=1, rule='at least one keyword')
def keyword_parser(c, x):
    """KwargParser behaves as keyword-only arguments do: same values, refusals for the same calls with the same message"""
    from galgebra._utils import KwargParser

    def f(**kwargs):
        kw = KwargParser('f', kwargs)
        a = kw.pop('a')
        b = kw.pop('b', 2)
        kw.reject_remaining()
        return a, b
    ns = {}
    exec('def f(*, a, b=2):\n    return a, b', ns)
    kw = c['kw']
    x.nt(bool(kw))

    def run(h):
        try:
            return h(**kw)
        except TypeError as e:
            return type(e).__name__
    x.ok(run(f) == run(ns['f']), lambda: 'f(**%s): %s, expected %s' % (kw, run(f), run(ns['f'])))


@check(P, st.fixed_dictionaries({'i': st.lists(st.integers(0, 4), max_size=5), 'kind': st.sampled_from(['blade', 'base', 'nowedge']), 'j': st.lists(st.integers(0, 4), max_size=5)}), quick=200, shards=2, rule='at least two factors')
def atoms_of_expressions(c, x):
    """basis symbols: none stands for 1, one for the vector; equality, hashing, copies and pickles follow the factors; they do not commute"""
    vs = [BasisVectorSymbol('e_%s' % s) for s in 'abcde']
    T = {'blade': BasisBladeSymbol, 'base': BasisBaseSymbol, 'nowedge': BasisBladeNoWedgeSymbol}[c['kind']]
    a, b = T(*[vs[i] for i in c['i']]), T(*[vs[i] for i in c['j']])
    x.nt(len(c['i']) > 1 or len(c['j']) > 1)
    for v, ix in ((a, c['i']), (b, c['j'])):
        if not ix:
            x.ok(v is S.One, 'empty product')
        elif len(ix) == 1:
            x.ok(v is vs[ix[0]], 'single factor')
        else:
            x.ok(isinstance(v, T) and list(v.args) == [vs[i] for i in ix] and v.is_commutative is False, 'factors')
            x.ok(v.func(*v.args) == v, 'func(*args)')
        for w in (copy.copy(v), copy.deepcopy(v), pickle.loads(pickle.dumps(v))):
            x.ok(w == v and hash(w) == hash(v) and type(w) is type(v), lambda: 'copy of %s' % v)
        other = T(*[vs[i] for i in ix])
        x.ok(other == v and hash(other) == hash(v), 'equality')
    x.ok((a == b) == (c['i'] == c['j']), lambda: '%s == %s' % (a, b))
    if len(c['i']) > 0 and len(c['j']) > 0 and c['i'] != c['j']:
        x.ok(a * b != b * a, 'they commute')
        x.ok(sympy.expand(X * a - a * X) == 0, 'scalars do not commute')
        x.ok(gg.is_bases_product(X * a * b) and gg.is_bases_product(3 * a * a), 'is_bases_product')
        x.ok(not gg.is_bases_product(X * a) and not gg.is_bases_product(a * b * a if c['i'] else a), 'is_bases_product')
    d1, d2 = DotProductSymbol(vs[0], vs[1]), DotProductSymbol(vs[0], vs[1])
    x.ok(d1 == d2 and d1.is_real and d1.is_commutative and hash(d1) == hash(d2), 'dot product symbols')


# ---------------------------------------------------------------- debug output, old interface
@check(P, st.fixed_dictionaries({'m': G.ga_and_mvs(2, 2, 3, 3, 1), 'coords': st.booleans()}), quick=60, shards=4, rule='both factors have at least two terms')
def debug_output(c, x):
    """debug=True only prints: the algebra behaves as without it"""
    a, b = [mvd(m) for m in c['m']['mvs']]
    n = len(c['m']['ga']['g'])
    x.nt(len(a) > 1 and len(b) > 1)
    kw = {}
    if c['coords']:
        kw['coords'] = sympy.symbols('x1:%d' % (n + 1), real=True)
    res = []
    for dbg in (False, True):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            ga = mk_ga(c['m']['ga'], debug=dbg, **kw)
            A, B = to_mv(ga, a), to_mv(ga, b)
            r = [A * B, (A | B), A ^ B, (A < B)]
            r += [r[0].base_rep().blade_rep(), A.base_rep() * B.base_rep()]
            r += list(ga.mv())
            if det(c['m']['ga']['g']) != 0:
                r += list(ga.mvr())
                if kw:
                    r += [ga.grad * (kw['coords'][0] * A)]
        res.append([coefs_of(q, n) for q in r])
        if dbg:
            x.ok(out.getvalue(), 'debug=True printed nothing')
    for p, q in zip(*res):
        d = diff_mv(p, q, n)
        x.ok(not d, lambda: 'with debug=True: %s, without %s' % (q, p))


def det(g):
    return ref.mat_det([[fr(v) for v in r] for r in g])


@check(P, st.fixed_dictionaries({'m': G.ga_and_mvs(2, 2, 3, 3, 1, nd=True), 'fmt': st.integers(1, 3), 'how': st.sampled_from(['str', 'list', 'old']), 'name': st.sampled_from('ABv'), 'coords': st.booleans(), 'k': st.integers(0, 3)}),
       quick=100, shards=4, rule='both factors have at least two terms')
def old_interface(c, x):
    """the deprecated MV class (MV.setup, MV(...), ReciprocalFrame) gives what Ga and Mv give"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from galgebra.deprecated import MV, ReciprocalFrame
        g = c['m']['ga']['g']
        n = len(g)
        R = RefGA([[fr(v) for v in r] for r in g])
        a, b = [mvd(m) for m in c['m']['mvs']]
        x.nt(len(a) > 1 and len(b) > 1)
        names = names_for(n, 'under')
        diag = G.is_diag(g)
        if c['how'] == 'old' and diag and all(isinstance(g[i][i], int) for i in range(n)):
            met = '[%s]' % ','.join(str(g[i][i]) for i in range(n))
            x.label('old string')
        elif c['how'] == 'str':
            met = ' '.join(str(sp(g[i][i])) for i in range(n)) if diag else ','.join(' '.join(str(sp(v)) for v in r) for r in g)
        else:
            met = [[sp(v) for v in r] for r in g]
        kw = {'coords': sympy.symbols('x1:%d' % (n + 1), real=True)} if c['coords'] else {}
        r = MV.setup(names, metric=met, **kw)
        ga = MV.GA
        x.ok(len(r) == n + bool(kw), 'setup returned %s' % r)
        eq_ref(x, r[0] * r[1], R.mul({1: F(1)}, {2: F(1)}), n, 'product of the basis vectors')
        x.ok(MV.I == ga.i and Matrix(MV.metric) == ga.g == Matrix([[sp(v) for v in q] for q in g]), 'MV.I, MV.metric')
        if kw:
            same_mv(x, r[-1] * (kw['coords'][0] ** 2 * r[0]), ga.grad * (kw['coords'][0] ** 2 * r[0]), n, 'grad')
            same_mv(x, MV.grad * r[0], ga.mv(S.Zero), n, 'MV.grad of a constant')
            Z = kw['coords'][0] ** 2 * r[1] + kw['coords'][-1] * (r[0] ^ r[1])
            same_mv(x, MV.grad * Z, ga.grad * Z, n, 'MV.grad')
            same_mv(x, Z * MV.rgrad, Z * ga.rgrad, n, 'MV.rgrad')
        A, B = to_mv(ga, a), to_mv(ga, b)
        eq_ref(x, A * B, R.mul(a, b), n, 'product')
        kind = ('vector', 'mv', 'scalar', 'bivector')[c['k']]
        V, W = MV(c['name'], kind), ga.mv(c['name'], kind)
        x.ok(isinstance(V, MV) and V == W and V.title == c['name'], lambda: 'MV(%s, %s) = %s' % (c['name'], kind, V))
        if kw:
            x.ok(MV(c['name'], kind, True) == ga.mv(c['name'], kind, f=True), 'fct=True')
        same_mv(x, V * A, W * A, n, 'MV * Mv')
        same_mv(x, A + V, A + W, n, 'Mv + MV')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            q = V.Fmt(c['fmt'], 'V')
        x.ok(q is None and out.getvalue().strip() == str(W.Fmt(c['fmt'], 'V')).strip(), lambda: 'MV.Fmt printed %r, Mv.Fmt %r' % (out.getvalue(), W.Fmt(c['fmt'], 'V')))
        vs = [to_mv(ga, {1: F(2), 2: F(1)}), to_mv(ga, {1: F(1), 2: F(-1)})]
        Wd = R.wedge({1: F(2), 2: F(1)}, {1: F(1), 2: F(-1)})
        if R.sp(Wd, Wd) != 0:
            for p, q in zip(ReciprocalFrame(vs), ga.ReciprocalFrame(vs)):
                same_mv(x, p, q, n, 'ReciprocalFrame')
        # a vector manifold: curv is the position as a function of the coordinates
        u, v = sympy.symbols('u v', positive=True)
        Y = [[u * sympy.cos(v), u * sympy.sin(v)], [u + v, u * v], [u ** 2 / 2 - v, v]][c['k'] % 3]
        mm = [[1, 1], '[1,1]', '1 1'][c['fmt'] % 3]
        q = MV.setup(names_for(2, 'under'), metric=mm, coords=(u, v), curv=(Y, None))
        gc = MV.GA
        J = Matrix(Y).jacobian((u, v))
        x.ok(len(q) == 3 and sympy.simplify(gc.g - J.T * J) == sympy.zeros(2, 2), lambda: 'metric for curv = %s: %s' % (Y, gc.g))
        same_mv(x, q[2] * (u * q[1]), gc.grad * (u * q[1]), 2, 'grad on a vector manifold')


@check(P, st.fixed_dictionaries({'g': G.ga(1, 3), 'v': st.integers(0, 6)}), quick=40, shards=1, rule='every case')
def algebra_identity(c, x):
    """an algebra equals itself only, and comparing it with anything is answered"""
    ga, gb = mk_ga(c['g']), mk_ga(c['g'])
    v = [None, 3, 'a', S.One, ga.e, [ga], ga.basis[0]][c['v']]
    x.nt(True)
    x.ok(ga == ga and not (ga != ga) and ga != gb and not (ga == gb) and hash(ga) == hash(ga), 'identity')
    x.ok(len({ga: 1, gb: 2}) == 2 and {ga: 1, gb: 2}[ga] == 1, 'as dictionary keys')
    if not isinstance(v, Mv):
        x.ok((ga == v) is False and (ga != v) is True, lambda: 'ga == %r' % v)


@check(P, st.fixed_dictionaries({'ga': G.ga_nd(2, 3), 'coords': st.booleans(), 'A': st.lists(st.lists(st.integers(-2, 2), min_size=3, max_size=3), min_size=3, max_size=3), 'sym': st.sampled_from('gsa'),
                                 'b': st.lists(st.integers(0, 7), min_size=2, max_size=2), 'w': st.sampled_from('|<>')}), quick=120, shards=4, rule='not the Euclidean metric')
def older_names(c, x):
    """every deprecated attribute still gives what its documented replacement gives, with a DeprecationWarning"""
    from galgebra.dop import Pdop, Sdop
    n = len(c['ga']['g'])
    co = sympy.symbols('x y z', real=True)[:n]
    ga = mk_ga(c['ga'], **({'coords': co} if c['coords'] else {}))
    R = RefGA(gmat(c['ga']))
    x.nt(c['ga']['kind'] != 'euclid', 'ortho' if ga.is_ortho else 'oblique')

    def old(f):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = f()
        x.ok(any(issubclass(v.category, DeprecationWarning) for v in w), 'no DeprecationWarning')
        return r
    bl = dict(zip(masks(n), ga.blades.flat))
    m1, m2 = [m % (1 << n) for m in c['b']]
    e1, e2 = {m1: F(1)}, {m2: F(1)}
    eq_ref(x, ga.mv(old(lambda: ga.geometric_product_basis_blades((bl[m1], bl[m2])))), R.mul(e1, e2), n, 'geometric_product_basis_blades')
    eq_ref(x, ga.mv(old(lambda: ga.wedge_product_basis_blades((bl[m1], bl[m2])))), R.wedge(e1, e2), n, 'wedge_product_basis_blades')
    dot = {'|': R.dot, '<': R.lc, '>': R.rc}[c['w']]
    if m1 and m2:
        f = ga.dot_product_basis_blades if ga.is_ortho else ga.non_orthogonal_dot_product_basis_blades
        eq_ref(x, ga.mv(old(lambda: f((bl[m1], bl[m2]), c['w']))), dot(e1, e2), n, 'dot_product_basis_blades %s' % c['w'])
        try:
            old(lambda: f((bl[m1], bl[m2]), '*'))
        except ValueError:
            pass
        else:
            x.fail('an unknown dot product was accepted')
    if not ga.is_ortho:
        ba = dict(zip(masks(n), ga.bases.flat))
        if m1 and m2:
            got = mvof(ga, old(lambda: ga.non_orthogonal_bases_products((ba[m1], ba[m2]))), False)
            w = {0: F(1)}
            for i in bits(m1) + bits(m2):
                w = R.mul(w, {1 << i: F(1)})
            eq_ref(x, got, w, n, 'non_orthogonal_bases_products')
        x.ok(dict(old(lambda: ga.indexes_to_bases)) == dict(ga.indexes_to_bases_dict), 'indexes_to_bases')
        inv = {v: k for k, v in ga.indexes_to_bases_dict.items()}
        x.ok(dict(old(lambda: ga.bases_to_indexes)) == inv and dict(old(lambda: ga.bases_to_indexes_dict)) == inv, 'bases_to_indexes')
    # vectors and operators
    V = old(lambda: ga.mv_x)
    cs = V.get_coefs(1)
    x.ok(len(set(cs)) == n and all(isinstance(v, sympy.Symbol) for v in cs) and V.pure_grade() == 1, lambda: 'mv_x is %s' % V)
    E, basis, v = old(lambda: Mv.setup(ga))
    x.ok(E == ga.e and basis == list(ga.mv()) and v == V, 'Mv.setup')
    basis[0] = 0
    x.ok(ga.mv()[0] == ga.mv(ga.basis[0]), 'changing the list of Mv.setup changed the algebra')
    x.ok(ga.basis_vectors() == tuple(ga.basis), 'basis_vectors')
    q = Symbol('q', real=True)
    x.ok(old(lambda: ga.Pdop_identity) == Pdop({}), 'Pdop_identity')
    x.ok(old(lambda: ga.pdop(q)) == Pdop(q) and old(lambda: ga.sdop([(S(2), Pdop(q))])) == Sdop([(S(2), Pdop(q))]), 'pdop, sdop')
    ginv = ga.g_inv.copy()
    x.ok(old(ga.inverse_metric) is None and ga.g_inv == ginv, 'inverse_metric()')
    x.ok(old(ga.derivatives_of_g) is None, 'derivatives_of_g()')
    x.ok(tuple(old(lambda: glt.Mlt.extact_basis_indexes(ga))) == tuple(ga.basis_super_scripts), 'extact_basis_indexes')
    if c['coords']:
        x.ok(old(ga.X) == ga.coord_vec and old(lambda: ga.lt_x) == ga.coord_vec and list(old(lambda: ga.lt_coords)) == list(co), 'X, lt_x, lt_coords')
        eq = ga.mv(ga.coord_vec)
        same_mv(x, eq, {1 << i: s for i, s in enumerate(co)}, n, 'coord_vec')
        pd, sd = old(lambda: ga.Pdiffs), old(lambda: ga.sPds)
        x.ok(set(pd) == set(co) and all(pd[s] == Pdop(s) and sd[s] == Sdop(s) for s in co) and set(sd) == set(co), 'Pdiffs, sPds')
        D = ga.dop([ga.mv()[0], ga.mv()[1]], [Pdop(co[1]), Pdop(co[0])])
        same_mv(x, D * (co[0] * co[1] ** 2), {1: 2 * co[0] * co[1], 2: co[1] ** 2}, n, 'ga.dop')
        x.ok(list(old(lambda: glt.Lt.setup(ga))[0]) == list(co) and old(lambda: glt.Lt.setup(ga))[1] == ga.coord_vec, 'Lt.setup')
    # linear transformations
    A = Matrix(n, n, lambda i, j: S(c['A'][i][j]))
    A = A + A.T if c['sym'] == 's' else A - A.T if c['sym'] == 'a' else A
    L = ga.lt(A)
    md = old(lambda: L.mode)
    x.ok(md == ('s' if A == A.T else 'a' if A == -A.T else 'g'), lambda: 'mode of %s is %s' % (A, md))
    x.ok(old(lambda: L.fct_flg) is False, 'fct_flg of a constant transformation')
    x.ok((old(lambda: L.coords) is None) == (not c['coords']), 'Lt.coords')
    if c['coords']:
        x.ok(list(old(lambda: L.coords)) == list(co) and old(lambda: L.X) == ga.coord_vec, 'Lt.coords, Lt.X')
        x.ok(old(lambda: ga.lt('F', f=True).fct_flg) is True, 'fct_flg of a field')
    # substitution list for slot vectors
    glt.Mlt.increment_slots(2, ga)
    vs = [to_mv(ga, ref.clean({1 << j: F(c['A'][i][j]) for j in range(n)})) for i in range(2)]
    if all(v_.obj != 0 for v_ in vs):
        sub = dict(glt.Mlt.subs(ga, vs))
        for k in range(2):
            x.ok([tofrac(sub[s]) for s in ga._mlt_pdiffs[k]] == [F(c['A'][k][j]) for j in range(n)], 'Mlt.subs')


@check(P, st.fixed_dictionaries({'l': st.lists(st.integers(0, 6), min_size=1, max_size=7), 'p': st.permutations(list(range(7))), 'k': st.integers(1, 7), 'g': st.lists(st.integers(-4, 4), min_size=1, max_size=4),
                                 'sh': st.tuples(st.integers(1, 3), st.integers(1, 3)), 'set': st.sampled_from([{}, {'omit_function_args': True}, {'omit_partial_derivative_fraction': True}, {'inv_trig_style': 'power'}, {'galgebra_mv_fmt': 3}]),
                                 'e': st.sampled_from(['f', 'd', 'asin', 'mv', 'list'])}),
       quick=200, shards=2, rule='a permutation that is not sorted')
def reordering_and_printing_helpers(c, x):
    """blade_reduce is sorting with the sign of the permutation (zero for a repeated index), print_latex prints what latex returns, matrix functions have the shape they are given"""
    import contextlib
    import io
    from galgebra import printer
    from galgebra.atoms import MatrixFunction
    from galgebra.deprecated import MV
    for l in (list(c['l']), list(c['p'][:c['k']])):
        sg, out = Ga.blade_reduce(list(l))
        if len(set(l)) != len(l):
            x.ok(sg == 0 and out is None, lambda: 'blade_reduce(%s) is %s' % (l, (sg, out)))
        else:
            inv = sum(l[i] > l[j] for i in range(len(l)) for j in range(i + 1, len(l)))
            x.ok(sg == (-1) ** inv and list(out) == sorted(l), lambda: 'blade_reduce(%s) is %s' % (l, (sg, out)))
    x.nt(c['p'][:c['k']] != sorted(c['p'][:c['k']]), c['e'])
    u, v = sympy.symbols('u v', real=True)
    f = sympy.Function('f')(u, v)
    d = sympy.Derivative(f, u)
    ga = Ga('a b', g=[1, 1], coords=(u, v))
    A = 1 + ga.mv('A', 'mv', f=True)
    o = {'f': f, 'd': d * u, 'asin': sympy.asin(u), 'mv': A, 'list': [f, A]}[c['e']]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        printer.print_latex(o, **c['set'])
    x.ok(buf.getvalue() == printer.latex(o, **c['set']) + '\n', lambda: 'print_latex printed %r' % buf.getvalue())
    Mf = MatrixFunction('M%d%d' % tuple(c['sh']), *c['sh'])(u)
    x.ok(tuple(Mf.shape) == tuple(c['sh']), lambda: 'shape %s' % (Mf.shape,))
    w = '[' + ','.join(map(str, c['g'])) + ']'
    x.ok(MV.convert_metric(w) == c['g'] and MV.convert_metric('# 0,0 #') == '# 0,0 #', lambda: 'convert_metric(%r)' % w)
