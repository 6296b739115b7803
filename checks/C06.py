from runner import check
from gu import *
import gens as G
from gens import st
from math import comb

P = 'C06'
CATS = ['scalar', 'vector', 'bivector', 'grade2', 'pseudo', 'mv', 'even', 'spinor', 'odd', 'grade', 'int']


def cat_grades(cat, n, r):
    return {'scalar': [0], 'vector': [1], 'bivector': [2], 'grade2': [2], 'pseudo': [n], 'mv': list(range(n + 1)),
            'even': list(range(0, n + 1, 2)), 'spinor': list(range(0, n + 1, 2)),
            'odd': list(range(1, n + 1, 2)), 'grade': [r], 'int': [r]}[cat]


@st.composite
def named(draw):
    gc = draw(G.ga(1, 5, kinds=('euclid', 'signature', 'degenerate', 'diag', 'sym')))
    n = len(gc['g'])
    if n == 5:
        gc['g'] = G.diag([gc['g'][i][i] for i in range(n)])
    cat = draw(st.sampled_from(CATS))
    if n == 1 and cat in ('bivector', 'grade2'):
        cat = 'mv'
    return {'ga': gc, 'cat': cat, 'r': draw(st.integers(0, n)), 'name': draw(st.sampled_from(['A', 'x', 'psi'])),
            'f': draw(st.sampled_from(['no', 'no', 'true', 'tuple', 'false'])), 'coords': draw(st.booleans())}


def call(ga, c, **kw):
    if c['cat'] == 'grade':
        return ga.mv(c['name'], 'grade', c['r'], **kw)
    if c['cat'] == 'int':
        return ga.mv(c['name'], c['r'], **kw)
    return ga.mv(c['name'], c['cat'], **kw)


@check(P, named(), quick=300, shards=8, rule='a multivector of two or more components')
def named_multivector(c, x):
    """a named multivector of a category has one independent real coefficient on every blade of the category's
    grades and none elsewhere; with f it depends exactly on the requested variables"""
    n = len(c['ga']['g'])
    kw = {}
    if c['coords'] or c['f'] == 'true':
        kw['coords'] = sympy.symbols(' '.join(['x', 'y', 'z', 'w', 'v'][:n]) + ' ', real=True)
        if n == 1:
            kw['coords'] = (sympy.Symbol('x', real=True),)
    ga, R = mk(c['ga'], **kw)
    t, u = sympy.symbols('t u', real=True)
    mkw = {}
    deps = set()
    if c['f'] == 'true':
        mkw['f'] = True
        deps = set(kw['coords'])
    elif c['f'] == 'tuple':
        mkw['f'] = (t, u)
        deps = {t, u}
    elif c['f'] == 'false':
        mkw['f'] = False
    A = call(ga, c, **mkw)
    gs = cat_grades(c['cat'], n, c['r'])
    x.label(c['cat'], 'f:' + c['f'], 'n%d' % n)
    x.nt(sum(comb(n, k) for k in gs) >= 2)
    cs = dict(zip(masks(n), A.blade_coefs()))
    seen = []
    for m, v in cs.items():
        if popcount(m) in gs:
            x.ok(v != 0, 'no coefficient on blade %s' % bits(m))
            if deps:
                x.ok(isinstance(v, sympy.core.function.AppliedUndef) and set(v.args) == deps,
                     'coefficient %s is not a function of %s' % (v, deps))
            else:
                x.ok(v.is_Symbol and v.is_real and v.is_commutative, 'coefficient %r of blade %s' % (v, bits(m)))
            seen.append(v)
        else:
            x.ok(v == 0, 'unexpected coefficient %s on blade %s' % (v, bits(m)))
    x.ok(len(set(seen)) == len(seen), 'coefficients are not independent: %s' % seen)
    x.ok(list(ga.grades(A.obj)) == [k for k in gs], 'grades %s expected %s' % (ga.grades(A.obj), gs))
    B = call(ga, c, **mkw)
    x.ok(A == B and hash(A) == hash(B), 'the same specification gives two different multivectors')
    if 0 in gs:
        x.ok(str(cs[0]).startswith(c['name']), 'scalar coefficient name')


@st.composite
def listed(draw):
    gc = draw(G.ga(1, 5, kinds=('euclid', 'signature', 'degenerate', 'sym')))
    n = len(gc['g'])
    if n == 5:
        gc['g'] = G.diag([gc['g'][i][i] for i in range(n)])
    r = draw(st.integers(1, n))
    k = draw(st.integers(0, comb(n, r) + 2))
    return {'ga': gc, 'r': r, 'cs': [draw(G.coef) for _ in range(k)], 'tup': draw(st.booleans()),
            'how': draw(st.sampled_from(['int', 'grade', 'name']))}


@check(P, listed(), quick=240, shards=4, rule='two or more coefficients')
def from_coefficients(c, x):
    """a coefficient list fills the grade's blades in order, short lists are padded with zeros, long ones rejected"""
    ga, R = mk(c['ga'])
    n, r = R.n, c['r']
    cs = [sp(v) for v in c['cs']]
    arg = tuple(cs) if c['tup'] else cs
    km = [m for m in masks(n) if popcount(m) == r]
    name = {1: 'vector', 2: 'bivector'}.get(r, 'pseudo' if r == n else None) if c['how'] == 'name' else None
    if r == n and c['how'] == 'name':
        name = 'pseudo'

    def f():
        if name:
            return ga.mv(arg, name)
        if c['how'] == 'int':
            return ga.mv(arg, r)
        return ga.mv(arg, 'grade', r)
    x.nt(len(cs) >= 2)
    x.label('over' if len(cs) > len(km) else 'short' if len(cs) < len(km) else 'full', c['how'])
    if len(cs) > len(km):
        try:
            f()
        except ValueError:
            return
        x.fail('%d coefficients accepted for %d blades' % (len(cs), len(km)))
    A = f()
    eq_ref(x, A, ref.clean({m: fr(v) for m, v in zip(km, c['cs'])}), n, 'coefficients %s of grade %d' % (c['cs'], r))
    eq_ref(x, A * ga.mv(S.One) + 0, ref.clean({m: fr(v) for m, v in zip(km, c['cs'])}), n, 'A*1+0')


@check(P, G.ga(1, 5, kinds=('euclid', 'signature', 'degenerate', 'diag', 'sym')), quick=80, shards=4,
       rule='dimension at least two')
def basis_blades(c, x):
    """mv(), mv_basis and mv_blades list the basis vectors and all 2**n outer products of them, graded and in
    lexicographic order; indexes name them; E() is the last one"""
    n = len(c['g'])
    if n == 5:
        c['g'] = G.diag([c['g'][i][i] for i in range(n)])
    ga, R = mk(c)
    es = ga.mv()
    x.nt(n >= 2)
    x.ok(len(es) == n and list(ga.mv_basis) == list(es), 'basis length')
    x.ok(len(ga.mv_blades.flat) == 2 ** n, 'number of blades')
    want = masks(n)
    for k in range(n + 1):
        x.ok(len(ga.mv_blades[k]) == comb(n, k), 'blades of grade %d' % k)
    x.ok([sum(1 << i for i in ix) for ix in ga.indexes.flat] == want, 'indexes order')
    for m, b in zip(want, ga.mv_blades.flat):
        w = ga.mv(S.One)
        for i in bits(m):
            w = w ^ es[i]
        x.ok(w == b, 'mv_blades entry %s is not the outer product of its basis vectors' % bits(m))
        eq_ref(x, b, {m: F(1)}, n, 'blade %s' % bits(m))
        x.ok(b.pure_grade() == popcount(m), 'grade of blade %s' % bits(m))
    eq_ref(x, ga.E(), {2 ** n - 1: F(1)}, n, 'E()')
    x.ok(ga.E() == ga.mv_blades.flat[-1] and ga.e == ga.E(), 'E()')
    built = Ga.build(names_for(n, c.get('names', 'plain')) if n > 1 else 'e_1,', g=[1] * n)
    x.ok(len(built) == n + 1 and list(built[0].mv()) == list(built[1:]), 'Ga.build')
    # distinct basis names, one symbol per blade
    x.ok(len({str(b) for b in ga.mv_blades.flat}) == 2 ** n, 'two blades print alike')


@st.composite
def scal(draw):
    c = draw(G.ga_and_mvs(1, 1, 3, maxterms=3))
    c['v'] = draw(G.coef)
    c['how'] = draw(st.sampled_from(['one', 'scalar', 'zero', 'int']))
    return c


@check(P, scal(), quick=120, shards=2, rule='a non-zero scalar')
def scalar_constructor(c, x):
    """mv(number), mv(number,'scalar'), mv(number,0) and mv(multivector) are ordinary multivectors in every respect"""
    ga, R = mk(c['ga'])
    n = R.n
    v = fr(c['v'])
    k = int(v) if v.denominator == 1 else sp(v)
    s = {'one': lambda: ga.mv(k), 'scalar': lambda: ga.mv(k, 'scalar'), 'zero': lambda: ga.mv(k, 0),
         'int': lambda: ga.mv(sp(v))}[c['how']]()
    x.nt(v != 0)
    x.label(c['how'])
    d = ref.clean({0: v})
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    x.ok(s == k and hash(s) == hash(k), 'scalar equality/hash')
    for nm, g, w in (('s', s, d), ('grade', s.grade(0), d), ('grade1', s.grade(1), {}), ('rev', s.rev(), d),
                     ('s*A', s * A, R.mul(d, a)), ('A*s', A * s, R.mul(d, a)), ('s^A', s ^ A, R.mul(d, a)),
                     ('s|A', s | A, {}), ('s<A', s < A, R.lc(d, a)), ('A<s', A < s, R.lc(a, d)), ('s>A', s > A, R.rc(d, a)),
                     ('s+A', s + A, ref.add(d, a)), ('simplify', s.simplify(), d), ('expand', s.expand(), d),
                     ('even', s.even(), d), ('odd', s.odd(), {}), ('g_invol', s.g_invol(), d), ('copy', ga.mv(s), d),
                     ('A copy', ga.mv(A), a), ('A via obj', ga.mv(A.obj), a), ('proj', s.proj([ga.mv(S.One)]), d)):
        eq_ref(x, g, ref.clean(w), n, '%s (constructed via %s)' % (nm, c['how']))
    x.ok([tofrac(q) for q in s.blade_coefs()] == [v] + [F(0)] * (2 ** n - 1), 'blade_coefs')
    eq_ref(x, sum(s.components(), ga.mv(S.Zero)), d, n, 'components')
    x.ok(s.is_scalar() and s.is_zero() is (v == 0), 'predicates')


@st.composite
def multi(draw):
    k = draw(st.integers(2, 3))
    return {'ga': draw(G.ga(2, 3, kinds=('euclid', 'sym'))), 'names': ['a', 'b', 'c'][:k],
            'cats': [draw(st.sampled_from(['scalar', 'vector', 'bivector', 'mv', 'even', 'odd', 'pseudo'])) for _ in range(k)],
            'single': draw(st.booleans()), 'bad': draw(st.sampled_from(['category', 'kwarg', 'count', 'none']))}


@check(P, multi(), quick=60, shards=2, rule='every case')
def several_at_once(c, x):
    """'a b c' with one or several categories gives what the separate calls give; bad requests are rejected"""
    ga, R = mk(c['ga'])
    cats = [c['cats'][0]] * len(c['names']) if c['single'] else c['cats']
    got = ga.mv(' '.join(c['names']), c['cats'][0] if c['single'] else ' '.join(c['cats']))
    x.nt()
    x.ok(isinstance(got, tuple) and len(got) == len(c['names']), 'shape')
    for g, nm, ct in zip(got, c['names'], cats):
        x.ok(g == ga.mv(nm, ct), '%s as %s' % (nm, ct))
    bad = {'category': lambda: ga.mv('A', 'octonion'), 'kwarg': lambda: ga.mv('A', 'vector', colour=1),
           'count': lambda: ga.mv('a b', 'vector vector vector'), 'none': lambda: Mv(('a',), {}, ga=ga)}[c['bad']]
    try:
        bad()
    except (ValueError, TypeError):
        return
    x.fail('bad request %s accepted' % c['bad'])


@check(P, st.fixed_dictionaries({'n': st.integers(1, 5), 'root': st.sampled_from(['e', 'f', 'gamma']), 'first': st.integers(0, 3), 'prefix': st.sampled_from([None, 'e', 'b', 'x_']), 'wedge': st.booleans()}),
       quick=60, shards=2, rule='dimension at least 2')
def named_blades(c, x):
    """bases_dict maps the prefix followed by the indices of a basis blade to that blade, for every blade but the scalar"""
    n = c['n']
    ids = [str(c['first'] + i) for i in range(n)]
    ga = Ga(c['root'] + '*' + '|'.join(ids) if n > 1 else c['root'] + '_' + ids[0] + ',', g=[1] * n, wedge=c['wedge'])
    d = ga.bases_dict() if c['prefix'] is None else ga.bases_dict(prefix=c['prefix'])
    x.nt(n >= 2)
    want = {(c['prefix'] or 'e') + ''.join(ids[i] for i in bits(m)): b for m, b in zip(masks(n), ga.blades.flat) if m}
    x.ok(d == want, lambda: 'bases_dict %s, expected %s' % (d, want))
    es = ga.mv()
    for m in masks(n):
        if m:
            w = es[bits(m)[0]]
            for i in bits(m)[1:]:
                w = w ^ es[i]
            x.ok(ga.mv(d[(c['prefix'] or 'e') + ''.join(ids[i] for i in bits(m))]) == w, 'blade %s' % (bits(m),))


INDEX = ['1', '2', '12', '3', '11', '21', '123', 'x', 'y', 'xy', 'yx', 'xx']


@st.composite
def naming(draw):
    how = draw(st.sampled_from(['roots', 'indexes', 'coords', 'mixed', 'many']))
    if how == 'many':
        # more than eleven basis vectors: the vectors e_1 and e_11, the blades e_1^e_2 and e_12, ...
        n = draw(st.integers(11, 14))
        names = None
    elif how == 'coords':
        names = draw(st.lists(st.sampled_from(['x', 'y', 'xy', 'yx', 'xx', 'z', 'xyz', 'r', 'theta', 'rtheta']), min_size=2, max_size=5, unique=True))
        n = len(names)
    elif how == 'mixed':
        names = draw(st.lists(st.sampled_from(['e_x', 'f', 'g', 'e_1', 'a', 'u_1', 'v1', 'e_xy', 'e_y', 'bb', 'b_1']), min_size=2, max_size=5, unique=True))
        n = len(names)
    else:
        roots = ['e'] if how == 'indexes' else draw(st.lists(st.sampled_from('euvw'), min_size=2, max_size=3, unique=True))
        names = draw(st.lists(st.tuples(st.sampled_from(roots), st.sampled_from(INDEX)).map('_'.join), min_size=2, max_size=5, unique=True))
        n = len(names)
    return {'how': how, 'n': n, 'names': names, 'g': [draw(st.sampled_from([1, -1, 0, 2])) for _ in range(n)],
            'cat': draw(st.sampled_from(['vector', 'bivector', 'mv', 'spinor', 'odd', 'grade'])), 'r': draw(st.integers(1, min(n, 4))),
            'name': draw(st.sampled_from(['A', 'psi', 'x_0'])), 'f': draw(st.sampled_from(['no', 'true', 'tuple'])), 'xs': draw(st.booleans())}


@check(P, naming(), quick=160, shards=4, rule='an index or joined index name occurs twice')
def generic_coefficients(c, x):
    """the coefficients of a named multivector are independent whatever the names of the basis vectors and coordinates:
    shared indexes of different roots, indexes that are concatenations of others, more than eleven dimensions"""
    n = c['n']
    kw = {}
    if c['how'] == 'coords':
        kw['coords'] = sympy.symbols(','.join(c['names']), real=True)
        names = names_for(n, 'under')
    elif c['how'] == 'many':
        names = 'e*' + '|'.join(str(i + 1) for i in range(n))
    else:
        names = ' '.join(c['names'])
    f = c['f']
    if f == 'true' and c['how'] != 'coords':
        f = 'no'
    cat, r = c['cat'], min(c['r'], n)
    if n > 5:           # whole multivectors of these have thousands of terms
        cat, r = 'grade', min(r, 2)
    ga = Ga(names, g=c['g'], **kw)
    t, u = sympy.symbols('t u', real=True)
    mkw = {'f': True} if f == 'true' else {'f': (t, u)} if f == 'tuple' else {}
    A = call(ga, {'name': c['name'], 'cat': cat, 'r': r}, **mkw)
    gs = cat_grades(cat, n, r)
    if c['how'] == 'coords':
        sub = c['names']
    else:
        sub = [s.split('_')[-1] for s in names.replace('e*', '').replace('|', ' ').split()]
    joined = [''.join(sub[i] for i in bits(m)) for m in masks(n)] if n <= 5 else ['1', '1']
    x.nt(len(set(joined)) < len(joined), c['how'], cat, 'f:' + f)
    if n <= 5:
        all_ = dict(zip(masks(n), A.blade_coefs()))
        coefs = [[all_[m] for m in masks(n) if popcount(m) == k] for k in gs]
    else:
        coefs = [A.get_coefs(r)]
    for k, cs in zip(gs, coefs):
        x.ok(len(cs) == comb(n, k) and all(v != 0 for v in cs), lambda: 'grade %d of the %s has the coefficients %s' % (k, cat, cs))
    flat = [v for cs in coefs for v in cs]
    x.ok(all(v.is_Symbol if f == 'no' else isinstance(v, sympy.core.function.AppliedUndef) for v in flat),
         lambda: 'a coefficient is not a single symbol: %s' % flat)
    x.ok(len(set(flat)) == len(flat), lambda: 'the coefficients of the %s are not independent: %s' % (cat, flat))
    x.ok(len({str(v) for v in flat}) == len(flat), lambda: 'two coefficients print alike: %s' % flat)
