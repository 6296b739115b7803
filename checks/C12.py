from itertools import combinations
from runner import check
from gu import *
import gens as G
from gens import st

P = 'C12'


def rank(rows):
    rows = [r[:] for r in rows]
    rk = 0
    n = len(rows[0]) if rows else 0
    for col in range(n):
        piv = next((i for i in range(rk, len(rows)) if rows[i][col] != 0), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        for i in range(len(rows)):
            if i != rk and rows[i][col] != 0:
                f = rows[i][col] / rows[rk][col]
                rows[i] = [p - f * q for p, q in zip(rows[i], rows[rk])]
        rk += 1
    return rk


def is_blade_ref(b, n):
    """a k-vector is a blade iff its contractions with all (k-1)-element coordinate covectors span a k-space"""
    gs = {popcount(m) for m in b}
    if len(gs) != 1:
        return False
    k = gs.pop()
    if k <= 1:
        return True
    rows = []
    for J in combinations(range(n), k - 1):
        jm = sum(1 << j for j in J)
        row = [F(0)] * n
        for i in range(n):
            if not jm >> i & 1 and (jm | 1 << i) in b:
                row[i] = ref.wedge_sign(jm, 1 << i) * b[jm | 1 << i]
        rows.append(row)
    return rank(rows) == k


def is_versor_ref(R, v):
    q = R.mul(v, R.rev(v))
    if set(q) != {0}:
        return False
    for i in range(R.n):
        w = R.mul(R.mul(R.invol(v), {1 << i: F(1)}), R.rev(v))
        if any(popcount(m) != 1 for m in w):
            return False
    return True


def wedge_all(R, vecs):
    d = {0: F(1)}
    for w in vecs:
        d = R.wedge(d, ref.clean({1 << i: fr(v) for i, v in enumerate(w)}))
    return d


@st.composite
def cases(draw, nd=False, ns=(2, 3, 4)):
    c = draw((G.ga_nd if nd else G.ga)(1, 4, ns=list(ns)))
    n = len(c['g'])
    kind = draw(st.sampled_from(['blade', 'blade', 'versor', 'kvec', 'kvec', 'pseudo', 'general', 'scalarish', 'evenodd', 'perturbed'] + ['shifted'] * nd * (n == 4)))
    out = {'ga': c, 'kind': kind, 'base': draw(st.booleans()), 'order': draw(st.permutations(['blade', 'versor', 'scalar', 'vector']))}
    if kind in ('blade', 'versor', 'perturbed'):
        out['vecs'] = [draw(G.vec(n)) for _ in range(draw(st.integers(1, min(3, n))))]
        if kind == 'perturbed':
            out['m'] = [[draw(st.integers(0, (1 << n) - 1)), draw(G.small)]]
    elif kind == 'shifted':
        # s + (the blade orthogonal to w): V*V.rev() is a scalar, and x -> V.g_invol()*x*V.rev() keeps w a vector, but not the others
        out['w'] = draw(st.sampled_from([[1, 1, 1, 1], [1, 1, 1, 1], [1, 2, 3, 4], [1, -1, 1, -1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [1, 1, 0, 0], [0, 1, 2, 3]]) | st.lists(st.integers(-2, 2), min_size=4, max_size=4))
        out['s'] = draw(st.sampled_from([1, 1, -1, 2, '1/3', 0]))
    elif kind in ('kvec',):
        k = draw(st.integers(1, n))
        pool = [m for m in range(1 << n) if popcount(m) == k]
        out['m'] = draw(G.mv(n, 4, 1, masks=pool))
    elif kind == 'pseudo':
        out['m'] = [[(1 << n) - 1, draw(G.nz)]]
    elif kind == 'scalarish':
        out['m'] = draw(st.sampled_from([[], [[0, 1]], [[0, -2]], [[0, '1/2']]]))
    elif kind == 'evenodd':
        par = draw(st.integers(0, 1))
        out['m'] = draw(G.mv(n, 3, 1, masks=[m for m in range(1 << n) if popcount(m) % 2 == par]))
    else:
        out['m'] = draw(G.mv(n, 4, 1))
    return out


def value(c, R):
    if 'w' in c:
        w = ref.clean({1 << i: fr(v) for i, v in enumerate(c['w'])})
        return ref.clean(ref.add(R.mul(w, {(1 << R.n) - 1: F(1)}), {0: fr(c['s'])}))
    if 'vecs' in c:
        if c['kind'] == 'versor':
            d = {0: F(1)}
            for w in c['vecs']:
                d = R.mul(d, ref.clean({1 << i: fr(v) for i, v in enumerate(w)}))
        else:
            d = wedge_all(R, c['vecs'])
        if c['kind'] == 'perturbed':
            d = ref.add(d, mvd(c['m']))
        return ref.clean(d)
    return mvd(c['m'])


def body(c, x, versor):
    ga, R = mk(c['ga'])
    n = R.n
    b = value(c, R)
    B = to_mv(ga, b)
    if c['base']:
        B = B.base_rep()
    wb = is_blade_ref(b, n)
    want = {'blade': wb, 'scalar': set(b) <= {0}, 'vector': bool(b) and all(popcount(m) == 1 for m in b)}
    if versor:
        want['versor'] = is_versor_ref(R, b)
        if c['kind'] == 'versor' and all(R.mul(v, v) for v in [ref.clean({1 << i: fr(q) for i, q in enumerate(w)}) for w in c['vecs']]):
            x.ok(want['versor'], 'internal: versor oracle')
    if not wb and len({popcount(m) for m in b}) == 1 and popcount(next(iter(b))) >= 3 and not R.wedge(b, b):
        x.known('KF-C12-1')
    x.label(c['kind'], 'blade' if wb else 'nonblade', 'versor' if want.get('versor') else 'nonversor', 'n%d' % n)
    gr = {popcount(m) for m in b}
    x.nt(bool(b) and n > 1 and (len(gr) > 1 or min(gr) > 1))
    for _ in range(2):
        for q in c['order']:
            if q not in want:
                continue
            f = {'blade': B.is_blade, 'versor': B.is_versor, 'scalar': B.is_scalar, 'vector': B.is_vector}[q]
            got = f()
            x.ok(bool(got) == want[q] and got in (True, False), lambda: 'is_%s() of %s is %s, expected %s (metric %s)' % (q, show(b), got, want[q], c['ga']['g']))
    for C, what in ((-B, '-B'), (3 * B, '3*B'), (B.blade_rep(), 'B.blade_rep()')):
        x.ok(bool(C.is_blade()) == want['blade'], 'is_blade() of %s for B = %s' % (what, show(b)))
        if versor:
            x.ok(bool(C.is_versor()) == want['versor'], 'is_versor() of %s for B = %s' % (what, show(b)))
    eq_ref(x, B, b, n, 'operand afterwards')


@check(P, cases(nd=True), quick=400, shards=8, rule='an element with a part of grade >= 2')
def predicates_nondegenerate(c, x):
    """is_blade / is_versor / is_scalar / is_vector agree with a rank criterion and the versor action, in any order and
    either representation, for members and non-members in non-degenerate algebras"""
    body(c, x, True)


@check(P, cases(nd=False), quick=300, shards=8, rule='an element with a part of grade >= 2')
def blades_any_metric(c, x):
    """is_blade is metric-free: the same verdict in every metric, degenerate and null cases included"""
    body(c, x, False)


@check(P, st.fixed_dictionaries({'c': cases(nd=True, ns=(5,)), 'sig': st.lists(st.sampled_from([1, -1]), min_size=5, max_size=5)}),
       quick=60, shards=8, rule='an element with a part of grade >= 2')
def predicates_dim5(c, x):
    """the same in five dimensions with orthogonal metrics"""
    c['c']['ga'] = {'g': G.diag(c['sig']), 'kind': 'signature'}
    c['c']['base'] = False
    body(c['c'], x, True)


@check(P, st.fixed_dictionaries({'ga': G.ga(1, 4), 'm': st.integers(0, 15), 'c': st.sampled_from([1, -1, 2, '1/2', 0])}), quick=120, shards=2,
       rule='a basis blade with coefficient other than one')
def basis_predicate(c, x):
    """is_base() is true exactly for single basis blades with coefficient one"""
    ga, R = mk(c['ga'])
    n = R.n
    m = c['m'] % (1 << n)
    B = to_mv(ga, {m: fr(c['c'])})
    x.nt(c['c'] != 1)
    x.ok(bool(B.is_base()) == (c['c'] == 1), 'is_base() of %s' % B)
    if n > 1:
        C = B + 2 * to_mv(ga, {(m + 1) % (1 << n): F(1)})
        x.ok(not C.is_base(), 'is_base() of a sum')


@check(P, st.just({'r6': True}), quick=2, shards=1, thorough=2, rule='the documented counterexample')
def grade3_nonblade(c, x):
    """a grade-3 non-blade with B^B = 0 is not reported as a blade"""
    ga, R = mk({'g': G.diag([1] * 5)})
    b = {0b00111: F(1), 0b11001: F(1)}
    x.ok(not is_blade_ref(b, 5), 'internal')
    x.nt()
    x.known('KF-C12-1')
    x.ok(not to_mv(ga, b).is_blade(), 'is_blade() of e1^e2^e3 + e1^e4^e5 is True')


@st.composite
def hicases(draw):
    n = draw(st.sampled_from([6, 6, 6, 6, 6, 6, 6, 7]))
    sig = [draw(st.sampled_from([1, 1, -1])) for _ in range(n)]
    kind = draw(st.sampled_from(['pair', 'pair', 'pair', 'pair', 'versor', 'mixed']))
    out = {'sig': sig, 'kind': kind}
    if kind == 'pair':
        r = draw(st.sampled_from([2, 3, 3, 4]))
        perm = draw(st.permutations(list(range(n))))
        a = sum(1 << i for i in perm[:r])
        ov = draw(st.integers(max(0, 2 * r - n), r - 1))
        b = sum(1 << i for i in perm[r - ov:2 * r - ov])
        out['m'] = [[a, 1], [b, draw(G.small)]]
    elif kind == 'mixed':
        out['m'] = [[draw(st.integers(0, (1 << n) - 1)), 1], [draw(st.integers(0, (1 << n) - 1)), draw(G.small)]]
    else:
        out['vecs'] = [draw(G.vec(n)) for _ in range(draw(st.integers(1, 2)))]
    return out


@check(P, hicases(), quick=40, thorough=320, shards=8, rule='two blades, not a single one')
def versors_high_dimension(c, x):
    """is_versor in six and seven dimensions, where V*rev(V) scalar no longer implies a versor for homogeneous or even V"""
    n = len(c['sig'])
    ga, R = mk({'g': G.diag(c['sig'])})
    b = value(c, R)
    x.nt('m' in c and len(b) == 2)
    want = is_versor_ref(R, b)
    q = R.mul(b, R.rev(b))
    x.label(c['kind'], 'n%d' % n, 'versor' if want else ('only action fails' if set(q) == {0} else 'nonversor'))
    B = to_mv(ga, b)
    x.ok(bool(B.is_versor()) == want, lambda: 'is_versor() of %s is %s, expected %s' % (show(b), B.is_versor(), want))
    wb = is_blade_ref(b, n)
    if wb or R.wedge(b, b) or len({popcount(m) for m in b}) != 1:
        x.ok(bool(B.is_blade()) == wb, lambda: 'is_blade() of %s' % show(b))
