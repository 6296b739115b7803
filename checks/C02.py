from runner import check
from gu import *
import gens as G
from gens import st

P = 'C02'
OPS = ['^', '|', '<', '>', '<<', '>>', 'sp', 'sprod']


def apply_ops(ga, A, B):
    """every public spelling of the derived products"""
    from galgebra.mv import sp as spf
    return {
        '^': [A ^ B, Mv.Mul(A, B, '^'), ga.mv(ga.Mul(A.obj, B.obj, '^')), ga.mv(ga.wedge(A.obj, B.obj))],
        '|': [A | B, Mv.Mul(A, B, '|'), ga.mv(ga.Mul(A.obj, B.obj, '|')), ga.mv(ga.hestenes_dot(A.obj, B.obj))],
        '<': [A < B, Mv.Mul(A, B, '<'), ga.mv(ga.Mul(A.obj, B.obj, '<')), ga.mv(ga.left_contract(A.obj, B.obj))],
        '>': [A > B, Mv.Mul(A, B, '>'), ga.mv(ga.Mul(A.obj, B.obj, '>')), ga.mv(ga.right_contract(A.obj, B.obj))],
        '<<': [A << B],
        '>>': [A >> B, Ga.com(A, B)],
        'sp': [A.sp(B), spf(A, B), A.rev().sp(B, 'rev')],
        'sprod': [ga.mv(ga.scalar_product(A.obj, B.obj))],
        '*': [A * B, Mv.Mul(A, B, '*'), ga.mv(ga.Mul(A.obj, B.obj, '*')), ga.mv(ga.mul(A.obj, B.obj))],
    }


def want_ops(R, a, b):
    s = {0: R.sp(a, b)}
    return {'^': R.wedge(a, b), '|': R.dot(a, b), '<': R.lc(a, b), '>': R.rc(a, b), '<<': R.acom(a, b),
            '>>': R.com(a, b), 'sp': ref.clean(s), 'sprod': ref.clean(s), '*': R.mul(a, b)}


@check(P, G.ga_and_mvs(2, 1, 4, maxterms=4, minterms=1), quick=480, shards=8,
       rule='both factors non-zero and some derived product non-zero')
def derived_vs_reference(c, x):
    """^, |, <, >, <<, >>, scalar product (operators, methods, functions and Ga-level product functions)
    equal the grade selections of the reference geometric product"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    want = want_ops(R, a, b)
    x.label(c['ga']['kind'], 'n%d' % R.n)
    x.nt(bool(a and b) and any(want[o] for o in ('|', '<', '>', '>>')))
    for op, got in apply_ops(ga, A, B).items():
        if want[op]:
            x.label('nonzero' + op)
        for i, g in enumerate(got):
            eq_ref(x, g, want[op], R.n, 'A %s B (form %d)' % (op, i))


@check(P, G.ga_and_mvs(2, 5, 6, maxterms=3, minterms=1, kinds=('signature', 'degenerate', 'diag')), quick=60, shards=8,
       rule='both factors non-zero in dimension 5 or 6')
def derived_high_dim(c, x):
    """as derived_vs_reference in dimension 5 and 6"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    want = want_ops(R, a, b)
    x.nt(bool(a and b))
    for op, g in (('^', A ^ B), ('|', A | B), ('<', A < B), ('>', A > B), ('>>', A >> B)):
        eq_ref(x, g, want[op], R.n, 'A %s B' % op)


@check(P, G.high(2), quick=60, shards=4, rule='both factors non-zero')
def derived_of_high_grades(c, x):
    """as derived_vs_reference for factors of every grade in dimension seven to nine"""
    derived_high_dim(c, x)


@st.composite
def graded_pairs(draw):
    """one blade-sum of a single grade each, so that selections by grade are exercised cleanly"""
    gc = draw(G.ga(2, 4))
    n = len(gc['g'])
    out = []
    for _ in range(2):
        k = draw(st.integers(0, n))
        ms = [m for m in range(1 << n) if popcount(m) == k]
        out.append(draw(G.mv(n, 3, 1, masks=ms)))
    return {'ga': gc, 'mvs': out}


@check(P, graded_pairs(), quick=240, shards=8, rule='both grades positive')
def homogeneous_selection(c, x):
    """for homogeneous factors the products are the |r-s|, s-r, r-s, r+s grade parts of galgebra's own A*B"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    r, s = R.grades(a)[0], R.grades(b)[0]
    x.label('r%ds%d' % (r, s))
    x.nt(r > 0 and s > 0)
    AB = A * B

    def part(k):
        return AB.grade(k) if 0 <= k <= R.n else ga.mv(S.Zero)
    n = R.n
    same_mv(x, A ^ B, part(r + s), n, 'A^B')
    same_mv(x, A < B, part(s - r), n, 'A<B')
    same_mv(x, A > B, part(r - s), n, 'A>B')
    same_mv(x, A | B, part(abs(r - s)) if r and s else {}, n, 'A|B')
    same_mv(x, B ^ A, (A ^ B) * (-1) ** (r * s), n, 'graded commutativity of ^')


@st.composite
def wedge_metrics(draw):
    n = draw(st.integers(2, 4))
    out = []
    for _ in range(2):
        kind, g = draw(G.metric(n))
        out.append({'g': g, 'form': 'matrix', 'names': 'plain', 'kind': kind})
    return {'gas': out, 'mvs': [draw(G.mv(n, 4, 1)) for _ in range(2)]}


@check(P, wedge_metrics(), quick=120, shards=4, rule='the two metrics differ')
def wedge_metric_free(c, x):
    """the outer product has the same coefficients whatever the metric"""
    x.nt(c['gas'][0]['g'] != c['gas'][1]['g'])
    res = []
    a, b = [mvd(m) for m in c['mvs']]
    for gc in c['gas']:
        ga, R = mk(gc)
        res.append(from_mv(to_mv(ga, a) ^ to_mv(ga, b), R.n))
    x.ok(res[0] == res[1], 'wedge depends on the metric: %s vs %s' % (show(res[0]), show(res[1])))


@st.composite
def scalars(draw):
    c = draw(G.ga_and_mvs(1, 1, 4, maxterms=4, minterms=0))
    c['k'] = draw(st.sampled_from(['int', 'rational', 'sympy', 'mv', 'symbol']))
    c['s'] = draw(G.coef)
    return c


@check(P, scalars(), quick=240, shards=4, rule='multivector and scalar both non-zero')
def scalar_operands(c, x):
    """a Python/sympy scalar operand, on either side, behaves as the grade-0 multivector of that value in
    every product"""
    ga, R = mk(c['ga'])
    a = mvd(c['mvs'][0])
    A = to_mv(ga, a)
    n = R.n
    s = fr(c['s'])
    pt = {}
    kind = c['k']
    if kind == 'int':
        s = F(int(s)) if s.denominator == 1 else s
        k = int(s) if s.denominator == 1 else sp(s)
    elif kind == 'mv':
        k = ga.mv(sp(s))
    elif kind == 'symbol':
        t = Symbol('t', real=True)
        k = 2 * t + 1
        pt = {t: (sp(s) - 1) / 2}
    else:
        k = sp(s)
    x.label(kind)
    x.nt(bool(a) and s != 0)
    sd = ref.clean({0: s})

    def chk(g, w, what):
        d = {m: tofrac(S(v).xreplace(pt)) for m, v in coefs_of(g, n).items()}
        d = ref.clean(d)
        if d != w:
            x.fail('%s with %s %s: got %s expected %s' % (what, kind, s, show(d), show(w)))
    chk(A * k, R.mul(a, sd), 'A*k')
    chk(k * A, R.mul(sd, a), 'k*A')
    chk(A ^ k, R.wedge(a, sd), 'A^k')
    chk(k ^ A, R.wedge(sd, a), 'k^A')
    chk(A | k, {}, 'A|k')
    chk(A < k, R.lc(a, sd), 'A<k')
    chk(A > k, R.rc(a, sd), 'A>k')
    chk(A << k, R.acom(a, sd), 'A<<k')
    chk(A >> k, {}, 'A>>k')
    if kind != 'symbol' and kind != 'rational' and kind != 'sympy':
        # (a sympy number on the left of < and > builds a sympy relation before galgebra is consulted)
        chk(k < A, R.lc(sd, a), 'k<A')
        chk(k > A, R.rc(sd, a), 'k>A')
    if kind in ('int', 'mv'):
        chk(k | A, {}, 'k|A')
        chk(k << A, R.acom(a, sd), 'k<<A')
        chk(k >> A, {}, 'k>>A')
    chk(A + k, ref.add(a, sd), 'A+k')
    chk(k + A, ref.add(a, sd), 'k+A')
    chk(A - k, ref.add(a, sd, -1), 'A-k')
    chk(k - A, ref.add(sd, a, -1), 'k-A')
    for op, w in (('*', R.mul(a, sd)), ('^', R.wedge(a, sd)), ('|', {}), ('<', R.lc(a, sd)), ('>', R.rc(a, sd))):
        chk(Mv.Mul(A, k, op), w, 'Mv.Mul(A,k,%s)' % op)
    for op, w in (('*', R.mul(sd, a)), ('^', R.wedge(sd, a)), ('|', {}), ('<', R.lc(sd, a)), ('>', R.rc(sd, a))):
        chk(Mv.Mul(k, A, op), w, 'Mv.Mul(k,A,%s)' % op)


@check(P, G.ga_and_mvs(3, 2, 4, maxterms=2, minterms=1), quick=100, shards=8, rule='all three non-zero')
def identities(c, x):
    """A<(B<C) = (A^B)<C, (A^B)^C = A^(B^C), AB = A<<B + A>>B, and reversion swaps < with >"""
    ga, R = mk(c['ga'])
    n = R.n
    A, B, C = [to_mv(ga, mvd(m)) for m in c['mvs']]
    x.nt(all(c['mvs']))
    same_mv(x, A < (B < C), (A ^ B) < C, n, 'A<(B<C)')
    same_mv(x, (A ^ B) ^ C, A ^ (B ^ C), n, 'wedge associativity')
    same_mv(x, (A << B) + (A >> B), A * B, n, 'A<<B + A>>B')
    same_mv(x, (A < B).rev(), B.rev() > A.rev(), n, '(A<B)~ = B~ > A~')
    same_mv(x, A ^ (B + C), (A ^ B) + (A ^ C), n, 'wedge distributivity')
    same_mv(x, (A + B) | C, (A | C) + (B | C), n, 'dot distributivity')


@st.composite
def dotmode(draw):
    c = draw(G.ga_and_mvs(2, 1, 3, maxterms=3, minterms=1))
    c['mode'] = draw(st.sampled_from(['|', '<', '>']))
    return c


@check(P, dotmode(), quick=60, shards=2, rule='both non-zero')
def dot_mode(c, x):
    """Ga.dot follows the algebra's dot_mode; product names outside the list are rejected with an exception"""
    ga, R = mk(c['ga'])
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    ga.dot_mode = c['mode']
    x.label(c['mode'])
    x.nt()
    w = {'|': R.dot, '<': R.lc, '>': R.rc}[c['mode']](a, b)
    eq_ref(x, ga.mv(ga.dot(A.obj, B.obj)), w, R.n, 'Ga.dot in mode ' + c['mode'])
    for f in (lambda: Mv.Mul(A, B, '?'), lambda: ga.Mul(A.obj, B.obj, '?')):
        try:
            f()
        except ValueError:
            continue
        x.fail('unknown product accepted')
