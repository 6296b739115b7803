"""Multilinear functions against component tensors."""
import itertools
import importlib.util
import os
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra.lt import Mlt

_s = importlib.util.spec_from_file_location('c19', os.path.join(os.path.dirname(__file__), 'C19.py'))
c19 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c19)

P = 'C21'
KINDS = {1: ['vec', 'comps', 'str', 'dot', 'expr', 'compsmv'], 2: ['lt', 'comps', 'str', 'dot', 'biv', 'expr', 'compsmv'], 3: ['comps', 'str', 'dot', 'expr', 'triv']}


@st.composite
def tensor(draw, n, rank=None):
    r = rank or draw(st.sampled_from([1, 1, 2, 2, 2, 3] if n < 4 else [1, 2, 2]))
    kind = draw(st.sampled_from(KINDS[r]))
    out = {'r': r, 'kind': kind}
    if kind in ('vec',):
        out['v'] = draw(G.vec(n))
    elif kind == 'lt':
        out['A'] = draw(c19.amat(n))
    elif kind == 'dot':
        out['vs'] = [draw(G.vec(n)) for _ in range(r)]
    elif kind in ('biv', 'triv'):
        pool = [m for m in range(1 << n) if popcount(m) == r]
        out['B'] = draw(G.mv(n, 3, 1, masks=pool)) if pool else []
    else:
        idx = list(itertools.product(range(n), repeat=r))
        out['t'] = [[list(i), draw(G.nz)] for i in draw(st.lists(st.sampled_from(idx), min_size=1, max_size=5, unique=True))]
    return out


def comps_ref(t, R):
    """component tensor t[idx] of a specification, exact"""
    n, g, r = R.n, R.g, t['r']
    idx = list(itertools.product(range(n), repeat=r))
    k = t['kind']
    if k == 'vec':
        return {i: sum(g[i[0]][j] * fr(t['v'][j]) for j in range(n)) for i in idx}
    if k == 'lt':
        return {i: sum(g[i[0]][m] * fr(t['A'][m][i[1]]) for m in range(n)) for i in idx}
    if k == 'dot':
        low = [[sum(g[i][j] * fr(v[j]) for j in range(n)) for i in range(n)] for v in t['vs']]
        out = {}
        for i in idx:
            p = F(1)
            for s, q in enumerate(i):
                p *= low[s][q]
            out[i] = p
        return out
    if k in ('biv', 'triv'):
        B = mvd(t['B'])
        out = {}
        for i in idx:
            w = {0: F(1)}
            for q in i:
                w = R.wedge(w, {1 << q: F(1)})
            out[i] = R.sprod(B, w).get(0, F(0))
        return out
    d = {tuple(i): fr(v) for i, v in t['t']}
    return {i: d.get(i, F(0)) for i in idx}


def make(t, ga, name='T'):
    """-> (Mlt, substitution for its symbolic components)"""
    n, r, k = ga.n, t['r'], t['kind']
    vec = lambda w: to_mv(ga, ref.clean({1 << i: fr(z) for i, z in enumerate(w)}))
    if k == 'vec':
        return Mlt(vec(t['v']), ga), {}
    if k == 'lt':
        return Mlt(c19.build(ga, t['A'], 'matrix'), ga), {}
    if k == 'dot':
        vs = [vec(w) for w in t['vs']]
        f = {1: lambda a: a | vs[0], 2: lambda a, b: (a | vs[0]) * (b | vs[1]), 3: lambda a, b, c: (a | vs[0]) * (b | vs[1]) * (c | vs[2])}[r]
        return Mlt(f, ga), {}
    if k in ('biv', 'triv'):
        B = to_mv(ga, mvd(t['B']))
        f = {2: lambda a, b: B | (a ^ b), 3: lambda a, b, c: B | (a ^ b ^ c)}[r]
        return Mlt(f, ga), {}
    d = {tuple(i): sp(v) for i, v in t['t']}
    co = lambda a: (a.blade_rep().get_coefs(1) if a.obj != 0 else [S.Zero] * n)
    if k in ('comps', 'compsmv'):
        def val(*args):
            cs = [co(a) for a in args]
            v = S.Zero
            for i, q in d.items():
                for s, j in enumerate(i):
                    q = q * cs[s][j]
                v += q
            return ga.mv(v) if k == 'compsmv' else v
        f = {1: lambda a: val(a), 2: lambda a, b: val(a, b), 3: lambda a, b, c: val(a, b, c)}[r]
        return Mlt(f, ga), {}
    if k == 'str':
        T = Mlt(name, ga, nargs=r)
        sup = ga.basis_super_scripts
        sub = {sympy.Symbol('%s_%s' % (name, ''.join(map(str, [sup[j] for j in i]))), real=True): d.get(i, S.Zero) for i in itertools.product(range(n), repeat=r)}
        return T, sub
    if k == 'expr':
        Mlt.increment_slots(r, ga)
        v = S.Zero
        for i, q in d.items():
            for s, j in enumerate(i):
                q = q * ga._mlt_pdiffs[s][j]
            v += q
        return Mlt(v, ga, nargs=r), {}
    raise ValueError(k)


def num(v, sub):
    if isinstance(v, Mv):
        if not v.is_scalar() and not v.is_zero():
            raise ValueError('not a scalar: %s' % v)
        v = v.scalar()
    return tofrac(S(v).subs(sub))


def ev(t, args):
    """value of a component tensor on vectors given by their components"""
    s = F(0)
    for i, q in t.items():
        for k, j in enumerate(i):
            q = q * args[k][j]
        s += q
    return s


@st.composite
def cases(draw):
    gc = draw(G.ga_nd(1, 3, ns=[1, 2, 2, 2, 3, 3]))
    n = len(gc['g'])
    T = draw(tensor(n))
    U = draw(tensor(n, T['r'])) if draw(st.booleans()) else draw(tensor(n, draw(st.sampled_from([1, 2]))))
    return {'ga': gc, 'T': T, 'U': U, 'k': draw(G.nz), 'warm': draw(st.sampled_from([0, 0, 3, 4])), 'coords': draw(st.booleans()),
            'args': [draw(G.vec(n, False)) for _ in range(6)], 'slots': draw(st.permutations([1, 2, 3, 4, 5]))}


def setup(c):
    n = len(c['ga']['g'])
    kw = {'coords': sympy.symbols('x y z', real=True)[:n]} if c.get('coords') else {}
    ga = mk_ga(c['ga'], **kw)
    if c.get('warm'):
        Mlt('W', ga, nargs=c['warm']) if c['warm'] < 4 or n < 3 else Mlt.increment_slots(4, ga)
    return ga, RefGA(gmat(c['ga']))


@check(P, cases(), quick=300, shards=4, rule='rank >= 2 somewhere and dimension >= 2')
def evaluation(c, x):
    """calls, linearity in every slot, sums, differences, tensor products, scalar multiples, on components and vectors"""
    ga, R = setup(c)
    n = ga.n
    t, u = comps_ref(c['T'], R), comps_ref(c['U'], R)
    T, st_ = make(c['T'], ga, 'T')
    U, su = make(c['U'], ga, 'U')
    sub = {**st_, **su}
    rT, rU = c['T']['r'], c['U']['r']
    x.nt(n > 1 and max(rT, rU) > 1, c['T']['kind'], 'r%d' % rT, 'warm' if c['warm'] else 'fresh')
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]
    base = list(ga.mv()) if n > 1 else [ga.mv()[0]]
    x.ok(T.nargs == rT and U.nargs == rU, 'nargs is %s' % T.nargs)

    def same(Fm, tt, r, what):
        x.ok(Fm.nargs == r, '%s: nargs is %s' % (what, Fm.nargs))
        got, want = num(Fm(*V[:r]), sub), ev(tt, A)
        x.ok(got == want, '%s on vectors %s is %s, expected %s' % (what, c['args'][:r], got, want))
        for i in list(tt)[:: max(1, len(tt) // 6)]:
            got = num(Fm(*[base[j] for j in i]), sub)
            x.ok(got == tt[i], '%s on basis vectors %s is %s, expected %s' % (what, i, got, tt[i]))
    same(T, t, rT, 'T')
    same(U, u, rU, 'U')
    same(T, t, rT, 'T (again)')
    # linear in every slot
    k = sp(c['k'])
    for s in range(rT):
        a1 = list(V[:rT])
        a1[s] = k * V[s] + V[5]
        a2 = list(V[:rT])
        a2[s] = V[5]
        x.ok(num(T(*a1), sub) == fr(c['k']) * num(T(*V[:rT]), sub) + num(T(*a2), sub), 'not linear in slot %d' % (s + 1))
    if rT == rU:
        same(T + U, {i: t[i] + u[i] for i in t}, rT, 'T + U')
        same(T - U, {i: t[i] - u[i] for i in t}, rT, 'T - U')
    else:
        for op in ('+', '-'):
            try:
                T + U if op == '+' else T - U
            except ValueError:
                continue
            x.fail('T %s U with different numbers of slots was accepted' % op)
    if rT + rU <= 4:
        tu = {i + j: p * q for i, p in t.items() for j, q in u.items()}
        same(T * U, tu, rT + rU, 'T * U')
    same(T * k, {i: fr(c['k']) * v for i, v in t.items()}, rT, 'T * k')
    same(T.expand(), t, rT, 'T.expand()')
    # component listing
    lines = T.comps().strip().split('\n')
    x.ok(len(lines) == n ** rT, 'comps() has %d entries' % len(lines))
    for no, (line, i) in enumerate(zip(lines, itertools.product(range(n), repeat=rT))):
        a, b, v = line.split(':', 2)
        x.ok(int(a) == no and tuple(int(q) for q in b.strip('() ').rstrip(',').split(',')) == i, 'comps() line %r' % line)
        if not sub and '_' not in v:
            x.ok(tofrac(sympy.sympify(v)) == t[i], 'comps() entry %r, expected %s' % (line, t[i]))
    try:
        T + 1
    except TypeError:
        pass
    else:
        x.fail('T + 1 was accepted')


@check(P, cases(), quick=240, shards=4, rule='dimension >= 2 and rank >= 2')
def contraction(c, x):
    """slot gradients and contractions are the metric ones and renumber the remaining slots; nothing else changes"""
    ga, R = setup(c)
    n = ga.n
    T, s1 = make(c['T'], ga, 'T')
    U, s2 = make(c['U'], ga, 'U')
    t, u = comps_ref(c['T'], R), comps_ref(c['U'], R)
    sub = {**s1, **s2}
    if c['T']['r'] + c['U']['r'] <= 4 - (n == 3):
        T, t = T * U, {i + j: p * q for i, p in t.items() for j, q in u.items()}
    r = T.nargs
    x.nt(n > 1 and r > 1, 'r%d' % r, c['T']['kind'])
    gi = ref.mat_inv(R.g)
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]
    slots = [s for s in c['slots'] if s <= r]
    # gradient with respect to a slot: vector whose components are g^ij times the partial contraction
    s = slots[0]
    grad = T.pdiff(s)
    vals = {}
    for k in range(r):
        vals.update({ga._mlt_pdiffs[k][j]: sp(A[k][j]) for j in range(n)})
    got = from_mv(grad.subs({**vals, **sub}), n)
    low = []
    for j in range(n):
        B = [list(w) for w in A[:r]]
        B[s - 1] = [F(int(j == q)) for q in range(n)]
        low.append(ev(t, B))
    want = ref.clean({1 << i: sum(gi[i][j] * low[j] for j in range(n)) for i in range(n)})
    x.ok(got == want, 'gradient with respect to slot %d is %s, expected %s' % (s, show(got), show(want)))
    x.ok(num(T(*V[:r]), sub) == ev(t, A), 'T changed by pdiff')
    if r >= 2:
        p, q = slots[0], slots[1]
        C = T.contract(p, q)
        lo, hi = min(p, q) - 1, max(p, q) - 1
        tc = {}
        for i, v in t.items():
            j = i[:lo] + i[lo + 1:hi] + i[hi + 1:]
            tc[j] = tc.get(j, F(0)) + gi[i[lo]][i[hi]] * v
        x.ok(C.nargs == r - 2, 'contraction has %s slots' % C.nargs)
        got = num(C(*V[:r - 2]), sub)
        x.ok(got == ev(tc, A), 'contraction of slots %d, %d is %s, expected %s' % (p, q, got, ev(tc, A)))
        x.ok(num(T(*V[:r]), sub) == ev(t, A), 'T changed by contract')
        D = T.contract(q, p)
        x.ok(num(D(*V[:r - 2]), sub) == got, 'contraction is not symmetric in the slot numbers')
    # the algebra still differentiates by its coordinates
    if c['coords']:
        f = ga.coords[0] ** 2
        x.ok(not diff_mv(ga.grad * f, ga.mv(2 * ga.coords[0]) * ga.mvr()[0], n), 'the gradient of the algebra changed')


# ---- derivatives of tensor fields ---------------------------------------------
u_, v_, w_ = sympy.symbols('u v w', real=True)
SYS = {
    'flat': ((u_, v_), [[1, 0], [0, 1]]), 'oblique': ((u_, v_), [[2, 1], [1, 3]]), 'polar': ((u_, v_), [[1, 0], [0, u_ ** 2]]),
    'skew': ((u_, v_), [[1, u_], [u_, u_ ** 2 + 1]]), 'lorentz': ((u_, v_), [[1, 0], [0, -1]]), 'line': ((u_,), [[u_ ** 2]]), 'rindler': ((u_, v_), [[-v_ ** 2, 0], [0, 1]]),
    'sphere': ((u_, v_, w_), [[1, 0, 0], [0, u_ ** 2, 0], [0, 0, u_ ** 2 * sympy.sin(v_) ** 2]]),
}
POLY = ['1', 'u', '0', 'u**2', '-2', 'v', 'u*v', '3', '1/u']


@st.composite
def field_cases(draw):
    s = draw(st.sampled_from(sorted(SYS)))
    n = len(SYS[s][0])
    r = draw(st.sampled_from([1, 1, 2] if n == 3 else [1, 2, 2, 3] if n == 1 else [1, 2, 2]))
    norm = draw(st.booleans()) if s in ('polar', 'sphere', 'line') else False
    idx = list(itertools.product(range(n), repeat=r))
    t = [[list(i), draw(st.sampled_from(POLY))] for i in draw(st.lists(st.sampled_from(idx), min_size=1, max_size=4, unique=True))]
    return {'sys': s, 'norm': norm, 'r': r, 't': t, 'spec': draw(st.sampled_from(['expr', 'fun', 'str'])), 'warm': draw(st.sampled_from([0, 4])), 'args': [draw(G.vec(n, False)) for _ in range(r + 1)]}


@check(P, field_cases(), quick=100, shards=4, rule='a component depends on the coordinates or the system is curvilinear')
def derivatives(c, x):
    """dd() is the directional derivative of the components, cderiv() the covariant derivative with Christoffel terms"""
    co, g = SYS[c['sys']]
    n, r = len(co), c['r']
    g = Matrix(g)
    if n == 1:
        ga = Ga('e_1,', g=[g[0, 0]], coords=co, norm=c['norm'])
    elif g.is_diagonal():
        ga = Ga('e', g=[g[i, i] for i in range(n)], coords=co, norm=c['norm'])
    else:
        ga = Ga('e', g=g.tolist(), coords=co)
    h = [sympy.sqrt(g[i, i]).subs({sympy.Abs(u_): u_}) if c['norm'] else S.One for i in range(n)]
    h = [sympy.simplify(q.replace(sympy.Abs, lambda a: a)) for q in h]
    gi = g.inv()
    Gam = lambda k, i, j: sum(gi[k, l] * (sympy.diff(g[l, i], co[j]) + sympy.diff(g[l, j], co[i]) - sympy.diff(g[i, j], co[l])) for l in range(n)) / 2
    # nabla_{E_j} E_i = sum_k W[k][i][j] E_k in the (possibly normalised) basis of the algebra

    def W(k, i, j):
        q = Gam(k, i, j) * h[k] / (h[i] * h[j])
        if k == i:
            q += sympy.diff(1 / h[i], co[j]) * h[i] / h[j]
        return q
    if c['warm']:
        Mlt.increment_slots(c['warm'], ga)
    d = {tuple(i): sympy.sympify(v, locals={'u': u_, 'v': v_ if n > 1 else u_}) for i, v in c['t']}
    Mlt.increment_slots(r, ga)
    if c['spec'] == 'expr':
        T = Mlt(sum((v * reduce_mul(ga._mlt_pdiffs[s][j] for s, j in enumerate(i)) for i, v in d.items()), S.Zero), ga, nargs=r)
        sub = {}
    elif c['spec'] == 'fun':
        def val(*args):
            cs = [a.blade_rep().get_coefs(1) if a.obj != 0 else [S.Zero] * n for a in args]
            return sum((v * reduce_mul(cs[s][j] for s, j in enumerate(i)) for i, v in d.items()), S.Zero)
        T = Mlt({1: lambda a: val(a), 2: lambda a, b: val(a, b), 3: lambda a, b, e: val(a, b, e)}[r], ga)
        sub = {}
    else:
        T = Mlt('T', ga, nargs=r, fct=True)
        sup = ga.basis_super_scripts
        fs = {a.func.__name__: a for a in S(T.fvalue).atoms(sympy.core.function.AppliedUndef)}
        sub = {}
        for i in itertools.product(range(n), repeat=r):
            nm = 'T_' + ''.join(map(str, [sup[j] for j in i]))
            x.ok(nm in fs, 'component %s is missing from %s' % (nm, T.fvalue))
            sub[fs[nm]] = d.get(i, S.Zero)
    full = {i: d.get(i, S.Zero) for i in itertools.product(range(n), repeat=r)}
    curv = any(W(k, i, j) != 0 for k in range(n) for i in range(n) for j in range(n))
    x.nt(curv or any(v.free_symbols for v in d.values()), c['sys'], c['spec'], 'norm' if c['norm'] else 'raw', 'r%d' % r)
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]

    def value(M):
        e = M(*V)
        e = e.scalar() if isinstance(e, Mv) else S(e)
        return e.subs(sub).doit() if sub else e

    def expect(cov):
        s = S.Zero
        for i, v in full.items():
            for j in range(n):
                comp = sympy.diff(v, co[j]) / h[j]
                if cov:
                    for sl in range(r):
                        for k in range(n):
                            comp -= W(k, i[sl], j) * full[i[:sl] + (k,) + i[sl + 1:]]
                s += comp * reduce_mul(sp(A[q][m]) for q, m in enumerate(i)) * sp(A[r][j])
        return s
    e0 = T(*V[:r])
    e0 = e0.scalar() if isinstance(e0, Mv) else S(e0)
    w0 = sum((v * reduce_mul(sp(A[q][m]) for q, m in enumerate(i)) for i, v in full.items()), S.Zero)
    if is_zero_expr(e0.subs(sub) - w0) is False:
        x.fail('T is %s, expected %s' % (e0, w0))
    D = T.dd()
    x.ok(D.nargs == r + 1, 'dd() has %s slots' % D.nargs)
    if is_zero_expr(value(D) - expect(False)) is False:
        x.fail('directional derivative is %s, expected %s' % (value(D), expect(False)))
    C = T.cderiv()
    x.ok(C.nargs == r + 1, 'cderiv() has %s slots' % C.nargs)
    if is_zero_expr(value(C) - expect(True)) is False:
        x.fail('covariant derivative is %s, expected %s' % (value(C), expect(True)))
    # differentiation leaves T alone
    e1 = T(*V[:r])
    e1 = e1.scalar() if isinstance(e1, Mv) else S(e1)
    if is_zero_expr((e1 - e0)) is False:
        x.fail('T changed')


def reduce_mul(it):
    p = S.One
    for q in it:
        p = p * q
    return p


@check(P, cases(), quick=60, shards=1, rule='dimension >= 2')
def metric_tensor(c, x):
    """the metric as a bilinear form: its contraction is the dimension, contracting it with T*g lowers nothing"""
    ga, R = setup(c)
    n = ga.n
    x.nt(n > 1)
    g = Mlt(lambda a, b: a | b, ga)
    base = list(ga.mv()) if n > 1 else [ga.mv()[0]]
    for i in range(n):
        for j in range(n):
            x.ok(num(g(base[i], base[j]), {}) == R.g[i][j], 'metric component %d %d' % (i, j))
    x.ok(num(g.contract(1, 2)(), {}) == n, 'contraction of the metric is %s' % g.contract(1, 2).fvalue)
    T, sub = make(c['T'], ga, 'T')
    r = T.nargs
    if r <= 2:
        t = comps_ref(c['T'], R)
        A = [[fr(z) for z in w] for w in c['args']]
        V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]
        # contract slot r of T with the first slot of g: gives T back
        C = (T * g).contract(r, r + 1)
        x.ok(num(C(*V[:r]), sub) == ev(t, A), 'T * g contracted is not T')


# ---- multivector valued multilinear functions -----------------------------------
@st.composite
def mvtensor(draw, n, r):
    kind = draw(st.sampled_from(['fun', 'expr', 'Mv', 'prod', 'wedge', 'sandwich', 'scaled'] if r <= 2 else ['fun', 'expr']))
    out = {'r': r, 'kind': kind}
    if kind in ('fun', 'expr', 'Mv'):
        idx = list(itertools.product(range(n), repeat=r))
        pool = draw(st.sampled_from([list(range(1 << n)), [1 << i for i in range(n)], [m for m in range(1 << n) if popcount(m) != 1]]))
        out['t'] = [[list(i), draw(G.mv(n, 3, 1, masks=pool))] for i in draw(st.lists(st.sampled_from(idx), min_size=1, max_size=3, unique=True))]
    else:
        out['B'] = draw(G.mv(n, 3, 1))
        out['v'] = draw(G.vec(n))
    return out


def mv_comps(t, R):
    n, r, k = R.n, t['r'], t['kind']
    idx = list(itertools.product(range(n), repeat=r))
    e = lambda i: {1 << i: F(1)}
    if k in ('fun', 'expr', 'Mv'):
        d = {tuple(i): mvd(m) for i, m in t['t']}
        return {i: d.get(i, {}) for i in idx}
    B, v = mvd(t['B']), ref.clean({1 << i: fr(z) for i, z in enumerate(t['v'])})
    out = {}
    for i in idx:
        es = [e(j) for j in i]
        if k == 'prod':
            out[i] = R.mul(es[0], B) if r == 1 else R.mul(es[0], B, es[1])
        elif k == 'wedge':
            out[i] = R.wedge(es[0], B) if r == 1 else R.wedge(es[0], es[1], B)
        elif k == 'sandwich':
            out[i] = R.mul(v, es[0], v) if r == 1 else R.mul(es[1], es[0], v)
        elif k == 'scaled':
            out[i] = ref.smul(R.sp(es[0], v), B if r == 1 else R.wedge(B, es[1]))
    return out


def mv_make(t, ga):
    n, r, k = ga.n, t['r'], t['kind']
    if k in ('fun', 'expr', 'Mv'):
        d = [(i, to_mv(ga, mvd(m))) for i, m in t['t']]
        if k == 'fun':
            def val(*args):
                cs = [a.blade_rep().get_coefs(1) if a.obj != 0 else [S.Zero] * n for a in args]
                s = ga.mv(S.Zero)
                for i, m in d:
                    s = s + reduce_mul(cs[q][j] for q, j in enumerate(i)) * m
                return s
            return Mlt({1: lambda a: val(a), 2: lambda a, b: val(a, b), 3: lambda a, b, e: val(a, b, e)}[r], ga)
        Mlt.increment_slots(r, ga)
        s = ga.mv(S.Zero)
        for i, m in d:
            s = s + reduce_mul(ga._mlt_pdiffs[q][j] for q, j in enumerate(i)) * m
        return Mlt(s.obj if k == 'expr' else s, ga, nargs=r)
    B, v = to_mv(ga, mvd(t['B'])), to_mv(ga, ref.clean({1 << i: fr(z) for i, z in enumerate(t['v'])}))
    f = {('prod', 1): lambda a: a * B, ('prod', 2): lambda a, b: a * B * b, ('wedge', 1): lambda a: a ^ B, ('wedge', 2): lambda a, b: a ^ b ^ B,
         ('sandwich', 1): lambda a: v * a * v, ('sandwich', 2): lambda a, b: b * a * v,
         ('scaled', 1): lambda a: (a | v).scalar() * B, ('scaled', 2): lambda a, b: (a | v).scalar() * (B ^ b)}[k, r]
    return Mlt(f, ga)


@st.composite
def mv_cases(draw):
    gc = draw(G.ga_nd(1, 3, ns=[1, 2, 2, 2, 3]))
    n = len(gc['g'])
    r = draw(st.sampled_from([1, 1, 2, 2, 3] if n < 3 else [1, 1, 2]))
    T = draw(mvtensor(n, r))
    scal = draw(st.integers(0, 3)) == 0
    ru = draw(st.sampled_from([r, r, 1, 1, 2])) if n < 3 else draw(st.sampled_from([r, 1]))
    U = draw(tensor(n, min(ru, 2))) if scal else draw(mvtensor(n, ru))
    return {'ga': gc, 'T': T, 'U': U, 'scal': scal, 'swap': draw(st.booleans()), 'k': draw(G.nz), 'coords': draw(st.booleans()), 'warm': draw(st.sampled_from([0, 0, 3])),
            'args': [draw(G.vec(n, False)) for _ in range(7)], 'slots': draw(st.permutations([1, 2, 3, 4, 5, 6]))}


def ev_mv(t, args):
    s = {}
    for i, m in t.items():
        q = F(1)
        for k, j in enumerate(i):
            q = q * args[k][j]
        s = ref.add(s, ref.smul(q, m)) if q and m else s
    return s


@check(P, mv_cases(), quick=160, shards=4, rule='dimension >= 2 and the values are not all scalars')
def multivector_valued(c, x):
    """multivector valued tensors: values, sums, multiples, the three products, slot gradients, contractions, on component multivectors"""
    ga, R = setup(c)
    n = ga.n
    t = mv_comps(c['T'], R)
    T = mv_make(c['T'], ga)
    if c['scal']:
        U, sub = make(c['U'], ga, 'U')
        u = {i: ref.clean({0: v}) for i, v in comps_ref(c['U'], R).items()}
    else:
        U, sub = mv_make(c['U'], ga), {}
        u = mv_comps(c['U'], R)
    if c['swap']:
        T, U, t, u = U, T, u, t
    rT, rU = len(next(iter(t))), len(next(iter(u)))
    x.nt(n > 1 and any(popcount(m) for v in t.values() for m in v), c['T']['kind'], 'r%d' % rT, 'scalar partner' if c['scal'] else 'mv partner')
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]
    base = list(ga.mv()) if n > 1 else [ga.mv()[0]]

    def val(e):
        if isinstance(e, Mv):
            return from_mv(e.subs(sub) if sub else e, n)
        return ref.clean({0: tofrac(S(e).subs(sub))})

    def same(Fm, tt, r, what, alt=None):
        x.ok(Fm.nargs == r, '%s: nargs is %s' % (what, Fm.nargs))
        got, want = val(Fm(*V[:r])), ev_mv(tt, A)
        x.ok(got == want or (alt is not None and got == ev_mv(alt, A)), '%s on vectors %s is %s, expected %s' % (what, c['args'][:r], show(got), show(want)))
        if alt is None:
            for i in list(tt)[:: max(1, len(tt) // 4)]:
                got = val(Fm(*[base[j] for j in i]))
                x.ok(got == tt[i], '%s on basis vectors %s is %s, expected %s' % (what, i, show(got), show(tt[i])))
    same(T, t, rT, 'T')
    same(U, u, rU, 'U')
    if rT == rU:
        same(T + U, {i: ref.add(t[i], u[i]) for i in t}, rT, 'T + U')
        same(T - U, {i: ref.add(t[i], u[i], -1) for i in t}, rT, 'T - U')
    same(T * sp(c['k']), {i: ref.smul(fr(c['k']), v) for i, v in t.items()}, rT, 'T * k')
    if rT + rU <= 4:
        for op, f, nm in ((lambda a, b: a * b, R.mul, '*'), (lambda a, b: a ^ b, R.wedge, '^'), (lambda a, b: a | b, R.dot, '|')):
            same(op(T, U), {i + j: f(p, q) for i, p in t.items() for j, q in u.items()}, rT + rU, 'T %s U' % nm)
    same(T, t, rT, 'T (after the products)')
    # slot gradient and contraction, of T or of a product
    X, xt, r = T, t, rT
    if rT + rU <= 3 and c['slots'][5] > 3:
        X, xt, r = T * U, {i + j: R.mul(p, q) for i, p in t.items() for j, q in u.items()}, rT + rU
    gi = ref.mat_inv(R.g)
    rec = [ref.clean({1 << j: gi[a][j] for j in range(n)}) for a in range(n)]
    slots = [s for s in c['slots'] if s <= r]
    s = slots[0]
    grad = X.pdiff(s)
    vals = {ga._mlt_pdiffs[k][j]: sp(A[k][j]) for k in range(r) for j in range(n)}
    want = {}
    for j in range(n):
        B = [list(w) for w in A[:r]]
        B[s - 1] = [F(int(j == q)) for q in range(n)]
        want = ref.add(want, R.mul(rec[j], ev_mv(xt, B)))
    got = from_mv(grad.subs({**vals, **sub}), n)
    x.ok(got == want, 'gradient with respect to slot %d is %s, expected %s' % (s, show(got), show(want)))
    if r >= 2:
        p, q = slots[:2]
        lo, hi = min(p, q) - 1, max(p, q) - 1
        ways = [{}, {}]
        for i, v in xt.items():
            j = i[:lo] + i[lo + 1:hi] + i[hi + 1:]
            for w, (a, b) in zip(ways, ((lo, hi), (hi, lo))):
                w[j] = ref.add(w.get(j, {}), R.dot(rec[i[b]], R.mul(rec[i[a]], v)))
        C = X.contract(p, q)
        same(C, ways[0], r - 2, 'contraction of slots %d, %d' % (p, q), ways[1])
        # the result is a tensor again
        D = C * sp(c['k'])
        same(D, {i: ref.smul(fr(c['k']), v) for i, v in ways[0].items()}, r - 2, 'a multiple of the contraction', {i: ref.smul(fr(c['k']), v) for i, v in ways[1].items()})
        if r == 3:
            E = C * U if rU <= 2 else C * C
            oth, ro = (u, rU) if rU <= 2 else (None, 1)
            alts = [{i + j: R.mul(a, b) for i, a in w.items() for j, b in (oth or w).items()} for w in ways]
            same(E, alts[0], 1 + ro, 'product of the contraction', alts[1])
    same(X, xt, r, 'the tensor (at the end)')


MVF = ['1', 'u', 'u*v', 'v**2', '-2', '3*u', '1/u']


@st.composite
def mvfield_cases(draw):
    s = draw(st.sampled_from(sorted(set(SYS) - {'line', 'sphere'})))
    n = len(SYS[s][0])
    r = draw(st.sampled_from([1, 1, 2]))
    curved = s not in ('flat', 'oblique', 'lorentz')
    pool = [1 << i for i in range(n)] if curved else list(range(1 << n))
    idx = list(itertools.product(range(n), repeat=r))
    t = [[list(i), [[m, draw(st.sampled_from(MVF))] for m in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True))]]
         for i in draw(st.lists(st.sampled_from(idx), min_size=1, max_size=3, unique=True))]
    return {'sys': s, 'r': r, 't': t, 'spec': draw(st.sampled_from(['fun', 'expr'])), 'args': [draw(G.vec(n, False)) for _ in range(r + 1)]}


@check(P, mvfield_cases(), quick=70, shards=4, rule='the components or the basis vectors depend on the coordinates')
def multivector_fields(c, x):
    """dd() and cderiv() of multivector valued tensor fields differentiate the values covariantly"""
    co, g = SYS[c['sys']]
    n, r = len(co), c['r']
    g = Matrix(g)
    ga = Ga('e', g=[g[i, i] for i in range(n)], coords=co) if g.is_diagonal() else Ga('e', g=g.tolist(), coords=co)
    gi = g.inv()
    W = lambda k, i, j: sum(gi[k, l] * (sympy.diff(g[l, i], co[j]) + sympy.diff(g[l, j], co[i]) - sympy.diff(g[i, j], co[l])) for l in range(n)) / 2
    curv = any(W(k, i, j) != 0 for k in range(n) for i in range(n) for j in range(n))
    d = {tuple(i): {m: sympy.sympify(v, locals={'u': u_, 'v': v_}) for m, v in w} for i, w in c['t']}
    x.nt(curv or any(v.free_symbols for w in d.values() for v in w.values()), c['sys'], c['spec'], 'r%d' % r)
    Mlt.increment_slots(r, ga)

    def val(*cs):
        s = ga.mv(S.Zero)
        for i, w in d.items():
            s = s + reduce_mul(cs[q][j] for q, j in enumerate(i)) * plain_mv(ga, w)
        return s
    if c['spec'] == 'expr':
        T = Mlt(val(*ga._mlt_pdiffs[:r]).obj, ga, nargs=r)
    else:
        co_ = lambda a: a.blade_rep().get_coefs(1) if a.obj != 0 else [S.Zero] * n
        T = Mlt({1: lambda a: val(co_(a)), 2: lambda a, b: val(co_(a), co_(b))}[r], ga)
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]
    full = {i: d.get(i, {}) for i in itertools.product(range(n), repeat=r)}

    def expect(cov):
        out = {}
        for i, w in full.items():
            for j in range(n):
                comp = {}
                for m, v in w.items():
                    comp[m] = comp.get(m, S.Zero) + sympy.diff(v, co[j])
                    if curv:                      # vector values
                        for k in range(n):
                            comp[1 << k] = comp.get(1 << k, S.Zero) + W(k, bits(m)[0], j) * v
                if cov:
                    for sl in range(r):
                        for k in range(n):
                            for m, v in full[i[:sl] + (k,) + i[sl + 1:]].items():
                                comp[m] = comp.get(m, S.Zero) - W(k, i[sl], j) * v
                f = reduce_mul(sp(A[q][m]) for q, m in enumerate(i)) * sp(A[r][j])
                for m, v in comp.items():
                    out[m] = out.get(m, S.Zero) + f * v
        return out
    for nm, D in (('directional', T.dd()), ('covariant', T.cderiv())):
        x.ok(D.nargs == r + 1, 'the %s derivative has %s slots' % (nm, D.nargs))
        e = D(*V)
        same_mv(x, e if isinstance(e, Mv) else ga.mv(e), expect(nm == 'covariant'), n, '%s derivative' % nm)


@st.composite
def generic_cases(draw):
    n = draw(st.integers(1, 4))
    how = draw(st.sampled_from(['coords', 'coords', 'roots', 'indexes', 'many']))
    pool = {'coords': ['x', 'y', 'xy', 'yx', 'xx', 'xxx', 'r'], 'roots': ['u_1', 'u_2', 'v_1', 'v_2', 'w_x', 'v_x'],
            'indexes': ['e_1', 'e_2', 'e_11', 'e_12', 'e_21', 'e_111'], 'many': ['e']}[how]
    names = draw(st.permutations(pool))[:n]
    r = draw(st.integers(1, 3))
    if how == 'many':
        n, r = draw(st.sampled_from([(11, 1), (11, 2), (12, 2)]))
    return {'n': n, 'how': how, 'names': names, 'r': r, 'fct': draw(st.booleans()), 'arg': [[draw(st.integers(0, n - 1)) for _ in range(r)] for _ in range(3)],
            'g': [draw(st.sampled_from([1, -1, 2])) for _ in range(n)]}


@check(P, generic_cases(), quick=80, shards=4, rule='two components whose joined index names are equal')
def generic_components(c, x):
    """a named multilinear function has an independent coefficient for every component, whatever the basis vectors or coordinates are called"""
    n, r, how = c['n'], c['r'], c['how']
    kw = {}
    if how == 'coords':
        kw['coords'] = tuple(sympy.Symbol(s, real=True) for s in c['names'])
    if how == 'many':
        names = 'e*' + '|'.join(str(i + 1) for i in range(n))
    elif how == 'coords':
        names = names_for(n, 'under') if n > 1 else 'e_x,'
    else:
        names = ' '.join(c['names']) if n > 1 else c['names'][0] + ','
    ga = Ga(names, g=c['g'], **kw)
    fct = c['fct'] and how == 'coords'
    T = Mlt('T', ga, nargs=r, fct=fct)
    sub = c['names'] if how == 'coords' else [s.split('_')[-1] for s in names.rstrip(',').replace('e*', '').replace('|', ' ').split()]
    tuples = list(itertools.product(range(n), repeat=r))
    x.nt(len({''.join(sub[i] for i in t) for t in tuples}) < len(tuples), how, 'r%d' % r)
    es = ga.mv_blades[1]
    if n > 4:
        p, q = [0] + [10] * (r - 1), [10] + [0] * (r - 1)       # indexes 1 11 and 11 1
        look = [t for t in [p, q] + c['arg'] if len(t) == r]
    else:
        look = tuples
    val = {}
    for t in map(tuple, look):
        v = T(*[es[i] for i in t])
        v = v.scalar() if isinstance(v, Mv) else S(v)
        x.ok(isinstance(v, sympy.core.function.AppliedUndef) and v.args == tuple(ga.coords) if fct else v.is_Symbol,
             lambda: 'the component %s is %r' % (t, v))
        x.ok(v not in [val[s] for s in val if s != t], lambda: 'the components %s and %s are both %s' % (t, [s for s in val if val[s] == v], v))
        val[t] = v


@st.composite
def tall(draw):
    n = draw(st.sampled_from([4, 4, 5]))
    gc = draw(G.ga_nd(1, 5, ns=[n], kinds=('euclid', 'signature', 'diag', 'sym')))
    T = draw(tensor(n, draw(st.sampled_from([2, 3, 3]))))
    while T['kind'] == 'str':
        T['kind'] = 'comps'
    U = draw(tensor(n, draw(st.sampled_from([1, 2, T['r']]))))
    if U['kind'] == 'str':
        U['kind'] = 'comps'
    return {'ga': gc, 'T': T, 'U': U, 'args': [draw(G.vec(n, False)) for _ in range(5)], 'slots': draw(st.permutations([1, 2, 3])), 'other': draw(st.booleans())}


@check(P, tall(), quick=48, shards=4, rule='rank three somewhere')
def many_dimensions(c, x):
    """values, sums, products, slot gradients and contractions in four and five dimensions"""
    ga, R = setup(c)
    n = ga.n
    if c['other']:
        Mlt.increment_slots(2, ga)
    t, u = comps_ref(c['T'], R), comps_ref(c['U'], R)
    T, U = make(c['T'], ga)[0], make(c['U'], ga)[0]
    rT, rU = c['T']['r'], c['U']['r']
    x.nt(max(rT, rU) > 2, c['T']['kind'], 'n%d' % n)
    A = [[fr(z) for z in w] for w in c['args']]
    V = [to_mv(ga, ref.clean({1 << i: z for i, z in enumerate(w)})) for w in A]

    def same(Fm, tt, r, what):
        x.ok(Fm.nargs == r, '%s: nargs is %s' % (what, Fm.nargs))
        got, want = num(Fm(*V[:r]), {}), ev(tt, A)
        x.ok(got == want, '%s on vectors %s is %s, expected %s' % (what, c['args'][:r], got, want))
    same(T, t, rT, 'T')
    if rT == rU:
        same(T + U, {i: t[i] + u[i] for i in t}, rT, 'T + U')
        same(T - U, {i: t[i] - u[i] for i in t}, rT, 'T - U')
    if rT + rU <= 4:
        same(T * U, {i + j: p * q for i, p in t.items() for j, q in u.items() if p and q}, rT + rU, 'T * U')
    gi = ref.mat_inv(R.g)
    p, q = [s for s in c['slots'] if s <= rT][:2]
    lo, hi = min(p, q) - 1, max(p, q) - 1
    tc = {}
    for i, v in t.items():
        j = i[:lo] + i[lo + 1:hi] + i[hi + 1:]
        tc[j] = tc.get(j, F(0)) + gi[i[lo]][i[hi]] * v
    C = T.contract(p, q)
    x.ok(C.nargs == rT - 2, 'contraction has %s slots' % C.nargs)
    got = num(C(*V[:rT - 2]), {})
    x.ok(got == ev(tc, A), 'contraction of slots %d, %d is %s, expected %s' % (p, q, got, ev(tc, A)))
