from runner import check
from gu import *
import gens as G
from gens import st
import galgebra.mv as gmv

P = 'C10'
RAISES = (ValueError,)


def rq(f):
    return Rational(f.numerator, f.denominator)


def exact(x, got, want, what):
    got = S(got)
    x.ok(isinstance(got, Expr) and not isinstance(got, Mv), '%s is no scalar expression' % what)
    r = same_expr(got, want)
    x.ok(r is True, lambda: '%s is %s, expected %s' % (what, got, want))


def norms(c, x):
    ga, R = mk(c['ga'])
    n = R.n
    a, b = [mvd(m) for m in c['mvs']]
    A, B = to_mv(ga, a), to_mv(ga, b)
    q = R.sp(R.rev(a), a)
    x.label(c['ga']['kind'], 'q%s' % ('+' if q > 0 else '-' if q < 0 else '0'))
    x.nt(q != 0 and (len(R.grades(a)) > 1 or q < 0))
    exact(x, A.qform(), rq(q), 'A.qform()')
    exact(x, gmv.qform(A), rq(q), 'qform(A)')
    for h in ('0', '+', '-'):
        exact(x, A.norm2(h), rq(abs(q)), 'A.norm2(%r)' % h)
        exact(x, gmv.norm2(A, h), rq(abs(q)), 'norm2(A, %r)' % h)
        exact(x, A.norm(h), sympy.sqrt(rq(abs(q))), 'A.norm(%r)' % h)
        exact(x, gmv.norm(A, h), sympy.sqrt(rq(abs(q))), 'norm(A, %r)' % h)
    exact(x, A.norm2(), rq(abs(q)), 'A.norm2()')
    exact(x, A.norm(), sympy.sqrt(rq(abs(q))), 'A.norm()')
    exact(x, abs(A), sympy.sqrt(rq(abs(q))), 'abs(A)')
    m2 = F(0)
    for k in range(n + 1):
        g = R.grade(a, k)
        m2 += abs(R.sp(R.rev(g), g))
    exact(x, A.mag2(), rq(m2), 'A.mag2()')
    exact(x, gmv.mag2(A), rq(m2), 'mag2(A)')
    exact(x, A.mag(), sympy.sqrt(rq(m2)), 'A.mag()')
    exact(x, gmv.mag(A), sympy.sqrt(rq(m2)), 'mag(A)')
    exact(x, A.sp(B), rq(R.sp(a, b)), 'A.sp(B)')
    exact(x, A.sp(B, 'rev'), rq(R.sp(R.rev(a), b)), "A.sp(B, 'rev')")
    exact(x, gmv.sp(A, B, 'rev'), rq(R.sp(R.rev(a), b)), "sp(A, B, 'rev')")
    exact(x, gmv.scalar(A), rq(a.get(0, F(0))), 'scalar(A)')


@check(P, G.ga_and_mvs(2, 1, 4, minterms=1), quick=480, shards=8, rule='mixed-grade or non-Euclidean operand with non-zero form')
def numeric_norms(c, x):
    """qform, norm2, norm, abs, mag2, mag of numeric multivectors (methods and functions, every hint) have the values
    of their definitions, whatever the hint"""
    norms(c, x)


@check(P, G.ga_and_mvs(2, 5, 7, minterms=2, kinds=('euclid', 'signature', 'diag')), quick=80, shards=4, rule='mixed-grade or non-Euclidean operand with non-zero form')
def many_dimensions(c, x):
    """the same in algebras of five to seven dimensions"""
    norms(c, x)


CO = ['a', 'b', 'a*b', 'a-b', 'a+b', '-a', 'a**2', '2', '1/2', 'a**2-b**2', 'sin(a)', 'cos(a)', '0', 'a*sin(b)', 'a*cos(b)', '-3', 'a**2*b', 'sqrt(2)*a',
      'p', 'p*a', '-p', 'p**2']


@check(P, st.fixed_dictionaries({'ga': G.ga(1, 3), 'terms': st.lists(st.tuples(st.integers(0, 7), st.sampled_from(CO)), min_size=1, max_size=3),
                                 'real': st.booleans()}), quick=400, shards=8, rule='the quadratic form depends on a symbol')
def symbolic_norms(c, x):
    """norm2/norm/mag of symbolic multivectors agree with the definition at sample points of either sign; a '+' ('-')
    hint is right wherever the form is >= 0 (<= 0), and hints never matter where the sign is known"""
    ga, R = mk(c['ga'])
    n = R.n
    a, b = sympy.symbols('a b', real=True)
    p = Symbol('p', positive=True)
    env = dict(a=a, b=b, p=p)
    d = {}
    for m, co in c['terms']:
        m %= 1 << n
        d[m] = d.get(m, S.Zero) + sympy.sympify(co, locals=env)
    A = to_mv(ga, d)
    rd = {}
    pts = [{a: Rational(3, 7), b: Rational(5, 4), p: Rational(2, 3)}, {a: Rational(-7, 5), b: Rational(1, 3), p: Rational(7, 2)},
           {a: Rational(9, 4), b: Rational(-8, 7), p: S(1)}]
    # quadratic form symbolically from the reference, coefficient pair by coefficient pair
    q = S.Zero
    byg = {}
    for m1, c1 in d.items():
        for m2, c2 in d.items():
            s = R.sp(R.rev({m1: F(1)}), {m2: F(1)})
            if s:
                q += c1 * c2 * rq(s)
                if popcount(m1) == popcount(m2):
                    byg[popcount(m1)] = byg.get(popcount(m1), S.Zero) + c1 * c2 * rq(s)
    x.nt(bool(sympy.expand(q).free_symbols))
    qf = A.qform()
    x.ok(same_expr(qf, q) is not False, lambda: 'qform %s expected %s' % (qf, q))

    def val(e, pt):
        return sympy.N(S(e).xreplace(pt), 30)
    got = {h: (A.norm2(h), A.norm(h)) for h in ('0', '+', '-')}
    mag2, mag = A.mag2(), A.mag()
    tol = sympy.Float('1e-18', 30)
    # the sign is known: no hint matters
    known = qf.is_extended_nonnegative or qf.is_extended_nonpositive
    for pt in pts:
        qv = val(q, pt)
        m2 = sum((abs(val(e, pt)) for e in byg.values()), S.Zero)
        for h in ('0', '+', '-'):
            if not known and (h == '+' and qv < 0 or h == '-' and qv > 0 and not (h == '-' and ga.g.is_positive_definite)):
                continue
            n2, nn = got[h]
            x.label('hint' + h)
            g = val(n2, pt)
            x.ok(abs(g - abs(qv)) < tol, lambda: 'norm2(%r) = %s at %s is %s, form is %s' % (h, n2, pt, g, qv))
            g = val(nn, pt)
            x.ok(abs(g - sympy.sqrt(abs(qv))) < tol, lambda: 'norm(%r) = %s at %s is %s, form is %s' % (h, nn, pt, g, qv))
        for h in '+-':          # whatever the hint, the value is the form up to sign
            n2, nn = got[h]
            g, w = val(n2, pt), val(nn, pt)
            x.ok(abs(g - qv) < tol or abs(g + qv) < tol, lambda: 'norm2(%r) = %s at %s is %s, form is %s' % (h, n2, pt, g, qv))
            x.ok(abs(abs(w) - sympy.sqrt(abs(qv))) < tol, lambda: 'norm(%r) = %s at %s is %s, form is %s' % (h, nn, pt, w, qv))
        x.ok(abs(val(mag2, pt) - m2) < tol, lambda: 'mag2 %s' % mag2)
        x.ok(abs(val(mag, pt) - sympy.sqrt(m2)) < tol, lambda: 'mag %s at %s' % (mag, pt))


@check(P, st.fixed_dictionaries({'g': st.lists(st.sampled_from(['1', 'r**2', '-1', 'r**2*sin(t)**2', '-r**2', 'k', '1+r**2', 'k**3', '-t**3', 't*k**3', '-k*t**3', 'r*k**3', 'r']), min_size=1, max_size=3),
                                 'm': G.mv(3, 3, 1), 'real': st.booleans()}), quick=240, shards=4, rule='form depends on a metric symbol')
def symbolic_metric_norms(c, x):
    """the same definitions with position-dependent metrics"""
    asm = dict(real=True) if c['real'] else dict(positive=True)
    r, t, k = sympy.symbols('r t k', **asm)
    g = [sympy.sympify(e, locals=dict(r=r, t=t, k=k)) for e in c['g']]
    n = len(g)
    ga = Ga(names_for(n) if n > 1 else 'e_1,', g=g)
    d = {m % (1 << n): sp(v) for m, v in c['m']}
    A = to_mv(ga, d)
    q, byg = S.Zero, {}
    for m, v in d.items():
        e = v**2
        for i in bits(m):
            e *= g[i]
        q += e
        byg[popcount(m)] = byg.get(popcount(m), S.Zero) + e
    x.nt(bool(sympy.expand(q).free_symbols))
    pt = {r: Rational(7, 5), t: Rational(2, 3), k: Rational(5, 3)}
    pts = [pt, {r: Rational(1, 5), t: Rational(9, 8), k: Rational(1, 3)}]
    if c['real']:
        pts.append({r: -Rational(3, 5), t: -Rational(2, 3), k: -Rational(5, 3)})
        pts.append({r: Rational(3, 5), t: Rational(2, 3), k: -Rational(5, 3)})
        pts.append({r: -Rational(3, 5), t: -Rational(2, 3), k: Rational(5, 3)})
    n2, nn, m2, mm = A.norm2(), A.norm(), A.mag2(), A.mag()
    x.ok(same_expr(A.qform(), q) is not False, 'qform')
    for p in pts:
        qv = sympy.N(q.xreplace(p), 30)
        mv_ = sum((abs(sympy.N(e.xreplace(p), 30)) for e in byg.values()), S.Zero)
        for e, w, what in ((n2, abs(qv), 'norm2'), (nn, sympy.sqrt(abs(qv)), 'norm'), (m2, mv_, 'mag2'), (mm, sympy.sqrt(mv_), 'mag')):
            v = sympy.N(S(e).xreplace(p), 30)
            x.ok(abs(v - w) < sympy.Float('1e-18', 30), lambda: '%s = %s at %s is %s, expected %s' % (what, e, p, v, w))
        h = '+' if qv > 0 else '-'
        for e, w, what in ((A.norm2(h), abs(qv), 'norm2'), (A.norm(h), sympy.sqrt(abs(qv)), 'norm')):
            v = sympy.N(S(e).xreplace(p), 30)
            x.ok(abs(v - w) < sympy.Float('1e-18', 30), lambda: '%s(%r) = %s at %s is %s, expected %s' % (what, h, e, p, v, w))


@check(P, st.fixed_dictionaries({'bad': st.sampled_from(['1', 'a', '2.5', 'None', "'x'"]), 'hint': st.text('0+-x ', max_size=2)}), quick=120, shards=1,
       rule='an unknown hint')
def rejected(c, x):
    """non-multivectors are rejected by every function; unknown hints are rejected when the sign is undetermined;
    unknown switches and non-multivector arguments of sp are rejected"""
    bad = eval(c['bad'], {'a': Symbol('a')})
    for f, exc in ((gmv.qform, TypeError), (gmv.norm2, TypeError), (gmv.norm, TypeError), (gmv.mag2, TypeError), (gmv.mag, TypeError),
                   (gmv.scalar, ValueError)):
        try:
            f(bad)
        except exc:
            continue
        x.fail('%s(%r) accepted' % (f.__name__, bad))
    ga, R = mk({'g': [[1, 0], [0, -1]]})
    a, b = sympy.symbols('a b', real=True)
    A = a * ga.mv()[0] + b * ga.mv()[1]
    x.nt(c['hint'] not in ('0', '+', '-'))
    for f in (A.norm2, A.norm):
        try:
            f(c['hint'])
            x.ok(c['hint'] in ('0', '+', '-'), 'hint %r accepted' % c['hint'])
        except ValueError:
            x.ok(c['hint'] not in ('0', '+', '-'), 'hint %r rejected' % c['hint'])
    for f in (lambda: A.sp(bad), lambda: gmv.sp(bad, A), lambda: A.sp(A, 'x' + c['hint'])):
        try:
            f()
        except ValueError:
            continue
        x.fail('sp accepted a bad argument')
