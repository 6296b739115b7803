"""GAeval strings against a precedence-climbing reference parser: a value that records its own tree, and real multivectors."""
import contextlib
import io
import itertools
import sympy
from runner import check
from gu import *
import ref
import gens as G
from gens import st
from galgebra.printer import def_prec, GAeval

P = 'C25'
ORDERS = [','.join(p) for p in itertools.permutations(['<>|', '^', '*'])]
NAMES = ['A', 'B', 'C', 'x_1', 'e1', 'x1e', 'ab', 'A1', '_t', 'grad', 'A_1_1', 'β']


class R:
    """A value that is a signed sum of trees; operators record the tree. Signs move out of products, sums are flat:
    those are equalities of every multivector product, so they are not told apart."""
    def __init__(self, l):
        self.l = [(1, l)] if isinstance(l, str) else l

    @property
    def t(self):
        if len(self.l) == 1:
            return ('-' if self.l[0][0] < 0 else '') + self.l[0][1]
        return '{' + ''.join('+-'[q < 0] + x for q, x in self.l) + '}'

    def __neg__(self):
        return R([(-q, x) for q, x in self.l])

    def __pos__(self):
        return self

    def __add__(self, o):
        return R(self.l + lift(o).l)

    def __sub__(self, o):
        return R(self.l + (-lift(o)).l)

    def __radd__(self, o):
        return lift(o) + self

    def __rsub__(self, o):
        return lift(o) - self

    def __invert__(self):
        return R([(q, '~' + x) for q, x in self.l])

    def __pow__(self, k):
        return R('pow[%s,%s]' % (self.t, lift(k).t))

    def rev(self):
        return R('rev[%s]' % self.t)

    def grade(self, k):
        return R('grade[%s,%s]' % (self.t, lift(k).t))


def lift(v):
    return v if isinstance(v, R) else R('%g' % v) if v >= 0 else -R('%g' % -v)


def op(sym, a, b):
    num = [not isinstance(v, R) for v in (a, b)]
    a, b = lift(a), lift(b)
    if sym in '<>' and any(num):
        # python turns 2 < A into A > 2
        sym = '#'
        if num[1]:
            a, b = b, a
    q, ts = 1, []
    for v in (a, b):
        if v.l[0][0] < 0:
            q, v = -q, -v
        ts.append(v.t)
    return R([(q, '(%s%s%s)' % (ts[0], sym, ts[1]))])


for n_, s_ in dict(or_='|', xor='^', mul='*', truediv='/', lt='<', gt='>').items():
    def fwd(a, b, s_=s_):
        return op(s_, a, b)

    def bwd(a, b, s_=s_):
        return op(s_, b, a)
    n_ = n_.strip('_')
    setattr(R, '__%s__' % n_, fwd)
    if n_ not in ('lt', 'gt'):
        setattr(R, '__r%s__' % n_, bwd)


def fun(*args):
    return R('fun[%s]' % ';'.join(lift(a).t for a in args))


# --- the reference: tokens -> value, by precedence climbing

def reference(toks, order, env):
    groups = [list(g) + (['/'] if g == '*' else []) for g in order.split(',')] + [['+', '-']]
    top = len(groups) - 1
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(want=None):
        nonlocal pos
        t = toks[pos]
        assert want is None or t == want, (t, want)
        pos += 1
        return t

    def args():
        take('(')
        out = []
        while peek() != ')':
            out.append(expr(top))
            if peek() == ',':
                take()
        take(')')
        return out

    def atom():
        t = take()
        if t == '(':
            e = expr(top)
            take(')')
        elif t[0].isdigit():
            e = float(t) if '.' in t or 'e' in t.lower() and not t.startswith('0x') else int(t, 0)
        elif t == 'f':
            e = env['f'](*args())
        else:
            e = env[t]
        while peek() in ('.rev', '.grade'):
            m = take()[1:]
            e = getattr(e, m)(*args())
        return e

    def power():
        e = atom()
        if peek() == '**':
            take()
            sign = peek() == '-'
            if sign:
                take()
            k = power()
            e = e ** (-k if sign else k)
        return e

    def unary():
        if peek() == '-':
            take()
            return -unary()
        if peek() == '~':
            take()
            return ~unary()
        return power()

    def expr(l):
        if l < 0:
            return unary()
        e = expr(l - 1)
        while peek() in groups[l]:
            o = take()
            b = expr(l - 1)
            e = e + b if o == '+' else e - b if o == '-' else env['op'](o, e, b)
        return e
    e = expr(top)
    assert pos == len(toks), toks[pos:]
    return e


# --- generated token lists; an expression always has a name in each operand of < and >

OPS = st.sampled_from(list('|<>^*|<>^*+-'))
FEW = st.sampled_from(NAMES[:3])
NAME = st.one_of(FEW, FEW, st.sampled_from(NAMES))


def tok_exprs(plain):
    atom = NAME.map(lambda n: [n])

    def extend(sub):
        paren = sub.map(lambda e: ['('] + e + [')'])
        alts = [atom, atom, atom, paren]
        if not plain:
            alts += [
                st.tuples(st.one_of(atom, paren), st.sampled_from(['2', '3'])).map(lambda p: p[0] + ['**', p[1]]),
                st.builds(lambda a: a + ['.rev', '(', ')'], st.one_of(atom, paren)),
                st.builds(lambda a, k: a + ['.grade', '(', k, ')'], st.one_of(atom, paren), st.sampled_from(['0', '1', '2'])),
                st.builds(lambda a: ['~'] + a, st.one_of(atom, paren)),
                st.builds(lambda a, b: ['f', '('] + a + [','] + b + [')'], sub, sub),
                st.builds(lambda k, a, o, b: ['(', k, '*'] + a + [o] + b + [')'], st.sampled_from(['2', '2.5', '30', '0.5', '1e-3', '2.5E+2', '4.e-1', '1e2', '0x1e']), st.one_of(atom, paren), OPS, st.one_of(atom, paren)),
                st.builds(lambda a, k, o, b: ['('] + a + ['/', k, o] + b + [')'], st.one_of(atom, paren), st.sampled_from(['2', '4', '5e-1', '2e+1']), OPS, st.one_of(atom, paren)),
                st.builds(lambda a: ['-'] + a, st.one_of(atom, paren)),
            ]
        else:
            alts += [st.builds(lambda a: a + ['**', '2'], atom)] if plain == 'pow' else []
        operand = st.one_of(alts)
        chain = st.lists(st.tuples(OPS, operand), max_size=5)
        neg = st.booleans() if plain else st.just(False)
        return st.builds(lambda n, a, l: (['-'] if n == 1 else []) + a + sum(([o] + b for o, b in l), []), neg, operand, chain)
    e = extend(atom)
    for _ in range(3):
        e = extend(st.one_of(e, atom))
    return e


SPACES = st.lists(st.integers(0, 2), min_size=3, max_size=7)


def write(toks, spaces):
    """the string, with some blanks"""
    out, i = '', 0
    for t in toks:
        if not (t.startswith('.') or t == '(' and out.endswith(('rev', 'grade', 'f'))):
            out += ' ' * (spaces[i % len(spaces)] if spaces[0] else 0)
        i += 1
        out += t
    return out.strip()


def tree_env():
    env = {n: R(n) for n in NAMES}
    env.update(f=fun, op=op)
    return env


def nontrivial(ctx, toks, order):
    ops = [t for t in toks if t in '|<>^*']
    groups = {next(i for i, g in enumerate(order.split(',')) if t in g) for t in ops}
    depth = mx = 0
    for t in toks:
        depth += (t == '(') - (t == ')')
        mx = max(mx, depth)
    ctx.nt(len(ops) >= 2 and (len(groups) > 1 or len(set(ops)) > 1 or len(ops) > 2), 'order ' + order, 'parentheses %d' % min(mx, 4), 'operators %d' % min(len(ops), 12))
    ctx.label(*['uses ' + t for t in set(toks) & {'**', '~', '.rev', '.grade', 'f', '/', '2.5', 'β', '1e-3', '2e+1', '0x1e'}])


def compare_tree(toks, spaces, order, ctx):
    env = tree_env()
    s = write(toks, spaces)
    want = lift(reference(toks, order, env)).t
    def_prec(env, order)
    try:
        got = lift(GAeval(s)).t
    except Exception as e:
        ctx.fail('GAeval(%r) with order %r raised %s: %s' % (s, order, type(e).__name__, e))
    ctx.ok(got == want, 'GAeval(%r) with order %r is %s, expected %s' % (s, order, got, want))
    return s, got


CASE = st.tuples(tok_exprs(True), SPACES, st.sampled_from(ORDERS))


@check(P, CASE, quick=6000, rule='at least two declared operators, of different kinds or three in a row')
def operator_expressions(case, ctx):
    toks, spaces, order = case
    nontrivial(ctx, toks, order)
    compare_tree(toks, spaces, order, ctx)


@check(P, st.tuples(tok_exprs(False), SPACES, st.sampled_from(ORDERS)), quick=6000, rule='at least two declared operators, of different kinds or three in a row')
def mixed_expressions(case, ctx):
    toks, spaces, order = case
    nontrivial(ctx, toks, order)
    compare_tree(toks, spaces, order, ctx)


@check(P, st.tuples(st.lists(st.sampled_from('|<>^*'), min_size=2, max_size=9), st.sampled_from(ORDERS)), quick=2000, rule='flat chain of at least three operators')
def chains(case, ctx):
    ops, order = case
    toks = ['A']
    for i, o in enumerate(ops):
        toks += [o, 'BCA'[i % 3]]
    ctx.nt(len(ops) > 2)
    compare_tree(toks, [0], order, ctx)


@check(P, st.tuples(CASE, st.lists(CASE, min_size=1, max_size=4)), quick=400, rule='the order of precedence differs between calls')
def repeated_calls(case, ctx):
    """earlier calls, other orders and other name tables leave no trace; printing shows the string and what is evaluated"""
    first, others = case
    ctx.nt(any(o[2] != first[2] for o in others))
    s, before = compare_tree(*first, ctx)
    for c in others:
        compare_tree(*c, ctx)
    env = tree_env()
    def_prec(env, first[2])
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        got = lift(GAeval(s, True)).t
    ctx.ok(got == before, 'GAeval(%r) changed from %s to %s after other calls' % (s, before, got))
    lines = b.getvalue().split('\n')
    ctx.ok(len(lines) == 3 and lines[0] == s and lines[2] == '', 'GAeval(%r, True) printed %r' % (s, b.getvalue()))
    # what is shown is a fully parenthesised form: python alone evaluates it to the same value
    shown = lift(eval(lines[1], tree_env())).t
    ctx.ok(shown == before, 'GAeval(%r, True) printed %r, which python evaluates to %s, expected %s' % (s, lines[1], shown, before))


class V:
    """reference multivector with just the operations the reference parser applies"""
    def __init__(self, d, r):
        self.d, self.r = d, r

    def __add__(self, o):
        return V(ref.add(self.d, o.d), self.r)

    def __sub__(self, o):
        return V(ref.add(self.d, o.d, -1), self.r)

    def __neg__(self):
        return V(ref.smul(-1, self.d), self.r)

    def __pow__(self, k):
        return V(self.r.pow(self.d, k), self.r)


@check(P, st.tuples(tok_exprs('pow'), SPACES, st.one_of(st.none(), st.sampled_from(ORDERS)), G.ga_and_mvs(3, 2, 3, maxterms=3, minterms=1)),
       quick=500, rule='at least two declared operators and a nonzero value')
def multivector_values(case, ctx):
    toks, spaces, order, gm = case
    toks = [t if t in ('A', 'B', 'C') or not (t[0].isalpha() or t[0] == '_') else 'ABC'[i % 3] for i, t in enumerate(toks)]
    if sum(t in '|<>^*' for t in toks) > 10:
        ctx.reject('too long')
    ga, R_ = mk(gm['ga'])
    ds = [mvd(m) for m in gm['mvs']]
    env = {nm: to_mv(ga, d) for nm, d in zip('ABC', ds)}
    renv = {nm: V(d, R_) for nm, d in zip('ABC', ds)}
    f = {'|': R_.dot, '<': R_.lc, '>': R_.rc, '^': R_.wedge, '*': R_.mul}
    renv['op'] = lambda o, a, b: V(f[o](a.d, b.d), R_)
    want = reference(toks, order or '<>|,^,*', renv).d
    if order is None:
        def_prec(env)
    else:
        def_prec(env, order)
    got = GAeval(write(toks, spaces))
    ctx.nt(sum(t in '|<>^*' for t in toks) >= 2 and any(want.values()), 'default order' if order is None else 'given order')
    eq_ref(ctx, got, want, ga.n, 'GAeval(%r) order %r' % (write(toks, spaces), order))


@check(P, st.lists(st.sampled_from(['<>|', '^', '*', '|', '<', '+', '/', '', '^*', '<|>']), min_size=1, max_size=4), quick=200, shards=1, rule='order contains an operator group that is not declared')
def illegal_orders(case, ctx):
    legal = all(g in ('<>|', '^', '*') for g in case)
    ctx.nt(not legal)
    order = ','.join(case)
    env = tree_env()
    def_prec(env)
    before = GAeval('A|B^C*A<B').t
    try:
        def_prec({}, order)
    except ValueError:
        ctx.ok(not legal, 'def_prec refused %r' % order)
        ctx.ok(GAeval('A|B^C*A<B').t == before, 'a refused order changed the order in use')
    else:
        ctx.ok(legal, 'def_prec accepted %r' % order)


@check(P, st.tuples(CASE, st.integers(0, 40), st.sampled_from('()')), quick=300, rule='parentheses do not match')
def mismatched(case, ctx):
    (toks, spaces, order), k, p = case
    toks = list(toks)
    toks.insert(k % (len(toks) + 1), p)
    ctx.nt(True)
    def_prec(tree_env(), order)
    s = write(toks, spaces)
    try:
        v = GAeval(s)
    except (ValueError, SyntaxError, IndexError, TypeError):
        return
    ctx.fail('GAeval(%r) with unmatched parentheses gave %s' % (s, getattr(v, 't', v)))
