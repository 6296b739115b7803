"""Independent reader for the plain-text form of multivectors and operators.

Grammar (every token must be consumed):
    expr   := ['-'|'+'] term (('+'|'-') term)*
    term   := unary (('*'|'/') unary)*
    unary  := '-' unary | power
    power  := atom ['**' unary]
    atom   := number | name ('^' name)* | name '(' expr (',' expr)* ')' | '(' expr ')'
            | 'D' ('{' name '}' ['^' int])* [name | '(' expr ')']      derivative of a function, or an operator
            | '(' name '.' name ')'                                     dot product of two basis vectors
Values are sympy expressions (scalars), or operators {((x, n), ...): Mv}."""
import re
import sympy
from sympy import S
from galgebra.mv import Mv

TOK = re.compile(r'\s*(?:(\d+\.\d*(?:e[+-]?\d+)?|\d+)|(D(?:\{[^}]*\}(?:\^\d+)?)+)|(\([A-Za-z_]\w*\.[A-Za-z_]\w*\))|([A-Za-z_]\w*)|(\*\*|[-+*/^(),]))')
FUN = {n: getattr(sympy, n) for n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'sign', 'cot', 'acosh', 'asinh', 'atanh', 'atan2')}
FUN['Abs'] = sympy.Abs


class ParseError(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot read %r at %d' % (s, i))
        k = m.lastindex
        out.append(('nDdIo'[k - 1], m.group(k)))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


class Op:
    """differential operator / multivector: {((x, n), ...): Mv}"""
    def __init__(self, ga, d):
        self.ga = ga
        self.d = d

    def coef(self, x):
        return x if isinstance(x, Mv) else self.ga.mv(S(x))


def is_scalar(v):
    return not isinstance(v, Op)


class Reader:
    """names: str -> sympy scalar | basis vector Mv (names of the basis vectors must map to Mv); fns: str -> applied function"""
    def __init__(self, ga, names, wedge_names=None):
        self.ga, self.names, self.wn = ga, names, wedge_names or {}

    # ---- arithmetic on values ---------------------------------------------
    def op(self, v):
        return v if isinstance(v, Op) else Op(self.ga, {(): self.ga.mv(S(v))})

    def add(self, a, b):
        if is_scalar(a) and is_scalar(b):
            return a + b
        a, b = self.op(a), self.op(b)
        d = dict(a.d)
        for k, v in b.d.items():
            d[k] = d[k] + v if k in d else v
        return Op(self.ga, d)

    def mul(self, a, b):
        if is_scalar(a) and is_scalar(b):
            return a * b
        a, b = self.op(a), self.op(b)
        if set(a.d) <= {()} or set(b.d) <= {()}:
            d = {}
            for k, v in a.d.items():
                for l, w in b.d.items():
                    d[k + l] = d[k + l] + v * w if k + l in d else v * w
            return Op(self.ga, d)
        raise ParseError('product of two differential operators')

    def pw(self, a, b):
        if not is_scalar(a) or not is_scalar(b):
            raise ParseError('power of a multivector')
        return a ** b

    # ---- parsing ------------------------------------------------------------
    def read(self, s):
        self.t, self.i = tokens(s), 0
        v = self.expr()
        if self.i != len(self.t):
            raise ParseError('unread rest %r of %r' % (self.t[self.i:], s))
        return v

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][0] == 'o' and self.t[self.i][1] in vals

    def nxt(self):
        if self.i >= len(self.t):
            raise ParseError('unexpected end')
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        if not self.peek(v):
            raise ParseError('%r expected at %r' % (v, self.t[self.i:]))
        self.i += 1

    def expr(self):
        neg = False
        if self.peek('-', '+'):
            neg = self.nxt()[1] == '-'
        v = self.term()
        if neg:
            v = self.mul(S.NegativeOne, v)
        while self.peek('+', '-'):
            o = self.nxt()[1]
            w = self.term()
            v = self.add(v, self.mul(S.NegativeOne, w) if o == '-' else w)
        return v

    def term(self):
        v = self.unary()
        while self.peek('*', '/'):
            o = self.nxt()[1]
            w = self.unary()
            if o == '/':
                if not is_scalar(w):
                    raise ParseError('division by a multivector')
                w = S.One / w
            v = self.mul(v, w)
        return v

    def unary(self):
        if self.peek('-'):
            self.nxt()
            return self.mul(S.NegativeOne, self.unary())
        return self.power()

    def power(self):
        v = self.atom()
        if self.peek('**'):
            self.nxt()
            v = self.pw(v, self.unary())
        return v

    def name(self, n):
        if n in self.names:
            v = self.names[n]
            return Op(self.ga, {(): v}) if isinstance(v, Mv) else S(v)
        if n in self.wn:
            return Op(self.ga, {(): self.wn[n]})
        if n in ('pi', 'E', 'oo', 'zoo', 'I', 'nan'):
            return getattr(sympy, n)
        raise ParseError('unknown name %r' % n)

    def atom(self):
        k, s = self.nxt()
        if k == 'n':
            return S(s)
        if k == 'd':
            a, b = s[1:-1].split('.')
            return (self.names[a] | self.names[b]).scalar()
        if k == 'D':
            spec = [(self.names[x], int(n or 1)) for x, n in re.findall(r'\{([^}]*)\}(?:\^(\d+))?', s) if x]
            if self.i < len(self.t) and self.t[self.i][0] in 'In' or self.peek('('):
                f = self.atom()
                if not is_scalar(f):
                    raise ParseError('derivative of a multivector')
                return sympy.diff(f, *spec)
            pd = tuple(sorted(spec, key=lambda q: q[0].name))
            return Op(self.ga, {pd: self.ga.mv(S.One)})
        if k == 'I':
            if s in FUN and self.peek('('):
                self.nxt()
                args = [self.expr()]
                while self.peek(','):
                    self.nxt()
                    args.append(self.expr())
                self.expect(')')
                if not all(map(is_scalar, args)):
                    raise ParseError('function of a multivector')
                return FUN[s](*args)
            if s == 'Derivative' and self.peek('('):
                self.nxt()
                f, spec = self.expr(), []
                while self.peek(','):
                    self.nxt()
                    if self.peek('('):
                        self.nxt()
                        y = self.expr()
                        self.expect(',')
                        spec.append((y, self.expr()))
                        self.expect(')')
                    else:
                        spec.append((self.expr(), 1))
                self.expect(')')
                return sympy.diff(f, *spec)
            v = self.name(s)
            if is_scalar(v) and isinstance(v, sympy.core.function.AppliedUndef) and self.peek('('):
                self.nxt()                     # a function printed with its arguments
                args = [self.expr()]
                while self.peek(','):
                    self.nxt()
                    args.append(self.expr())
                self.expect(')')
                return v.func(*args)
            while self.peek('^'):
                self.nxt()
                k, s = self.nxt()
                w = self.name(s) if k == 'I' else None
                if is_scalar(v) or w is None or is_scalar(w):
                    raise ParseError('^ between scalars')
                v = Op(self.ga, {(): v.d[()] ^ w.d[()]})
            return v
        if s == '(':
            v = self.expr()
            self.expect(')')
            return v
        raise ParseError('unexpected %r' % s)
