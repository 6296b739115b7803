r"""Independent reader for the LaTeX form of multivectors, operators and their coefficients.

Names are given as LaTeX strings (e.g. 'r_{1}', '\boldsymbol{e}_{x}') and matched longest first on the token stream.
    expr   := ['-'|'+'] term (('+'|'-') term)*
    term   := power+ with an optional \cdot, \times or \, between factors
    power  := atom ['^' group]
    atom   := number | name | {expr} | \left(expr\right) | \left|{expr}\right| | \frac{}{} | \sqrt[n]{}
            | blade := vector (\wedge vector)* | \left(vector \cdot vector\right)
            | \fun[^{k}]{\left(expr\right)} | e^{expr}
            | derivative prefix [function]         \frac{\partial^{n}}{\partial x\partial y^{2}} or \partial_{x}\partial^{2}_{y}
A predefined function without an argument is an error; an undefined function may omit its arguments."""
import re
import sympy
from sympy import S
from galgebra.mv import Mv
import txt
from txt import ParseError, Op, is_scalar

TOK = re.compile(r'\\[A-Za-z]+|\\.|\d+\.\d+|\d+|[A-Za-z]|[{}^_+\-()\[\]|,/!&=:\'<>.?@]')
SPACES = {r'\,', r'\;', r'\:', r'\ ', r'\!', r'\displaystyle', r'\quad'}
CMD = {'sin': sympy.sin, 'cos': sympy.cos, 'tan': sympy.tan, 'cot': sympy.cot, 'sinh': sympy.sinh, 'cosh': sympy.cosh, 'tanh': sympy.tanh, 'coth': sympy.coth, 'log': sympy.log, 'exp': sympy.exp,
       'arcsin': sympy.asin, 'arccos': sympy.acos, 'arctan': sympy.atan, 'sec': sympy.sec, 'csc': sympy.csc, 'max': sympy.Max, 'min': sympy.Min}
WORD = {'asin': sympy.asin, 'acos': sympy.acos, 'atan': sympy.atan, 'acot': sympy.acot, 'asinh': sympy.asinh, 'acosh': sympy.acosh, 'atanh': sympy.atanh, 'sign': sympy.sign, 're': sympy.re, 'im': sympy.im,
        'arccot': sympy.acot, 'arcsinh': sympy.asinh, 'arccosh': sympy.acosh, 'arctanh': sympy.atanh}
INV = {'sin': sympy.asin, 'cos': sympy.acos, 'tan': sympy.atan, 'cot': sympy.acot, 'sinh': sympy.asinh, 'cosh': sympy.acosh, 'tanh': sympy.atanh}


def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot read %r at %d' % (s, i))
        t = m.group()
        i = m.end()
        if t in SPACES:
            continue
        if t in (r'\left', r'\right'):
            while i < len(s) and s[i].isspace():
                i += 1
            m = re.compile(r'\\[A-Za-z]+|\\.|.').match(s, i)
            if not m:
                raise ParseError('%s without delimiter in %r' % (t, s))
            t = ('L' if t == r'\left' else 'R') + m.group()
            i = m.end()
        out.append(t)
    return out


def balanced(s):
    """None, or what is unbalanced"""
    stack = []
    pair = {'L(': 'R)', 'L[': 'R]', 'L|': 'R|', r'L\{': r'R\}', 'L.': 'R.', r'L\lfloor': r'R\rfloor', 'L<': 'R>'}
    for m in re.finditer(r'\\begin\{(\w+\*?)\}|\\end\{(\w+\*?)\}|\\left\s*(\\[A-Za-z]+|\\.|.)|\\right\s*(\\[A-Za-z]+|\\.|.)|\\[A-Za-z]+|\\.|[{}$]', s):
        t = m.group()
        if m.group(1):
            stack.append('env ' + m.group(1))
        elif m.group(2):
            if not stack or stack.pop() != 'env ' + m.group(2):
                return 'unmatched ' + t
        elif m.group(3):
            stack.append('left ' + m.group(3))
        elif m.group(4):
            if not stack or not stack[-1].startswith('left '):
                return 'unmatched ' + t
            a, b = stack.pop()[5:], m.group(4)
            if '.' not in (a, b) and pair.get('L' + a) != 'R' + b:
                return 'delimiters %s and %s paired' % (a, b)
        elif t == '{':
            stack.append('{')
        elif t == '}':
            if not stack or stack.pop() != '{':
                return 'unmatched }'
        elif t == '$':
            if stack and stack[-1] == '$':
                stack.pop()
            elif '$' in stack:
                return 'unmatched $'
            else:
                stack.append('$')
    return 'unclosed %s' % stack if stack else None


def unalign(s):
    r"""(text without a surrounding aligned environment, its lines or None)"""
    m = re.match(r'\s*\\begin\{aligned\}(?:\[t\])?(.*)\\end\{aligned\}\s*$', s, re.S)
    if not m:
        return s, None
    lines = re.split(r'\\\\', m.group(1))
    if lines and not lines[-1].strip():
        lines.pop()
    out = []
    for q in lines:
        q = q.strip()
        if not q.startswith('&'):
            raise ParseError('line of aligned without &: %r' % q)
        if '&' in q[1:]:
            raise ParseError('line of aligned with two &: %r' % q)
        out.append(q[1:].strip())
    return ' '.join(out), out


class TexReader(txt.Reader):
    """names: LaTeX string -> scalar expression | Mv ; inv: inverse functions written as powers"""
    swapped = False     # None: reject the order written at the numerator side

    def __init__(self, ga, names, inv='abbreviated', omit=False):
        self.ga, self.inv, self.omit = ga, inv, omit
        self.nm = sorted(((tokens(k), v) for k, v in names.items()), key=lambda q: -len(q[0]))
        self.words = sorted(((list(k), f) for k, f in WORD.items()), key=lambda q: -len(q[0]))

    def read(self, s):
        s, self.lines = unalign(s)
        self.t, self.i = tokens(s), 0
        v = self.expr()
        if self.i != len(self.t):
            raise ParseError('unread rest %r of %r' % (self.t[self.i:], s))
        return v

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i] in vals

    def at(self, seq, off=0):
        return self.t[self.i + off:self.i + off + len(seq)] == list(seq)

    def nxt(self):
        if self.i >= len(self.t):
            raise ParseError('unexpected end')
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, v):
        if not self.peek(v):
            raise ParseError('%r expected at %r' % (v, self.t[self.i:self.i + 8]))
        self.i += 1

    END = ('}', '+', '-', ',', 'R)', 'R]', 'R|', r'R\rfloor', ']', ')', '&', '=', r'\\', 'R.')

    def expr(self):
        neg = False
        if self.peek('-', '+'):
            neg = self.nxt() == '-'
        v = self.term()
        if neg:
            v = self.mul(S.NegativeOne, v)
        while self.peek('+', '-'):
            o = self.nxt()
            w = self.term()
            v = self.add(v, self.mul(S.NegativeOne, w) if o == '-' else w)
        return v

    def term(self):
        v = self.power()
        if self.peek('/'):              # p/q, only as a whole exponent
            self.nxt()
            v = self.scalar(v) / self.scalar(self.power())
            if not self.peek('}'):
                raise ParseError('something follows a slanted fraction')
            return v
        while self.i < len(self.t) and not self.peek(*self.END):
            if self.peek(r'\cdot', r'\times', '.'):
                self.nxt()
                if self.peek('-'):
                    raise ParseError('sign after a product sign')
            elif self.t[self.i][0].isdigit() and self.t[self.i - 1][0].isdigit():
                raise ParseError('two numbers side by side: %r' % self.t[self.i - 1:self.i + 1])
            v = self.mul(v, self.power())
        return v

    def power(self):
        v = self.atom()
        if self.peek('^'):
            self.nxt()
            v = self.pw(v, self.scalar(self.group()))
        if self.peek('^'):
            raise ParseError('double superscript at %r' % self.t[self.i:])
        return v

    def scalar(self, v):
        if not is_scalar(v):
            raise ParseError('scalar expected')
        return v

    def group(self):
        """{expr} or a single token"""
        if self.peek('{'):
            self.nxt()
            v = self.expr()
            self.expect('}')
            return v
        return self.atom1()

    def atom1(self):
        t = self.nxt()
        if t.isdigit():
            if len(t) > 1:
                raise ParseError('exponent or argument %r without braces' % t)
            return S(t)
        self.i -= 1
        return self.atom()

    def match_name(self):
        for k, v in self.nm:
            if self.at(k):
                return k, v
        return None

    def fargs(self):
        """{\\left(a, b\\right)} or \\left(...\\right) or {a}"""
        if self.peek('L('):
            self.nxt()
            a = self.arglist('R)')
        elif self.peek('{'):
            self.nxt()
            folded = True
            if self.peek('L('):
                j = self.i
                self.nxt()
                a = self.arglist('R)')
                folded = not self.peek('}')
                if folded:
                    self.i = j          # {\left(a\right) b}: a product in a group
                    a = [self.expr()]
            else:
                a = [self.expr()]
            self.expect('}')
            if folded:
                j = self.i
                while j < len(self.t) and self.t[j] == '}':     # braces are not visible
                    j += 1
                if j < len(self.t) and self.t[j] == '^':
                    raise ParseError('power of a function or of its argument at %r' % self.t[max(0, self.i - 6):j + 2])
        else:
            raise ParseError('function without an argument at %r' % self.t[max(0, self.i - 4):self.i + 4])
        return [self.scalar(q) for q in a]

    def arglist(self, end):
        a = [self.expr()]
        while self.peek(','):
            self.nxt()
            a.append(self.expr())
        self.expect(end)
        return a

    def call(self, f, name=None):
        if self.peek('^'):
            self.nxt()
            e = self.scalar(self.group())
            if self.inv == 'power' and e == -1 and name in INV:
                v = INV[name](*self.fargs())
                if self.peek('^'):
                    self.nxt()
                    v = v ** self.scalar(self.group())
                return v
            return f(*self.fargs()) ** e
        return f(*self.fargs())

    def coordinate(self):
        k = self.match_name()
        if not k or not isinstance(k[1], sympy.Symbol):
            raise ParseError('coordinate expected at %r' % self.t[self.i:self.i + 5])
        self.i += len(k[0])
        return k[1]

    def derivative(self, spec):
        """spec followed by its operand, or a bare operator"""
        k = self.match_name()
        if k and isinstance(k[1], sympy.core.function.AppliedUndef) or self.peek('L('):
            f = self.atom()
            if self.peek('^'):
                raise ParseError('ambiguous power after a derivative')
            if is_scalar(f):
                return sympy.diff(f, *spec)
            raise ParseError('derivative of a multivector')
        return Op(self.ga, {tuple(sorted(spec, key=lambda q: q[0].name)): self.ga.mv(S.One)})

    def atom(self):
        t = self.nxt()
        if re.match(r'\d', t):
            return S(t)
        self.i -= 1
        k = self.match_name()
        if k:
            self.i += len(k[0])
            v = k[1]
            if isinstance(v, Mv):
                while self.peek(r'\wedge'):
                    self.nxt()
                    k = self.match_name()
                    if not k or not isinstance(k[1], Mv):
                        raise ParseError('basis vector expected at %r' % self.t[self.i:self.i + 4])
                    self.i += len(k[0])
                    v = v ^ k[1]
                return Op(self.ga, {(): v})
            v = S(v)
            if isinstance(v, sympy.core.function.AppliedUndef):
                if self.at(['{', 'L(']):
                    if self.omit:
                        raise ParseError('argument of %s printed' % v)
                    return v.func(*self.fargs())
                if not self.omit and self.peek('^'):       # F^{2}{\left(x\right)}
                    self.nxt()
                    e = self.scalar(self.group())
                    return v.func(*self.fargs()) ** e
                if not self.omit:
                    raise ParseError('argument of %s dropped at %r' % (v, self.t[self.i:self.i + 4]))
            return v
        for w, f in self.words:
            if self.at(w):
                self.i += len(w)
                return self.call(f)
        t = self.nxt()
        if t == '{':
            v = self.expr()
            self.expect('}')
            return v
        if t == 'L(':
            k = self.match_name()
            if k and isinstance(k[1], Mv) and self.at([r'\cdot'], len(k[0])):
                self.i += len(k[0]) + 1
                l = self.match_name()
                if not l or not isinstance(l[1], Mv):
                    raise ParseError('basis vector expected')
                self.i += len(l[0])
                self.expect('R)')
                return (k[1] | l[1]).scalar()
            v = self.expr()
            self.expect('R)')
            return v
        if t == 'L|':
            v = self.scalar(self.expr())
            self.expect('R|')
            return sympy.Abs(v)
        if t == r'\frac':
            if self.at(['{', r'\partial', '}']) or self.at(['{', r'\partial', '^']) and not self.lowered() or self.at(['{', 'd', '}', '{', 'd']) or self.at(['{', 'd', '^']):
                return self.frac_derivative()
            a = self.scalar(self.group())
            b = self.scalar(self.group())
            return a / b
        if t == r'\sqrt':
            r = S(2)
            if self.peek('['):
                self.nxt()
                r = self.scalar(self.expr())
                self.expect(']')
            if not self.peek('{'):
                raise ParseError('root of a bare token')
            return self.scalar(self.group()) ** (1 / r)
        if t == r'\partial':
            spec = []
            while True:
                n = 1
                if self.peek('^'):
                    self.nxt()
                    n = int(self.scalar(self.group()))
                self.expect('_')
                self.expect('{')
                spec.append((self.coordinate(), n))
                self.expect('}')
                if not self.peek(r'\partial'):
                    break
                self.nxt()
            return self.derivative(spec)
        if t == r'\operatorname':
            self.expect('{')
            w = ''
            while not self.peek('}'):
                w += self.nxt()
            self.nxt()
            f = WORD.get(w) or CMD.get(w)
            if f is None:
                raise ParseError('unknown operator %r' % w)
            return self.call(f)
        if t[0] == '\\' and t[1:] in CMD:
            return self.call(CMD[t[1:]], t[1:])
        if t == 'e' and self.peek('^'):
            self.nxt()
            return sympy.exp(self.scalar(self.group()))
        if t == 'e':
            return sympy.E
        if t == r'\pi':
            return sympy.pi
        if t == 'i':
            return sympy.I
        if t == r'\infty':
            return sympy.oo
        raise ParseError('unexpected %r' % t)

    def lowered(self):
        """the fraction starts with a condensed derivative such as \\partial^{2}_{x}"""
        return self.t[self.i + 6:self.i + 7] == ['_']

    def frac_derivative(self):
        self.expect('{')
        d = self.nxt()
        n = 1
        if self.peek('^'):
            self.nxt()
            n = int(self.scalar(self.group()))
        self.expect('}')
        self.expect('{')
        spec = []
        while not self.peek('}'):
            self.expect(d)
            k = 1
            if self.peek('^') and self.swapped is not None:    # \partial^{2} x for \partial x^{2} (known finding)
                self.nxt()
                k = int(self.scalar(self.group()))
                self.swapped = True
                spec.append((self.coordinate(), k))
                continue
            s = self.coordinate()
            if self.peek('^'):
                self.nxt()
                k = int(self.scalar(self.group()))
            spec.append((s, k))
        self.nxt()
        if sum(k for _, k in spec) != n:
            raise ParseError('orders %s do not add up to %d' % (spec, n))
        return self.derivative(spec)
