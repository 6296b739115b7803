"""Format / redirect / print / restore / tex histories against a model of what each call should put where.
Every case runs in a forked child, so it starts from the state right after import."""
import builtins
import io
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import traceback
import sympy
from runner import check
from gu import *
import gens as G
from gens import st
from galgebra import printer, gprinter
from galgebra.printer import GaLatexPrinter, GaPrinter, Format, LatexFormat, Fmt, Eprint, tex, xpdf, latex

P = 'C24'
x, y, u = sympy.symbols('x y u')
f, h = sympy.Function('f'), sympy.Function('h')

_pool = {}


def pool():
    if not _pool:
        ga = Ga('e_1 e_2', g=[1, -1], coords=(x, y))
        A = ga.mv('A', 'vector', f=True)
        _pool.update(
            field=A, plain=ga.mv('B', 'mv'), multi=ga.mv('C', 'mv', f=True), div=ga.grad * A, dop=ga.grad,
            expr=f(x, y) + u ** 2, deriv=sympy.Derivative(f(x, y), x) * u, asin=sympy.asin(x) + u, sym=sympy.Symbol('alpha_1'),
            mat=sympy.Matrix([[x, f(x, y)], [1, u]]), lt=ga.lt('L'), pdop=ga.pdop(x), lst=[A, sympy.Derivative(f(x, y), x)], basis=ga.basis[0])
    return _pool


NAMES = ['field', 'plain', 'multi', 'div', 'dop', 'expr', 'deriv', 'asin', 'sym', 'mat', 'lt', 'pdop', 'lst', 'basis']


def forked(fn, limit=60):
    """run fn in a child, return what it returns (or the text of what it raised)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                res = ('ok', fn())
            except BaseException:
                res = ('exc', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as g:
                pickle.dump(res, g)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as g:
            data = g.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('none', '')


class M:
    """the model: where text goes and what the settings are"""
    def __init__(self):
        self.redirected, self.buffer, self.pending, self.real = False, '', '', ''
        self.ofa = self.opd = False
        self.inv = None
        self.fmt = None
        self.colors = {}

    def latex(self, o):
        d = {'omit_function_args': self.ofa, 'omit_partial_derivative_fraction': self.opd}
        if self.inv:
            d['inv_trig_style'] = self.inv
        if self.fmt is not None:
            d['galgebra_mv_fmt'] = self.fmt
        return TEXTS['latex', tuple(sorted(d.items())), o]

    def text(self, o):
        d = dict(self.colors)
        if self.fmt is not None:
            d['galgebra_mv_fmt'] = self.fmt
        return TEXTS['text', tuple(sorted(d.items())), o]

    def shown(self, o):
        """what print() makes of a pool object"""
        if o == 'lst':
            return '[' + self.text('field') + ', ' + self.text('deriv0') + ']'
        return self.latex(o) if self.redirected else self.text(o)

    def emit(self, s):
        if self.redirected:
            self.buffer += s
        else:
            self.real += s

    def restore(self):
        if self.redirected:
            self.pending += self.buffer
            self.buffer = ''
            self.redirected = False


class Texts(dict):
    """expected texts from explicitly set-up printers, computed on demand *without* the global settings"""
    def __missing__(self, k):
        kind, d, o = k
        obj = sympy.Derivative(f(x, y), x) if o == 'deriv0' else pool()[o]
        G_ = sympy.printing.printer.Printer._global_settings
        saved = dict(G_)
        G_.clear()
        try:
            self[k] = (GaLatexPrinter if kind == 'latex' else GaPrinter)(dict(d)).doprint(obj)
        finally:
            G_.update(saved)
        return self[k]


TEXTS = Texts()


def texify(s):
    out, i = '', 0
    pairs = [('>>', r' \times '), ('<<', r' \bar{\times} '), ('<', r'\rfloor '), ('>', r'\lfloor '), ('|', r'\cdot '), ('*', ' ')]
    word = lambda c: c.isalnum() or c == '_'
    while i < len(s):
        if word(s[i]):
            j = i
            while j < len(s) and word(s[j]):
                j += 1
            w = s[i:j]
            out += {'grad': r'\boldsymbol{\nabla} ', 'rgrad': r'\bar{\boldsymbol{\nabla}} '}.get(w, w)
            i = j
            continue
        if s[i] == '^':
            out += '^' if s[i + 1:i + 2] == '{' else r'\W '
            i += 1
            continue
        for a, b in pairs:
            if s.startswith(a, i):
                out += b
                i += len(a)
                break
        else:
            out += s[i]
            i += 1
    return out


def body_of(text):
    """the documented line by line processing; blank lines dropped"""
    out, code = [], False
    for l in text.split('\n'):
        if l.startswith('##'):
            code = not code
            l = l[2:]
        elif code:
            pass
        elif l.startswith('#') and not l.startswith('#%'):
            l = l[1:]
        elif l:
            if l.startswith('%'):
                l = l[1:]
            elif l.startswith('#%'):
                l = l[2:]
            elif '=' in l:
                k = l.rindex('=')
                l = texify(l[:k]) + l[k:]
            if r'\begin{align*}' in l:
                k = l.index(r'\begin{align*}')
                l = r'\begin{align*} ' + (l[:k] + l[k + len(r'\begin{align*}'):]).lstrip()
            else:
                l = r'\begin{equation*} ' + l.strip() + r' \end{equation*}'
        out.append(l)
    return [l for l in out if l.strip()]


def check_doc(ctx, doc, pending, paper, pt):
    for mark in (r'\documentclass', r'\begin{document}', r'\end{document}'):
        ctx.ok(doc.count(mark) == 1, '%s appears %d times' % (mark, doc.count(mark)))
    head, rest = doc.split('\\begin{document}\n')
    body, tail = rest.split('\\end{document}')
    ctx.ok(tail.strip() == '', 'text after the end of the document')
    ctx.ok(re.search(r'\\documentclass\[([^]]*)\]', head).group(1).split(',')[0] == pt, 'point size %s: %s' % (pt, head[:80]))
    m = re.search(r'papersize=\{([^}]*)\}', head)
    if paper == 'letter':
        ctx.ok(m is None, 'paper size set for letter')
    else:
        w, hh = (11, 8.5) if paper == 'landscape' else paper
        ctx.ok(m and m.group(1) == '%sin,%sin' % (w, hh), 'paper size %r: %r' % (paper, m and m.group(1)))
    got = [l for l in body.split('\n') if l.strip()]
    want = body_of(pending)
    ctx.ok(got == want, 'document body %r, expected %r' % (got, want))


class Sink:
    """the part of ctx that works inside the child"""
    class Stop(Exception):
        pass

    def __init__(self):
        self.labels, self.msg, self.nontrivial = [], None, False

    def ok(self, c, m):
        if not c:
            self.msg = m
            raise Sink.Stop()

    def label(self, *l):
        self.labels += l


def run_isolated(ctx, body):
    if not _pool:
        pool(), sympy_own()  # before forking
    def go():
        s = Sink()
        try:
            body(s)
        except Sink.Stop:
            pass
        finally:
            sys.stdout = sys.__stdout__
        return s.msg, s.labels, {k: v for k, v in TEXTS.items() if k not in known}
    known = set(TEXTS)
    st_, res = forked(go)
    if st_ == 'none':
        ctx.reject('child gave no answer')
    if st_ == 'exc':
        ctx.fail('raised: ' + res)
    msg, labels, texts = res
    TEXTS.update(texts)  # computed without the global settings, so any case may use them
    ctx.label(*sorted(set(labels)))
    ctx.ok(msg is None, msg)


FRAG = st.sampled_from(['A', 'B', 'x_{1}', '*', '^', '|', '<', '>', '<<', '>>', ' ', 'grad', 'rgrad', 'gradA', 'a_grad', '^{2}', '=', ' = ', '%', '#', '##', '#%', r'\alpha ', '\\begin{align*}', '\\end{align*}', ':', 'grad*A =',
                        '\n', r'\\', '12', '%d', '%s'])
TEXT = st.builds(lambda a, b: a + ''.join(b), st.sampled_from(['', '', '', '', '', '#', '##', '%', '#%', 'A*B =', 'grad|A =', r'A^{2}<B =', 'L =']), st.lists(FRAG, max_size=5))
ITEM = st.one_of(st.tuples(st.just('s'), TEXT), st.tuples(st.just('o'), st.sampled_from(NAMES)), st.tuples(st.just('n'), st.integers(-3, 30)))
PAPER = st.one_of(st.just('letter'), st.just('landscape'), st.tuples(st.integers(4, 20), st.integers(4, 20)))
PT = st.sampled_from(['10pt', '11pt', '12pt'])
STYLE = st.sampled_from(['abbreviated', 'full', 'power'])
PRINT = st.tuples(st.just('print'), st.lists(ITEM, min_size=1, max_size=3), st.sampled_from([None, None, '', ';']), st.sampled_from([None, None, None, '', ' ']))
OP = st.one_of(
    PRINT, PRINT, PRINT, PRINT,
    st.tuples(st.just('format'), st.booleans(), st.booleans(), STYLE),
    st.tuples(st.just('latexformat'), st.booleans(), st.booleans()),
    st.tuples(st.just('redirect')), st.tuples(st.just('restore')),
    st.tuples(st.just('tex'), PAPER, PT), st.tuples(st.just('xpdf'), PAPER, PT),
    st.tuples(st.just('eprint'), st.sampled_from([(), ('red', 'green', 'blue'), (None, None, None), ('blue', None, None), (None, 'bright red', 'cyan')])),
    st.tuples(st.just('fmt'), st.sampled_from([1, 2, 3])),
    st.tuples(st.just('str'), st.sampled_from(NAMES)), st.tuples(st.just('latex'), st.sampled_from(NAMES)), st.tuples(st.just('repr'), st.sampled_from(NAMES)),
    st.tuples(st.just('file'), ITEM),
    st.tuples(st.just('quiet'), st.sampled_from(NAMES)))

ANSI = {'red': '\033[0;31m', 'green': '\033[0;32m', 'blue': '\033[0;34m', 'cyan': '\033[0;36m', 'bright red': '\033[1;31m'}


def sympy_own():
    e = sympy.sin(x) * f(x, y) + sympy.Derivative(f(x, y), x) + sympy.Matrix([[u]]).det()
    return (sympy.latex(e), sympy.sstr(e), str(e), sympy.pretty(e), sympy.srepr(e), sympy.latex(sympy.Matrix([[x, u]])), str([e]) == '[%r]' % e)


def value(ctx, item):
    return pool()[item[1]] if item[0] == 'o' else item[1]


def item_text(m, item):
    return m.shown(item[1]) if item[0] == 'o' else str(item[1])


def history_body(ops, use_tmp):
    def body(s):
        m = M()
        real = io.StringIO()
        sys.stdout = real
        pr = builtins.print
        pool()
        own = sympy_own()
        ndoc = 0
        for op in ops:
            k = op[0]
            if k == 'print':
                _, items, sep, end = op
                kw = {}
                if sep is not None:
                    kw['sep'] = sep
                if end is not None:
                    kw['end'] = end
                m.emit((' ' if sep is None else sep).join(item_text(m, i) for i in items) + ('\n' if end is None else end))
                print(*[value(s, i) for i in items], **kw)
                if m.redirected:
                    s.label('printed while redirected')
            elif k == 'format':
                m.ofa, m.opd, m.inv = op[1:]
                Format(*op[1:])
                m.redirected = True
            elif k == 'latexformat':
                m.ofa, m.opd = op[1:]
                LatexFormat(*op[1:])
                m.redirected = True
            elif k == 'redirect':
                if m.redirected:
                    s.label('redirected twice')
                GaLatexPrinter.redirect()
                m.redirected = True
            elif k == 'restore':
                GaLatexPrinter.restore()
                m.restore()
            elif k in ('tex', 'xpdf'):
                m.restore()
                if k == 'tex':
                    doc = tex(paper=op[1], pt=op[2])
                else:
                    fn = os.path.join(use_tmp, 'doc%d.tex' % ndoc)
                    xpdf(fn, paper=op[1], pt=op[2], pdfprog=None)
                    with open(fn) as g:
                        doc = g.read()
                ndoc += 1
                s.label('document' if m.pending else 'empty document', 'several documents' if ndoc > 1 else 'first document')
                check_doc(s, doc, m.pending, op[1], op[2])
                m.pending = ''
            elif k == 'eprint':
                names = dict(zip(('basis_vector_color', 'function_color', 'derivative_color'), op[1] or ('blue', 'red', 'cyan')))
                m.colors = {a: b for a, b in names.items() if b is not None}
                Eprint(*op[1])
                s.label('colors on' if m.colors else 'colors off')
            elif k == 'fmt':
                m.fmt = op[1]
                s.ok(Fmt(op[1]) is None, 'Fmt(int) returned something')
            elif k in ('str', 'repr'):
                o = op[1]
                if k == 'str' and not isinstance(pool()[o], Mv):  # str() of the rest goes through the printer of sympy
                    continue
                if o == 'lst':
                    want = '[' + m.text('field') + ', ' + m.text('deriv0') + ']'
                else:
                    want = m.text(o)
                got = (str if k == 'str' else repr)(pool()[o])
                s.ok(got == want, '%s(%s) is %r, expected %r' % (k, o, got, want))
            elif k == 'latex':
                got, want = latex(pool()[op[1]]), m.latex(op[1])
                s.ok(got == want, 'latex(%s) is %r, expected %r' % (op[1], got, want))
            elif k == 'file':
                b = io.StringIO()
                print(value(s, op[1]), file=b)
                s.ok(b.getvalue() == item_text(m, op[1]) + '\n', 'print to a file gave %r, expected %r' % (b.getvalue(), item_text(m, op[1])))
            elif k == 'quiet':
                # explicit settings win over the global ones, and do not stick
                got = latex(pool()[op[1]], omit_function_args=not m.ofa)
                m.ofa = not m.ofa
                want = m.latex(op[1])
                m.ofa = not m.ofa
                s.ok(got == want, 'latex(%s) with an explicit setting is %r, expected %r' % (op[1], got, want))
            s.ok(builtins.print is pr, 'builtins.print was replaced')
            s.ok((sys.stdout is real) == (not m.redirected), 'after %s: stdout is %s, should be %s' % (k, 'the original' if sys.stdout is real else 'replaced', 'redirected' if m.redirected else 'the original'))
            s.ok(real.getvalue() == m.real, 'after %s: standard output holds %r, expected %r' % (k, real.getvalue()[-200:], m.real[-200:]))
        # leftovers
        m.restore()
        doc = tex()
        s.ok(sys.stdout is real, 'stdout not given back at the end')
        check_doc(s, doc, m.pending, (14, 11), '10pt')
        if m.fmt is None:
            now = sympy_own()
            s.ok(now == own, 'the output of sympy itself changed: %r, was %r' % (now, own))
        print('end')
        s.ok(real.getvalue() == m.real + 'end\n', 'output after restoring: %r' % real.getvalue()[-80:])
    return body


START = st.sampled_from([[], [('format', True, True, 'full')], [('format', False, True, 'power')], [('format', True, False, 'abbreviated')], [('latexformat', True, True)], [('redirect',)]])
TEX = st.tuples(st.just('tex'), PAPER, PT)
SEGMENT = st.builds(lambda a, p, b, c: a + p + b + c, START, st.lists(PRINT, max_size=2), st.lists(OP, max_size=5), st.one_of(st.just([]), TEX.map(lambda t: [t])))


@check(P, st.lists(SEGMENT, min_size=2, max_size=4).map(lambda l: sum(l, [])), quick=900, rule='history prints while redirected and then produces a document (or redirects twice / writes several documents)')
def histories(ops, ctx):
    tmp = tempfile.mkdtemp(prefix='c24') if any(o[0] == 'xpdf' for o in ops) else None
    try:
        red, pend, docs = False, False, 0
        for o in ops:
            if o[0] in ('format', 'latexformat', 'redirect'):
                red = True
            elif o[0] == 'restore':
                red = False
            elif o[0] == 'print':
                pend = pend or red
            elif o[0] in ('tex', 'xpdf'):
                docs += pend
                red = pend = False
        ctx.nt(docs or pend, 'documents: %d' % min(docs, 3))
        run_isolated(ctx, history_body(ops, tmp))
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


# --- one document, text processing in depth

LINES = st.lists(st.builds(lambda pre, a, eq, b: pre + a + eq + b, st.sampled_from(['', '', '', '#', '##', '%', '#%']), st.lists(FRAG.filter(lambda t: t != '\n'), max_size=7).map(''.join),
                           st.sampled_from(['', '=', ' = ']), st.lists(FRAG.filter(lambda t: t != '\n'), max_size=3).map(''.join)), min_size=1, max_size=6)


@check(P, st.tuples(LINES, PAPER, PT), quick=1500, rule='at least one line is processed and one has an "=" or starts with a special character')
def document_lines(case, ctx):
    lines, paper, pt = case
    text = '\n'.join(lines) + '\n'
    ctx.nt(any('=' in l for l in lines) and body_of(text), *sorted({'starts ' + re.match('#*%?', l).group() for l in lines if l[:1] in '#%' and l}))

    real = sys.stdout
    GaLatexPrinter.redirect()
    try:
        print(text, end='')
        doc = tex(paper=paper, pt=pt)
    finally:
        GaLatexPrinter.restore()
    ctx.ok(sys.stdout is real, 'stdout not given back')
    check_doc(ctx, doc, text, paper, pt)


# --- source listing

def shown_function():
    # a = b  ^ c, <tag> % d
    z = '%d'

    # blank line above; # more
    printer.Print_Function()
    print('A*B =', 3)
    return z


@check(P, st.tuples(st.booleans(), st.lists(PRINT, max_size=2)), quick=40, shards=1, rule='listing goes into the document')
def listing(case, ctx):
    red, more = case
    import inspect
    src = inspect.getsource(shown_function)
    ctx.nt(red)

    def body(s):
        real = io.StringIO()
        sys.stdout = real
        m = M()
        if red:
            Format()
        shown_function()
        if red:
            doc = tex()
            strip = lambda t: [l for l in t.split('\n') if l.strip()]
            at = strip(doc)
            src_l = strip(src)
            k = at.index(src_l[0]) if src_l[0] in at else None
            s.ok(k is not None and at[k:k + len(src_l)] == src_l, 'the source is not verbatim in the document: %r' % at[-25:])
            s.ok(r'\begin{lstlisting}' in at[k - 1] and r'\end{lstlisting}' in at[k + len(src_l)], 'listing not delimited')
            s.ok(at[-2] == r'\begin{equation*} A B = 3 \end{equation*}', 'line after the listing: %r' % at[-2])
            s.ok(real.getvalue() == '', 'printed to stdout too')
        else:
            s.ok(src in real.getvalue(), 'source not printed')
        s.ok(sys.stdout is real, 'stdout not given back')
    run_isolated(ctx, body)


# --- gprint / gFormat / gxpdf

GTEXT = st.lists(st.sampled_from(['A', ' ', '%', '%s', '%d', '100% ', r'\text{so }', r'\\', r'\quad ', '=', '^{2}', '{', '}', '@', r'\alpha']), max_size=5).map(''.join)
GITEM = st.one_of(st.tuples(st.just('s'), GTEXT), st.tuples(st.just('s'), GTEXT), st.tuples(st.just('o'), st.sampled_from([n for n in NAMES if n != 'lst'])), st.tuples(st.just('n'), st.integers(-3, 30)), st.tuples(st.just('t'), st.sampled_from(['int', 'str'])))
GOP = st.one_of(st.tuples(st.just('gprint'), st.lists(GITEM, min_size=1, max_size=4)), st.tuples(st.just('gprint'), st.lists(GITEM, min_size=1, max_size=4)),
                st.tuples(st.just('gformat'), st.booleans(), st.booleans(), STYLE),
                st.tuples(st.just('gxpdf'), PAPER, PT, st.sampled_from(['book', 'article'])))


@check(P, st.builds(lambda a, b, c: a + b + c, st.lists(GOP, max_size=2), st.sampled_from([[('gformat', True, True, 'full')], [('gformat', False, True, 'power')]]), st.lists(GOP, min_size=4, max_size=10)), quick=500, rule='something is printed in LaTeX mode and a document follows')
def gprint_histories(ops, ctx):
    lat, pend, docs = False, False, 0
    for o in ops:
        lat = lat or o[0] == 'gformat'
        pend = pend or (lat and o[0] == 'gprint')
        docs += o[0] == 'gxpdf' and pend
    ctx.nt(docs, 'documents: %d' % min(docs, 3))
    if any(o[0] == 'gprint' and any(i[0] == 's' and '%' in i[1] for i in o[1]) for o in ops):
        ctx.label('percent sign')
    tmp = tempfile.mkdtemp(prefix='c24')

    def norm(t):
        t = t.replace('\\end{equation*}\n\\begin{equation*} ', '').replace(r'\\', '')
        return ' '.join(t.split())

    def body(s):
        real = io.StringIO()
        sys.stdout = real
        m = M()
        want_real, records, lat = '', [], False
        TY = {'int': int, 'str': str}
        ndoc = 0
        for op in list(ops) + [('gxpdf', (14, 11), '10pt', 'book')]:
            if op[0] == 'gformat':
                m.ofa, m.opd, m.inv = op[1:]
                gprinter.gFormat(*op[1:])
                lat = True
            elif op[0] == 'gprint':
                t = ''
                for kind, v in op[1]:
                    if kind == 's':
                        t += v
                    elif kind == 't':
                        t += r' \text{%s} ' % TY[v] if lat else str(TY[v])
                    elif kind == 'n':
                        t += ' %s ' % v
                    else:
                        t += ' ' + (m.latex(v) if lat else str(pool()[v])) + ' '
                gprinter.gprint(*[TY[v] if kind == 't' else pool()[v] if kind == 'o' else v for kind, v in op[1]])
                if lat:
                    records.append(t)
                else:
                    want_real += t + '\n'
            else:
                fn = os.path.join(tmp, 'g%d.tex' % ndoc)
                ndoc += 1
                gprinter.gxpdf(fn, paper=op[1], pt=op[2], pdfprog=None, evince=False, rm=False, documentclass=op[3])
                with open(fn) as g:
                    doc = g.read()
                for mark in (r'\documentclass', r'\begin{document}', r'\end{document}'):
                    s.ok(doc.count(mark) == 1, '%s appears %d times' % (mark, doc.count(mark)))
                head, rest = doc.split('\\begin{document}')
                text, tail = rest.split('\\end{document}')
                s.ok('[%s,' % op[2] in head and '{%s}' % op[3] in head, 'document class or size: %r' % head[:80])
                mm = re.search(r'papersize=\{([^}]*)\}', head)
                w = None if op[1] == 'letter' else '%sin,%sin' % tuple((11, 8.5) if op[1] == 'landscape' else op[1])
                s.ok((mm and mm.group(1)) == w, 'paper size %r' % (mm and mm.group(1)))
                b, e = r'\begin{equation*}', r'\end{equation*}'
                s.ok(re.sub(r'[^()]', '', text.replace('(', '').replace(')', '').replace(b, '(').replace(e, ')')).replace('()', '') == '', 'unbalanced equation environments: %r' % text)
                want = ''.join(b + ' ' + r + e + ' \n' for r in records)
                s.ok(norm(text) == norm(want), 'document %r, expected %r' % (text, want))
                records = []
            s.ok(sys.stdout is real, 'stdout was replaced')
            s.ok(real.getvalue() == want_real if r'\\' not in want_real else norm(real.getvalue()) == norm(want_real), 'standard output %r, expected %r' % (real.getvalue(), want_real))
    try:
        run_isolated(ctx, body)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --- producing the pdf: stand-in programs in a scratch directory which is the whole PATH; they act only on plain names in it

STANDIN = r'''#!/bin/sh
P=$(/usr/bin/basename "$0")
L="$P"
for a in "$@"; do
  L="$L|$a"
  case "$a" in */*) echo "REFUSED $L" >> calls; exit 1;; esac
done
echo "$L" >> calls
case "$P" in
  mytex) n="${1%.tex}"; echo "This is mytex"; test -f "$n.tex" || exit 1
         { echo PDF; /bin/cat "./$n.tex"; } > "./$n.pdf"; /bin/cp "./$n.tex" ./tex-seen; echo a > "./$n.aux"; echo l > "./$n.log";;
  pdfcrop) n="${1%.pdf}"; test -f "$1" || exit 1; { echo CROPPED; /bin/cat "./$1"; } > "./$n-crop.pdf";;
  Pdf2Png) test -f "$1.pdf" || exit 1; echo png > "./$1.png";;
  evince) test -f "$1" && echo shown > seen-pdf;;
  rm) for a in "$@"; do case "$a" in -*) ;; *) /bin/rm -f "./$a";; esac; done;;
  mv) /bin/mv "./$1" "./$2";;
esac
'''
PROGRAM = '# a program: 50% <a> & b_1^2\nprint("x")\n'


FMTS = ['field', 'plain', 'multi', 'div', 'dop', 'lt', 'mlt', 'expr', 'deriv']


@check(P, st.tuples(st.lists(st.tuples(st.sampled_from(FMTS), st.sampled_from([None, None, 1, 2, 3])), min_size=2, max_size=4), st.sampled_from(['list', 'tuple']), st.booleans(), st.sampled_from([None, 1, 2, 3])),
       quick=300, shards=4, rule='an object with a format is followed by one without')
def formats_in_a_sequence(c, s):
    """a format given to one object with Fmt is for this object only: the objects printed after it by the same printer, in
    a list, a tuple or one by one, keep theirs, as does the printer"""
    items, kind, lat, own = c
    s.nt(any(a[1] and not b[1] for a, b in zip(items, items[1:])), kind, 'latex' if lat else 'text')

    def obj(nm, fm):
        if nm == 'mlt':
            if 'mlt' not in pool():
                from galgebra.lt import Mlt
                pool()['mlt'] = Mlt('T', pool()['field'].Ga, 2)
            o = pool()['mlt']
        else:
            o = pool()[nm]
        return o if fm is None or not hasattr(o, 'Fmt') or isinstance(o, sympy.Basic) else o.Fmt(fm)

    def new():
        return (GaLatexPrinter if lat else GaPrinter)({} if own is None else {'galgebra_mv_fmt': own})
    os_ = [obj(*i) for i in items]
    alone = [new().doprint(o) for o in os_]
    pr = new()
    for o, w in zip(os_, alone):
        t = pr.doprint(o)
        s.ok(t == w, lambda: 'printed after others: %r, alone: %r' % (t, w))
    seq = os_ if kind == 'list' else tuple(os_)
    t = new().doprint(seq)
    pos = 0
    for w in alone:
        q = t.find(w.strip(), pos)
        s.ok(q >= 0, lambda: 'in a %s: %r, alone: %r' % (kind, t, alone))
        pos = q + len(w.strip())
    if not lat:
        o, cl = '[]' if kind == 'list' else '()'
        s.ok(t == o + ', '.join(alone) + cl, lambda: 'in a %s: %r, alone: %r' % (kind, t, alone))


SHOWN = [n for n in NAMES if n != 'lst']
SHOW = st.one_of(
    st.tuples(st.just('show'), st.sampled_from(SHOWN)), st.tuples(st.just('show'), st.sampled_from(SHOWN)),
    st.tuples(st.just('seq'), st.sampled_from(['list', 'tuple']), st.lists(st.sampled_from(SHOWN), min_size=2, max_size=3)),
    st.tuples(st.just('plain'), st.sampled_from([3, -2, 'A*B', None, True])),
    st.tuples(st.just('gprint'), st.lists(st.one_of(st.sampled_from(['A = ', r'\\ B = ', ' + ', '', r'\\ C \\ D = ', 'p@q']), st.sampled_from([('o', n) for n in SHOWN])), min_size=1, max_size=4)),
    st.tuples(st.just('fmt'), st.sampled_from([1, 2, 3])),
    st.tuples(st.just('Fmt'), st.lists(st.sampled_from(['field', 'plain', 'dop', 'expr']), min_size=1, max_size=4), st.integers(0, 3)))


@check(P, st.lists(st.tuples(st.tuples(st.booleans(), st.booleans(), STYLE), st.lists(SHOW, min_size=1, max_size=5)), min_size=1, max_size=3), quick=120, shards=4,
       rule='Format() is called again with other settings and something is displayed after it')
def interactive_session(sessions, ctx):
    """in an IPython session (a notebook) what is displayed after Format() is the LaTeX of the object under the settings given
    to the last Format(), wrapped once as an equation; the plain text next to it is the str of the object"""
    ctx.nt(len({tuple(s[0]) for s in sessions}) > 1, *{o[0] for s in sessions for o in s[1]})
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.utils.capture import capture_output
    from traitlets.config import Config
    tmp = tempfile.mkdtemp(prefix='c24')

    def body(s):
        os.environ['IPYTHONDIR'] = os.environ['HOME'] = tmp
        c = Config()
        c.HistoryManager.enabled = False
        sh = InteractiveShell.instance(config=c)
        sh.user_ns.update(Format=Format, gFormat=gprinter.gFormat)
        m = M()
        with capture_output():
            r = sh.run_cell('gFormat()')
        s.ok(r.success, 'gFormat: %r' % (r.error_in_exec,))

        def title(n):
            return {'field': 'A = ', 'plain': 'B = ', 'multi': 'C = '}.get(n, '')

        def one(text):
            return re.sub(r'\s+', ' ', text).strip()

        def wrapped(text, what):
            b, e = r'\begin{equation*}', r'\end{equation*}'
            s.ok(text is not None and text.strip().startswith(b) and text.strip().endswith(e) and text.count(b) == 1 and text.count(e) == 1, '%s: not one equation: %r' % (what, text))
            return one(text.strip()[len(b):-len(e)])
        for (fm, dm, inv), ops in sessions:
            r = sh.run_cell('Format(%r, %r, %r)' % (fm, dm, inv))
            s.ok(r.success, 'Format: %r' % (r.error_in_exec,))
            m.ofa, m.opd, m.inv = fm, dm, inv
            for op in ops:
                with sh.builtin_trap:
                    if op[0] == 'show':
                        d = sh.display_formatter.format(pool()[op[1]])[0]
                        s.ok(wrapped(d.get('text/latex'), op[1]) == one(title(op[1]) + m.latex(op[1])), '%s displayed as %r, latex is %r' % (op[1], d.get('text/latex'), m.latex(op[1])))
                        if op[1] in ('field', 'plain', 'multi', 'div', 'dop', 'lt', 'pdop'):
                            s.ok(one(d['text/plain']) == one(m.text(op[1])), '%s: plain text %r, str is %r' % (op[1], d['text/plain'], m.text(op[1])))
                    elif op[0] == 'seq':
                        o = (list if op[1] == 'list' else tuple)(pool()[n] for n in op[2])
                        t = wrapped(sh.display_formatter.format(o)[0].get('text/latex'), 'a ' + op[1])
                        br = '[]' if op[1] == 'list' else '()'
                        want = r'\left' + br[0] + ' ' + r', \  '.join(m.latex(n) for n in op[2]) + r'\right' + br[1]
                        s.ok(re.sub(r'\s', '', t) == re.sub(r'\s', '', want), 'displayed %r, expected %r' % (t, want))
                    elif op[0] == 'plain':
                        d = sh.display_formatter.format(op[1])[0]
                        if isinstance(op[1], int) and not isinstance(op[1], bool):
                            s.ok(wrapped(d.get('text/latex'), 'int') == str(op[1]), 'displayed %r' % d)
                        s.ok(d['text/plain'] == repr(op[1]), 'displayed %r' % d)
                    elif op[0] == 'gprint':
                        args = [pool()[a[1]] if not isinstance(a, str) else a for a in op[1]]
                        with capture_output() as cap:
                            gprinter.gprint(*args)
                        got = [o.data.get('text/latex', '') for o in cap.outputs]
                        text = ''.join(' %s ' % m.latex(a[1]) if not isinstance(a, str) else a for a in op[1])
                        rest = ''.join(' %s ' % m.latex(a[1]) if not isinstance(a, str) else a.replace('@', '').replace(r'\\', '@') for a in op[1][1:])
                        n = rest.count('@') if not any(not isinstance(a, str) and r'\\' in m.latex(a[1]) for a in op[1]) else None
                        strip = lambda z: re.sub(r'\\(begin|end)\{equation\*\}|\$|\\displaystyle|\\\\|\s', '', z)
                        s.ok(strip(''.join(got)) == strip(text), 'gprint displayed %r, expected %r' % (got, text))
                        if n is not None:
                            s.ok(len(got) == n + 1, 'gprint displayed %d equations, expected %d: %r' % (len(got), n + 1, got))
                    elif op[0] == 'fmt':
                        Fmt(op[1])
                        m.fmt = op[1]
                    else:
                        o = [pool()[n] for n in op[1]]
                        t = Fmt(o, op[2])
                        keep = builtins.__dict__.pop('__IPYTHON__')
                        try:
                            want = Fmt(o, op[2])
                        finally:
                            builtins.__dict__['__IPYTHON__'] = keep
                        s.ok(wrapped(t, 'Fmt') == one(want), 'Fmt in a notebook %r, otherwise %r' % (t, want))
                        for n in op[1]:
                            s.ok(one(m.latex(n)) in one(want), 'Fmt: %r lacks %r' % (want, m.latex(n)))
    try:
        run_isolated(ctx, body)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@check(P, st.fixed_dictionaries(dict(api=st.sampled_from(['xpdf', 'gxpdf']), crop=st.booleans(), png=st.booleans(), debug=st.booleans(), rm=st.booleans(), null=st.booleans(), prog=st.booleans(), evince=st.booleans(),
                                     name=st.sampled_from([None, 'out.tex', 'a.b.tex']), lines=st.lists(st.sampled_from(['A*B = 1', 'x_{1}', '#text', r'\alpha']), min_size=1, max_size=3))),
       quick=120, rule='the LaTeX program is run, and the document is not empty')
def pdf_run(c, ctx):
    x_ = c['api'] == 'xpdf'
    ctx.nt(True, c['api'], 'name from the program' if c['name'] is None else 'named', *[k for k in ('crop', 'png') if c[k]])
    tmp = tempfile.mkdtemp(prefix='c24')
    bin_, work = os.path.join(tmp, 'bin'), os.path.join(tmp, 'work')
    os.mkdir(bin_), os.mkdir(work)
    for n in ('mytex', 'pdfcrop', 'Pdf2Png', 'evince', 'rm', 'mv'):
        with open(os.path.join(bin_, n), 'w') as g:
            g.write(STANDIN)
        os.chmod(os.path.join(bin_, n), 0o755)
    root = c['name'][:-4] if c['name'] else 'main'

    def inside(name):
        name = os.fspath(name)
        assert os.path.dirname(os.path.realpath(name)) == os.path.realpath(work), 'touches %r' % (name,)
        return name

    def body(s):
        os.environ['PATH'] = bin_
        os.chdir(work)
        with open('main.py', 'w') as g:
            g.write(PROGRAM)
        sys.argv = ['main.py']
        real_remove, real_rename = os.remove, os.rename
        os.remove = lambda p, **k: real_remove(inside(p))
        os.unlink = os.remove
        os.rename = lambda a, b, **k: real_rename(inside(a), inside(b))
        builtins.input = lambda *a: ''      # the user presses return
        fd = os.open('../stdout', os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        os.dup2(fd, 1), os.dup2(fd, 2)
        real = sys.stdout = io.StringIO()
        if x_:
            Format()
            print('\n'.join(c['lines']))
            xpdf(c['name'], crop=c['crop'], png=c['png'], prog=c['prog'], debug=c['debug'], pdfprog='mytex')
            debug, keep, want = c['debug'], c['debug'], body_of('\n'.join(c['lines']) + '\n')
        else:
            gprinter.gFormat()
            for l in c['lines']:
                gprinter.gprint(l)
            gprinter.gxpdf(c['name'], crop=c['crop'], png=c['png'], pdfprog='mytex', rm=c['rm'], null=c['null'], evince=c['evince'])
            debug, keep, want = not c['null'], not c['rm'], None
        s.ok(sys.stdout is real, 'stdout not given back')
        calls = [l.split('|') for l in open('calls').read().splitlines()]
        s.ok(not any(k[0].startswith('REFUSED') for k in calls), 'called with a path: %r' % calls)
        tex_calls = [k for k in calls if k[0] == 'mytex']
        s.ok(len(tex_calls) == 1 and len([a for a in tex_calls[0][1:] if a.strip()]) == 1, 'LaTeX called as %r' % tex_calls)
        doc = open('tex-seen').read()
        for mark in (r'\documentclass', r'\begin{document}', r'\end{document}'):
            s.ok(doc.count(mark) == 1, '%s appears %d times in what LaTeX saw' % (mark, doc.count(mark)))
        text = doc.split('\\begin{document}')[1].split('\\end{document}')[0]
        if x_:
            if c['prog']:
                s.ok('\n' + PROGRAM + '\n' in text, 'the program is not verbatim in the document')
                text = text.split('Code Output:}')[1]
            s.ok([l.rstrip() for l in text.split('\n') if l.strip()] == [l.rstrip() for l in want], 'document body %r, expected %r' % (text, want))
        else:
            s.ok(text.count('equation*') == 2 * len(c['lines']) and [l for l in re.sub(r'\\(begin|end)\{equation\*\}', '', text).split('\n') if l.strip()] ==
                 [' ' + l + ' ' for l in c['lines']], 'document body %r' % text)
        shown = x_ or c['evince']
        if shown:
            for _ in range(200):
                if os.path.exists('seen-pdf'):
                    break
                import time
                time.sleep(0.05)
        # at the end only the results are left, and they are the finished ones
        files = set(os.listdir('.')) - {'calls', 'tex-seen', 'seen-pdf', 'main.py'}
        out = {root + '.pdf'} | ({root + '.png'} if c['png'] else set())
        tmps = set()
        if keep:
            tmps = {root + '.tex'} | (set() if x_ else {root + '.aux', root + '.log'})
        s.ok(files == out | tmps, 'files left %r, expected %r' % (sorted(files), sorted(out | tmps)))
        pdf = open(root + '.pdf').read()
        s.ok(pdf.startswith('CROPPED\nPDF\n' if c['crop'] else 'PDF\n') and doc in pdf, 'not the finished pdf: %r' % pdf[:40])
        if shown:
            s.ok(os.path.exists('seen-pdf') or c['crop'], 'the viewer was not shown the pdf')
        s.ok(any(k[0] == 'evince' for k in calls) or x_ or not c['evince'], 'no viewer')
        chatter = open('../stdout').read()
        s.ok(('This is mytex' in chatter) == debug, 'output of the LaTeX program: %r' % chatter)
    try:
        run_isolated(ctx, body)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
