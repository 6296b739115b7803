"""Histories over several algebras: no operation disturbs an operand, an earlier result or another algebra, and no result depends on what was done before."""
import copy
import importlib.util
import os
from runner import check, CaseTimeout
from gu import *
import gens as G
from gens import st
from galgebra.dop import Pdop, Sdop
from galgebra.mv import Dop
from galgebra.lt import Lt, Mlt
import galgebra.mv as gmv
import galgebra.lt as glt

P = 'C28'
xs = sympy.symbols('x y z', real=True)
sin, cos = sympy.sin, sympy.cos

# ---------------------------------------------------------------- algebras
# every kind has the same two basis names for a given n, so that they can be confused
x, y, z = xs
CURVED = {
    'polar': (2, [1, x ** 2], False),
    'polar_n': (2, [1, x ** 2], True),
    'shear': (2, [[1 + 4 * x ** 2, 2 * x], [2 * x, 1]], False),
    'oblique': (2, [[1, 2], [2, 5]], False),
    'flat2': (2, [1, 1], False),
    'mink2': (2, [-1, 1], False),
    'flat3': (3, [1, 1, 1], False),
    'sph': (3, [1, x ** 2, x ** 2 * sin(y) ** 2], False),
    'sph_n': (3, [1, x ** 2, x ** 2 * sin(y) ** 2], True),
    'cyl': (3, [1, x ** 2, 1], False),
}


def mkalg(spec):
    k = spec['k']
    if k == 'const':
        return mk_ga(dict(spec['ga'], names='plain', wedge=True) if len(spec['ga']['g']) > 1 else spec['ga'])
    if k == 'sym':
        n = spec['n']
        return Ga(names_for(n))
    n, g, norm = CURVED[k]
    return Ga(names_for(n), g=g, coords=xs[:n], norm=norm)


def coords_of(spec):
    return spec['k'] in CURVED


# ---------------------------------------------------------------- operations
# name -> (operand kinds, function(algebra, [operands], ints), result kind)
OPS = {}


def op(name, kinds, res, w=1, when=None):
    def deco(f):
        OPS[name] = (kinds.split(), f, res, w, when)
        return f
    return deco


def mkmv(ga, q):
    """multivector from the ints: terms (mask, coefficient, coordinate index)"""
    masks_ = masks(ga.n)
    M = ga.mv(S.Zero)
    bl = ga.mv_blades.flat
    t = list(q)
    for i in range(0, len(t) - 2, 3):
        c = [1, -1, 2, -2, 3, Rational(1, 2)][t[i + 1] % 6]
        if ga.coords is not None and t[i + 2] % 2:
            c = c * ga.coords[t[i + 2] % ga.n]
        M = M + c * bl[t[i] % len(bl)]
    return M


op('new', '', 'mv', 6)(lambda g, a, q: mkmv(g, q))
op('newvec', '', 'mv', 4)(lambda g, a, q: g.mv([[1, -1, 2, 0, 3, S.Half][k % 6] for k in q[:g.n]], 'vector'))
op('gen', '', 'mv', 2)(lambda g, a, q: g.mv('AB'[q[0] % 2], ['vector', 'mv', 'bivector', 'spinor', 'scalar'][q[1] % 5]))
op('genf', '', 'mv', 1, 'coords')(lambda g, a, q: g.mv('AB'[q[0] % 2], ['vector', 'scalar'][q[1] % 2], f=True))
op('I', '', 'mv')(lambda g, a, q: g.I())
op('E', '', 'mv')(lambda g, a, q: g.E())
op('recip', '', 'mv')(lambda g, a, q: g.mvr(norm=bool(q[1] % 2))[q[0] % g.n])
op('basisblade', '', 'mv')(lambda g, a, q: g.mv_blades.flat[q[0] % len(g.mv_blades.flat)])
op('X', '', 'mv', 1, 'coords')(lambda g, a, q: g.mv(sum((c * b for c, b in zip(g.coords, g.basis)), S.Zero)))
for s, f in [('*', lambda A, B: A * B), ('^', lambda A, B: A ^ B), ('|', lambda A, B: A | B), ('<', lambda A, B: A < B), ('>', lambda A, B: A > B),
             ('+', lambda A, B: A + B), ('-', lambda A, B: A - B), ('>>', lambda A, B: A >> B), ('<<', lambda A, B: A << B)]:
    op(s, 'mv mv', 'mv', 4 if s in '*^|' else 3)(lambda g, a, q, f=f: f(a[0], a[1]))
op('==', 'mv mv', 'val')(lambda g, a, q: bool(a[0] == a[1]))
op('sp', 'mv mv', 'expr')(lambda g, a, q: a[0].sp(a[1]))
op('div', 'mv mv', 'mv')(lambda g, a, q: a[0] / a[1])
op('smul', 'mv', 'mv', 2)(lambda g, a, q: (q[0] % 5 - 2) * a[0])
op('radd', 'mv', 'mv')(lambda g, a, q: (q[0] % 5 - 2) + a[0])
op('rsub', 'mv', 'mv')(lambda g, a, q: (q[0] % 5 - 2) - a[0])
op('sdiv', 'mv', 'mv')(lambda g, a, q: a[0] / (q[0] % 3 + 1))
op('iadd', 'mv mv', 'mv', 2)(lambda g, a, q: _iop(a[0], a[1], '+'))
op('imul', 'mv mv', 'mv', 2)(lambda g, a, q: _iop(a[0], a[1], '*'))
op('isub', 'mv mv', 'mv', 1)(lambda g, a, q: _iop(a[0], a[1], '-'))
op('ixor', 'mv mv', 'mv', 1)(lambda g, a, q: _iop(a[0], a[1], '^'))


def _iop(A, B, s):
    if s == '+':
        A += B
    elif s == '-':
        A -= B
    elif s == '*':
        A *= B
    else:
        A ^= B
    return A


for nm in ['rev', 'even', 'odd', 'g_invol', 'ccon', 'dual', 'undual', 'expand', 'base_rep', 'blade_rep', '__neg__', 'collect', 'inv']:
    op(nm, 'mv', 'mv', 2 if nm in ('base_rep', 'blade_rep', 'expand') else 1)(lambda g, a, q, nm=nm: getattr(a[0], nm)())
op('copyctor', 'mv', 'mv')(lambda g, a, q: g.mv(a[0]))
op('objctor', 'mv', 'mv')(lambda g, a, q: g.mv(a[0].obj) if a[0].is_blade_rep else a[0])
op('simplify', 'mv', 'mv')(lambda g, a, q: a[0].simplify())
op('trigsimp', 'mv', 'mv')(lambda g, a, q: a[0].trigsimp())
op('subs', 'mv', 'mv', 1, 'coords')(lambda g, a, q: a[0].subs(g.coords[q[0] % g.n], q[1] % 3 + 1))
op('subsd', 'mv', 'mv', 1, 'coords')(lambda g, a, q: a[0].subs({g.coords[q[0] % g.n]: g.coords[q[1] % g.n] + 1}))
op('func', 'mv', 'mv')(lambda g, a, q: a[0].blade_rep().func(lambda c: 2 * c))
op('grade', 'mv', 'mv', 2)(lambda g, a, q: a[0].grade(q[0] % (g.n + 1)))
op('get_grade', 'mv', 'mv')(lambda g, a, q: a[0].get_grade(q[0] % (g.n + 1)))
op('getitem', 'mv', 'mv')(lambda g, a, q: a[0][q[0] % (g.n + 1)])
op('pow', 'mv', 'mv')(lambda g, a, q: a[0] ** (q[0] % 4))
op('scalar', 'mv', 'expr')(lambda g, a, q: a[0].scalar())
op('norm2', 'mv', 'expr')(lambda g, a, q: a[0].norm2())
op('qform', 'mv', 'expr')(lambda g, a, q: a[0].qform())
op('mag2', 'mv', 'expr')(lambda g, a, q: a[0].mag2())
op('str', 'mv', 'val', 2)(lambda g, a, q: str(a[0]))
op('fmtstr', 'mv', 'val', 2)(lambda g, a, q: str(a[0].Fmt(q[0] % 3 + 1, 'T')))
op('latex', 'mv', 'val')(lambda g, a, q: a[0]._repr_latex_())
op('repr', 'mv', 'val')(lambda g, a, q: repr(a[0]))
op('hash', 'mv', 'hash')(lambda g, a, q: hash(a[0]))
op('coefs', 'mv', 'exprs', 2)(lambda g, a, q: a[0].blade_coefs())
op('getcoefs', 'mv', 'exprs')(lambda g, a, q: a[0].grade(q[0] % (g.n + 1)).get_coefs(q[0] % (g.n + 1)))
op('components', 'mv', 'mvs')(lambda g, a, q: a[0].components())
op('pure', 'mv', 'val')(lambda g, a, q: a[0].pure_grade())
op('isv', 'mv', 'val')(lambda g, a, q: (a[0].is_vector(), a[0].is_scalar(), a[0].is_zero(), a[0].is_base()))
op('isblade', 'mv', 'val')(lambda g, a, q: a[0].is_blade())
op('isversor', 'mv', 'val')(lambda g, a, q: a[0].is_versor())
op('proj', 'mv mv', 'mv')(lambda g, a, q: a[0].project_in_blade(a[1]) if a[1].is_blade() else None)
op('refl', 'mv mv', 'mv')(lambda g, a, q: a[0].reflect_in_blade(a[1]) if a[1].is_blade() else None)
op('grades', 'mv', 'val')(lambda g, a, q: list(g.grades(a[0].obj)))
op('decomp', 'mv', 'mvs')(lambda g, a, q: [v for _, v in sorted(g.grade_decomposition(a[0]).items())])
op('split', 'mv', 'mixed')(lambda g, a, q: list(g.split_multivector(a[0])))
op('remscalar', 'mv', 'mixed')(lambda g, a, q: [g.remove_scalar_part(a[0])])
op('evenodd', 'mv', 'mixed')(lambda g, a, q: [g.even_odd(a[0].blade_rep().obj, bool(q[0] % 2))])
op('setcoef', 'mv', 'mv')(lambda g, a, q: _setcoef(g, a[0], q))


def _setcoef(g, A, q):
    """set_coef documents an in-place change: it is applied to a copy, which must leave the original alone"""
    B = g.mv(A)
    k = q[0] % (g.n + 1)
    B.set_coef(k, q[1] % len(g.blades[k]), S(7))
    return B


op('com', 'mv mv', 'mv')(lambda g, a, q: Ga.com(a[0], a[1]))
op('exp', '', 'mv')(lambda g, a, q: mkmv(g, [q[0], q[1], 0]).exp())
op('cross', 'mv mv', 'mv', 1, 'n3')(lambda g, a, q: gmv.cross(a[0], a[1]))
op('rot', 'mv', 'mv', 0)(lambda g, a, q: a[0].rotate_multivector(mkmv(g, [q[0] % (g.n * (g.n - 1) // 2) + g.n + 1, q[1], 0])))
op('shirokov', 'mv', 'mv', 0)(lambda g, a, q: a[0].shirokov_inverse() if g.n <= 3 else None)
op('hitzer', 'mv', 'mv', 0)(lambda g, a, q: a[0].hitzer_inverse())
op('norm', 'mv', 'expr', 0)(lambda g, a, q: a[0].norm('0+-'[q[0] % 3]))
op('mag', 'mv', 'expr', 0)(lambda g, a, q: a[0].mag())
op('negpow', 'mv', 'mv', 0)(lambda g, a, q: a[0] ** -(q[0] % 3))
op('sumprod', 'mv mv mv', 'mv', 2)(lambda g, a, q: a[0] * a[1] + a[1] * a[2])
# -- transformations
op('lt', '', 'lt', 4)(lambda g, a, q: g.lt(Matrix(g.n, g.n, [(q[i % len(q)] + i) % 4 - 1 for i in range(g.n ** 2)])))
op('ltmv', 'mv', 'lt', 2)(lambda g, a, q: g.lt(lambda v: (a[0] * v * a[0].rev()).grade(1)))
op('ltgen', '', 'lt')(lambda g, a, q: g.lt('MN'[q[0] % 2], mode='gsa'[q[1] % 3]))
op('ltgenf', '', 'lt', 1, 'coords')(lambda g, a, q: g.lt('M', f=True))
op('lrotor', '', 'lt')(lambda g, a, q: g.lt(1 + (q[0] % 2 + 1) * (g.mv_blades[2][0])) if g.n > 1 else None)
op('Lv', 'lt mv', 'mv', 4)(lambda g, a, q: a[0](a[1]))
op('LL', 'lt lt', 'lt', 2)(lambda g, a, q: a[0] * a[1])
op('L+L', 'lt lt', 'lt')(lambda g, a, q: a[0] + a[1])
op('L-L', 'lt lt', 'lt')(lambda g, a, q: a[0] - a[1])
op('cL', 'lt', 'lt')(lambda g, a, q: (q[0] % 3 + 1) * a[0])
op('Ldet', 'lt', 'expr')(lambda g, a, q: a[0].det())
op('Ltr', 'lt', 'expr')(lambda g, a, q: a[0].tr())
op('Ladj', 'lt', 'lt', 2)(lambda g, a, q: a[0].adj() if sympy.Matrix(g.g).det() != 0 else None)    # needs reciprocal vectors
op('Linv', 'lt', 'lt')(lambda g, a, q: a[0].inv())
op('Lmat', 'lt', 'mat', 2)(lambda g, a, q: a[0].matrix())
op('Lstr', 'lt', 'val')(lambda g, a, q: str(a[0]))
op('Llatex', 'lt', 'val')(lambda g, a, q: a[0].Fmt()._repr_latex_())
op('Ltsing', 'lt', 'val')(lambda g, a, q: bool(a[0].is_singular()))
op('mvdict', 'lt', 'mixed')(lambda g, a, q: [v for _, v in sorted(a[0].mv_dict.items(), key=str)])
op('ltcopy', 'lt', 'lt')(lambda g, a, q: g.lt(dict(a[0].lt_dict)))
op('ltlist', 'mv', 'lt')(lambda g, a, q: g.lt([(a[0] + b).grade(1) for b in g.mv_blades[1]]))
# -- operators
op('grad', '', 'dop', 2, 'coords')(lambda g, a, q: [g.grad, g.rgrad][q[0] % 3 == 2])
op('grads', '', 'dop', 1, 'coords')(lambda g, a, q: g.grads()[0])
op('dop', '', 'dop', 2, 'coords')(lambda g, a, q: g.dop([mkmv(g, q[:3]), mkmv(g, q[3:])], [Pdop(g.coords[q[0] % g.n]), Pdop({g.coords[q[1] % g.n]: q[2] % 3 + 1})]))
op('makegrad', 'mv', 'dop', 1, 'coords')(lambda g, a, q: g.make_grad(a[0].grade(1)) if a[0].grade(1).obj != 0 else None)
for s, f in [('*', lambda A, B: A * B), ('^', lambda A, B: A ^ B), ('|', lambda A, B: A | B), ('<', lambda A, B: A < B), ('>', lambda A, B: A > B)]:
    op('D%sA' % s, 'dop mv', 'any', 3 if s in '*|' else 1, 'coords')(lambda g, a, q, f=f: f(a[0], a[1]))
    op('A%sD' % s, 'mv dop', 'any', 1, 'coords')(lambda g, a, q, f=f: f(a[0], a[1]))
op('D+D', 'dop dop', 'dop', 2, 'coords')(lambda g, a, q: a[0] + a[1])
op('D-D', 'dop dop', 'dop', 1, 'coords')(lambda g, a, q: a[0] - a[1])
op('-D', 'dop', 'dop', 1, 'coords')(lambda g, a, q: -a[0])
op('D*D', 'dop dop', 'any', 2, 'coords')(lambda g, a, q: a[0] * a[1])
op('D|D', 'dop dop', 'any', 1, 'coords')(lambda g, a, q: a[0] | a[1])
op('D==D', 'dop dop', 'val', 1, 'coords')(lambda g, a, q: bool(a[0] == a[1]))
op('Dsimp', 'dop', 'dop', 1, 'coords')(lambda g, a, q: a[0].simplify())
op('Dcons', 'dop', 'dop', 1, 'coords')(lambda g, a, q: a[0].consolidate_coefs())
op('Dcomp', 'dop', 'dops', 1, 'coords')(lambda g, a, q: list(a[0].components()))
op('Dstr', 'dop', 'val', 2, 'coords')(lambda g, a, q: str(a[0]))
op('Dlatex', 'dop', 'val', 1, 'coords')(lambda g, a, q: a[0].Fmt()._repr_latex_())
op('pDiff', 'mv', 'mv', 2, 'coords')(lambda g, a, q: a[0].diff(g.coords[q[0] % g.n]))
op('pdiff', 'mv', 'mv', 1, 'coords')(lambda g, a, q: a[0].pdiff(g.coords[q[0] % g.n]))
# -- multilinear functions
op('mltv', 'mv', 'mlt', 1)(lambda g, a, q: Mlt(a[0].grade(1), g) if a[0].grade(1).obj != 0 else None)
op('mltL', 'lt', 'mlt', 1)(lambda g, a, q: Mlt(a[0], g))
op('mlts', '', 'mlt', 2)(lambda g, a, q: Mlt('TU'[q[0] % 2], g, nargs=q[1] % 3 + 1))
op('mltf', 'mv', 'mlt', 1)(lambda g, a, q: Mlt(lambda u, v: (u | a[0]) * (v | a[0]), g))
op('M+M', 'mlt mlt', 'mlt')(lambda g, a, q: a[0] + a[1])
op('M*M', 'mlt mlt', 'mlt')(lambda g, a, q: a[0] * a[1] if a[0].nargs + a[1].nargs <= 3 else None)
op('Mcall', 'mlt', 'mixed', 2)(lambda g, a, q: [a[0](*[mkmv1(g, q, i) for i in range(a[0].nargs)])])
op('Mcontr', 'mlt', 'mlt')(lambda g, a, q: a[0].contract(1, 2) if a[0].nargs == 2 else None)
op('Mpdiff', 'mlt', 'mixed')(lambda g, a, q: [a[0].pdiff(1 + q[0] % a[0].nargs)])
op('Mcderiv', 'mlt', 'mlt', 1, 'coords')(lambda g, a, q: a[0].cderiv() if a[0].nargs == 1 else None)
op('Mstr', 'mlt', 'val')(lambda g, a, q: str(a[0]))
# (weight 0: only in the histories that concentrate on tensors)
op('Mlatex', 'mlt', 'val', 0)(lambda g, a, q: a[0].Fmt(q[0] % 3 + 1)._repr_latex_())
op('Mcomps', 'mlt', 'val', 0)(lambda g, a, q: a[0].comps())
op('Mexpand', 'mlt', 'mlt', 0)(lambda g, a, q: copy.copy(a[0]).expand())     # changes the form (not the value) of its own object
op('M-M', 'mlt mlt', 'mlt', 0)(lambda g, a, q: a[0] - a[1])
op('cM', 'mlt', 'mlt', 0)(lambda g, a, q: a[0] * S(q[0] % 5 - 2))
op('M^M', 'mlt mlt', 'mlt', 0)(lambda g, a, q: a[0] ^ a[1] if a[0].nargs + a[1].nargs <= 3 else None)
op('M|M', 'mlt mlt', 'mlt', 0)(lambda g, a, q: a[0] | a[1] if a[0].nargs + a[1].nargs <= 3 else None)
op('Mcontr3', 'mlt', 'mlt', 0)(lambda g, a, q: a[0].contract(1 + q[0] % 3, 1 + (q[0] + 1 + q[1] % 2) % 3) if a[0].nargs == 3 else None)
op('Mcderiv2', 'mlt', 'mlt', 0, 'coords')(lambda g, a, q: a[0].cderiv() if a[0].nargs == 2 else None)
op('Mdd', 'mlt', 'mlt', 0, 'coords')(lambda g, a, q: a[0].dd() if a[0].nargs <= 2 else None)
op('mltfun', 'mv', 'mlt', 0)(lambda g, a, q: Mlt(lambda u: u * a[0], g) if q[0] % 2 else Mlt(lambda u, v: u ^ v ^ a[0], g))
op('mltfield', '', 'mlt', 0, 'coords')(lambda g, a, q: Mlt('F', g, nargs=q[0] % 2 + 1, fct=True))
op('Mnul', 'mlt', 'mixed', 0)(lambda g, a, q: [a[0]()])


def mkmv1(g, q, i):
    return g.mv([(q[(i + j) % len(q)] + i) % 4 - 1 or 1 for j in range(g.n)], 'vector')


# -- whole-algebra operations
op('sm', '', 'val', 1, 'coords')(lambda g, a, q: _sm(g, q))
op('frame', '', 'mvs')(lambda g, a, q: list(g.ReciprocalFrame([g.mv_blades[1][i] + (q[i % len(q)] % 2) * g.mv_blades[1][(i + 1) % g.n] for i in range(g.n)])))
op('bases', '', 'val')(lambda g, a, q: [str(b) for b in g.mv()])
op('ginv', '', 'mat')(lambda g, a, q: g.g_inv)
op('chris', '', 'val', 1, 'coords')(lambda g, a, q: [str(sympy.simplify(t)) for t in _flat(g.Christoffel_symbols(mode=q[0] % 2 + 1))] if g.connect_flg else None)
op('tables', '', 'val', 2)(lambda g, a, q: _tables(g))


def _flat(t):
    return [e for s in t for e in _flat(s)] if isinstance(t, list) else [t]


def _sm(g, q):
    s = sympy.Symbol('s', real=True)
    t = sympy.Symbol('t', real=True)
    maps = [[s + 1, s ** 2 + 1, s][:g.n], [s + 1, t, s * t][:g.n], [x, y, x][:g.n]][q[0] % 3]
    us = [(s,), (s, t), (x, y)][q[0] % 3]
    m = g.sm(maps, list(us[:1]) if q[0] % 3 == 0 else list(us))
    return [str(sympy.simplify(e)) for e in m.g], str((m.mv_blades[1][0] * m.mv_blades[1][-1]))


def _tables(g):
    b = g.mv_blades.flat
    return [str((p * q_).obj) for p in b[-3:] for q_ in b[1:3]]


# user-level clobbering of returned containers
op('clob_coefs', 'mv', 'none', 1)(lambda g, a, q: _clob(a[0].blade_coefs()))
op('clob_get', 'mv', 'none', 1)(lambda g, a, q: _clob(a[0].blade_rep().get_coefs(q[0] % (g.n + 1)) if len(a[0].grades) == 1 and a[0].grades[0] == q[0] % (g.n + 1) else None))
op('clob_comps', 'mv', 'none', 1)(lambda g, a, q: _clob(a[0].components()))
op('clob_decomp', 'mv', 'none', 1)(lambda g, a, q: g.grade_decomposition(a[0]).clear())
op('clob_mat', 'lt', 'none', 1)(lambda g, a, q: _clobm(a[0].matrix()))
op('clob_frame', '', 'none', 1)(lambda g, a, q: None)


def _clob(l):
    if isinstance(l, list):
        l[:] = [S(99)] * len(l)


def _clobm(m):
    try:
        m[0, 0] = 99
    except TypeError:
        pass


# ---------------------------------------------------------------- values
def snap(kind, o):
    if kind == 'mv':
        return (o.obj, o.is_blade_rep)
    if kind == 'lt':
        return tuple(sorted(((str(k), v) for k, v in o.lt_dict.items()), key=lambda t: t[0])),
    if kind == 'dop':
        return tuple((snap('mv', c) if isinstance(c, Mv) else c, tuple(sorted(p.pdiffs.items(), key=str))) for c, p in o.terms), o.cmpflg
    if kind == 'mlt':
        f = o.fvalue
        return (snap('mv', f) if isinstance(f, Mv) else f, o.nargs)
    if kind == 'mvs':
        return tuple(snap('mv', q) for q in o)
    if kind == 'dops':
        return tuple(snap('dop', q) for q in o)
    if kind == 'exprs':
        return tuple(o)
    if kind == 'mixed':
        return tuple(snap('mv', q) if isinstance(q, Mv) else q for q in o)
    if kind == 'mat':
        return sympy.ImmutableMatrix(o)
    return o


def rawcoefs(g, s):
    """coefficients of a multivector snapshot over the blades (base representations go through the reference product)"""
    obj, blade = s
    e = expand(obj)
    syms = g.blades.flat if blade else g.bases.flat
    out = {}
    for m, b in zip(masks(g.n), syms):
        c = (e.coeff(b) if b != 1 else sum((t for t in sympy.Add.make_args(e) if t.is_commutative), S.Zero))
        if c != 0:
            out[m] = c
    if blade or g.is_ortho:
        return out
    R = RefGA([[g.g[i, j] for j in range(g.n)] for i in range(g.n)])
    tot = {}
    for m, c in out.items():
        w = {0: S.One}
        for i in bits(m):
            w = R.mul(w, {1 << i: S.One})
        for k, v in w.items():
            tot[k] = tot.get(k, S.Zero) + c * v
    return tot


def eqmv(g, s, t):
    if s == t:
        return True
    a, b = rawcoefs(g, s), rawcoefs(g, t)
    return all(is_zero_expr(S(a.get(m, 0)) - S(b.get(m, 0))) is not False for m in set(a) | set(b))


def eqx(a, b):
    return a == b or is_zero_expr(S(a) - S(b)) is not False


def eqval(g, kind, s, t):
    """do two snapshots denote the same value?"""
    try:
        if s == t:
            return True
    except Exception:
        pass
    if kind == 'mv':
        return eqmv(g, s, t)
    if kind == 'mvs':
        return len(s) == len(t) and all(eqmv(g, a, b) for a, b in zip(s, t))
    if kind == 'lt':
        lin = lambda d: {k: v for k, v in d}
        a, b = lin(s[0]), lin(t[0])
        return all(eqmv(g, (S(a.get(k, 0)), True), (S(b.get(k, 0)), True)) for k in set(a) | set(b))
    if kind == 'dop':
        return s[1] == t[1] and eqterms(g, s[0], t[0])
    if kind == 'dops':
        return len(s) == len(t) and all(eqval(g, 'dop', a, b) for a, b in zip(s, t))
    if kind in ('mlt', 'mixed'):
        if len(s) != len(t):
            return False
        for a, b in zip(s, t):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            if isinstance(a, tuple):
                if not eqmv(g, a, b):
                    return False
            elif isinstance(a, int) or (a is None) or (b is None):
                if a != b:
                    return False
            elif S(a).is_commutative and S(b).is_commutative:
                if not eqx(a, b):
                    return False
            elif not eqmv(g, (S(a), True), (S(b), True)):
                return False
        return True
    if kind == 'expr':
        return eqx(s, t)
    if kind == 'exprs':
        return len(s) == len(t) and all(eqx(a, b) for a, b in zip(s, t))
    if kind == 'mat':
        return s.shape == t.shape and all(eqx(a, b) for a, b in zip(s, t))
    return s == t


def eqterms(g, s, t):
    def coll(u):
        d = {}
        for c, p in u:
            d.setdefault(p, []).append(c)
        return d
    a, b = coll(s), coll(t)
    for p in set(a) | set(b):
        tot = {}
        for sign, src in ((1, a), (-1, b)):
            for c in src.get(p, []):
                cc = rawcoefs(g, c) if isinstance(c, tuple) else {0: S(c)}
                for m, v in cc.items():
                    tot[m] = tot.get(m, S.Zero) + sign * v
        if any(is_zero_expr(v) is False for v in tot.values()):
            return False
    return True


def gasnap(g):
    """only what exists from the start: lazily computed tables are left for the history to compute"""
    return (sympy.ImmutableMatrix(g.g), tuple(g.basis), g.coords if g.coords is None else tuple(g.coords), g.name, g.is_ortho, g.n, g.dual_mode_value, g.connect_flg, g.wedge_print)


def big(kind, s):
    try:
        if kind == 'mv':
            return S(s[0]).count_ops() > 120
        if kind == 'lt':
            return sum(S(v).count_ops() for _, v in s[0]) > 150
        if kind == 'dop':
            return len(s[0]) > 8 or sum(S(c[0] if isinstance(c, tuple) else c).count_ops() for c, _ in s[0]) > 150
        if kind == 'mlt':
            f = s[0][0] if isinstance(s[0], tuple) else s[0]
            return S(f).count_ops() > 200
    except Exception:
        return False
    return False


TEST = {'mv': Mv, 'lt': Lt, 'dop': Dop, 'mlt': Mlt}


def run_op(name, g, args, q):
    """-> (kind, object) ; ('exc', type name) when it refuses, None when it does not apply"""
    kinds, f, res, _, _ = OPS[name]
    try:
        o = f(g, args, q)
    except CaseTimeout:
        raise
    except Exception as e:
        return 'exc', type(e).__name__
    if o is None:
        return None
    if res == 'any' or res in TEST:
        for k, t in TEST.items():
            if isinstance(o, t):
                return k, o
        return 'expr', o
    return res, o


def applicable(name, g):
    when = OPS[name][4]
    if when == 'coords':
        return g.coords is not None
    if when == 'n3':
        return g.n == 3
    return True


def resolve(step, regs, g_of):
    """operand register numbers for a step, or None"""
    name, ai, q = step
    kinds = OPS[name][0]
    out = []
    for i, k in enumerate(kinds):
        cand = [j for j, r in enumerate(regs) if r is not None and r[0] == ai and r[1] == k]
        if not cand:
            return None
        # favour recent registers
        out.append(cand[-1 - (q[5 + i] % min(len(cand), 4))])
    return out


FOCUS = {'tensor': 'new newvec lt mltv mltL mlts mltf mltfun mltfield M+M M-M cM M*M M^M M|M Mcall Mnul Mcontr Mcontr3 Mpdiff Mcderiv Mcderiv2 Mdd Mstr Mlatex Mcomps Mexpand'.split()}
FOCUS2 = 'Mcall mltL mltv Mcderiv'.split()


@st.composite
def program(draw, focus=None):
    algs = []
    na = draw(st.sampled_from([1, 2, 2, 2, 3]))
    n = draw(st.sampled_from([2, 2, 3]))
    for i in range(na):
        if i and draw(st.integers(0, 2)) == 0:
            algs.append(dict(algs[draw(st.integers(0, i - 1))]))       # an identical twin
            continue
        k = draw(st.sampled_from(['const', 'const', 'sym', 'curved', 'curved'] if not focus else ['const', 'curved', 'curved', 'curved']))
        if k == 'const':
            algs.append({'k': 'const', 'ga': draw(G.ga(n, n))})
        elif k == 'sym':
            algs.append({'k': 'sym', 'n': 2})
        else:
            algs.append({'k': draw(st.sampled_from([c for c, v in CURVED.items() if v[0] == n or n == 2 and v[0] == 2 or draw(st.booleans()) and v[0] == 2]))})
    names = [nm for nm, v in OPS.items() for _ in range(v[3])] if not focus else [nm for nm in OPS if nm in FOCUS[focus] for _ in range(1 + 2 * (nm in FOCUS2))]
    names += ['mix'] * (8 if na > 1 and not focus else 0)
    pick = st.integers(0, 4095).map(lambda k: names[k * 2654435761 % 4294967296 % len(names)])   # spread: hypothesis favours small values
    steps = []
    late = draw(st.booleans()) and na > 1      # the last algebra comes into being in the middle of the history
    for i in range(na - 1 if late else na):
        steps.append(['new', i, draw(qs)])
        steps.append([draw(st.sampled_from(['new', 'newvec', 'gen'])), i, draw(qs)])
        if focus == 'tensor' or draw(st.integers(0, 2)) == 0:
            steps.append(['lt', i, draw(qs)])
        if focus == 'tensor':
            steps.append([draw(st.sampled_from(['mltL', 'mltv', 'mlts', 'mltf', 'mltfun', 'mltfield'])), i, draw(qs)])
        if draw(st.integers(0, 2)) == 0:
            steps.append(['grad', i, draw(qs)])
    k = draw(st.integers(4, 14))
    for j in range(k):
        if late and j == k // 2:
            steps += [[nm, na - 1, draw(qs)] for nm in draw(st.sampled_from([['new', 'newvec', 'lt', 'grad'], ['mlts', 'gen', 'new'], ['grad', 'new', 'newvec'], ['recip', 'new', 'new']]))]
        steps.append([draw(pick), draw(st.integers(0, na - 1)) if not late or j >= k // 2 else draw(st.integers(0, na - 2)), draw(qs)])
    return {'algs': algs, 'steps': steps}


qs = st.lists(st.integers(0, 11), min_size=9, max_size=9)


MIX = [lambda A, B: A * B, lambda A, B: A ^ B, lambda A, B: A | B, lambda A, B: A < B, lambda A, B: A > B, lambda A, B: A + B, lambda A, B: A - B, lambda A, B: A << B, lambda A, B: A >> B]
MIXK = {('mv', 'mv'): MIX, ('lt', 'mv'): [lambda L, A: L(A)], ('lt', 'lt'): [lambda L, M: L * M, lambda L, M: L + M, lambda L, M: L - M],
        ('dop', 'mv'): MIX[:5], ('mv', 'dop'): MIX[:5], ('dop', 'dop'): MIX[:7]}


def mix(regs, ai, bi, q, ctx):
    """objects of two different algebras are never combined, however alike the algebras are"""
    ks = sorted(MIXK)
    for i in range(len(ks)):
        ka, kb = ks[(q[0] + i) % len(ks)]
        ca = [r for r in regs if r[0] == ai and r[1] == ka]
        cb = [r for r in regs if r[0] == bi and r[1] == kb]
        if not ca or not cb:
            continue
        A, B = ca[-1 - q[1] % min(4, len(ca))], cb[-1 - q[2] % min(4, len(cb))]
        k = q[3] % len(MIXK[ka, kb])
        try:
            r = MIXK[ka, kb][k](A[2], B[2])
        except (ValueError, TypeError):
            ctx.label('mixing refused %s %s' % (ka, kb))
            return
        ctx.fail('%s and %s of two different algebras were combined (operation %d): %s, %s -> %s' % (ka, kb, k, A[3], B[3], r))


def play(specs, steps, ctx, settings=None):
    """run the program; checks every register after every step.  Algebras are created when they are first used.
    -> registers [(algebra index, kind, object, snapshot)], definitions [(name, algebra, operand registers, q)]"""
    regs, defs, algs, gs = [], [], {}, {}
    done = 0
    for step in steps:
        name, ai, q = step
        if name == 'set':
            ctx.label(settings.apply(q))
            gs = {j: gasnap(g_) for j, g_ in algs.items()}
            continue
        if ai not in algs:
            algs[ai] = mkalg(specs[ai])
            gs[ai] = gasnap(algs[ai])
        g = algs[ai]
        if name == 'mix':
            bi = q[4] % len(specs)
            if bi != ai and bi in algs:
                mix(regs, ai, bi, q, ctx)
            kind, o, ops = 'none', None, []
        else:
            if not applicable(name, g):
                continue
            ops = resolve(step, regs, algs)
            if ops is None:
                continue
            r = run_op(name, g, [regs[j][2] for j in ops], q)
            if r is None:
                continue
            kind, o = r
            done += 1
            ctx.label(name if kind != 'exc' else 'refused: %s %s' % (name, o))
        for j, reg in enumerate(regs):
            a, k, ob, s = reg
            if k in ('exc', 'val', 'hash', 'none', 'expr'):
                continue
            now = snap(k, ob)
            ctx.ok(eqval(algs[a], k, s, now), lambda: '%s (algebra %d, operands %s) changed register %d (%s): %s -> %s' % (name, ai, ops, j, k, s, now))
            if k == 'mv' and now != s:
                ctx.label('normalised in place')
        for j, g_ in algs.items():
            ctx.ok(gasnap(g_) == gs[j], lambda: '%s on algebra %d changed algebra %d: %s -> %s' % (name, ai, j, gs[j], gasnap(g_)))
        if kind == 'none':
            continue
        s = snap(kind, o)
        if big(kind, s):
            continue
        defs.append((name, ai, ops, q))
        regs.append((ai, kind, o, s))
    return algs, regs, defs, done


def replay(target, defs, specs, algs, memo):
    """evaluate register `target` alone, on the given fresh algebras, from its definition tree"""
    if target in memo:
        return memo[target]
    name, ai, ops, q = defs[target]
    if ai not in algs:
        algs[ai] = mkalg(specs[ai])
    args = [replay(j, defs, specs, algs, memo)[1] for j in ops]
    r = run_op(name, algs[ai], args, q)
    memo[target] = r
    return r


@check(P, program(), quick=1200, shards=8, rule='at least 6 operations took effect and a replayed result had operands')
def history(c, x):
    """a random history over several algebras; after every step all earlier values are intact, and results replayed alone on fresh algebras are the same"""
    algs, regs, defs, done = play(c['algs'], c['steps'], x)
    # replay: the last results, each alone on fresh algebras
    n = 0
    targets = [j for j in range(len(regs)) if defs[j][2]][-4:]
    for t in targets:
        ai, kind, o, s = regs[t]
        r = replay(t, defs, c['algs'], {}, {})
        x.ok(r is not None, lambda: 'register %d (%s): only defined after the history' % (t, defs[t][0]))
        k2, o2 = r
        if kind == 'hash':
            continue                       # identity of the algebra takes part
        x.ok(k2 == kind, lambda: 'register %d (%s): %s %s in the history, %s %s alone' % (t, defs[t][0], kind, s, k2, o2))
        s2 = snap(k2, o2)
        x.ok(eqval(algs[ai], kind, s, s2), lambda: 'register %d (%s on %s): %s in the history, %s alone on a fresh algebra' % (t, defs[t][0], [defs[j][0] for j in defs[t][2]], s, s2))
        n += 1
    x.nt(done >= 6 and n >= 1)


@check(P, program('tensor'), quick=160, shards=8, rule='at least 6 operations took effect and a replayed result had operands')
def tensor_history(c, x):
    """histories that concentrate on multilinear functions, which share the slot vectors of their algebra"""
    history(c, x)


# ---------------------------------------------------------------- session wide settings
MODES = ['+I', 'I+', '-I', 'I-', '+Iinv', 'Iinv+', '-Iinv', 'Iinv-']
PROFILES = [[sympy.simplify], [expand], [lambda e: e], [expand, sympy.factor], [sympy.trigsimp]]
PRINTS = {'str', 'fmtstr', 'latex', 'repr', 'hash', 'Lstr', 'Llatex', 'Dstr', 'Dlatex', 'Mstr', 'Mlatex', 'Mcomps', 'dual', 'undual'}


class Settings:
    """the session wide settings: set by a step of the history, restored afterwards"""
    def __enter__(self):
        from sympy.printing.printer import Printer
        import galgebra.printer as gp
        import galgebra.metric as gme
        self.p, self.m = gp, gme
        self.classes = [gp.GaPrinter, gp.GaLatexPrinter, gp.StrPrinter, gp.LatexPrinter]
        self.globals = [dict(k._global_settings) for k in self.classes]
        self.modes = gme.Simp.modes
        return self

    def apply(self, q):
        k = q[0] % 4
        if k in (0, 3):
            Ga.dual_mode(MODES[q[1] % 8])
            return 'dual mode ' + MODES[q[1] % 8]
        if k == 1:
            self.m.Simp.profile(PROFILES[q[1] % len(PROFILES)])
            return 'simplification profile'
        self.p.GaLatexPrinter.set_global_settings(omit_partial_derivative_fraction=bool(q[1] % 2), omit_function_args=bool(q[2] % 2), inv_trig_style=['full', 'abbreviated', 'power'][q[3] % 3])
        self.p.Fmt(q[4] % 3 + 1)
        return 'print formats'

    def reset(self):
        Ga.dual_mode('I+')
        self.m.Simp.modes = self.modes
        for k, d in zip(self.classes, self.globals):
            k._global_settings.clear()
            k._global_settings.update(d)

    def __exit__(self, *a):
        self.reset()


@st.composite
def program_with_settings(draw):
    c = draw(program())
    k = len(c['steps'])
    for i in range(draw(st.integers(1, 3))):
        c['steps'].insert(draw(st.integers(0, k)), ['set', 0, draw(qs)])
    return c


@check(P, program_with_settings(), quick=300, shards=8, rule='a setting was changed and at least one result that followed has operands')
def settings_neutral(c, x):
    """the dual mode, the simplification profile and the print formats change only duals, the form of coefficients and what is printed:
    every other result of a history under any settings equals the one computed alone under the default settings"""
    with Settings() as se:
        algs, regs, defs, done = play(c['algs'], c['steps'], x, se)
        se.reset()
        n = 0

        def free(j):
            return defs[j][0] not in PRINTS and all(free(i) for i in defs[j][2])
        targets = [j for j in range(len(regs)) if regs[j][1] != 'exc' and free(j)][-5:]
        for t in targets:
            ai, kind, o, s = regs[t]
            r = replay(t, defs, c['algs'], {}, {})
            x.ok(r is not None and r[0] == kind, lambda: 'register %d (%s): %s %s under the settings, %s by default' % (t, defs[t][0], kind, s, r))
            s2 = snap(kind, r[1])
            x.ok(eqval(algs[ai], kind, s, s2), lambda: 'register %d (%s on %s): %s under the settings, %s by default' % (t, defs[t][0], [defs[j][0] for j in defs[t][2]], s, s2))
            n += bool(defs[t][2])
        x.nt(n >= 1)


MAKE = {'mv': ['new', 'newvec', 'newvec', 'gen', 'basisblade', 'recip', 'genf'], 'lt': ['lt', 'lt', 'ltgen', 'lrotor', 'ltlist'], 'dop': ['grad', 'dop', 'makegrad'], 'mlt': ['mlts', 'mltL', 'mltv', 'mltf']}
EACH = sorted(nm for nm in OPS if nm not in PRINTS and OPS[nm][2] != 'none')


@st.composite
def each_operation(draw):
    nm = EACH[draw(st.integers(0, 8191)) * 2654435761 % 4294967296 % len(EACH)]
    kinds, when = OPS[nm][0], OPS[nm][4]
    n = 3 if when == 'n3' else draw(st.sampled_from([2, 3, 3]))
    k = draw(st.sampled_from(['const', 'curved']))
    curved = [c for c, v in CURVED.items() if v[0] == n]
    alg = {'k': 'const', 'ga': draw(G.ga(n, n))} if k == 'const' and when != 'coords' else {'k': draw(st.sampled_from(curved))}
    steps = [['new', 0, draw(qs)], ['newvec', 0, draw(qs)]]
    for kd in kinds:
        steps.append([draw(st.sampled_from(MAKE[kd])) if when != 'n3' else 'newvec', 0, draw(qs)])
    steps.append([nm, 0, draw(qs)])
    steps.insert(draw(st.integers(0, len(steps) - 1)), ['set', 0, draw(qs)])
    if draw(st.booleans()):
        steps.insert(draw(st.integers(0, len(steps) - 1)), ['set', 0, draw(qs)])
    return {'algs': [alg], 'steps': steps}


@check(P, each_operation(), quick=900, shards=8, rule='the setting was changed before the operation, which has operands')
def settings_neutral_each(c, x):
    """settings_neutral for every single operation in turn"""
    settings_neutral(c, x)
