#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (claimed = checks/<id>.py exists)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe, hook_needed=None)), tech, note))
G, M, ME, L, D, PR = ('galgebra/%s.py' % x for x in ('ga', 'mv', 'metric', 'lt', 'dop', 'printer'))

p('C01', 'The geometric product is the Clifford product of the metric',
  'For every algebra and all multivectors A, B the product A*B equals the associative, bilinear Clifford product fixed by u*v + v*u = 2 g(u,v), with the scalar 1 as unit. Integer powers, products with scalars on either side and multiplication tables of basis blades agree with it, for orthogonal, non-orthogonal, degenerate, and symbolic metrics alike.',
  ['inputs', 'configurations'], 'all algebras (dimension, metric kind, way the metric is given, basis names) and all multivectors over them',
  'Tests multiply a few fixed blades in a handful of fixed metrics; the product is a recursive reduction with separate orthogonal and non-orthogonal code paths that depends on metric entries.',
  [G, M], [('_GeometricProductFunction', G), ('reduce_basis / blade_reduce / reduce_basis_loop', G), ('Mv.Mul, Mv.__mul__, __pow__', M)],
  ['A*B', 'A**k', 'ga.mul_table_dict', 'ga.mul'],
  'property-based testing against an independent bitmask Clifford reference, plus algebraic laws',
  'generated rational metrics of dimension 1..5 and multivectors compared exactly with a from-scratch reference; symbolic metrics by substitution')
p('C02', 'Derived products are the grade projections of the geometric product',
  'Wedge, Hestenes dot, left and right contraction, commutator, anticommutator and scalar product of any two multivectors equal the documented grade selections (or symmetrisations) of the geometric product, in every metric. They stay bilinear, follow their documented treatment of scalars, and satisfy their algebraic identities (associativity and metric independence of the wedge, contraction adjointness and duality).',
  ['inputs', 'configurations'], 'all algebras and all multivector pairs/triples for each product operator',
  'Tests check single products on fixed vectors; orthogonal and non-orthogonal metrics use different code, and mixed-grade operands combine many table entries.',
  [G, M], [('_SingleGradeProductFunction and subclasses', G), ('Mv.__xor__/__or__/__lt__/__gt__/__lshift__/__rshift__, sp', M)],
  ['A^B', 'A|B', 'A<B', 'A>B', 'A<<B', 'A>>B', 'A.sp(B)'],
  'property-based testing against the Clifford reference and algebraic identities', 'exact comparison on generated rational cases, all operators, dims 1..5')
p('C03', 'Multivectors form a linear space with consistent equality and hashing',
  'Addition, subtraction, negation and scalar multiplication/division obey the vector-space laws, including Python/sympy scalars on either side of an operator. Two multivectors (or a multivector and a scalar) compare equal exactly when their coefficients are mathematically equal after expansion, equal objects hash equally, and operands from different algebras are rejected rather than combined.',
  ['inputs'], 'all multivectors and scalars with numeric or symbolic coefficients, in any written form',
  'Tests compare a few fixed values; equality interacts with unexpanded products and scalar coercion.',
  [M], [('Mv.__add__/__sub__/_arithmetic_op', M), ('Mv.__eq__, __hash__', M)], ['A+B', 'A-B', 'A==B', 'hash(A)', 'A/s'],
  'property-based testing (laws, reference model)', 'exact; symbolic coefficients by construction of equal forms')
p('C04', 'Results do not depend on base versus blade representation',
  'Converting a multivector between base and blade representation is a lossless round trip in every algebra. Every operation and query gives the same multivector whichever representation its operands are currently held in.',
  ['inputs', 'histories'], 'all multivectors, all operations, each operand in either representation',
  'Tests exercise the base representation in two or three fixed expressions; the internal representation is hidden state toggled by operations.',
  [G, M], [('blade_rep/base_rep', M), ('blade_expansion_dict/base_expansion_dict', G)], ['base_rep', 'blade_rep', 'all Mv operations'],
  'metamorphic property-based testing', 'all listed operations compared for base/blade operands on generated non-orthogonal algebras')
p('C05', 'Grade parts, involutions, components and predicates are consistent',
  'Grade projection, even/odd parts and scalar extraction decompose a multivector exactly; reversion, grade involution and Clifford conjugation act with their documented sign on each grade. Coefficient queries, component lists, coefficient assignment and the scalar/vector/zero/pure-grade predicates report the same coefficients the multivector has.',
  ['inputs', 'histories'], 'all multivectors, all grades, all basis blades', 'Tests sample a few multivectors; caches (grades, blade flags) may go stale after mutation.',
  [M, G], [('grade/even_odd/reverse', G), ('get_coefs/blade_coefs/components/set_coef', M)], ['grade', 'even', 'odd', 'rev', 'ccon', 'g_invol', 'get_coefs', 'blade_coefs', 'set_coef', 'pure_grade'],
  'property-based testing against the reference', 'exact on generated multivectors incl. mutation sequences')
p('C06', 'Constructed multivectors have exactly the requested grades and coefficients',
  'Each way of creating a multivector (named symbolic, coefficient list, scalar, field of coordinates, keyword variants, copying, basis blades) gives the documented grade structure with the given or freshly named independent coefficients. Invalid requests are rejected.',
  ['inputs', 'configurations'], 'all algebras, grades, names, coefficient lists and field flags', 'Tests construct fixed examples in 3-D; naming and dispatch is per category.',
  [M, G], [('Mv.__init__ / _make_*', M), ('Ga.mv', G)], ['ga.mv', 'Mv(...)', 'mv_blades', 'mv_basis'],
  'property-based testing against a model of the constructor contract', 'coefficient names and grade structure compared to the model')
p('C07', 'Inverses and division are exact or refused',
  'For every invertible multivector each inverse routine and the division operator returns the two-sided inverse exactly (division being multiplication by it). For a non-invertible or out-of-domain operand the routine raises, or (inv and division only) its result is visibly infinite, but never a finite non-inverse.',
  ['inputs', 'configurations'], 'all algebras, versors, scalars and general multivectors, negative powers included', 'Tests invert a few fixed elements.',
  [M], [('Mv.inv, shirokov_inverse, hitzer_inverse', M), ('Mv.__truediv__, __rtruediv__', M)], ['A.inv()', 'A/B', 's/A', 'shirokov_inverse', 'hitzer_inverse'],
  'property-based testing (round trip, reference linear solve)', 'A*A.inv()==1==A.inv()*A exactly; singular operands by construction')
p('C08', 'Dual and undual are inverse maps in every dual mode',
  'In each of the eight dual modes the dual of A is the documented product of A with the (signed/inverted) pseudoscalar, and undual composed with dual is the identity. The normalised pseudoscalar squares to the sign of its metric and the mode is a global setting that rejects unknown names.',
  ['inputs', 'configurations', 'histories'], 'all modes, non-degenerate metrics and multivectors, including mode switches between calls', 'Tests cover a few fixed blades; the mode is global state.',
  [M, G], [('Mv.dual/undual', M), ('Ga.dual_mode, Ga.I, Ga.E', G)], ['A.dual()', 'A.undual()', 'ga.I()', 'ga.E()', 'Ga.dual_mode'],
  'property-based testing against the reference with stateful mode switching', 'exact for metrics with rational sqrt|det|; numeric otherwise')
p('C09', 'Exponentials are the power series and rotors preserve the metric',
  'For every multivector whose square is scalar exp(A) equals its power series (hyperbolic, circular or linear form according to the sign of the square), with exp(A)*exp(-A)=1 and the hint deciding only undetermined signs. Operands with non-scalar square are rejected, and rotors built from bivectors preserve inner products.',
  ['inputs', 'configurations'], 'all blades/scalars with positive, negative, zero or symbolic square', 'Tests use one or two symbolic bivectors.',
  [M], [('Mv.exp', M), ('rotate_multivector, rot', M)], ['A.exp(hint)', 'exp(A)', 'rotate_multivector'],
  'property-based testing, numeric comparison with the power series', 'high-precision numeric comparison')
p('C10', 'Norms, quadratic forms and magnitudes agree with their definitions',
  'Quadratic form, norm, squared norm, magnitude and squared magnitude of every multivector have their documented values (scalar product with the reverse, absolute value and root of it, product of blade components), with hints affecting only results whose sign cannot be determined. Method and function forms agree.',
  ['inputs', 'configurations'], 'all multivectors with numeric and symbolic coefficients in all signatures', 'Tests use few vectors.',
  [M, ME], [('qform/norm2/norm/mag2/mag', M), ('square_root_of_expr, abs_with_hint', ME)], ['qform', 'norm2', 'norm', 'mag2', 'mag', 'sp'],
  'property-based testing against the reference', 'exact/numeric on generated cases')
p('C11', 'Projection, reflection and rotation obey their geometric definitions',
  'Projection into a blade is idempotent and equals (A<B)<B^-1, reflection in a blade is an involution preserving the metric and acts with the documented sign per grade, and rotation by a bivector angle is a metric-preserving outermorphism. Non-blade mirror arguments are rejected.',
  ['inputs', 'configurations'], 'all multivectors and invertible blades in all metrics', 'Tests use a few Euclidean examples.',
  [M], [('reflect_in_blade, project_in_blade, rotate_multivector', M), ('proj/refl/rot', M)], ['project_in_blade', 'reflect_in_blade', 'rotate_multivector', 'proj', 'refl', 'rot'],
  'property-based testing against the reference', 'exact rational cases')
p('C12', 'Blade and versor predicates are correct',
  'A multivector is reported as a blade exactly when it is a non-zero outer product of vectors (scalars included), and as a versor exactly when it is an invertible product of vectors. The verdict does not depend on representation or on previous queries.',
  ['inputs', 'histories'], 'all multivectors, constructed members and non-members', 'Tests use few examples; both predicates cache their verdict.',
  [M], [('Mv.is_blade, is_versor, is_base', M)], ['is_blade()', 'is_versor()', 'is_base()', 'is_vector()'],
  'property-based testing with constructed members and an independent decision procedure', 'Pluecker/rank and versor-action tests in the reference algebra')
p('C13', 'Metric specifications, signature and pseudoscalar are faithful',
  'However a metric is specified (numbers, strings, lists, matrices, symbols, signature options, presets) the algebra has exactly that symmetric metric; the reported signature, determinant, pseudoscalar square, orthogonality and coordinate data agree with it. Malformed specifications are rejected.',
  ['inputs', 'configurations'], 'all metrics and all input forms', 'Tests use a few fixed strings.',
  [ME, G], [('Metric.__init__, metric_symbols_list, signature, detg', ME), ('Ga.__init__, e_sq, preset', G)], ['Ga(...)', 'Ga.build', 'ga.g', 'ga.signature()', 'ga.detg', 'ga.e_sq', 'ga.is_ortho'],
  'property-based testing against a model of the input grammar', 'exact')
p('C14', 'Reciprocal bases are reciprocal',
  'The reciprocal basis vectors, reciprocal frames, reciprocal basis blades and inverse metric satisfy their defining pairing (Kronecker delta, up to the documented normalisation factor) for every non-degenerate metric or independent frame. Vector expansion through them reproduces every vector.',
  ['inputs', 'configurations'], 'all non-degenerate metrics and all independent frames', 'Tests use one frame.',
  [G, ME], [('r_basis, r_basis_mv, mvr, ReciprocalFrame, g_inv', G), ('inverse_metric', ME)], ['ga.mvr', 'ga.r_basis', 'ga.g_inv', 'ga.ReciprocalFrame'],
  'property-based testing against exact linear algebra', 'exact rational')
p('C15', 'The geometric derivative with a constant metric follows its definition',
  'For every multivector field in a constant metric, grad applied with each product (geometric, wedge, dot, contractions, from the left or right) equals the sum of the reciprocal basis vectors times the partial derivatives. The product rule, linearity, closure grad^(grad^F)=0 and grad(grad F)=laplacian hold, and along parametrised coordinates the parameter derivative of a field is its total derivative.',
  ['inputs', 'configurations'], 'all fields with polynomial/trigonometric coefficients, all constant metrics, all products and both sides', 'Tests use one named field.',
  [M, G, D], [('Dop.Mul', M), ('Ga._build_grads, make_grad', G), ('Mv.diff', M)], ['grad*F', 'grad^F', 'grad|F', 'grad<F', 'grad>F', 'F*rgrad', 'F.diff'],
  'property-based testing against a reference differentiator', 'exact polynomial comparison')
p('C16', 'Derivatives in curvilinear coordinates are coordinate independent',
  'Basis-vector derivatives, Christoffel symbols and connection agree with the metric, and the gradient, divergence and curl of a field computed in curvilinear coordinates equal the same field differentiated in Cartesian coordinates, with or without normalised basis.',
  ['inputs', 'configurations'], 'all coordinate charts (polar, spherical, cylindrical, oblique, random polynomial) and fields over them', 'Tests check printed formulae for spherical coordinates.',
  [ME, G, M], [('Metric.dg/de/Christoffel_symbols/normalize_metric', ME), ('Ga._build_connection, _update_de_from_rbasis', G), ('Mv.diff, Dop.Mul', M)], ['grad', 'ga.de', 'Christoffel_symbols', 'Ga(X=..)', 'norm=True'],
  'differential property-based testing: curvilinear versus Cartesian', 'numeric sampling of symbolic results at generated points')
p('C17', 'Differential operators form the algebra of linear operators',
  'Adding, negating, scaling and composing partial, scalar and multivector differential operators acts on every function or field as the corresponding composition of their actions. Equality, simplification and consolidation of operators never change the action.',
  ['inputs', 'programs'], 'all operator expressions and all functions', 'Tests use few operators.',
  [D, M], [('Pdop, Sdop, _consolidate_terms, _merge_terms', D), ('Dop', M)], ['Pdop', 'Sdop', 'Dop', 'op(f)', 'op1*op2', 'op1+op2', 'op1==op2'],
  'property-based testing of operator expressions against direct evaluation', 'polynomial test functions, exact')
p('C18', 'Submanifolds inherit the metric and calculus of their parent',
  'The metric of a submanifold is the pull-back of the parent metric along its embedding, in either way of specifying it. Its basis vectors, gradient and products agree with the embedded tangent vectors, including nested submanifolds.',
  ['inputs', 'configurations'], 'all embeddings (polynomial/trigonometric) and parents', 'Tests use two embeddings.',
  [G], [('Sm.__init__', G)], ['ga.sm', 'sm.g', 'sm.grad', 'sm.sm'], 'differential property-based testing against pull-backs', 'exact/numeric')
p('C19', 'Linear transformations act as outermorphisms of the specified map',
  'A linear transformation built from any accepted specification (matrix, list, dictionary, function, versor, symbolic) maps basis vectors to exactly the specified images and extends to all multivectors as the linear outermorphism fixing scalars. Malformed specifications are rejected.',
  ['inputs', 'configurations'], 'all metrics, specifications and multivectors', 'Tests use few matrices.',
  [L], [('Lt.__init__', L), ('Lt.__call__, mv_dict', L), ('Matrix_to_dictionary', L)], ['ga.lt(...)', 'L(A)'],
  'property-based testing against reference outermorphisms', 'exact')
p('C20', 'The algebra of linear transformations is matrix algebra',
  'Sum, difference, scaling, composition, determinant, trace, adjoint, inverse, singularity and matrix of linear transformations agree with the corresponding matrix operations and defining identities in every metric (adjoint: every non-degenerate one), for constant, symbolic and coordinate-dependent entries.',
  ['inputs', 'configurations'], 'all pairs of linear transformations in all metrics', 'Tests use few matrices.',
  [L], [('Lt.__add__/__sub__/__mul__/det/tr/adj/inv/matrix', L)], ['L+M', 'L*M', 'L.det()', 'L.tr()', 'L.adj()', 'L.inv()', 'L.matrix()', 'is_singular'],
  'property-based testing against exact matrix algebra', 'exact rational')
p('C21', 'Multilinear functions are linear in every slot and combine as tensors',
  'Evaluating a multilinear function agrees with its defining function for every argument tuple, is linear in each slot, and sum, tensor product (geometric, outer or inner), slot gradient, contraction, directional and covariant derivative match the component formulae, for scalar and multivector values, whatever other multilinear functions were created before. A named one has an independent coefficient for every component.',
  ['inputs', 'configurations', 'histories'], 'all multilinear functions and arguments', 'No dedicated unit test; one notebook.',
  [L], [('Mlt', L)], ['Mlt(...)', 'F(a,b)', 'F+G', 'F*G', 'contract', 'pdiff'], 'property-based testing against component tensors', 'exact')
p('C22', 'Plain-text printing denotes the printed object',
  'The plain-text form of every multivector, linear transformation and differential operator parses back to the same object: no term dropped, no sign or parenthesis lost, no exponent misplaced. This holds in every display format and for indexing and collection wrappers.',
  ['inputs', 'configurations'], 'all multivectors/operators with numeric, rational, symbolic, function and derivative coefficients', 'Tests pin a few dozen strings.',
  [PR, M, L, D, 'galgebra/atoms.py'], [('GaPrinter', PR), ('Mv._sympystr, Dop._sympystr, Lt._sympystr', M), ('Fmt', PR)], ['str(A)', 'A.Fmt(k)', 'Fmt(list)'],
  'round-trip property-based testing with an independent parser', 'exact')
p('C23', 'LaTeX printing denotes the printed object',
  'The LaTeX form of every multivector and operator has balanced delimiters and reads back as the same object: each coefficient, sign, basis blade, derivative and function power appears once with the right scope. This holds in every display mode and option.',
  ['inputs', 'configurations'], 'all printable objects and all print options', 'Tests and notebooks pin specific strings.',
  [PR, M, L, D, 'galgebra/atoms.py'], [('GaLatexPrinter', PR), ('_latex methods', M)], ['latex(A)', 'A._repr_latex_()', 'Fmt'], 'round-trip property-based testing with an independent LaTeX reader', 'exact/numeric')
p('C24', 'Printing options and print redirection are isolated and restorable',
  'Switching printers, formats or redirection on and off changes only output: what sympy itself prints (apart from the global settings that Format names), standard output and the builtin print are as before once restored. Everything printed between redirect and document output appears once, in order, in the document.',
  ['histories', 'configurations'], 'all sequences of format/redirect/print/restore calls', 'Order dependent; tests use one order.',
  [PR, 'galgebra/gprinter.py'], [('Format/GaLatexPrinter.redirect/restore', PR), ('tex/xpdf/gprint/gxpdf', 'galgebra/gprinter.py'), ('Eprint/enhance_print', PR)], ['Format', 'tex', 'gFormat', 'gprint', 'gxpdf'],
  'stateful property-based testing in scratch directories', 'subprocess-free, output captured')
p('C25', 'GAeval re-associates expressions by the declared operator precedence',
  'Evaluating a geometric-algebra expression string gives the value of the expression fully parenthesised under the declared operator order, for every nesting, and the original string is otherwise unchanged in meaning.',
  ['inputs', 'programs'], 'all expression strings over the GA operators and all operator orders', 'Tests use a few strings.',
  [PR, 'galgebra/utils.py'], [('def_prec, GAeval', PR), ('parse_line', PR)], ['GAeval', 'def_prec'], 'grammar-based fuzzing against a reference parser', 'exact')
p('C26', 'Coefficient-wise operations preserve or map values exactly',
  'Expansion, simplification in any mode, collection and trigonometric simplification never change the value of a multivector or operator; substitution, function application and numeric rounding act on each coefficient exactly once. The same holds after installing a different simplification function, and restoring it restores behaviour.',
  ['inputs', 'histories'], 'all multivectors with symbolic coefficients, all modes', 'Tests use a few expressions.',
  [M, ME], [('Mv.simplify/subs/expand/collect/func/trigsimp', M), ('Simp', ME), ('Nga', M)], ['simplify', 'subs', 'expand', 'collect', 'func', 'trigsimp', 'Simp.profile', 'Nga'],
  'metamorphic property-based testing with numeric evaluation', 'numeric sampling + exact')
p('C27', 'Convenience algebra builders produce the advertised algebra',
  'The Cl(p,q,r) builders return an algebra whose basis squares to +1, -1 and 0 in the advertised order with the advertised names, and their basis blades multiply accordingly. The package-level switch of dual conventions is the only side effect.',
  ['inputs', 'configurations'], 'all signatures (p,q,r), roots and options', 'Tests check two signatures.',
  ['galgebra/interop/_cl.py', 'galgebra/interop/kingdon.py'], [('Cl', 'galgebra/interop/_cl.py'), ('kingdon.Cl', 'galgebra/interop/kingdon.py')], ['Cl(p,q,r)', 'interop.kingdon.Cl'],
  'exhaustive small signatures plus property-based testing', 'exact')
p('C28', 'Operations do not disturb their operands, the algebra or each other',
  'No operation on multivectors, transformations or operators changes the value of its operands or of previously obtained objects, and results do not depend on what was computed before. Independent algebras, even with equal basis names, never influence one another, and objects of different algebras are never combined.',
  ['histories'], 'all finite sequences of operations over several algebras', 'Tests run in one order; lazy tables, caches and class-level state are shared.',
  [G, M, L, D], [('lazy_dict tables, cached grades/blade flags', G), ('Lt.setup, Mv.setup', L)], ['all public operations'],
  'stateful (history) property-based testing: history versus fresh process/algebra', 'random operation programs replayed on fresh algebras')
p('C29', 'Module-level helper functions agree with the methods they stand for',
  'Each module-level function (dual, grade, norm, proj, cross, com, rev, ...) returns the same as the corresponding method for every multivector and its documented value for scalars, and rejects non-multivectors. Cross product, vector correlation and proportionality comparison satisfy their definitions.',
  ['inputs'], 'all multivectors and scalars', 'Tests use few values.',
  [M], [('module level functions', M), ('compare, correlation, cross, Nga, printGS', M)], ['galgebra.mv functions'], 'differential property-based testing', 'exact')
p('C30', 'Symbolic plumbing helpers honour their contracts',
  'Linear expansion, simultaneous non-commutative substitution, symbol-list parsing, square-root/absolute-value helpers, symbolic matrices and graded containers behave as documented for every input.',
  ['inputs'], 'all expressions, strings and index lists in their domain', 'Barely tested directly.',
  [ME, G, L, 'galgebra/atoms.py'], [('linear_expand, symbols_list, square_root_of_expr, abs_with_hint, collect', ME), ('nc_subs, GradedTuple, lazy_dict, OrderedBiMap', G), ('Symbolic_Matrix', L)], ['helpers'],
  'property-based testing against reference definitions', 'exact/numeric')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, tech, note in P:
    i = d['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
                           technique=tech, level='exploration',
                           level_note=note + '; search over generated inputs, so absence of a counterexample is evidence, not proof'))
    else:
        na.append(dict(property=i, reason='no check committed yet (work in progress); generated-input search applies to it'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='python checks import galgebra from /repo at run time; nothing is built'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
