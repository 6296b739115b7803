From 341ff77a54758d607ff5392c7ee7074204de788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 01/83] fix: grade queries on multivectors in base
 representation

scalar() and blade_coefs() silently returned the wrong coefficients, and
get_grade/even/odd/components/get_coefs raised KeyError, because the blade
dictionaries were applied to an unconverted base representation.
---
 galgebra/mv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..f36f361 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1030,14 +1030,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
-        cb = metric.linear_expand_terms(self.obj)
+        cb = metric.linear_expand_terms(self.blade_rep().obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
 
@@ -1053,7 +1053,7 @@ class Mv(printer.GaPrintable):
         """
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
-        for coef, blade in metric.linear_expand_terms(self.obj):
+        for coef, blade in metric.linear_expand_terms(self.blade_rep().obj):
             if coef == S.Zero:
                 continue  # TODO: why does expansion return this?
             try:
@@ -1080,7 +1080,7 @@ class Mv(printer.GaPrintable):
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         blade_lst = [x.obj for x in blade_lst]
-        coefs, bases = metric.linear_expand(self.obj)
+        coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
             if blade in bases:
@@ -1126,11 +1126,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
-- 
2.43.0


From 59942244dffb3e237f25c003fb3bbb082b99a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 02/83] fix: grade_decomposition discarded the converted blade
 representation

---
 galgebra/ga.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..02c294a 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,9 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
-            A.characterise_Mv()
-            Aobj = expand(A.obj)
+            Aobj = expand(A.blade_rep().obj)
         else:
             Aobj = A
         coefs, blades = metric.linear_expand(Aobj)
-- 
2.43.0


From d8182f4fbf9af519199340f5318b4065cc4bf1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 03/83] fix: pure_grade returned minus an arbitrary grade, and
 failed after base_rep

pure_grade() documents minus the maximum grade for mixed multivectors but
used whichever grade happened to come last in sympy's term order; grade
information was also stale after conversion between representations.
---
 galgebra/mv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index f36f361..fb360f4 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -467,6 +467,8 @@ class Mv(printer.GaPrintable):
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
         b.is_blade_rep = True
+        b.char_Mv = False  # the grades of a base representation are unknown
+        b.characterise_Mv()
         return b
 
     def __hash__(self) -> int:
@@ -950,6 +952,9 @@ class Mv(printer.GaPrintable):
         """
         if self.blade_flg is not None:
             return self.blade_flg
+        if not self.is_blade_rep:
+            self.blade_flg = self.blade_rep().is_blade()
+            return self.blade_flg
         self.characterise_Mv()
         # Not grade-homogeneous → not a blade
         if self.i_grade is None:
@@ -1535,10 +1540,11 @@ class Mv(printer.GaPrintable):
         For pure grade return grade.  If not pure grade return negative
         of maximum grade
         """
+        self = self.blade_rep()
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 5371b62809b16c53f2c0be878a918a92aec0c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 04/83] fix: set_coef ignored the representation and left stale
 blade/versor/grade caches

---
 galgebra/mv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index fb360f4..2b2347a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1275,7 +1275,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1285,6 +1285,12 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # anything cached about the previous value is stale
+        self.char_Mv = False
+        self.blade_flg = None
+        self.versor_flg = None
+        if self.is_blade_rep:
+            self.characterise_Mv()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From 4c56572abc0caa22fc561ef67487116caa8ab514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 05/83] fix: Mv == scalar and hash(Mv) depended on the
 unexpanded form of the value

A scalar-valued multivector compared unequal to the scalar it equals (and to
0) unless its internal expression was already in the same form, and equal
multivectors hashed differently.
---
 galgebra/mv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 2b2347a..d52863a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -472,19 +472,22 @@ class Mv(printer.GaPrintable):
         return b
 
     def __hash__(self) -> int:
+        self = self.blade_rep()
         if self.is_scalar():
             # ensure we match equality
-            return hash(self.obj)
+            return hash(self.obj if self.obj.is_commutative else expand(self.obj))
         else:
-            return hash((self.Ga, self.obj))
+            return hash((self.Ga, expand(self.obj)))
 
     def __eq__(self, A):
         if isinstance(A, Mv):
             diff = (self - A).expand().simplify()
             # diff = (self - A).expand()
             return diff.obj == S.Zero
+        elif isinstance(A, (Expr, numbers.Number)):
+            return S(A).is_commutative and self == Mv(A, ga=self.Ga)
         else:
-            return self.is_scalar() and self.obj == A
+            return False
 
     """
     def __eq__(self, A):
-- 
2.43.0


From 3a2c5fd972d53bb37961e2fcee508dffb483be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 06/83] fix: is_zero did not recognise a zero that is not yet
 expanded

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index d52863a..6e2a6c4 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1034,7 +1034,7 @@ class Mv(printer.GaPrintable):
     '''
 
     def is_zero(self) -> bool:
-        return self.obj == 0
+        return expand(self.obj) == 0
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-- 
2.43.0


From e9e5b481bf0f148b53648d195a1165bff17fcfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 07/83] fix: remove_scalar_part kept the scalar part of an
 unexpanded product

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 02c294a..05fa524 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1703,8 +1703,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From 60d046d08af966f3cb056620eb01f4aa62566d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 08/83] fix: Mv.collect(deep=True) always raised TypeError
 (sympy's collect needs symbols)

---
 galgebra/mv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 6e2a6c4..3b9262d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -917,7 +917,8 @@ class Mv(printer.GaPrintable):
         obj = S.Zero
         for base in list(obj_dict.keys()):
             if deep:
-                obj += collect(obj_dict[base])*base
+                coef = obj_dict[base]
+                obj += collect(coef, sorted(coef.free_symbols, key=str))*base
             else:
                 obj += obj_dict[base]*base
         return Mv(obj, ga=self.Ga)
-- 
2.43.0


From d31c96218a1c79d249ff1babaa7ceef1d8e125b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 09/83] fix: ga.mv(5, 'scalar') stored a Python int, so most
 operations on it raised

---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 3b9262d..ad89452 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -205,7 +205,7 @@ class Mv(printer.GaPrintable):
             if len(coeffs) <= len(ga.blades[grade]):
                 return sum([
                     coef * base
-                    for coef, base in zip(coeffs, ga.blades[grade][:len(coeffs)])])
+                    for coef, base in zip(coeffs, ga.blades[grade][:len(coeffs)])], S.Zero)
             else:
                 raise ValueError("Too many coefficients")
         else:
@@ -219,7 +219,7 @@ class Mv(printer.GaPrintable):
             return Mv._make_grade(ga, name, 0, **kwargs)
         else:
             value = __name_or_value
-            return value
+            return S(value)
 
     @staticmethod
     def _make_vector(ga: 'Ga', __name_or_coeffs: Union[str, list, tuple], **kwargs) -> Expr:
-- 
2.43.0


From 4cfda2744b5d138ed71724646abcb2dfc01d8eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 10/83] fix: shirokov_inverse used floating point, so its
 result was not an exact inverse

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index ad89452..f0daa41 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1444,7 +1444,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From c4539aa88943718a0bec312f37fea3c4582b6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 11/83] fix: norm=True overwrote the metric Matrix passed by
 the caller

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..9763a9d 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -788,7 +788,7 @@ class Metric(object):
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
                 if isinstance(g, Matrix):
-                    self.g = g
+                    self.g = g.copy()  # normalization modifies it in place
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From c53afed936cdce78f27f8617db451421773ef8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 12/83] fix: an ImmutableMatrix (or tuple rows) as metric was
 misread as a list of diagonal entries

---
 galgebra/metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 9763a9d..4a585ae 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol
+    Add, simplify, Expr, Abs, Function, MatrixSymbol, MatrixBase
 )
 
 from . import printer
@@ -787,10 +787,10 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g.copy()  # normalization modifies it in place
+                if isinstance(g, MatrixBase):
+                    self.g = Matrix(g)  # copy, normalization modifies it in place
                 else:
-                    if len(g) > 0 and isinstance(g[0], list):
+                    if len(g) > 0 and isinstance(g[0], (list, tuple)):
                         self.g = Matrix(g)
                     else:
                         m = eye(len(g))
-- 
2.43.0


From ddbe62d3d2365b13ceae212ff91b5d9155dd4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 13/83] fix: the general symbolic metric (g='g') was not
 symmetric

---
 galgebra/metric.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 4a585ae..b01b8fc 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -770,20 +770,12 @@ class Metric(object):
         else:  # metric is symbolic or list of lists of functions of coordinates
             if isinstance(g, str):  # metric elements are symbols or constants
                 if g == 'g':  # general symbolic metric tensor (g_ij functions of position)
-                    self.g = Matrix([
-                        [
-                            Function('g_{}_{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
-                        ]
-                        for coord in self.coords
-                    ])
-                    self.g_inv = Matrix([
-                        [
-                            Function('g__{}__{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
-                        ]
-                        for coord in self.coords
-                    ])
+                    def symmetric(fmt):
+                        return Matrix(self.n, self.n, lambda i, j: Function(
+                            fmt.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords))
+
+                    self.g = symmetric('g_{}_{}')
+                    self.g_inv = symmetric('g__{}__{}')
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-- 
2.43.0


From 2ae24531a3ad47d5b65eec9c059ae03d995607e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 14/83] fix: Ga.preset raised for every preset (unknown
 keyword, missing names)

---
 galgebra/ga.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 05fa524..b9abd7a 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -12,7 +12,7 @@ from ._backports.typing import OrderedDict
 from sympy import (
     diff, Symbol, S, Mul, Add, Expr,
     expand, simplify, eye, trigsimp,
-    symbols, sqrt, Matrix,
+    symbols, sqrt, cos, Matrix,
 )
 
 from . import printer
@@ -632,10 +632,9 @@ class Ga(metric.Metric):
             raise ValueError(str(setting) + 'not in Ga.presets.')
         set_lst = Ga.presets[setting].split(':')
         X = symbols(set_lst[0], real=True)
-        g = eval(set_lst[1])
-        simps = eval(set_lst[2])
-        args = [root]
-        kwargs = {'g': g, 'coords': X, 'debug': debug, 'I': True, 'gsym': False}
+        names = {str(x): x for x in X}
+        names.update(X=X, cos=cos)
+        kwargs = {'g': eval(set_lst[1], names), 'coords': X, 'debug': debug}
 
         if len(set_lst) > 3:
             args_lst = set_lst[-1].split(';')
@@ -643,8 +642,7 @@ class Ga(metric.Metric):
                 [name, value] = arg.split('=')
                 kwargs[name] = eval(value)
 
-        Ga.set_simp(*simps)
-        return Ga(*args, **kwargs)
+        return Ga(root, **kwargs)
 
     def __hash__(self):
         return hash(self.name)
-- 
2.43.0


From 84c3e8ea557c4f11ae1aafe9719436d347c12631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 15/83] fix: Metric.g_inv raised TypeError for every orthogonal
 metric

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index b01b8fc..ea36e7f 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -530,7 +530,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From 12bbbd3f9527978915c224927d0accce9236e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 16/83] fix: Mv.diff raised in curvilinear coordinates, as did
 derivatives of a base representation

---
 galgebra/ga.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b9abd7a..b067522 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2036,7 +2036,12 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        if isinstance(A, Expr):
+            A = self.mv(A)
+        if self.connect_flg:
+            A = A.blade_rep()  # blade_derivation below needs basis blades
+
+        dA = self.mv(expand(diff(A.obj, coord)))
 
         if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(A)
-- 
2.43.0


From 22113882d2b943385c77f0a1959d15f8eec85b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 17/83] fix: differentiating by a symbol that is not a
 coordinate raised in curvilinear coordinates

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b067522..505e61b 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2043,7 +2043,7 @@ class Ga(metric.Metric):
 
         dA = self.mv(expand(diff(A.obj, coord)))
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
+        if self.connect_flg and self.dslot == -1 and coord in self.coords and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(A)
             if B != S.Zero:
                 if isinstance(B, Add):
-- 
2.43.0


From 00629c81070a06a2e2ee652830002c2074096e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 18/83] fix: Mv.Grad called a method of Ga that no longer
 exists

---
 galgebra/mv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index f0daa41..f808501 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1222,7 +1222,11 @@ class Mv(printer.GaPrintable):
         transformed does not and you wish to take the divergence of the
         linear transformation with respect to the linear argument.
         """
-        return Mv(self.Ga.Diff(self, mode, left, coords=coords), ga=self.Ga)
+        grad = self.Ga.make_grad(coords, cmpflg=not left)
+        if left:
+            return Dop.Mul(grad, self, op=mode)
+        else:
+            return Dop.Mul(self, grad, op=mode)
 
     def exp(self, hint: str = '-') -> 'Mv':  # Calculate exponential of multivector
         """
-- 
2.43.0


From 765a396e3f943bcc39c66c82ab7e268e02638638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 19/83] fix: norm and norm=True raised PolynomialError for
 rational functions (square_root_of_expr)

---
 galgebra/metric.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index ea36e7f..3428b86 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol, MatrixBase
+    Add, simplify, Expr, Abs, Function, MatrixSymbol, MatrixBase, fraction, together
 )
 
 from . import printer
@@ -159,7 +159,14 @@ def square_root_of_expr(expr, hint='0'):
         return sqrt(abs_with_hint(expr, hint))
     else:
         expr = trigsimp(expr)
-        coef, pow_lst = sqf_list(expr)
+        num, den = fraction(together(expr))
+        if den.is_number:
+            coef, pow_lst = sqf_list(expr)
+        else:  # sqf_list only accepts polynomials
+            num_coef, num_pow_lst = sqf_list(num)
+            den_coef, den_pow_lst = sqf_list(den)
+            coef = num_coef / den_coef
+            pow_lst = num_pow_lst + [(f, -n) for f, n in den_pow_lst]
         if coef != S.One:
             if coef.is_number:
                 coef = square_root_of_expr(coef)
-- 
2.43.0


From 5648dfd6488ecdb0e7b075d30b1d5b0c202a50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 20/83] fix: Dop.components dropped the complement flag

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index f808501..046ddb6 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1875,7 +1875,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From 7a1494038bf9bfd74ba90be79eb6579b5b5b7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 21/83] fix: Dop.TSimplify raised TypeError on multivector
 coefficients and dropped the complement flag

---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 046ddb6..c5c37be 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1823,8 +1823,8 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (coef.simplify(modes=metric.Simp.modes), pdiff) for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
-- 
2.43.0


From f672a1b2f247aa964948f14ab9798e38a256ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 22/83] fix: Simp.applymv raised NameError

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 3428b86..f849cf3 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -321,7 +321,7 @@ class Simp:
 
     @staticmethod
     def applymv(mv):
-        return Mv(Simp.apply(mv.obj), ga=mv.Ga)
+        return type(mv)(Simp.apply(mv.obj), ga=mv.Ga)
 
 
 class Metric(object):
-- 
2.43.0


From 6ca7ea8330e8c5d1e14136c5f6ff1ecdc0e55a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 23/83] fix: comparing a multivector with a scalar simplified
 every coefficient, slowing operator products

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index c5c37be..4f6f342 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -485,7 +485,7 @@ class Mv(printer.GaPrintable):
             # diff = (self - A).expand()
             return diff.obj == S.Zero
         elif isinstance(A, (Expr, numbers.Number)):
-            return S(A).is_commutative and self == Mv(A, ga=self.Ga)
+            return S(A).is_commutative and expand(self.blade_rep().obj - A) == S.Zero
         else:
             return False
 
-- 
2.43.0


From e86d761fc969411c479db197673cbed40c9ac4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 24/83] fix: a submanifold given by a vector function raised
 UnboundLocalError

---
 galgebra/ga.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 505e61b..d8d8a77 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2287,13 +2287,11 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
-                # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+            # Metric tensor from dot products of basis vectors
+            g = Matrix([
+                [trigsimp((b1 | b2).scalar()) for b2 in self.ebasis]
+                for b1 in self.ebasis
+            ])
 
         else:
 
-- 
2.43.0


From ab6c469104acb23cd48181fb1b0686cbb065f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 25/83] fix: submanifold metric was wrong when the map reuses
 names of the parent coordinates

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index d8d8a77..8f4a38d 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2317,7 +2317,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From eec1cc7427c848264e90534c4a708cffaafb07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 26/83] fix: a linear transformation left multivectors in base
 representation unchanged

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..04460f8 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -421,13 +421,13 @@ class Lt(printer.GaPrintable):
 
         if isinstance(M, mv.Mv):
             if M.is_vector():
-                lt_M = M.obj.xreplace(self.lt_dict)
+                lt_M = M.blade_rep().obj.xreplace(self.lt_dict)
                 if obj:
                     return lt_M
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From 91390dfde7171aaf940775312dd51fd8d00b7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 27/83] fix: Lt from a dictionary with missing basis vectors
 was inconsistent (zero, identity or KeyError)

---
 galgebra/lt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 04460f8..5f960fe 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -308,6 +308,9 @@ class Lt(printer.GaPrintable):
         if isinstance(mat_rep, dict):         # Dictionary input
             for key in mat_rep:
                 self.lt_dict[key] = mat_rep[key]
+            # Basis vectors which have no entry are mapped to zero
+            for base in self.Ga.basis:
+                self.lt_dict.setdefault(base, S.Zero)
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 35df6cc05c6d1886495c688c0fe1be1e1837c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 28/83] fix: adding a transformation to a versor-based
 transformation raised NotImplementedError

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 5f960fe..c7fc1da 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -344,7 +344,7 @@ class Lt(printer.GaPrintable):
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From a7fd31cf72f6ebe6c7afaaed42e22326b1b494ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 29/83] fix: Lt.tr differentiated coordinate-dependent entries,
 and needed coordinates

---
 galgebra/lt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c7fc1da..e593e13 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -511,12 +511,11 @@ class Lt(printer.GaPrintable):
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        if self.Ga.e_sq == S.Zero:  # degenerate metric, no reciprocal basis
+            return self.matrix().trace()
+        return sum(
+            ((er_i | self(e_i)).scalar() for er_i, e_i in zip(self.Ga.mvr(), self.Ga.mv())), S.Zero
+        )
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From 771f6ee7301fd4c8698001cd27093b308819ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 30/83] fix: det and is_singular of a transformation failed for
 a degenerate metric

---
 galgebra/lt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index e593e13..140b2f5 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -502,6 +502,8 @@ class Lt(printer.GaPrintable):
           basis blade for the pseudoscalar grade space.
         - Expression returned is a real SymPy scalar, not a GAlgebra 0-vector.
         """
+        if self.Ga.e_sq == S.Zero:  # degenerate metric, E has no inverse
+            return self(self.Ga.e).get_coefs(self.Ga.n)[0]
         return (self(self.Ga.e) * self.Ga.e.inv()).scalar()
     # ## GSG code ends ###
 
@@ -552,8 +554,7 @@ class Lt(printer.GaPrintable):
     # ## GSG code starts ###
     def is_singular(self):
         """Returns `True` if and only if  linear transformation `self` is singular."""
-        E = self.Ga.E()
-        return simplify((self(E) < E.inv()).scalar()) == S.Zero
+        return simplify(self.det()) == S.Zero
     # ## GSG code ends
 
     # ## GSG code starts ###
-- 
2.43.0


From 0b23752c0f9f401a67d4974b3c2bf46dc9f4fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 31/83] fix: Lt from a dictionary of multivectors (documented)
 raised TypeError on most arguments

---
 galgebra/lt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 140b2f5..9f2c605 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -307,7 +307,10 @@ class Lt(printer.GaPrintable):
 
         if isinstance(mat_rep, dict):         # Dictionary input
             for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+                image = mat_rep[key]
+                if isinstance(image, mv.Mv):
+                    image = image.blade_rep().obj
+                self.lt_dict[key] = image
             # Basis vectors which have no entry are mapped to zero
             for base in self.Ga.basis:
                 self.lt_dict.setdefault(base, S.Zero)
-- 
2.43.0


From b4124a9aea5b04a4b4a1284e4adb40c679393049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 32/83] fix: Mlt from a string used all slot variables ever
 created in the algebra

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 9f2c605..2cc034c 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -834,7 +834,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From df4e048f2bd8556e4dc779d684cd546fbec5e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 33/83] fix: calling a Mlt used unnormalised reciprocal vectors
 in non-orthogonal algebras

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 2cc034c..a35f106 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -869,7 +869,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
+                for r_base, aij in zip(self.Ga.mvr(), ai):
                     sub_lst.append((aij, (r_base | x).scalar()))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
-- 
2.43.0


From d50071e4b4911a8efd36e70a53f8c08b4fa176ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 34/83] fix: Mlt.pdiff and Mlt.contract differentiated by the
 coordinates instead of the slot vectors, and left Ga.dslot changed

---
 galgebra/lt.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index a35f106..e3d7bba 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -933,8 +933,11 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        F = self.Ga.mv(self.fvalue)
+        return sum(
+            (er * F.pdiff(a) for er, a in zip(self.Ga.mvr(), self.Ga._mlt_pdiffs[slot - 1])),
+            self.Ga.mv(S.Zero)
+        )
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -958,12 +961,13 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
-        grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
-        div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
+        grad_self = self.pdiff(min_slot)
+        div_grad_self = sum(
+            (er | grad_self.pdiff(a) for er, a in zip(self.Ga.mvr(), self.Ga._mlt_pdiffs[max_slot - 1])),
+            self.Ga.mv(S.Zero)
+        )
+        div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot, self.nargs, self.Ga)
+        div_grad_self = Mlt.remove_slot(div_grad_self, min_slot, self.nargs - 1, self.Ga)
         return Mlt(div_grad_self, self.Ga, cnargs)
 
     def cderiv(self):
-- 
2.43.0


From c68606bec2da6938255309fc8be2aea480d8190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 35/83] fix: Mlt.expand raised for a tensor with multivector
 values

---
 galgebra/lt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index e3d7bba..b4c0490 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -993,7 +993,10 @@ class Mlt(printer.GaPrintable):
         return CD
 
     def expand(self):
-        self.fvalue = expand(self.fvalue)
+        if isinstance(self.fvalue, mv.Mv):
+            self.fvalue = self.fvalue.expand()
+        else:
+            self.fvalue = expand(self.fvalue)
         return self
 
     def comps(self):
-- 
2.43.0


From f86d9573d84d0113b3f6b8f77cdd0a00680bfb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 36/83] fix: a scalar product left unevaluated by sympy's
 expand compared unequal to, and hashed unlike, its value

---
 galgebra/mv.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 4f6f342..b76265d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -475,7 +475,9 @@ class Mv(printer.GaPrintable):
         self = self.blade_rep()
         if self.is_scalar():
             # ensure we match equality
-            return hash(self.obj if self.obj.is_commutative else expand(self.obj))
+            obj = expand(self.obj)
+            # expand may leave a sum of numbers unevaluated
+            return hash(simplify(obj) if obj.is_number and not obj.is_Number else obj)
         else:
             return hash((self.Ga, expand(self.obj)))
 
@@ -485,7 +487,11 @@ class Mv(printer.GaPrintable):
             # diff = (self - A).expand()
             return diff.obj == S.Zero
         elif isinstance(A, (Expr, numbers.Number)):
-            return S(A).is_commutative and expand(self.blade_rep().obj - A) == S.Zero
+            if not S(A).is_commutative:
+                return False
+            diff = expand(expand(self.blade_rep().obj) - A)
+            # expand may leave a sum of numbers unevaluated
+            return diff == S.Zero or (diff.is_number and not diff.is_Number and simplify(diff) == S.Zero)
         else:
             return False
 
-- 
2.43.0


From 6a68687cdefa721fff92094f4e0fd75d615bc6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 37/83] fix: LaTeX of a Mlt whose value is zero or a single
 term raised or was split into its factors

---
 galgebra/lt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index b4c0490..2bfcf88 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -11,7 +11,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -775,10 +775,10 @@ class Mlt(printer.GaPrintable):
     def expand_expr(expr, ga):
         lst_expr = []
         expr = expand(expr)
-        for term in expr.args:
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
-- 
2.43.0


From 6cb26a5c917a7a6dccd17e6fc8897bbb85974d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 38/83] fix: Fmt of a one-element list or tuple left the array
 and the delimiter unclosed

---
 galgebra/printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..14b180f 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1193,7 +1193,9 @@ def Fmt(obj, fmt=0):
                 latex_cell = latex(cell)
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
-                if i == 1:
+                if i == 1 and n == 1:
+                    latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
+                elif i == 1:
                     latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r', \right. \\ '
                 elif i == n:
                     latex_str += r' \left. ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
-- 
2.43.0


From 06e8e320cbc2fd1b6da566a459b4ebe912e7c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 39/83] fix: Fmt of a dictionary dropped the values in the
 default format

---
 galgebra/printer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 14b180f..c23e94d 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1191,6 +1191,8 @@ def Fmt(obj, fmt=0):
                 #title = cell.title
                 #cell.title = None
                 latex_cell = latex(cell)
+                if isinstance(obj, dict):
+                    latex_cell += ' : ' + latex(obj[cell])
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
                 if i == 1 and n == 1:
-- 
2.43.0


From 21bc6abc96e331454fc6b756cbf8cbc87ef11b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 40/83] fix: LaTeX of a Dop printed the basis blade of an order
 zero term twice

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index b76265d..6acb63c 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1967,7 +1967,7 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
                     if str_sdop[1:] != '1':
                         s += ' ' + str_sdop[1:]
-- 
2.43.0


From 443a97f8ab307c90d4c8b6543e73e5cecff87fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 41/83] fix: LaTeX of a Mlt glued a coefficient ending in a
 command to the slot variable

---
 galgebra/lt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 2bfcf88..739e099 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -730,6 +730,8 @@ class Mlt(printer.GaPrintable):
             else:
                 if coef_str[0].strip() != '-' or term_add_flg:
                     coef_latex = ' + ' + coef_latex
+            if term[1]:
+                coef_latex += ' '
             for aij in term[1]:
                 coef_latex += print_obj._print(aij) + ' '
             if cnt == 1:
-- 
2.43.0


From 13743948cadfbd4aa702d918c059938e3487afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 42/83] fix: omit_function_args dropped the argument of known
 functions without a LaTeX command (atan, asinh, sign, ...)

---
 galgebra/printer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index c23e94d..b2837f2 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -638,6 +638,8 @@ class GaLatexPrinter(LatexPrinter):
             return getattr(self, '_print_' + func)(expr, exp)
         else:
             args = [str(self._print(arg)) for arg in expr.args]
+            # as in `GaPrinter`, known functions always keep their arguments
+            omit_args = self._settings["omit_function_args"] and func not in GaPrinter.function_names
 
             # How inverse trig functions should be displayed, formats are:
             # abbreviated: asin, full: arcsin, power: sin^-1
@@ -695,16 +697,16 @@ class GaLatexPrinter(LatexPrinter):
                     # with the function name itself
                     name += r" {%s}"
                 else:
-                    if not self._settings["omit_function_args"]:
+                    if not omit_args:
                         name += r"%s"
             else:
-                if func in accepted_latex_functions or not self._settings["omit_function_args"]:
+                if func in accepted_latex_functions or not omit_args:
                     name += r"{\left (%s \right )}"
 
             if inv_trig_power_case and exp is not None:
                 name += r"^{%s}" % exp
 
-            if func in accepted_latex_functions or not self._settings["omit_function_args"]:
+            if func in accepted_latex_functions or not omit_args:
                 if len(args) == 1:
                     name = name % args[0]
                 else:
-- 
2.43.0


From 58e2a8ec153abca04bf6ca63beb3bd6a76223399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 43/83] fix: fold_frac_powers printed a compound base without
 brackets

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index b2837f2..5f730bd 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -544,7 +544,7 @@ class GaLatexPrinter(LatexPrinter):
             and expr.exp.is_Rational \
                 and expr.exp.q != 1:
             base, p, q = self._print(expr.base), expr.exp.p, expr.exp.q
-            if mode:
+            if mode or self._needs_brackets(expr.base):
                 return r"{\left ( %s \right )}^{%s/%s}" % (base, p, q)
             else:
                 return r"%s^{%s/%s}" % (base, p, q)
-- 
2.43.0


From c4980c762e1bdee18a0251fd1c735e703de544dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 44/83] fix: LaTeX of a multivector raised where sympy cannot
 simplify a coefficient (mixed derivatives with hyperbolic functions)

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 6acb63c..e989c27 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -709,7 +709,7 @@ class Mv(printer.GaPrintable):
         obj = expand(self.obj)
         try:
             obj = metric.Simp.apply(obj)
-        except ZeroDivisionError:
+        except (ZeroDivisionError, NotImplementedError):
             pass  # SymPy trigsimp regression; display without simplification
         self = Mv(obj, ga=self.Ga)
 
-- 
2.43.0


From 3553844d8f8710d0fd834ba8b926e9c5ff2339de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 45/83] fix: a second tex() document repeated the text of the
 first, and tex() after restore() raised

---
 galgebra/printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5f730bd..6c4714a 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -897,9 +897,9 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
+    GaLatexPrinter.latex_str = ''
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
-- 
2.43.0


From 370424ecfb997ebfec8dbe13073f8b521fa73eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 46/83] fix: redirecting twice lost the original stdout, and
 Format() after a finished document did not redirect

---
 galgebra/printer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 6c4714a..eda5a3a 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -501,6 +501,8 @@ class GaLatexPrinter(LatexPrinter):
 
     @staticmethod
     def redirect():
+        if GaLatexPrinter.latex_flg:
+            return  # already redirected, do not lose the original stdout
         GaLatexPrinter.latex_flg = True
         if GaLatexPrinter.ipy:
             pass
@@ -819,10 +821,9 @@ def Format(Fmode: bool = True, Dmode: bool = True, inverse='full'):
         inv_trig_style=inverse,
     )
 
-    if Format_cnt == 0:
+    if Format_cnt == 0 or not GaLatexPrinter.latex_flg:
         Format_cnt += 1
 
-        GaLatexPrinter.latex_flg = True
         GaLatexPrinter.redirect()
 
         if isinteractive():
-- 
2.43.0


From 8b49408aa9089ec98d93a0d94af5c8e7c3c75f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 47/83] fix: gprint treated % in its text as a format

---
 galgebra/gprinter.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d26aff6..e1d42c2 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -146,7 +146,6 @@ def gprint(*xargs):
     Print latex or text from python script or latex from Jupyter Notebook/Lab
 
     """
-    x = []
     fstr = ''
     new_eq_flg = False
     i = 0
@@ -168,19 +167,17 @@ def gprint(*xargs):
                 fstr += str(xi)
         else:
             if LaTeX.latex_flg:
-                x.append(latex(xi))
                 if new_eq_flg:
                     new_eq_flg = False
-                fstr += r' %s '
+                fstr += ' ' + latex(xi) + ' '
             else:
-                x.append(str(xi))
-                fstr += r' %s '
+                fstr += ' ' + str(xi) + ' '
 
         i += 1
 
     if LaTeX.latex_flg:
         if isinteractive():
-            lstr = fstr % tuple(x)
+            lstr = fstr
             if '@' in lstr:
                 lines = lstr.split('@')
                 lines[0] = r'\begin{equation*} '+lines[0]
@@ -190,9 +187,9 @@ def gprint(*xargs):
             else:
                 display(Math(lstr))
         else:
-            LaTeX.latex_str += r'\begin{equation*} ' + (fstr % tuple(x)) + r'\end{equation*} '+'\n'
+            LaTeX.latex_str += r'\begin{equation*} ' + fstr + r'\end{equation*} '+'\n'
     else:
-        print(fstr % tuple(x))
+        print(fstr)
 
     return
 
-- 
2.43.0


From 5fdfff3315c9bf8c94d416b234aa0d6db61d9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 48/83] fix: enhance_print(None) did not disable colors that
 were enabled

---
 galgebra/printer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index eda5a3a..00ea0c5 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,7 +248,8 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    # not `set_global_settings`, which ignores `None`
+    GaPrinter._global_settings.update(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
-- 
2.43.0


From f42b6503d1b590796d5f255bf9d784ba151963f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 49/83] fix: GAeval took '(A)|(B)' to be enclosed in one pair
 of parentheses

---
 galgebra/_utils/parser.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..61841eb 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -107,12 +107,26 @@ def _parse_paren(line):
     return level_lst
 
 
+def _in_paren(line):  # is all of line inside one pair of parentheses
+    if line[:1] != '(':
+        return False
+    level = 0
+    for ich, ch in enumerate(line):
+        if ch == '(':
+            level += 1
+        elif ch == ')':
+            level -= 1
+        if level == 0:
+            return ich == len(line) - 1
+    return False
+
+
 def _unparse_paren(level_lst):
     line = level_lst[0][0][0]
     for level in level_lst[1:]:
         for group in level:
             new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
+            if _in_paren(new_string) and _in_paren(new_string[1:-1]):
                 new_string = new_string[1:-1]
             line = line.replace(group[-2], new_string)
     return line
@@ -125,7 +139,7 @@ def _sub_paren(s):
 
 def _add_paren(line, re_exprs):
     paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
+    if _in_paren(line):
         paren_flg = True
         line = line[1:-1]
     if ('(' in line) or (')' in line):
-- 
2.43.0


From d9331dd463d9ef807c451653d36b0d7d1db82ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 50/83] fix: GAeval misread chains of the operators <, > and |

---
 galgebra/_utils/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index 61841eb..da3e501 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -8,7 +8,7 @@ from typing import List
 _operand_re = r"([A-Za-z0-9\_\#]+)"
 
 _operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
+    '<>|': re.compile(r'(ARG[<>|]ARG([<>|]ARG)*)'.replace('ARG', _operand_re)),
     '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
     '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
 }
@@ -133,8 +133,13 @@ def _unparse_paren(level_lst):
 
 
 def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
+    # Parenthesize every operation in a chain, from the left. This matters for
+    # `<` and `>`, since python evaluates `A<B<C` as `A<B and B<C`.
+    operand, *operators = re.split(r'([<>|^*])', s.group(0))
+    string = operand
+    for op, operand in zip(operators[::2], operators[1::2]):
+        string = '(%s%s%s)' % (string, op, operand)
+    return string
 
 
 def _add_paren(line, re_exprs):
-- 
2.43.0


From af4f789f2976acb5db7b2bdfd392e6d03e051232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 51/83] fix: GAeval lost parentheses when a group also occurs
 inside a longer group

---
 galgebra/_utils/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index da3e501..50564cc 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -94,13 +94,14 @@ def _parse_paren(line):
         ilevel = max_level
         while ilevel > 1:
             igroup = 0
-            for group in level_lst[ilevel]:
+            # longest first, as a shorter group can also occur inside a longer one
+            for group in sorted(level_lst[ilevel], key=lambda g: -len(g[-3])):
                 group_down = level_lst[ilevel - 1][group[2]]
                 replace_text = group_down[-1].replace(group[-3], group[-2])
                 level_lst[ilevel - 1][group[2]][-1] = replace_text
                 igroup += 1
             ilevel -= 1
-        for group in level_lst[1]:
+        for group in sorted(level_lst[1], key=lambda g: -len(g[2])):
             line = line.replace(group[2], group[3])
         ilevel = 1
         level_lst[0] = [[line]]
-- 
2.43.0


From 34c71bbad7efd8212362abb0144d0500f33c06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 52/83] fix: GAeval split operands at a sign, '~', '**', '.'
 and non-ascii letters, and regrouped division

---
 galgebra/_utils/parser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index 50564cc..d215ae6 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -4,13 +4,13 @@ from typing import List
 
 
 # The `#` character is included because we generate tokens containing it in
-# _parse_paren.
-_operand_re = r"([A-Za-z0-9\_\#]+)"
+# _parse_paren. Signs, `~` and `**` bind tighter than the operators below.
+_operand_re = r"~*[\w.#]+(?:\*\*[-+~]*[\w.#]+)*"
 
 _operator_res = {
-    '<>|': re.compile(r'(ARG[<>|]ARG([<>|]ARG)*)'.replace('ARG', _operand_re)),
-    '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
-    '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
+    '<>|': re.compile(r'ARG(?:[<>|][-+]*ARG)+'.replace('ARG', _operand_re)),
+    '^': re.compile(r'ARG(?:\^[-+]*ARG)+'.replace('ARG', _operand_re)),
+    '*': re.compile(r'ARG(?:[*/][-+]*ARG)+'.replace('ARG', _operand_re)),
 }
 
 
@@ -136,10 +136,10 @@ def _unparse_paren(level_lst):
 def _sub_paren(s):
     # Parenthesize every operation in a chain, from the left. This matters for
     # `<` and `>`, since python evaluates `A<B<C` as `A<B and B<C`.
-    operand, *operators = re.split(r'([<>|^*])', s.group(0))
-    string = operand
-    for op, operand in zip(operators[::2], operators[1::2]):
-        string = '(%s%s%s)' % (string, op, operand)
+    operands = re.finditer(r'([<>|^*/]?)([-+]*ARG)'.replace('ARG', _operand_re), s.group(0))
+    string = next(operands).group(2)
+    for m in operands:
+        string = '(%s%s%s)' % (string, m.group(1), m.group(2))
     return string
 
 
-- 
2.43.0


From 3960576bef54cfecf4d49f8013d36b9e9ef2f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 53/83] fix: one-dimensional Cl(p, q, r) had a basis vector of
 the wrong name, or (kingdon) none

---
 galgebra/interop/_cl.py     | 5 ++++-
 galgebra/interop/kingdon.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..1debae0 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -68,7 +68,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
+    if n == 1:
+        # 'e*1' is one symbol counted from 0, not one with the index 1
+        basis = root + '_1,'
+    elif n <= 9:
         basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..eb02764 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -77,7 +77,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
+    if n == 1:
+        # 'e*0' is a list of no symbols, not one with the index 0
+        basis = root + '_0,'
+    elif n <= 10:
         basis = root + '*' + '|'.join(str(i) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
-- 
2.43.0


From a30960387d88d8c4b2f12cb0465301c57b5b5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 54/83] fix: compare(A, B) returned A/B instead of the
 documented B/A, printed its working, and missed proportional multivectors
 whose terms come in a different order

---
 galgebra/mv.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index e989c27..0d23439 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1578,26 +1578,16 @@ def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     otherwise return 0.
     """
     if isinstance(A, Mv) and isinstance(B, Mv):
-        Acoefs, Abases = metric.linear_expand(A.obj)
-        Bcoefs, Bbases = metric.linear_expand(B.obj)
-        if len(Acoefs) != len(Bcoefs):
-            return 0
-        if Abases != Bbases:
-            return 0
-        if Bcoefs[0] != 0 and Abases[0] == Bbases[0]:
-            c = simplify(Acoefs[0]/Bcoefs[0])
-            print('c =', c)
+        Acoefs = {base: coef for coef, base in metric.linear_expand_terms(A.blade_rep().obj)}
+        Bcoefs = {base: coef for coef, base in metric.linear_expand_terms(B.blade_rep().obj)}
+        for base, coef in Acoefs.items():
+            if simplify(coef) != 0:
+                c = simplify(Bcoefs.get(base, S.Zero)/coef)
+                break
         else:
             return 0
-        for acoef, abase, bcoef, bbase in zip(Acoefs[1:], Abases[1:], Bcoefs[1:], Bbases[1:]):
-            print(acoef, '\n', abase, '\n', bcoef, '\n', bbase)
-            if bcoef != 0 and abase == bbase:
-                print('c-a/b =', simplify(c-(acoef/bcoef)))
-                if simplify(acoef/bcoef) != c:
-                    return 0
-                else:
-                    pass
-            else:
+        for base in Acoefs.keys() | Bcoefs.keys():
+            if simplify(Bcoefs.get(base, S.Zero) - c*Acoefs.get(base, S.Zero)) != 0:
                 return 0
         return c
     else:
-- 
2.43.0


From 8dcf7aef9362b6cefbd17c9de7b138e7f76a33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 55/83] fix: correlation of row vectors was computed from their
 first component only

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 0d23439..b7b3067 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -2064,7 +2064,7 @@ def com(A, B):
 
 
 def correlation(u, v, dec=3):  # Compute the correlation coefficient of vectors u and v.
-    rows, cols = u.shape
+    rows = len(u)
     uave = 0
     vave = 0
     for i in range(rows):
-- 
2.43.0


From e122f2aacd4079ef99396bf50565824840a3443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 56/83] fix: utils.flatten used collections.Iterable and never
 tested the elements

---
 galgebra/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/utils.py b/galgebra/utils.py
index e8e05b6..6031ef5 100644
--- a/galgebra/utils.py
+++ b/galgebra/utils.py
@@ -3,7 +3,7 @@ Utility Classes
 """
 
 import sys
-import collections
+import collections.abc
 import warnings
 
 from io import StringIO  # noqa: F401
@@ -27,7 +27,7 @@ def flatten(x):
     result = []
 
     for el in x:
-        if isinstance(x, collections.Iterable) and not isstr(el):
+        if isinstance(el, collections.abc.Iterable) and not isstr(el):
             result.extend(flatten(el))
         else:
             result.append(el)
-- 
2.43.0


From 8e17e21836e069323577c9699cce73e516dc94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 57/83] fix: Mv.proj lost terms when the multivector and the
 list of bases were in different representations

---
 galgebra/mv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index b7b3067..34a5872 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1109,6 +1109,9 @@ class Mv(printer.GaPrintable):
         Project multivector onto a given list of bases.  That is find the
         part of multivector with the same bases as in the bases_lst.
         """
+        if any(x.is_blade_rep != self.is_blade_rep for x in bases_lst):
+            self = self.blade_rep()
+            bases_lst = [x.blade_rep() for x in bases_lst]
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
         for coef, base in metric.linear_expand_terms(self.obj):
-- 
2.43.0


From 9ab49174f1225be061fefa952726b4ac237608b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 58/83] fix: Ga.scalar_part of a multivector in base
 representation returned the coefficient of the wrong scalar

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 8f4a38d..f5f00d0 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1718,7 +1718,7 @@ class Ga(metric.Metric):
     def scalar_part(self, A: _MaybeMv) -> Union[Expr, int]:
 
         if isinstance(A, mv.Mv):
-            return self.scalar_part(A.obj)
+            return self.scalar_part(A.blade_rep().obj)
         else:
             A = expand(A)
             if isinstance(A, Add):
-- 
2.43.0


From c5fbc04d167d1a5a58c52e744553049819489d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 59/83] fix: blade_coefs found no coefficient for a basis blade
 given in base representation

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 34a5872..2bd2924 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1094,7 +1094,7 @@ class Mv(printer.GaPrintable):
             for blade in blade_lst:
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
-        blade_lst = [x.obj for x in blade_lst]
+        blade_lst = [x.blade_rep().obj for x in blade_lst]
         coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
-- 
2.43.0


From 9fd9fe10609942ea85155d3e33260a2492e45f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 60/83] fix: sums of products or images with fractional
 coefficients could become unusable (nested noncommutative sums)

---
 galgebra/ga.py     |  1 +
 galgebra/metric.py | 13 ++++++++++++-
 galgebra/mv.py     |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index f5f00d0..901aa95 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -132,6 +132,7 @@ def nc_subs(expr, base_keys, base_values=None):
 
     if expr.is_commutative:
         return expr
+    expr = metric.flat_sum(expr)
     if isinstance(expr, Add):
         args = expr.args
     else:
diff --git a/galgebra/metric.py b/galgebra/metric.py
index f849cf3..fd718b1 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -29,6 +29,17 @@ def apply_function_list(f, x):
         return f(x)
 
 
+def flat_sum(expr):
+    """
+    sympy leaves a sum of noncommutative terms as an argument of a sum when
+    collecting equal terms (as in ``(a+b)/2 + (a+b)/2 + c``), and ``expand``
+    does not undo this.  Returns ``expr`` without such nested sums.
+    """
+    while isinstance(expr, Add) and any(isinstance(arg, Add) for arg in expr.args):
+        expr = Add(*expr.args)
+    return expr
+
+
 def linear_expand(expr):
     """
     linear_expand takes an expression that is the sum of a scalar
@@ -42,7 +53,7 @@ def linear_expand(expr):
     if not isinstance(expr, Expr):
         raise TypeError('{!r} is not a SymPy Expr'.format(expr))
 
-    expr = expand(expr)
+    expr = flat_sum(expand(expr))
 
     if expr == 0:
         coefs = [expr]
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 2bd2924..aba24bb 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -371,7 +371,7 @@ class Mv(printer.GaPrintable):
                 self.characterise_Mv()
             else:
                 if isinstance(x, Expr):  # copy constructor for obj expression
-                    self.obj = x
+                    self.obj = metric.flat_sum(x)
                 else:  # copy constructor for scalar obj expression
                     self.obj = S(x)
                 self.is_blade_rep = True
-- 
2.43.0


From fa5af228262d68b30472597463bdec7191d943c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 61/83] fix: Ga(..., debug=True) raised RecursionError for
 every non-orthogonal metric

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 901aa95..2a354d1 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1535,7 +1535,7 @@ class Ga(metric.Metric):
                 base_expansion_dict[base] = expand(tmp)
 
         if self.debug:
-            print('base_expansion_dict =', self.base_expansion_dict)
+            print('base_expansion_dict =', base_expansion_dict)
 
         return base_expansion_dict
 
-- 
2.43.0


From 2eebce79aaed37eafbae4df7cff12d94dd9333b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 62/83] fix: comparing a Ga with anything but a Ga raised
 AttributeError

---
 galgebra/ga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 2a354d1..e6cb8e0 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -649,6 +649,8 @@ class Ga(metric.Metric):
         return hash(self.name)
 
     def __eq__(self, ga):
+        if not isinstance(ga, Ga):
+            return NotImplemented
         return self.name == ga.name
 
     def __init__(self, bases, *, wedge=True, **kwargs):
-- 
2.43.0


From 59991ddfc35fb8ebfb80bf4d1c8f8d10a1a807cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 63/83] fix: symbols_list(..., commutative=True) returned
 noncommutative symbols

---
 galgebra/metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index fd718b1..5b4662b 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol, MatrixBase, fraction, together
+    Add, simplify, Expr, Abs, Function, Symbol, MatrixSymbol, MatrixBase, fraction, together
 )
 
 from . import printer
@@ -313,7 +313,9 @@ def symbols_list(s, indices=None, sub=True, commutative=False):
 
     else:  # indices symbol list used for sub/superscripts of generated symbol list
         s_lst = [s + pos + str(i) for i in indices]
-    return [BasisVectorSymbol(s, commutative=commutative) for s in s_lst]
+    if commutative:  # a BasisVectorSymbol never commutes
+        return [Symbol(s) for s in s_lst]
+    return [BasisVectorSymbol(s) for s in s_lst]
 
 
 class Simp:
-- 
2.43.0


From 3113b45b343a99b2a7bfff58a74145e813683a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 64/83] fix: Ga.connection raised UnboundLocalError on its
 cached results and used unnormalised reciprocal vectors

---
 galgebra/ga.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index e6cb8e0..95b2c11 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2124,21 +2124,23 @@ class Ga(metric.Metric):
         :math:`e^{j}` are reciprocal basis vectors.
         """
         mode_key = (mode, left)
-        keys = [i for i, j in self.connect[mode_key]]
         if left:
             key = rbase * key_base
         else:
             key = key_base * rbase
-        if key not in keys:
-            keys.append(key)
-            C = S.Zero
-            for ib in self.n_range:
-                x = self.blade_derivation(key_base, ib)
-                if self.norm:
-                    x /= self.e_norm[ib]
-                C += self.er_blade(self.r_basis[ib], x, mode, left)
-            # Update connection dictionaries
-            self.connect[mode_key].append((key, C))
+        for cached_key, C in self.connect[mode_key]:
+            if cached_key == key:
+                return C
+        C = S.Zero
+        for ib in self.n_range:
+            x = self.blade_derivation(key_base, ib)
+            if self.norm:
+                x /= self.e_norm[ib]
+            if not self.is_ortho:  # r_basis is not normalized
+                x /= self.e_sq
+            C += self.er_blade(self.r_basis[ib], x, mode, left)
+        # Update connection dictionaries
+        self.connect[mode_key].append((key, C))
         return C
 
     def ReciprocalFrame(self, basis: Sequence[_mv.Mv], mode: str = 'norm') -> Tuple[_mv.Mv, ...]:
-- 
2.43.0


From 4011bc5effc76ea567b0b5cc632d88867ba7ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 65/83] fix: sums, multiples, contractions and derivatives of
 multivector valued Mlts were mistaken for 1-forms or lost their products

---
 galgebra/lt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 739e099..f3c35ed 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -815,8 +815,11 @@ class Mlt(printer.GaPrintable):
         #  T_x*a_1__x+T_y*a_1__y+T_z*a_1__z for a rank 1 tensor in 3 space and all
         #  symbols are sympy real scalar symbols
         self.Ga = Ga
+        if isinstance(f, Expr) and not f.is_commutative:
+            f = Ga.mv(f)  # multivector valued component expression
         if isinstance(f, mv.Mv):
-            if f.is_vector():  # f is vector T = f | a1
+            # a vector that depends on the slots is a value, not a tensor to evaluate
+            if f.is_vector() and not f.obj.free_symbols & set(Ga._mlt_acoefs):  # f is vector T = f | a1
                 self.nargs = 1
                 Mlt.increment_slots(1, Ga)
                 self.fvalue = (f | Ga._mlt_a[0]).obj
-- 
2.43.0


From c0406760f88fe1b55a6f8bc6db4c4b70544459ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 66/83] fix: F ^ G and F | G raised TypeError for scalar valued
 Mlts

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index f3c35ed..be13549 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -911,7 +911,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
@@ -920,7 +920,7 @@ class Mlt(printer.GaPrintable):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
-            value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
+            value = self.Ga.mv(self(*self.Ga._mlt_a[:self.nargs])) | X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt(value, self.Ga, nargs)
         else:
             return Mlt(X * self.fvalue, self.Ga, self.nargs)
-- 
2.43.0


From e063b778305809b45d36db6fd0b556fda8a969bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 67/83] fix: LaTeX of a multivector valued Mlt with several
 slots raised

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index be13549..27b505a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -712,7 +712,7 @@ class Mlt(printer.GaPrintable):
         return print_obj._print(self.fvalue)
 
     def _latex(self, print_obj):
-        if self.nargs <= 1:
+        if self.nargs <= 1 or isinstance(self.fvalue, mv.Mv):
             return print_obj._print(self.fvalue)
         expr_lst = Mlt.expand_expr(self.fvalue, self.Ga)
         latex_str = '\\begin{aligned} '
-- 
2.43.0


From a548d5448a33a7862b7342e202511b73fd4d18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 68/83] fix: Mv.diff ignored the parametric coordinates set
 with Ga.parametric

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index aba24bb..1ee6e66 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1201,7 +1201,7 @@ class Mv(printer.GaPrintable):
         elif coord not in self.Ga.coords:
             if self.Ga.par_coords is None:
                 obj = diff(self.obj, coord)
-            elif coord not in self.Ga.par_coords:
+            elif not any(diff(f, coord) != S.Zero for f in self.Ga.par_coords.values()):
                 obj = diff(self.obj, coord)
             else:
                 obj = diff(self.obj, coord)
-- 
2.43.0


From d45cc8e4646dad0880f46cdfdd0d7763d9600a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 69/83] fix: contracting all slots of a vector valued Mlt
 returned a 1-form

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 27b505a..d2da42e 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -818,8 +818,8 @@ class Mlt(printer.GaPrintable):
         if isinstance(f, Expr) and not f.is_commutative:
             f = Ga.mv(f)  # multivector valued component expression
         if isinstance(f, mv.Mv):
-            # a vector that depends on the slots is a value, not a tensor to evaluate
-            if f.is_vector() and not f.obj.free_symbols & set(Ga._mlt_acoefs):  # f is vector T = f | a1
+            # a vector that depends on the slots, or has none, is a value, not a tensor to evaluate
+            if nargs in (None, 1) and f.is_vector() and not f.obj.free_symbols & set(Ga._mlt_acoefs):  # f is vector T = f | a1
                 self.nargs = 1
                 Mlt.increment_slots(1, Ga)
                 self.fvalue = (f | Ga._mlt_a[0]).obj
-- 
2.43.0


From 528879debfa01ebdc35bcd5434c5c1b4a3e7c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 70/83] fix: latex with fold_func_brackets wrote a power of a
 function as one of its argument

---
 galgebra/printer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 00ea0c5..12a3cbe 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -558,6 +558,9 @@ class GaLatexPrinter(LatexPrinter):
                 (1, self._print(Pow(expr.base, -expr.exp)))
         else:
             if expr.base.is_Function:
+                if self._settings['fold_func_brackets']:
+                    # without brackets the exponent would read as that of the argument
+                    return self._print(expr.base, exp=self._print(expr.exp))
                 return r"{%s}^{%s}" % (self._print(expr.base), self._print(expr.exp))
             else:
                 if expr.is_commutative and expr.exp == -1:
-- 
2.43.0


From 81aee3f08851a7a643873f5f024d63331454f528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 71/83] fix: text form of an unevaluated derivative of a sum,
 product or power lost its brackets

---
 galgebra/printer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 12a3cbe..2c867b2 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -91,6 +91,7 @@ from collections import ChainMap
 
 from sympy import MatrixBase, Basic, S, Symbol, Function, Derivative, Pow
 from sympy.printing.str import StrPrinter
+from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.conventions import split_super_sub
 from sympy.printing.latex import (
     LatexPrinter, accepted_latex_functions, other_symbols
@@ -341,7 +342,8 @@ class GaPrinter(StrPrinter):
             s += '{' + str(x) + '}'
             if n > 1:
                 s += '^' + str(n)
-        s += str(self._print(function))
+        # brackets around a sum, product or power which is differentiated as a whole
+        s += str(self.parenthesize(function, PRECEDENCE['Pow']))
         return _apply_ansi_color(self._settings["derivative_color"], s)
 
     def _print_dict(self, expr):
-- 
2.43.0


From da6f2b5340a6815abe8bcb543b5aa3c2fe294672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 72/83] fix: xpdf evaluated what was typed at its prompt, so
 pressing return raised

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 2c867b2..c544810 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1041,7 +1041,7 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
         print(print_cmd)
 
         os.system(print_cmd)
-        eval(input('!!!!Return to continue!!!!\n'))
+        input('!!!!Return to continue!!!!\n')
 
         if debug:
             os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log')
-- 
2.43.0


From b912d8f40d338cbb246c59dcc6c9f555187e710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 73/83] fix: gxpdf passed its null redirection and file names
 with a trailing space to programs, so temporary files were left behind

---
 galgebra/gprinter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index e1d42c2..d883cd9 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -238,7 +238,7 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
             # os.system(pdfprog + ' ' + filename[:-4])
         else:  # Works for Linux don't know about Windows
             if null:
-                subprocess.call([pdfprog, tex_filename, sys_cmd['null']])
+                subprocess.call([pdfprog, tex_filename], stdout=subprocess.DEVNULL)
             else:
                 subprocess.call([pdfprog, tex_filename])
             # os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
@@ -250,9 +250,9 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
 
         if rm:
             if debug:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log'])
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log'])
             else:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log ', rootfilename+'.tex'])
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log', rootfilename+'.tex'])
         if crop:
             subprocess.call(['pdfcrop', pdf_filename])
             subprocess.call(['rm', pdf_filename])
-- 
2.43.0


From f926a7476a4e0d68dc8bef92d562680bfc254bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 74/83] fix: basis vectors of different roots with the same
 index shared the coefficients of generic multivectors

---
 galgebra/ga.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 95b2c11..cc24b54 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1140,9 +1140,10 @@ class Ga(metric.Metric):
             base0 = str(self.basis[0])
             if '_' in base0:
                 sub_index = base0.index('_')
-                return [str(base)[sub_index + 1:] for base in self.basis]
-            else:
-                return [str(i + 1) for i in self.n_range]
+                scripts = [str(base)[sub_index + 1:] for base in self.basis]
+                if len(set(scripts) - {''}) == self.n:  # different roots can share or lack indexes
+                    return scripts
+            return [str(i + 1) for i in self.n_range]
         else:
             return [str(coord) for coord in self.coords]
 
-- 
2.43.0


From a24852a5485c3ca466e65f241c83c1c844325972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 75/83] fix: generic multivectors shared coefficients between
 blades whose joined index names coincide

---
 galgebra/ga.py | 11 +++++++++++
 galgebra/mv.py | 25 ++++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index cc24b54..6df2930 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1153,6 +1153,17 @@ class Ga(metric.Metric):
             self.basis_super_scripts[i] for i in base_index
         ))
 
+    def _coef_super_scripts(self, grades) -> Dict[int, List[str]]:
+        """ Superscripts for the coefficients of a generic multivector of the given grades """
+        scripts = {grade: self.blade_super_scripts[grade] for grade in grades}
+        flat = [script for grade in grades for script in scripts[grade]]
+        if len(set(flat)) != len(flat):  # e.g. for coordinates x, y and xy
+            scripts = {
+                grade: [','.join(self.basis_super_scripts[i] for i in index) for index in self.indexes[grade]]
+                for grade in grades
+            }
+        return scripts
+
     @_cached_property
     def mv_blades(self) -> GradedTuple[_mv.Mv]:
         """ :class:`mv.Mv` instances corresponding to :attr:`blades`. """
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 1ee6e66..0145576 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -188,17 +188,18 @@ class Mv(printer.GaPrintable):
         if isinstance(__name_or_coeffs, str):
             name = __name_or_coeffs
             f = kw.pop('f', False)
+            super_scripts = kw.pop('_super_scripts', None) or ga._coef_super_scripts([grade])
             kw.reject_remaining()
             if isinstance(f, bool):
                 if f:  # Is a multivector function of all coordinates
                     return sum([Function(add_superscript(name, super_script), real=True)(*ga.coords) * base
-                                for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                                for super_script, base in zip(super_scripts[grade], ga.blades[grade])])
                 else:  # Is a constant multivector function
                     return sum([Symbol(add_superscript(name, super_script), real=True) * base
-                                for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                                for super_script, base in zip(super_scripts[grade], ga.blades[grade])])
             else:  # Is a multivector function of tuple f variables
                 return sum([Function(add_superscript(name, super_script), real=True)(*f) * base
-                            for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                            for super_script, base in zip(super_scripts[grade], ga.blades[grade])])
         elif isinstance(__name_or_coeffs, (list, tuple)):
             coeffs = __name_or_coeffs
             kw.reject_remaining()
@@ -241,9 +242,11 @@ class Mv(printer.GaPrintable):
         """ Make a general (2**n components) multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
+        grades = range(ga.n + 1)
+        super_scripts = ga._coef_super_scripts(grades)
         return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(ga.n + 1)
+            Mv._make_grade(ga, __name, grade, _super_scripts=super_scripts, **kwargs)
+            for grade in grades
         ))
 
     # ## GSG code starts ###
@@ -252,9 +255,11 @@ class Mv(printer.GaPrintable):
         """ Make a general even multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
+        grades = range(0, ga.n + 1, 2)
+        super_scripts = ga._coef_super_scripts(grades)
         return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(0, ga.n + 1, 2)
+            Mv._make_grade(ga, __name, grade, _super_scripts=super_scripts, **kwargs)
+            for grade in grades
         ))
     # ## GSG code ends ###
 
@@ -263,9 +268,11 @@ class Mv(printer.GaPrintable):
         """ Make a general odd multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
+        grades = range(1, ga.n + 1, 2)
+        super_scripts = ga._coef_super_scripts(grades)
         return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(1, ga.n + 1, 2)
+            Mv._make_grade(ga, __name, grade, _super_scripts=super_scripts, **kwargs)
+            for grade in grades
         ), S.Zero)  # base case needed in case n == 0
 
     # aliases
-- 
2.43.0


From 89f780741f85fe5e5cc7f1b47c4a4e5e8b3c1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:44 +0000
Subject: [PATCH 76/83] fix: generic multilinear functions shared coefficients
 between components whose joined index names coincide

---
 galgebra/lt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index d2da42e..99e1004 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -838,13 +838,16 @@ class Mlt(printer.GaPrintable):
             self.nargs = nargs
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
-            for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs[:nargs])):
-                name = '{}_{}'.format(f, ''.join(map(str, t_index)))
+            t_indexes = list(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs))
+            sep = ''
+            if len({sep.join(t_index) for t_index in t_indexes}) != len(t_indexes):  # e.g. for coordinates x and xx
+                sep = ','
+            for t_index, a_prod in zip(t_indexes, itertools.product(*self.Ga._mlt_pdiffs[:nargs])):
+                name = '{}_{}'.format(f, sep.join(t_index))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
                 else:  # Constant Tensor
-                    coef = symbols(name, real=True)
+                    coef = Symbol(name, real=True)
                 self.fvalue += reduce(lambda x, y: x*y, a_prod, coef)
 
         else:
-- 
2.43.0


From 202140102221cfc78e5e5a2a579804c40d390d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 77/83] fix: LaTeX names of capital and variant Greek letters
 were written as products such as Th\eta

---
 galgebra/printer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index c544810..8aa5e7f 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -94,7 +94,7 @@ from sympy.printing.str import StrPrinter
 from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.conventions import split_super_sub
 from sympy.printing.latex import (
-    LatexPrinter, accepted_latex_functions, other_symbols
+    LatexPrinter, accepted_latex_functions, other_symbols, tex_greek_dictionary
 )
 from sympy.core.function import _coeff_isneg
 from sympy.core.operations import AssocOp
@@ -591,6 +591,12 @@ class GaLatexPrinter(LatexPrinter):
         def str_symbol(name_str):
 
             def translate(s):
+                # names such as `Theta` and `varphi` contain the names of other letters
+                if s in tex_greek_dictionary:
+                    return tex_greek_dictionary[s] + ' '
+                if s not in greeks and s == s.capitalize() and s.lower() in greeks:
+                    return '\\' + s + ' '
+
                 tmp = s
 
                 parse_dict = {}
-- 
2.43.0


From 43b90cbc8b7215534360a61e7c10176f934bb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 78/83] fix: differential operators with coefficients in base
 representation could not be printed or decomposed

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 0145576..bc9445e 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1892,7 +1892,7 @@ class Dop(dop._BaseDop):
 
         for coef, pdiff in self.terms:
             if isinstance(coef, Mv) and not coef.is_scalar():
-                for mv_coef, mv_base in metric.linear_expand_terms(coef.obj):
+                for mv_coef, mv_base in metric.linear_expand_terms(coef.blade_rep().obj):
                     if mv_base in bases:
                         index = bases.index(mv_base)
                         coefs[index] += dop.Sdop([(mv_coef, pdiff)])
-- 
2.43.0


From d6ad733e997de1853409c942ded07201b92ef32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:35 +0000
Subject: [PATCH 79/83] fix: derivatives of order zero were printed and
 compared as if they were taken

---
 galgebra/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 19f3226..045cdeb 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -325,7 +325,7 @@ class Pdop(_BaseDop):
             __arg = {}
 
         if isinstance(__arg, dict):  # Pdop defined by dictionary
-            self.pdiffs = __arg
+            self.pdiffs = {x: n for x, n in __arg.items() if n != 0}
         elif isinstance(__arg, Symbol):  # First order derivative with respect to symbol
             self.pdiffs = {__arg: 1}
         else:
-- 
2.43.0


From c16932cebc818a5f6d71f8b1c10c84af8dc3b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:24 +0000
Subject: [PATCH 80/83] fix: GaLatexPrinter.latex applies its settings to the
 elements of a list

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 8aa5e7f..d3f3e23 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -782,7 +782,7 @@ class GaLatexPrinter(LatexPrinter):
         else:
             s = '\\begin{align*}'
             for x in expr:
-                s += '\n & ' + latex(x) + ' \\\\'
+                s += '\n & ' + latex(x, **settings) + ' \\\\'
             s += '\n\\end{align*}'
             return s
 
-- 
2.43.0


From ba49eb8109fe1c374c964c6695405d5ad80405cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:24 +0000
Subject: [PATCH 81/83] fix: a negative number is no signature hint

---
 galgebra/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 5b4662b..2646d47 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -663,11 +663,11 @@ class Metric(object):
                 self.sig = (p, q)
                 return
         if isinstance(self.sig, int):  # General signature
-            if self.sig <= self.n:
+            if 0 <= self.sig <= self.n:
                 self.sig = (self.sig, self.n - self.sig)
                 return
             else:
-                raise ValueError('self.sig = ' + str(self.sig) + ' > self.n, not an allowed hint')
+                raise ValueError('self.sig = ' + str(self.sig) + ' is not in 0, ..., self.n, not an allowed hint')
         if isinstance(self.sig, str):
             if self.sig == 'e':  # Euclidean metric signature
                 self.sig = (self.n, 0)
-- 
2.43.0


From be8a50381d0c938625c50750246f11fb65297db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 82/83] fix: GAeval split numbers with a signed exponent such
 as 1e-3

---
 galgebra/_utils/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d215ae6..8f34cf8 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -4,8 +4,10 @@ from typing import List
 
 
 # The `#` character is included because we generate tokens containing it in
-# _parse_paren. Signs, `~` and `**` bind tighter than the operators below.
-_operand_re = r"~*[\w.#]+(?:\*\*[-+~]*[\w.#]+)*"
+# _parse_paren. Signs, `~` and `**` bind tighter than the operators below. The
+# sign in a number like `1e-3` is part of the number.
+_atom_re = r"(?:(?<![\w.#])(?:\d[\d_]*\.?[\d_]*|\.\d[\d_]*)[eE][-+]\d[\d_]*|[\w.#]+)"
+_operand_re = r"~*ATOM(?:\*\*[-+~]*ATOM)*".replace('ATOM', _atom_re)
 
 _operator_res = {
     '<>|': re.compile(r'ARG(?:[<>|][-+]*ARG)+'.replace('ARG', _operand_re)),
-- 
2.43.0


From c419f137f15505fbca72efbf39f5e2cb2e381b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 83/83] fix: gprint in a notebook broke a line at every @

---
 galgebra/gprinter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d883cd9..6aa064b 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -153,7 +153,7 @@ def gprint(*xargs):
         if isinstance(xi, str):
             if r'\\' in xi and i > 0:
                 if isinteractive():
-                    xi_rep = xi.replace(r'\\', r'\end{equation*}@\begin{equation*} ')
+                    xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\0'+r'\begin{equation*} ')
                 else:
                     xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\n'+r'\begin{equation*} ')
                 new_eq_flg = True
@@ -178,8 +178,8 @@ def gprint(*xargs):
     if LaTeX.latex_flg:
         if isinteractive():
             lstr = fstr
-            if '@' in lstr:
-                lines = lstr.split('@')
+            if '\0' in lstr:
+                lines = lstr.split('\0')
                 lines[0] = r'\begin{equation*} '+lines[0]
                 lines[-1] += r'\end{equation*}'
                 for line in lines:
-- 
2.43.0

