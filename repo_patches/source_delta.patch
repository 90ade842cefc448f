From 5e75b82ba1cd54edc98bd8c734bc2248492c172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 01/50] fix: convert base-representation multivectors before
 grade, scalar and coefficient queries

---
 galgebra/ga.py |  8 ++++----
 galgebra/mv.py | 29 +++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..d6121e8 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,7 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
+            A = A.blade_rep()
             A.characterise_Mv()
             Aobj = expand(A.obj)
         else:
@@ -1680,7 +1680,7 @@ class Ga(metric.Metric):
         non-commutative part :math:`A'` so that :math:`A = a+A'`
         """
         if isinstance(A, mv.Mv):
-            return self.split_multivector(A.obj)
+            return self.split_multivector(A.blade_rep().obj)
         else:
             A = expand(A)
             if isinstance(A, Add):
@@ -1703,7 +1703,7 @@ class Ga(metric.Metric):
         Return non-commutative part (sympy object) of ``A.obj``.
         """
         if isinstance(A, mv.Mv):
-            return self.remove_scalar_part(A.obj)
+            return self.remove_scalar_part(A.blade_rep().obj)
         else:
             if isinstance(A, Add):
                 A = expand(A)
@@ -1722,7 +1722,7 @@ class Ga(metric.Metric):
     def scalar_part(self, A: _MaybeMv) -> Union[Expr, int]:
 
         if isinstance(A, mv.Mv):
-            return self.scalar_part(A.obj)
+            return self.scalar_part(A.blade_rep().obj)
         else:
             A = expand(A)
             if isinstance(A, Add):
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..fd17ce8 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -417,6 +417,8 @@ class Mv(printer.GaPrintable):
             blade_qform = blade.qform()
             if blade_qform == ZERO:
                 raise ValueError(str(blade) + ' is a null blade; cannot reflect in a null blade')
+            self = self.blade_rep()
+            blade = blade.blade_rep()
             self.characterise_Mv()
             blade.characterise_Mv()
             blade_inv = blade.rev() / blade_qform  # ### GSG replaced .norm2() by .qform()
@@ -467,9 +469,13 @@ class Mv(printer.GaPrintable):
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
         b.is_blade_rep = True
+        # the grades are not known from the base representation
+        b.char_Mv = False
+        b.characterise_Mv()
         return b
 
     def __hash__(self) -> int:
+        self = self.blade_rep()
         if self.is_scalar():
             # ensure we match equality
             return hash(self.obj)
@@ -918,10 +924,12 @@ class Mv(printer.GaPrintable):
         return Mv(obj, ga=self.Ga)
 
     def is_scalar(self) -> bool:
+        self = self.blade_rep()
         grades = self.Ga.grades(self.obj)
         return grades == [0]
 
     def is_vector(self) -> bool:
+        self = self.blade_rep()
         grades = self.Ga.grades(self.obj)
         return grades == [1]
 
@@ -950,6 +958,9 @@ class Mv(printer.GaPrintable):
         """
         if self.blade_flg is not None:
             return self.blade_flg
+        if not self.is_blade_rep:
+            self.blade_flg = self.blade_rep().is_blade()
+            return self.blade_flg
         self.characterise_Mv()
         # Not grade-homogeneous → not a blade
         if self.i_grade is None:
@@ -973,6 +984,7 @@ class Mv(printer.GaPrintable):
         return self.blade_flg
 
     def is_base(self) -> bool:
+        self = self.blade_rep()
         coefs, _bases = metric.linear_expand(self.obj)
         return coefs == [S.One]
 
@@ -1030,13 +1042,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
+        self = self.blade_rep()
         cb = metric.linear_expand_terms(self.obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
@@ -1051,6 +1064,7 @@ class Mv(printer.GaPrintable):
         ValueError:
             If the multivector is not of the given grade.
         """
+        self = self.blade_rep()
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
         for coef, blade in metric.linear_expand_terms(self.obj):
@@ -1079,7 +1093,8 @@ class Mv(printer.GaPrintable):
             for blade in blade_lst:
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
-        blade_lst = [x.obj for x in blade_lst]
+        self = self.blade_rep()
+        blade_lst = [x.blade_rep().obj for x in blade_lst]
         coefs, bases = metric.linear_expand(self.obj)
         coef_lst = []
         for blade in blade_lst:
@@ -1094,7 +1109,8 @@ class Mv(printer.GaPrintable):
         Project multivector onto a given list of bases.  That is find the
         part of multivector with the same bases as in the bases_lst.
         """
-        bases_lst = [x.obj for x in bases_lst]
+        self = self.blade_rep()
+        bases_lst = [x.blade_rep().obj for x in bases_lst]
         obj = 0
         for coef, base in metric.linear_expand_terms(self.obj):
             if base in bases_lst:
@@ -1126,11 +1142,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
@@ -1535,6 +1551,7 @@ class Mv(printer.GaPrintable):
         For pure grade return grade.  If not pure grade return negative
         of maximum grade
         """
+        self = self.blade_rep()
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-- 
2.43.0


From ac279756734b9839bb6ae9c4f5995f0aa2345431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 02/50] fix: remove_scalar_part of an unexpanded product
 dropped nothing

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index d6121e8..b2d9a39 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1705,8 +1705,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.blade_rep().obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From 020ce5ce2a92485eb49f4253d75cb76316e53358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 03/50] fix: pure_grade returns the negative of the maximum
 grade for mixed grades

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index fd17ce8..890fde7 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1555,7 +1555,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 7ab37cbe3ce1a807c32c3bc5a0c1470552bb6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 04/50] fix: set_coef forgets the cached grade, blade and
 versor flags of the old value

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 890fde7..163cd8c 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1286,7 +1286,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep or self.Ga.is_ortho:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1296,6 +1296,11 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # what was known about the old value no longer holds
+        self.blade_flg = None
+        self.versor_flg = None
+        self.char_Mv = False
+        self.characterise_Mv()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From ffa15a3026ba219f8bc5d13269980ad4e843c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 05/50] fix: collect(deep=True) called sympy.collect without
 symbols and raised TypeError

---
 galgebra/mv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 163cd8c..387eb0d 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -11,7 +11,7 @@ from typing import List, Any, Tuple, Union, TYPE_CHECKING
 from sympy import (
     Symbol, Function, S, expand, Add,
     sin, cos, sinh, cosh, sqrt, trigsimp,
-    simplify, diff, Expr, Abs, collect, SympifyError,
+    simplify, diff, Expr, Abs, collect, SympifyError, default_sort_key,
 )
 from sympy import exp as sympy_exp
 from sympy import N as Nsympy
@@ -918,7 +918,8 @@ class Mv(printer.GaPrintable):
         obj = S.Zero
         for base in list(obj_dict.keys()):
             if deep:
-                obj += collect(obj_dict[base])*base
+                coef = obj_dict[base]
+                obj += collect(coef, sorted(coef.free_symbols, key=default_sort_key))*base
             else:
                 obj += obj_dict[base]*base
         return Mv(obj, ga=self.Ga)
-- 
2.43.0


From 4cf06e6b4ada6abfb0ee0929db26e68c857b06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 06/50] fix: shirokov_inverse uses exact rationals instead of
 floats

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 387eb0d..5bfaf4e 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1451,7 +1451,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = Uk.scalar() * N / S(k)
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From 82910dce4b8d7b0b3089fd8964dbc6327b0ce519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 07/50] fix: is_zero recognises an unexpanded zero such as A -
 A

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5bfaf4e..335b2c4 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1039,7 +1039,7 @@ class Mv(printer.GaPrintable):
     '''
 
     def is_zero(self) -> bool:
-        return self.obj == 0
+        return expand(self.obj) == 0
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-- 
2.43.0


From cb5194806b315162230aaea3e5912575531695ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 08/50] fix: Mv == scalar and hash compare values, not
 unexpanded expressions

---
 galgebra/mv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 335b2c4..91dff81 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -478,17 +478,21 @@ class Mv(printer.GaPrintable):
         self = self.blade_rep()
         if self.is_scalar():
             # ensure we match equality
-            return hash(self.obj)
+            return hash(self.scalar())
         else:
-            return hash((self.Ga, self.obj))
+            return hash((self.Ga, expand(self.obj)))
 
     def __eq__(self, A):
         if isinstance(A, Mv):
             diff = (self - A).expand().simplify()
             # diff = (self - A).expand()
             return diff.obj == S.Zero
+        elif not self.is_scalar():
+            return False
+        elif isinstance(A, (Expr, numbers.Number)):
+            return simplify(expand(self.obj - A)) == S.Zero
         else:
-            return self.is_scalar() and self.obj == A
+            return self.obj == A
 
     """
     def __eq__(self, A):
-- 
2.43.0


From a0d455a07e73896b07909f3d6bf991a698f9cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 09/50] fix: Mv.diff and pdiff failed on curvilinear algebras,
 and pDiff ignored that products of basis vectors vary

---
 galgebra/ga.py | 3 +++
 galgebra/mv.py | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b2d9a39..04174fc 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2040,6 +2040,9 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
+        if isinstance(A, mv.Mv):
+            A = A.blade_rep()  # products of basis vectors are also functions of the coordinates
+
         dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
 
         if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 91dff81..5de26dc 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1211,15 +1211,15 @@ class Mv(printer.GaPrintable):
                 for x_coord in self.Ga.coords:
                     f = self.Ga.par_coords[x_coord]
                     if f != S.Zero:
-                        tmp1 = self.Ga.pDiff(self.obj, x_coord)
+                        tmp1 = self.Ga.pDiff(self, x_coord)
                         tmp2 = diff(f, coord)
                         obj += tmp1 * tmp2
         else:
-            obj = self.Ga.pDiff(self.obj, coord)
+            obj = self.Ga.pDiff(self, coord)
         return Mv(obj, ga=self.Ga)
 
     def pdiff(self, var) -> 'Mv':
-        return Mv(self.Ga.pDiff(self.obj, var), ga=self.Ga)
+        return Mv(self.Ga.pDiff(self, var), ga=self.Ga)
 
     def Grad(self, coords, mode: str = '*', left: bool = True) -> 'Mv':
         """
-- 
2.43.0


From 13b2ad45ed05e1eebba3d3904c2d2238f4f193ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 10/50] fix: reciprocal symbols of basis names without
 underscore coincided with the basis symbols

---
 galgebra/metric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..14b8786 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -737,6 +737,13 @@ class Metric(object):
             else:
                 raise ValueError('for basis "' + basis + '" coords must be entered')
 
+        # A basis name without '_' has no superscripted form, but its
+        # reciprocal symbol must not be the basis symbol itself
+        self.r_symbols = [
+            BasisVectorSymbol(r.name + '__') if r in self.basis else r
+            for r in self.r_symbols
+        ]
+
         if self.debug:
             printer.oprint('e_{i}', self.basis, 'e^{i}', self.r_symbols)
         self.n = len(self.basis)
-- 
2.43.0


From 5457d463de29e8a62e4332ed9ad851357b1d0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 11/50] fix: normalisation failed for rational squared lengths,
 and Metric.g_inv called the metric matrix

---
 galgebra/metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 14b8786..8a90f1d 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -159,7 +159,8 @@ def square_root_of_expr(expr, hint='0'):
         return sqrt(abs_with_hint(expr, hint))
     else:
         expr = trigsimp(expr)
-        coef, pow_lst = sqf_list(expr)
+        coef, numer, denom = sqf_list(expr, frac=True)
+        pow_lst = numer + [(f, -n) for f, n in denom]
         if coef != S.One:
             if coef.is_number:
                 coef = square_root_of_expr(coef)
@@ -530,7 +531,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From 9fdc482d0045d132ded8e1c38e034e0f58d7c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 12/50] fix: normalizing the basis overwrote the metric matrix
 passed by the caller

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 8a90f1d..9225ab7 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -796,7 +796,7 @@ class Metric(object):
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
                 if isinstance(g, Matrix):
-                    self.g = g
+                    self.g = g.copy()  # normalization must not change the caller's matrix
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From d49a0b943154c8add286916ccf96c0edcee9b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 13/50] fix: derivatives by a symbol other than a coordinate
 failed on curvilinear algebras

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 04174fc..f0aee04 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2045,7 +2045,7 @@ class Ga(metric.Metric):
 
         dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
+        if self.connect_flg and coord in self.coords and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(A)
             if B != S.Zero:
                 if isinstance(B, Add):
-- 
2.43.0


From f7c1656788cda8192806f1188626233d01991c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 14/50] fix: Mlt.pdiff and contract differentiated with respect
 to the coordinates instead of the slot

---
 galgebra/lt.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..b95d7c1 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -927,8 +927,7 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        return self.Ga.make_grad(self.Ga._mlt_a[slot - 1]) * self.Ga.mv(self.fvalue)
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -952,11 +951,9 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
+        grad_self = self.pdiff(min_slot)
         grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        div_grad_self = self.Ga.make_grad(self.Ga._mlt_a[max_slot - 2]) | self.Ga.mv(grad_self)
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
         return Mlt(div_grad_self, self.Ga, cnargs)
 
-- 
2.43.0


From d5b77653b91437a2a660d11ca9703ec4d13ab742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 15/50] fix: Mlt from a name used slots left over from tensors
 of higher rank

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index b95d7c1..d138af4 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -828,7 +828,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:self.nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From d7ed9a13306cc20feee8fff9a9b0c67cb21f5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 16/50] fix: Dop.TSimplify failed on multivector coefficients
 and lost the complement flag

---
 galgebra/mv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5de26dc..69602d5 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1830,8 +1830,9 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (Mv(metric.Simp.apply(coef.obj), ga=self.Ga), pdiff)
+            for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
-- 
2.43.0


From 800d491817eb870e7196936144e7901a193fd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 17/50] fix: components of a left-acting Dop lost the
 complement flag

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 69602d5..c7a27bb 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1883,7 +1883,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From 1f77391771e93d299428b8d003e755abd298982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 18/50] fix: comparing Dops with different complement flags
 raised

---
 galgebra/mv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index c7a27bb..3a1f593 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1869,6 +1869,10 @@ class Dop(dop._BaseDop):
         if isinstance(other, Dop):
             if self.Ga != other.Ga:
                 return NotImplemented
+            if self.cmpflg != other.cmpflg:
+                # only the zero operator acts the same on both sides
+                return (len(self.consolidate_coefs().terms) == 0
+                        and len(other.consolidate_coefs().terms) == 0)
 
             diff = self - other
             return len(diff.terms) == 0
-- 
2.43.0


From a6ab9f3113c9efb5ba40e08f351b233e32578b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 19/50] fix: Dop expansion failed for coefficients in the base
 representation

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 3a1f593..306c966 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1898,7 +1898,7 @@ class Dop(dop._BaseDop):
 
         for coef, pdiff in self.terms:
             if isinstance(coef, Mv) and not coef.is_scalar():
-                for mv_coef, mv_base in metric.linear_expand_terms(coef.obj):
+                for mv_coef, mv_base in metric.linear_expand_terms(coef.blade_rep().obj):
                     if mv_base in bases:
                         index = bases.index(mv_base)
                         coefs[index] += dop.Sdop([(mv_coef, pdiff)])
-- 
2.43.0


From 1d7a8de208b95ca1dbd8cc2db13835081aae5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 20/50] fix: Lt left multivectors in the base representation
 unchanged

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index d138af4..848c34c 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -427,7 +427,7 @@ class Lt(printer.GaPrintable):
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From 9637680c6f3ba35dba9869a12d8be5f27112ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 21/50] fix: versor based Lt could not be a left summand

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 848c34c..88db754 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -341,7 +341,7 @@ class Lt(printer.GaPrintable):
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From ea400e335688745ca1659e9d71c7ddfe729c72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 22/50] fix: trace of a coordinate dependent Lt, or in a
 normalized, coordinate free or degenerate basis

---
 galgebra/lt.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 88db754..7b7e385 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -508,12 +508,13 @@ class Lt(printer.GaPrintable):
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        if self.Ga.e_sq == S.Zero:  # no reciprocal basis in a degenerate algebra
+            return self.matrix().trace()
+        # the divergence is with respect to `a`, not to the coordinates
+        tr_F = self.Ga.mv(S.Zero)
+        for e_i, r_i in zip(self.Ga.basis, self.Ga.mvr()):
+            tr_F += r_i | mv.Mv(self(e_i, obj=True), ga=self.Ga)
+        return tr_F.scalar()
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From bc4c7c3659fede6a6ac520030160871b85611849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 23/50] fix: Lt from a dictionary with multivector values or
 missing basis vectors

---
 galgebra/lt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 7b7e385..dcd8d19 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -306,8 +306,11 @@ class Lt(printer.GaPrintable):
         self.Vqform = None
 
         if isinstance(mat_rep, dict):         # Dictionary input
+            for base in self.Ga.basis:        # omitted basis vectors map to zero
+                self.lt_dict[base] = S.Zero
             for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+                image = mat_rep[key]
+                self.lt_dict[key] = sym(image) if isinstance(image, mv.Mv) else image
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 23d443f126f640beedd0c93e8fe37884e655cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 24/50] fix: determinant and singularity of an Lt in a
 degenerate algebra

---
 galgebra/lt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index dcd8d19..4dc42f8 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -502,6 +502,8 @@ class Lt(printer.GaPrintable):
           basis blade for the pseudoscalar grade space.
         - Expression returned is a real SymPy scalar, not a GAlgebra 0-vector.
         """
+        if self.Ga.e_sq == S.Zero:  # the coefficient of E, which has no inverse here
+            return expand(self(self.Ga.e).get_coefs(self.Ga.n)[0])
         return (self(self.Ga.e) * self.Ga.e.inv()).scalar()
     # ## GSG code ends ###
 
@@ -554,8 +556,7 @@ class Lt(printer.GaPrintable):
     # ## GSG code starts ###
     def is_singular(self):
         """Returns `True` if and only if  linear transformation `self` is singular."""
-        E = self.Ga.E()
-        return simplify((self(E) < E.inv()).scalar()) == S.Zero
+        return simplify(self.det()) == S.Zero
     # ## GSG code ends
 
     # ## GSG code starts ###
-- 
2.43.0


From f01e56e716e76198027f8cdf256c9bc2a253aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 25/50] fix: transformations replaced the basis vectors inside
 symbolic dot products

---
 galgebra/atoms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/galgebra/atoms.py b/galgebra/atoms.py
index 56fa721..8203c18 100644
--- a/galgebra/atoms.py
+++ b/galgebra/atoms.py
@@ -129,6 +129,12 @@ class DotProductSymbol(AtomicExpr):
     """ A symbol used to represent a dot product, like :class:`sympy.DotProduct` """
     is_real = True
 
+    def _xreplace(self, rule):
+        # this is a scalar: replacing basis vectors around it must not touch it
+        if self in rule:
+            return rule[self], True
+        return self, False
+
     def _sympystr(self, printer):
         a, b = self.args
         return "({}.{})".format(printer._print(a), printer._print(b))
-- 
2.43.0


From 057161b19dbd72a7f1546c5027fde724061b309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 26/50] fix: Mlt calls scaled the components by the metric
 determinant in oblique bases

---
 galgebra/lt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 4dc42f8..8ec246d 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -868,8 +868,10 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
-                    sub_lst.append((aij, (r_base | x).scalar()))
+                # the coefficients of x in the basis (`r_basis_mv` is not
+                # normalized, and is not suitable for extracting them)
+                x_coefs = self.Ga.mv(x).blade_coefs(self.Ga.mv())
+                sub_lst.extend(zip(ai, x_coefs))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
     def __add__(self, X):
-- 
2.43.0


From 1b3b48fb87b0e26368fcd58a4a429bfc1d59bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 27/50] fix: sums and products of vector valued Mlts were taken
 for the linear form f | a1

---
 galgebra/lt.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 8ec246d..fa0f4ef 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -856,6 +856,15 @@ class Mlt(printer.GaPrintable):
                 Mlt.increment_slots(nargs, Ga)
                 self.fvalue = f
 
+    @staticmethod
+    def _from_value(value, Ga, nargs):
+        # Mlt with a value that is already expressed in terms of the slots.
+        # In the constructor a vector value would be taken for the vector
+        # that defines the linear form f | a1.
+        T = Mlt(S.Zero, Ga, nargs)
+        T.fvalue = value
+        return T
+
     def __call__(self, *args):
         """
         Evaluate the multilinear function for the given vector arguments.
@@ -877,7 +886,7 @@ class Mlt(printer.GaPrintable):
     def __add__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
+                return Mlt._from_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt add number of args not the same\n')
         else:
@@ -886,7 +895,7 @@ class Mlt(printer.GaPrintable):
     def __sub__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
+                return Mlt._from_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt sub number of args not the same\n')
         else:
@@ -899,32 +908,32 @@ class Mlt(printer.GaPrintable):
             self_args = self.Ga._mlt_a[:self.nargs]
             X_args = X.Ga._mlt_a[self.nargs:nargs]
             value = (self(*self_args) * X(*X_args)).expand()
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._from_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def dd(self):
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         dd_fvalue = (self.Ga._mlt_a[self.nargs] | self.Ga.grad) * self.fvalue
-        return Mlt(dd_fvalue, self.Ga, self.nargs + 1)
+        return Mlt._from_value(dd_fvalue, self.Ga, self.nargs + 1)
 
     def pdiff(self, slot: int):
         r"""
@@ -962,7 +971,7 @@ class Mlt(printer.GaPrintable):
         grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
         div_grad_self = self.Ga.make_grad(self.Ga._mlt_a[max_slot - 2]) | self.Ga.mv(grad_self)
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
-        return Mlt(div_grad_self, self.Ga, cnargs)
+        return Mlt._from_value(div_grad_self, self.Ga, cnargs)
 
     def cderiv(self):
         """
@@ -974,17 +983,16 @@ class Mlt(printer.GaPrintable):
         """
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         agrad = self.Ga._mlt_a[self.nargs] | self.Ga.grad
-        CD = Mlt((agrad * self.Ga.mv(self.fvalue)).obj, self.Ga, self.nargs + 1)
-        if CD != 0:
-            CD = CD.fvalue
+        CD = agrad * self.Ga.mv(self.fvalue)
+        if CD.is_scalar():
+            CD = CD.obj
         for i in range(self.nargs):
             args = self.Ga._mlt_a[:self.nargs]
             tmp = agrad * self.Ga._mlt_a[i]
             if tmp.obj != 0:
                 args[i] = tmp
                 CD = CD - self(*args)
-        CD = Mlt(CD, self.Ga, self.nargs + 1)
-        return CD
+        return Mlt._from_value(CD, self.Ga, self.nargs + 1)
 
     def expand(self):
         self.fvalue = expand(self.fvalue)
-- 
2.43.0


From 7b7f7a62200925393811da2a1bad0017a6a07343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 28/50] fix: Mlt.expand failed for tensors given by functions

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index fa0f4ef..f293b4a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -995,7 +995,7 @@ class Mlt(printer.GaPrintable):
         return Mlt._from_value(CD, self.Ga, self.nargs + 1)
 
     def expand(self):
-        self.fvalue = expand(self.fvalue)
+        self.fvalue = self.fvalue.expand()
         return self
 
     def comps(self):
-- 
2.43.0


From 510fc649d6e4765fc4e00e817d2963b1c5fae0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 29/50] fix: LaTeX printing of a Mlt given by a function, or
 with a single term

---
 galgebra/lt.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index f293b4a..c19ac9b 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -11,7 +11,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -711,9 +711,12 @@ class Mlt(printer.GaPrintable):
         return print_obj._print(self.fvalue)
 
     def _latex(self, print_obj):
-        if self.nargs <= 1:
-            return print_obj._print(self.fvalue)
-        expr_lst = Mlt.expand_expr(self.fvalue, self.Ga)
+        fvalue = self.fvalue
+        if isinstance(fvalue, mv.Mv) and fvalue.is_scalar():
+            fvalue = fvalue.scalar()
+        if self.nargs <= 1 or isinstance(fvalue, mv.Mv) or fvalue == S.Zero:
+            return print_obj._print(fvalue)
+        expr_lst = Mlt.expand_expr(fvalue, self.Ga)
         latex_str = '\\begin{aligned} '
         first = True
         lcnt = print_obj._settings['galgebra_mlt_lcnt']
@@ -774,10 +777,10 @@ class Mlt(printer.GaPrintable):
     def expand_expr(expr, ga):
         lst_expr = []
         expr = expand(expr)
-        for term in expr.args:
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
-- 
2.43.0


From 2c7e2dc8f0a2eac5f165f2fa6c0bde90a1317a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 30/50] fix: GAeval lost parentheses and operator precedence in
 sums and chains of products

---
 galgebra/_utils/parser.py | 290 ++++++++++++++++++--------------------
 1 file changed, 136 insertions(+), 154 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..5333c37 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -3,166 +3,148 @@ import re
 from typing import List
 
 
-# The `#` character is included because we generate tokens containing it in
-# _parse_paren.
-_operand_re = r"([A-Za-z0-9\_\#]+)"
-
-_operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
-    '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
-    '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
+# The groups of operators of equal precedence
+_operator_groups = {
+    '<>|': ('<', '>', '|'),
+    '^': ('^',),
+    # `/` is not a product of multivectors, but associates with `*`
+    '*': ('*', '/'),
 }
 
-
-def _contains_interval(interval1, interval2):  # interval1 inside interval2
-    if interval1[0] > interval2[0] and interval1[1] < interval2[1]:
-        return True
-    else:
-        return False
-
-
-# counter to generate unique tokens
-_parse_paren_calls = 0
-
-
-def _parse_paren(line):
-    global _parse_paren_calls
-    _parse_paren_calls += 1
-
-    if ('(' not in line) or (')' not in line):
-        return [[[line]]]
-    level = 0
-    max_level = 0
-    ich = 0
-    paren_lst = []
-    for ch in line:
-        if ch == '(':
-            level += 1
-            paren_lst.append([level, ich])
-        if ch == ')':
-            if level < 1:
-                raise ValueError('Mismathed Parenthesis in: ' + line + '\n')
-            paren_lst.reverse()
-            iparen = 0
-            for elem in paren_lst:
-                if elem[0] == level:
-                    paren_lst[iparen].append(ich)
-                    break
-                iparen += 1
-            paren_lst.reverse()
-            level -= 1
-        max_level = max(max_level, level)
-        ich += 1
-    if level != 0:
-        raise ValueError('Mismatched Parenthesis in: ' + line + '\n')
-    if max_level > 0:
-        level_lst = []
-        for _x in range(max_level + 1):
-            level_lst.append([])
-        for group in paren_lst:
-            level_lst[group[0]].append(group[1:])
-        ilevel = max_level
-        while ilevel > 1:
-            level = level_lst[ilevel]
-            level_down = level_lst[ilevel - 1]
-            igroup = 0
-            for group in level:
-                igroup_down = 0
-                for group_down in level_down:
-                    if _contains_interval(group, group_down):
-                        level_lst[ilevel][igroup].append(igroup_down)
-                    igroup_down += 1
-                igroup += 1
-            ilevel -= 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                token = '#' + str(_parse_paren_calls) + '_' + str(ilevel) + '_' + str(igroup) + '#'
-                level_lst[ilevel][igroup].append(line[group[0]:group[1] + 1])
-                level_lst[ilevel][igroup].append(token)
-                igroup += 1
-            ilevel += 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                group.append(group[-2])
-                level_lst[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        ilevel = max_level
-        while ilevel > 1:
-            igroup = 0
-            for group in level_lst[ilevel]:
-                group_down = level_lst[ilevel - 1][group[2]]
-                replace_text = group_down[-1].replace(group[-3], group[-2])
-                level_lst[ilevel - 1][group[2]][-1] = replace_text
-                igroup += 1
-            ilevel -= 1
-        for group in level_lst[1]:
-            line = line.replace(group[2], group[3])
-        ilevel = 1
-        level_lst[0] = [[line]]
-    return level_lst
-
-
-def _unparse_paren(level_lst):
-    line = level_lst[0][0][0]
-    for level in level_lst[1:]:
-        for group in level:
-            new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
-                new_string = new_string[1:-1]
-            line = line.replace(group[-2], new_string)
-    return line
-
-
-def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
-
-
-def _add_paren(line, re_exprs):
-    paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
-        paren_flg = True
-        line = line[1:-1]
-    if ('(' in line) or (')' in line):
-        line_levels = _parse_paren(line)
-        ilevel = 0
-        for level in line_levels:
-            igroup = 0
-            for group in level:
-                group[-1] = re.sub(re_exprs, _sub_paren, group[-1])
-                line_levels[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        line = _unparse_paren(line_levels)
-    else:
-        line = re.sub(re_exprs, _sub_paren, line)
-    if paren_flg:
-        line = '(' + line + ')'
-    return line
+_token_re = re.compile(r"""
+      (?P<space>\s+)
+    | (?P<number>(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?[A-Za-z_0-9]*)
+    | (?P<name>[A-Za-z_]\w*)
+    | (?P<string>'[^']*'|"[^"]*")
+    | (?P<power>\*\*)
+    | (?P<other><<|>>|<=|>=|==|!=|//|->|:=)
+    | (?P<product>[*/^|<>])
+    | (?P<sign>[-+])
+    | (?P<invert>~)
+    | (?P<open>[(\[{])
+    | (?P<close>[)\]}])
+    | (?P<dot>\.)
+    | (?P<else>.)
+""", re.VERBOSE)
+
+_closing = {'(': ')', '[': ']', '{': '}'}
+
+_keywords = frozenset(['and', 'or', 'not', 'if', 'else', 'for', 'in', 'is', 'lambda'])
+
+
+class _Parser:
+    """
+    Adds parentheses to the products in a line.
+
+    A line is seen as operands with products between them; anything else (sums,
+    commas, comparisons ...) separates sequences of products, and is copied.
+    """
+    def __init__(self, line: str, op_order: List[str]):
+        self.line = line
+        self.op_order = op_order
+        self.tokens = [
+            (m.lastgroup if m.lastgroup else 'else', m.group(0))
+            for m in _token_re.finditer(line) if m.lastgroup != 'space'
+        ]
+        self.pos = 0
+        # if the last text is a parenthesis that was added
+        self.added = False
+
+    def mismatched(self):
+        return ValueError('Mismatched Parenthesis in: ' + self.line + '\n')
+
+    def peek(self):
+        if self.pos < len(self.tokens):
+            kind, text = self.tokens[self.pos]
+            return ('else' if kind == 'name' and text in _keywords else kind), text
+        return 'end', ''
+
+    def next(self):
+        token = self.peek()
+        self.pos += 1
+        return token
+
+    def expression(self) -> List[str]:
+        """ The parts of an expression, up to the end or a closing parenthesis """
+        parts = []
+        while self.peek()[0] not in ('end', 'close'):
+            if self.peek()[0] in ('number', 'name', 'string', 'open', 'invert', 'dot'):
+                parts.append(self.products())
+            else:
+                text = self.next()[1]
+                self.added = False
+                parts.append(' ' + text + ' ' if text in _keywords else text)
+        return parts
+
+    def operand(self) -> str:
+        """ A name, number or parenthesis, with its calls, subscripts, attributes and powers """
+        text = ''
+        while self.peek()[0] in ('sign', 'invert'):
+            text += self.next()[1]
+        first = True
+        while True:
+            kind, token = self.peek()
+            if kind == 'open':
+                self.pos += 1
+                parts = self.expression()
+                if self.next() != ('close', _closing[token]):
+                    raise self.mismatched()
+                inner = ''.join(parts)
+                if not (token == '(' and len(parts) == 1 and self.added):
+                    inner = token + inner + _closing[token]
+                text += inner
+            elif kind == 'dot':
+                text += self.next()[1]
+                first = True
+                continue
+            elif kind in ('number', 'name', 'string') and first:
+                text += self.next()[1]
+            elif kind == 'power':
+                text += self.next()[1] + self.operand()
+            else:
+                return text
+            first = False
+
+    def products(self) -> str:
+        """ A sequence of products, as operands alternating with operators """
+        items = [self.operand()]
+        while self.peek()[0] == 'product':
+            items.append(self.next()[1])
+            items.append(self.operand())
+        self.added = len(items) > 1
+        for group in self.op_order:
+            items = self.associate(items, _operator_groups[group])
+        self.added = self.added and len(items) == 1
+        return ''.join(items)
+
+    @staticmethod
+    def associate(items: List[str], ops) -> List[str]:
+        """ Put parentheses around the products by `ops`, from left to right """
+        result = [items[0]]
+        last = None  # the operator of the product at the end of `result`
+        for op, operand in zip(items[1::2], items[2::2]):
+            # chains of < and > mean something else in Python
+            if last is not None and (op != last or op in ('<', '>')):
+                result[-1] = '(' + result[-1] + ')'
+                last = None
+            if op in ops:
+                result[-1] += op + operand
+                last = op
+            else:
+                result += [op, operand]
+        if last is not None:
+            result[-1] = '(' + result[-1] + ')'
+        return result
 
 
 def validate_op_order(op_order: List[str]) -> None:
-    if not all(op in _operator_res for op in op_order):
+    if not all(op in _operator_groups for op in op_order):
         raise ValueError("Illegal operator")
 
 
 def parse_line(line: str, op_order: List[str]) -> str:
-    line = line.replace(' ', '')
-    level_lst = _parse_paren(line)
-    ilevel = 0
-    for level in level_lst:
-        igroup = 0
-        for group in level:
-            string = group[-1]
-            for op in op_order:
-                string = _add_paren(string, _operator_res[op])
-            level_lst[ilevel][igroup][-1] = string
-            igroup += 1
-        ilevel += 1
-    line = _unparse_paren(level_lst)
-    return line
+    parser = _Parser(line, op_order)
+    result = ''.join(parser.expression())
+    if parser.pos < len(parser.tokens):
+        raise parser.mismatched()
+    return result
-- 
2.43.0


From 7a41883bb44219fade3d825eddc3bba61d7b2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 31/50] fix: GAeval joined operands with no operator between
 them

---
 galgebra/_utils/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index 5333c37..e667443 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -14,8 +14,8 @@ _operator_groups = {
 _token_re = re.compile(r"""
       (?P<space>\s+)
     | (?P<number>(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?[A-Za-z_0-9]*)
+    | (?P<string>[A-Za-z]{0,2}('(\\.|[^'\\])*'|"(\\.|[^"\\])*"))
     | (?P<name>[A-Za-z_]\w*)
-    | (?P<string>'[^']*'|"[^"]*")
     | (?P<power>\*\*)
     | (?P<other><<|>>|<=|>=|==|!=|//|->|:=)
     | (?P<product>[*/^|<>])
@@ -67,10 +67,15 @@ class _Parser:
     def expression(self) -> List[str]:
         """ The parts of an expression, up to the end or a closing parenthesis """
         parts = []
+        after_operand = False
         while self.peek()[0] not in ('end', 'close'):
             if self.peek()[0] in ('number', 'name', 'string', 'open', 'invert', 'dot'):
+                if after_operand:
+                    raise ValueError('Missing operator in: ' + self.line + '\n')
                 parts.append(self.products())
+                after_operand = True
             else:
+                after_operand = False
                 text = self.next()[1]
                 self.added = False
                 parts.append(' ' + text + ' ' if text in _keywords else text)
-- 
2.43.0


From 9d8eb40393e646ed7e079e4526461607c202ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 32/50] fix: Dop sums, Lt and Mlt operations silently combined
 objects of different algebras

---
 galgebra/lt.py | 15 +++++++++++++++
 galgebra/mv.py | 12 ++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c19ac9b..186fb7f 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -479,6 +479,8 @@ class Lt(printer.GaPrintable):
                 self_mul_LT[key] = metric.collect(expand(self_mul_LT[key]), self.Ga.basis)
             return Lt(self_mul_LT, ga=self.Ga)
         else:
+            if getattr(LT, 'Ga', self.Ga) != self.Ga:
+                raise ValueError("Attempting multiplication of an Lt by an object of a different geometric algebra")
             self_mul_LT = {}
             for key in self.lt_dict:
                 self_mul_LT[key] = LT * self.lt_dict[key]
@@ -487,6 +489,8 @@ class Lt(printer.GaPrintable):
     def __rmul__(self, LT):
 
         if not isinstance(LT, Lt):
+            if getattr(LT, 'Ga', self.Ga) != self.Ga:
+                raise ValueError("Attempting multiplication of an Lt by an object of a different geometric algebra")
             self_mul_LT = {}
             for key in self.lt_dict:
                 self_mul_LT[key] = LT * self.lt_dict[key]
@@ -868,6 +872,10 @@ class Mlt(printer.GaPrintable):
         T.fvalue = value
         return T
 
+    def _check_ga(self, X):
+        if getattr(X, 'Ga', self.Ga) != self.Ga:
+            raise ValueError('Mlt and operand are not from same geometric algebra')
+
     def __call__(self, *args):
         """
         Evaluate the multilinear function for the given vector arguments.
@@ -875,6 +883,8 @@ class Mlt(printer.GaPrintable):
         """
         if len(args) == 0:
             return self.fvalue
+        for x in args:
+            self._check_ga(x)
         if self.f is not None:
             return self.f(*args)
         else:
@@ -887,6 +897,7 @@ class Mlt(printer.GaPrintable):
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
     def __add__(self, X):
+        self._check_ga(X)
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
                 return Mlt._from_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
@@ -896,6 +907,7 @@ class Mlt(printer.GaPrintable):
             raise TypeError('In Mlt add second argument not an Mkt\n')
 
     def __sub__(self, X):
+        self._check_ga(X)
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
                 return Mlt._from_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
@@ -905,6 +917,7 @@ class Mlt(printer.GaPrintable):
             raise TypeError('In Mlt sub second argument not an Mlt\n')
 
     def __mul__(self, X):
+        self._check_ga(X)
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
@@ -916,6 +929,7 @@ class Mlt(printer.GaPrintable):
             return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
+        self._check_ga(X)
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
@@ -925,6 +939,7 @@ class Mlt(printer.GaPrintable):
             return Mlt._from_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
+        self._check_ga(X)
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 306c966..da056d0 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -820,6 +820,8 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
+            if hasattr(A, 'Ga'):  # Lt or Mlt
+                return NotImplemented
             return Mv(ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -833,6 +835,8 @@ class Mv(printer.GaPrintable):
         if isinstance(A, dop._BaseDop):
             return NotImplemented
         assert not isinstance(A, Mv)
+        if hasattr(A, 'Ga'):  # Lt or Mlt
+            return NotImplemented
         return Mv(ga=self.Ga)
 
     def __pow__(self, n):  # Integer power operator
@@ -1099,6 +1103,8 @@ class Mv(printer.GaPrintable):
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         self = self.blade_rep()
+        if any(x.Ga != self.Ga for x in blade_lst):
+            raise ValueError('In blade_coefs the blades are not from same geometric algebra')
         blade_lst = [x.blade_rep().obj for x in blade_lst]
         coefs, bases = metric.linear_expand(self.obj)
         coef_lst = []
@@ -1115,6 +1121,8 @@ class Mv(printer.GaPrintable):
         part of multivector with the same bases as in the bases_lst.
         """
         self = self.blade_rep()
+        if any(x.Ga != self.Ga for x in bases_lst):
+            raise ValueError('In proj the bases are not from same geometric algebra')
         bases_lst = [x.blade_rep().obj for x in bases_lst]
         obj = 0
         for coef, base in metric.linear_expand_terms(self.obj):
@@ -1742,10 +1750,14 @@ class Dop(dop._BaseDop):
         else:
             # convert values to multiplicative operators
             if isinstance(dop1, Dop):
+                if getattr(dop2, 'Ga', dop1.Ga) != dop1.Ga:
+                    raise ValueError('In Dop.Add Dop arguments are not from same geometric algebra')
                 if not isinstance(dop2, Mv):
                     dop2 = dop1.Ga.mv(dop2)
                 dop2 = Dop([(dop2, dop.Pdop({}))], cmpflg=dop1.cmpflg, ga=dop1.Ga)
             elif isinstance(dop2, Dop):
+                if getattr(dop1, 'Ga', dop2.Ga) != dop2.Ga:
+                    raise ValueError('In Dop.Add Dop arguments are not from same geometric algebra')
                 if not isinstance(dop1, Mv):
                     dop1 = dop2.Ga.mv(dop1)
                 dop1 = Dop([(dop1, dop.Pdop({}))], cmpflg=dop2.cmpflg, ga=dop2.Ga)
-- 
2.43.0


From f8f9d16ecc64e9c965c963243ca98fe6bb0d5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 33/50] fix: LaTeX of the identity differential operator was
 empty

---
 galgebra/dop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 19f3226..88ac7e6 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -148,7 +148,8 @@ class Sdop(_BaseDop):
         s = ''
         for coef, pdop in self.terms:
             coef_str = print_obj._print(coef)
-            pd_str = print_obj._print(pdop)
+            # the derivative that does nothing is left out next to a coefficient
+            pd_str = print_obj._print(pdop) if pdop.order else ''
             if coef == S.One:
                 if pd_str == '':
                     s += '1'
@@ -371,7 +372,7 @@ class Pdop(_BaseDop):
 
     def _latex(self, print_obj):
         if self.order == 0:
-            return ''
+            return '1'
         s = r'\frac{\partial'
         if self.order > 1:
             s += '^{' + print_obj._print(self.order) + '}'
-- 
2.43.0


From 07c851842aef54e6bd7c1ce7784c19de012c8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 34/50] fix: LaTeX of a Dop printed a multivector with unit
 coefficient twice

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index da056d0..98154ad 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1985,7 +1985,7 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
                     if str_sdop[1:] != '1':
                         s += ' ' + str_sdop[1:]
-- 
2.43.0


From 55a2025e61403fee51438d386c643e8c58022107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 35/50] fix: submanifold metrics with reused coordinate names,
 and submanifolds given by a vector function

---
 galgebra/ga.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index f0aee04..737b3aa 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2289,13 +2289,11 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
-                # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+            # Metric tensor from dot products of basis vectors
+            g = Matrix([
+                [trigsimp((b1 | b2).scalar()) for b2 in self.ebasis]
+                for b1 in self.ebasis
+            ])
 
         else:
 
@@ -2321,7 +2319,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From 2d52498c4ee1b35bed0453b65a09a0e59c07178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 36/50] fix: Cl(p, q, r) in one dimension (misnamed basis
 vector; no basis vector with kingdon conventions)

---
 galgebra/interop/_cl.py     | 5 ++++-
 galgebra/interop/kingdon.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..ea728fe 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -68,7 +68,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
+    if n == 1:
+        # a single index would be taken for the number of basis vectors
+        basis = root + '_1,'
+    elif n <= 9:
         basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..954ba8a 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -77,7 +77,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
+    if n == 1:
+        # a single index would be taken for the number of basis vectors
+        basis = root + '_0,'
+    elif n <= 10:
         basis = root + '*' + '|'.join(str(i) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
-- 
2.43.0


From 3ea206818921deb14671a2d9122c5c01234555df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 37/50] fix: metric given as an immutable matrix was read as a
 diagonal

---
 galgebra/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 9225ab7..eaeafb9 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol
+    Add, simplify, Expr, Abs, Function, MatrixSymbol, MatrixBase
 )
 
 from . import printer
@@ -795,8 +795,8 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g.copy()  # normalization must not change the caller's matrix
+                if isinstance(g, MatrixBase):
+                    self.g = Matrix(g)  # normalization must not change the caller's matrix
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 1b12683cac1cba7dbae046afb087e16bd3a7f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 38/50] fix: the general symbolic metric g='g' was not
 symmetric

---
 galgebra/metric.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index eaeafb9..d0045bf 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -778,19 +778,20 @@ class Metric(object):
         else:  # metric is symbolic or list of lists of functions of coordinates
             if isinstance(g, str):  # metric elements are symbols or constants
                 if g == 'g':  # general symbolic metric tensor (g_ij functions of position)
+                    # g_ij and g_ji are the same function
                     self.g = Matrix([
                         [
-                            Function('g_{}_{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g_{}_{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                     self.g_inv = Matrix([
                         [
-                            Function('g__{}__{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
+                            Function('g__{}__{}'.format(self.coords[min(i, j)], self.coords[max(i, j)]))(*self.coords)
+                            for j in self.n_range
                         ]
-                        for coord in self.coords
+                        for i in self.n_range
                     ])
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
-- 
2.43.0


From ef19d366c5756d7efe07a875a9d6231052596765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 39/50] fix: Ga.preset failed for every preset

---
 galgebra/ga.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 737b3aa..128f75e 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -12,7 +12,7 @@ from ._backports.typing import OrderedDict
 from sympy import (
     diff, Symbol, S, Mul, Add, Expr,
     expand, simplify, eye, trigsimp,
-    symbols, sqrt, Matrix,
+    symbols, sqrt, Matrix, cos,
 )
 
 from . import printer
@@ -632,10 +632,10 @@ class Ga(metric.Metric):
             raise ValueError(str(setting) + 'not in Ga.presets.')
         set_lst = Ga.presets[setting].split(':')
         X = symbols(set_lst[0], real=True)
-        g = eval(set_lst[1])
-        simps = eval(set_lst[2])
+        # the metric may refer to the coordinates by name or as `X[i]`
+        g = eval(set_lst[1], {'X': X, 'cos': cos, **{str(x): x for x in X}})
         args = [root]
-        kwargs = {'g': g, 'coords': X, 'debug': debug, 'I': True, 'gsym': False}
+        kwargs = {'g': g, 'coords': X, 'debug': debug}
 
         if len(set_lst) > 3:
             args_lst = set_lst[-1].split(';')
@@ -643,7 +643,6 @@ class Ga(metric.Metric):
                 [name, value] = arg.split('=')
                 kwargs[name] = eval(value)
 
-        Ga.set_simp(*simps)
         return Ga(*args, **kwargs)
 
     def __hash__(self):
-- 
2.43.0


From df56ec4f62ceb1afa244d7d1d4e905e18e43446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 40/50] fix: the signature of a numeric orthogonal metric was
 never calculated

---
 galgebra/metric.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index d0045bf..e3b616e 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -841,12 +841,11 @@ class Metric(object):
         else:
             self.e_norm = None
 
-        if not self.g_is_numeric:
-            self.signature()
-            # Sign of square of pseudo scalar
-            self.e_sq_sgn = '+'
-            if ((self.n*(self.n-1))//2+self.sig[1]) % 2 == 1:
-                self.e_sq_sgn = '-'
+        self.signature()
+        # Sign of square of pseudo scalar
+        self.e_sq_sgn = '+'
+        if ((self.n*(self.n-1))//2+self.sig[1]) % 2 == 1:
+            self.e_sq_sgn = '-'
 
         if self.debug:
             print('signature =', self.sig)
-- 
2.43.0


From 181e49e89dce080a3e10c950205b2ab2d26a48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 41/50] fix: redirecting the output twice lost the original
 output stream

---
 galgebra/printer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..94474c6 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -443,6 +443,7 @@ class GaLatexPrinter(LatexPrinter):
 
     latex_flg = False
     latex_str = ''
+    captured = None  # the stream that replaces `sys.stdout`
     ipy = False
 
     preamble = \
@@ -502,19 +503,22 @@ class GaLatexPrinter(LatexPrinter):
     @staticmethod
     def redirect():
         GaLatexPrinter.latex_flg = True
-        if GaLatexPrinter.ipy:
+        if GaLatexPrinter.ipy or GaLatexPrinter.is_redirected():
             pass
         else:
             GaLatexPrinter.stdout = sys.stdout
-            sys.stdout = io.StringIO()
+            GaLatexPrinter.captured = sys.stdout = io.StringIO()
+
+    @staticmethod
+    def is_redirected():
+        return GaLatexPrinter.captured is not None and sys.stdout is GaLatexPrinter.captured
 
     @staticmethod
     def restore():
         if GaLatexPrinter.latex_flg:
-            if not GaLatexPrinter.ipy:
-                GaLatexPrinter.latex_str += sys.stdout.getvalue()
             GaLatexPrinter.latex_flg = False
-            if not GaLatexPrinter.ipy:
+            if GaLatexPrinter.is_redirected():
+                GaLatexPrinter.latex_str += sys.stdout.getvalue()
                 sys.stdout = GaLatexPrinter.stdout
 
     def _print_Pow(self, expr):
-- 
2.43.0


From 1541ab30294440a8cecaf2adb0d074b85e7b5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 42/50] fix: the output captured by one tex() was repeated in
 the next document

---
 galgebra/printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 94474c6..5f4eab9 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -899,9 +899,9 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
+    GaLatexPrinter.latex_str = ''
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
-- 
2.43.0


From 6c37c14478efc94ed20cdeb4771b376ebe25d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 43/50] fix: Format() did nothing after the output had been
 restored by tex() or xpdf()

---
 galgebra/printer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5f4eab9..024f15a 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -821,10 +821,9 @@ def Format(Fmode: bool = True, Dmode: bool = True, inverse='full'):
         inv_trig_style=inverse,
     )
 
-    if Format_cnt == 0:
+    if not GaLatexPrinter.latex_flg:
         Format_cnt += 1
 
-        GaLatexPrinter.latex_flg = True
         GaLatexPrinter.redirect()
 
         if isinteractive():
-- 
2.43.0


From eaa5664234a57941f597e55c6de8a8f5cc8bf6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 44/50] fix: Eprint(None, None, None) did not disable coloring

---
 galgebra/printer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 024f15a..415ffea 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,7 +248,8 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    # `set_global_settings` ignores `None`
+    GaPrinter._global_settings.update(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
-- 
2.43.0


From 2e3b2b0bafd00ecfae4d033fceee5cd7d66b0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 45/50] fix: xpdf() evaluated the line typed to continue

---
 galgebra/printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 415ffea..9f28ae0 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1036,7 +1036,7 @@ def xpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debug
         print(print_cmd)
 
         os.system(print_cmd)
-        eval(input('!!!!Return to continue!!!!\n'))
+        input('!!!!Return to continue!!!!\n')
 
         if debug:
             os.system(sys_cmd['rm'] + ' ' + filename[:-4] + '.aux ' + filename[:-4] + '.log')
-- 
2.43.0


From 33c2fc3e9ced5a901934f93e23d27a1abf9f7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 46/50] fix: Fmt() of a list of one element was cut off, and
 Fmt() of a dict dropped the values

---
 galgebra/printer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 9f28ae0..e438495 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1194,10 +1194,15 @@ def Fmt(obj, fmt=0):
             for cell in obj:
                 #title = cell.title
                 #cell.title = None
-                latex_cell = latex(cell)
+                if isinstance(obj, dict):
+                    latex_cell = latex(cell) + ' : ' + latex(obj[cell])
+                else:
+                    latex_cell = latex(cell)
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
-                if i == 1:
+                if n == 1:
+                    latex_str += r'\left ' + ldelim + r' ' + latex_cell + r' \right ' + rdelim
+                elif i == 1:
                     latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r', \right. \\ '
                 elif i == n:
                     latex_str += r' \left. ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
-- 
2.43.0


From c941095e77d82f9335eaf17508dcbabbc0972293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 47/50] fix: gprint() failed for text with a percent sign

---
 galgebra/gprinter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d26aff6..36a533e 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -158,14 +158,14 @@ def gprint(*xargs):
                 else:
                     xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\n'+r'\begin{equation*} ')
                 new_eq_flg = True
-                fstr += xi_rep
+                fstr += xi_rep.replace('%', '%%')
             else:
-                fstr += xi
+                fstr += xi.replace('%', '%%')
         elif isinstance(xi, type):
             if LaTeX.latex_flg:
-                fstr += r' \text{'+str(xi)+'} '
+                fstr += r' \text{'+str(xi).replace('%', '%%')+'} '
             else:
-                fstr += str(xi)
+                fstr += str(xi).replace('%', '%%')
         else:
             if LaTeX.latex_flg:
                 x.append(latex(xi))
-- 
2.43.0


From ddc186298f5c003b62139f726f2f62b580599fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 48/50] fix: gxpdf() passed a redirection as an argument and
 names with trailing blanks to the programs it calls

---
 galgebra/gprinter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index 36a533e..e05433f 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -241,7 +241,7 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
             # os.system(pdfprog + ' ' + filename[:-4])
         else:  # Works for Linux don't know about Windows
             if null:
-                subprocess.call([pdfprog, tex_filename, sys_cmd['null']])
+                subprocess.call([pdfprog, tex_filename], stdout=subprocess.DEVNULL)
             else:
                 subprocess.call([pdfprog, tex_filename])
             # os.system(pdfprog + ' ' + filename[:-4] + sys_cmd['null'])
@@ -253,9 +253,9 @@ def gxpdf(filename=None, paper=(14, 11), crop=False, png=False, prog=False, debu
 
         if rm:
             if debug:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log'])
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log'])
             else:
-                subprocess.call([sys_cmd['rm'], rootfilename+'.aux ', rootfilename+'.log ', rootfilename+'.tex'])
+                subprocess.call([sys_cmd['rm'], rootfilename+'.aux', rootfilename+'.log', rootfilename+'.tex'])
         if crop:
             subprocess.call(['pdfcrop', pdf_filename])
             subprocess.call(['rm', pdf_filename])
-- 
2.43.0


From 121e74685f165bbda1f37a93c1faa9b6ba55e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 49/50] fix: compare() judges coefficients of equal blades, not
 the stored order of terms

compare(2*A, A) returned 0 when the terms of the two arguments were stored
in different orders, arguments of different algebras were compared term by
term, and debugging lines were printed.
---
 galgebra/mv.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 98154ad..dc28853 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1583,32 +1583,25 @@ class Mv(printer.GaPrintable):
 
 def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     """
-    Determine if ``B = c*A`` where c is a scalar.  If true return c
+    Determine if ``A = c*B`` where c is a scalar.  If true return c
     otherwise return 0.
     """
     if isinstance(A, Mv) and isinstance(B, Mv):
-        Acoefs, Abases = metric.linear_expand(A.obj)
-        Bcoefs, Bbases = metric.linear_expand(B.obj)
-        if len(Acoefs) != len(Bcoefs):
-            return 0
-        if Abases != Bbases:
-            return 0
-        if Bcoefs[0] != 0 and Abases[0] == Bbases[0]:
-            c = simplify(Acoefs[0]/Bcoefs[0])
-            print('c =', c)
-        else:
-            return 0
-        for acoef, abase, bcoef, bbase in zip(Acoefs[1:], Abases[1:], Bcoefs[1:], Bbases[1:]):
-            print(acoef, '\n', abase, '\n', bcoef, '\n', bbase)
-            if bcoef != 0 and abase == bbase:
-                print('c-a/b =', simplify(c-(acoef/bcoef)))
-                if simplify(acoef/bcoef) != c:
+        if A.Ga != B.Ga:
+            raise ValueError('In compare A and B are not from the same geometric algebra')
+        # the terms of equal multiples need not come in the same order
+        Acoefs = A.blade_coefs()
+        Bcoefs = B.blade_coefs()
+        c = None
+        for acoef, bcoef in zip(Acoefs, Bcoefs):
+            if simplify(bcoef) == 0:
+                if simplify(acoef) != 0:
                     return 0
-                else:
-                    pass
-            else:
+            elif c is None:
+                c = simplify(acoef/bcoef)
+            elif simplify(acoef - c*bcoef) != 0:
                 return 0
-        return c
+        return 0 if c is None else c
     else:
         raise TypeError('In compare both arguments are not multivectors\n')
 
-- 
2.43.0


From bdd266e3bcaa690ab65cb9fd16792e4b3efc7984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 50/50] fix: Mv.diff ignored the curve set by Ga.parametric()

The branch that adds the terms of the chain rule was guarded by a test for
the parameter being one of the coordinates, which is never true there.
---
 galgebra/mv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index dc28853..fc5f773 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1212,10 +1212,8 @@ class Mv(printer.GaPrintable):
         elif coord not in self.Ga.coords:
             if self.Ga.par_coords is None:
                 obj = diff(self.obj, coord)
-            elif coord not in self.Ga.par_coords:
-                obj = diff(self.obj, coord)
-            else:
-                obj = diff(self.obj, coord)
+            else:  # total derivative along the curve set by Ga.parametric()
+                obj = Mv(diff(self.blade_rep().obj, coord), ga=self.Ga)
                 for x_coord in self.Ga.coords:
                     f = self.Ga.par_coords[x_coord]
                     if f != S.Zero:
-- 
2.43.0

