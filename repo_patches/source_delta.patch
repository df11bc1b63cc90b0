From a89a940987f13f6790ca78029d1c294362f205b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 01/44] fix: check the coefficient of c^3 in the symmetry test
 of acyclic symmetric quartics

Without (1,0) in the list, a quartic such as (a-b)^4 + c^2(a-b)^2 - 10bc^3 was
treated as symmetric in a, b and sum_of_squares returned a wrong certificate.
---
 triples/core/structsos/ternary/quartic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index fb2c99d..2e434b9 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -625,7 +625,7 @@ def _sos_struct_acyclic_quartic_symmetric(coeff, real = True):
     mappings = [(lambda i, j: (i,j,4-i-j)), (lambda i, j: (i,4-i-j,j)), (lambda i, j: (4-i-j,i,j))]
     symbol_orders = [sp.symbols("a b c"), sp.symbols("a c b"), sp.symbols("b c a")]
     for symbol_order, mapping in zip(symbol_orders, mappings):
-        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0))):
+        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0),(1,0))):
             break
     else:
         return None
-- 
2.43.0


From c243c486a7ac0d72726ac0e4c35c0507fe59f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:32 +0000
Subject: [PATCH 02/44] fix: reject a nonzero coefficient of ab^8 before the
 symmetric nonic hexagon solver

The solver ignores that coefficient, so sos_struct_nonic returned a certificate of
a different polynomial.
---
 triples/core/structsos/ternary/nonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/nonic.py b/triples/core/structsos/ternary/nonic.py
index c2911c3..a0669fb 100644
--- a/triples/core/structsos/ternary/nonic.py
+++ b/triples/core/structsos/ternary/nonic.py
@@ -33,7 +33,7 @@ def sos_struct_nonic(coeff, real = True):
             if (coeff((5,4,0)) == 0 and coeff((6,1,2)) == 0) or (coeff((4,5,0)) == 0 and coeff((6,2,1)) == 0):
                 return _sos_struct_nonic_gear(coeff)
 
-        if not any(coeff(_) for _ in ((6,2,1),(2,6,1),(5,4,0),(4,5,0))):
+        if not any(coeff(_) for _ in ((1,8,0),(6,2,1),(2,6,1),(5,4,0),(4,5,0))):
             if all(coeff((i,j,k)) == coeff((j,i,k)) for (i,j,k) in ((6,0,3),(5,3,1),(4,3,2))):
                 return _sos_struct_nonic_hexagon_symmetric(coeff)
 
-- 
2.43.0


From d79bd741b1f90cd03ff8dfb9824e9d3845f50d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:24 +0000
Subject: [PATCH 03/44] fix: octic hexagon case 2 needs c2 + c4 == 0 when the
 coefficient x vanishes

---
 triples/core/structsos/ternary/octic_symmetric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..fece8dd 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -570,7 +570,8 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
             y_ = -2*(2*c1 + c2 + c3 + c4)/(2*c1 + c3) if 2*c1 + c3 != 0 else sp.S(0)
             z_ = (2*c1 - c3)/4
             w_ = (10*c1 + 6*c2 + c3 + 2*c4)/4
-            if x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
+            # when x_ == 0 there is no freedom of y_, and the form fits only if c2 + c4 == 0
+            if (x_ > 0 or (x_ == 0 and c2 + c4 == 0)) and z_ >= 0 and z_ + w_ >= 0:
                 m_ = coeff((4,4,0)) - (-2*w_ + 2*x_*y_**2 - 4*x_*y_ + 2*z_)
                 p_ = coeff((4,3,1)) - (w_ - 4*x_*y_**2 + 6*x_*y_ + 2*x_)
                 n_ = coeff((4,2,2)) - (2*w_ + 6*x_*y_**2 + 20*x_*y_ + 4*x_ - 4*z_)
-- 
2.43.0


From 1927803c13cd07089cb16f94e442b5e775d927a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 04/44] fix: include the remainder of a^2b^2c^2 in case 3 of
 the sextic Schur split

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..3403c5a 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -703,7 +703,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -713,7 +714,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From 8e1b20560ae21967f51bcf5c17de5fa53c00be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 05/44] fix: coefficient of abc*s(a(b-c)^2) in easy case 3 of
 iran96 sextics

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 3403c5a..715ba77 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -888,7 +888,7 @@ def _sos_struct_sextic_iran96(coeff, real = False):
                 min(w2, q2),
                 q2 - min(w2, q2),
                 w2 - min(w2, q2),
-                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 - 2 * min(w2, q2))),
+                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 + min(w2, q2))),
                 rem
             ]
 
-- 
2.43.0


From f50d89329c4f16e82e0d05f0756155d9d2ced3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:50 +0000
Subject: [PATCH 06/44] fix: recompute the slack after moving u in easy case 5
 of iran96 sextics

---
 triples/core/structsos/ternary/sextic_symmetric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 715ba77..d283276 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -952,6 +952,7 @@ def _sos_struct_sextic_iran96(coeff, real = False):
         elif m + p >= u_: # symmetric axis of the parabola >= u_
             u_ = m + p
             v_ = max(sp.S(0), (-u_+p-w-z)/2)
+            tmp = radsimp(m + q - (p-u_)**2/m + 2*u_)
 
         if u_ >= 0 and 0 <= v_ <= tmp and v_ <= 4*u_+w-m-2*p and v_ >= (-u_+p-w-z)/2:
             y = [
-- 
2.43.0


From 735722bcc6f289e40d174c072e606c61c754b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:43 +0000
Subject: [PATCH 07/44] fix: keep the remaining s(a2b2c) in uncentered quintics
 with a positive sum

---
 triples/core/structsos/ternary/quintic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..15e3769 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1461,6 +1461,12 @@ def _sos_struct_quintic_uncentered(coeff):
         y.append((r2_ + phi + 2*(u**3*w - u + v + w) - y[-1]) / 2)
         y.append(1 if (r1 != r1_ or r2 != r2_) else 0)
 
+        # the terms above sum up to s(ab4+r1a2b3+r2a3bc+r3_a2b2c), whose value at (1,1,1) is
+        # determined by y[2], and the rest goes to s(a2b2c)
+        y.append(rem / t - y[2] * (1 - rho)**2 / (1 + phi))
+        if y[-1] < 0:
+            return None
+
         y = [_ * t for _ in y]
 
         exprs = [
@@ -1470,7 +1476,8 @@ def _sos_struct_quintic_uncentered(coeff):
                 +m1*(-u**2*z-v*z-1)*b**2*c + m1*(u*z+v**2*z+v)*b*c**2)**2),
             CyclicProduct(a) * CyclicSum(a**2 - rho*a*b)**2,
             CyclicProduct(a) * CyclicSum((a**2 - b**2 - u*a*c + v*b*c + (u-v)*a*b)**2),
-            CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
+            CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier,
+            CyclicSum(a*b) * CyclicProduct(a) * multiplier
         ]
 
         return sum_y_exprs(y, exprs) / multiplier
-- 
2.43.0


From e29d34ac22e2d0cc95810442ffbbb6692b38f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:17 +0000
Subject: [PATCH 08/44] fix: use an exact coefficient in the cubic passed on by
 the quintic solver

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 15e3769..769463a 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
-- 
2.43.0


From e0c5c9a1b8bf3df755e7a090b2179b2f15d03f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:21 +0000
Subject: [PATCH 09/44] fix: sum the coefficients of quintic windmills by
 representatives

---
 triples/core/structsos/ternary/quintic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 769463a..7dd4132 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -657,7 +657,9 @@ def _sos_struct_quintic_windmill(coeff):
     if coeff((5,0,0)) != 0 or (coeff((4,1,0)) != 0 and coeff((1,4,0)) != 0):
         return None
 
-    if coeff.poly111() < 0:
+    # the value at (1,1,1) divided by 3, where the coefficients might be given by representatives only
+    coeff111 = sum(coeff(_) for _ in [(4,1,0),(3,2,0),(2,3,0),(1,4,0),(3,1,1),(2,2,1)])
+    if coeff111 < 0:
         return None
 
     if coeff((4,1,0)) != 0:
@@ -710,7 +712,7 @@ def _sos_struct_quintic_windmill(coeff):
         """
         Solve very simple cases without lifting the degree using several ideas.
         """
-        rem = radsimp(coeff.poly111() / 3) * CyclicSum(a*b) * CyclicProduct(a)
+        rem = radsimp(coeff111) * CyclicSum(a*b) * CyclicProduct(a)
         if True:
             # Easy case 2. in the form of s(c(a-b)2(xa2+yac+zc2+uab+vbc)) + ...s(a2b2c)
             # such that y^2 <= 4xz where x = coeff((1,4,0)) is fixed
@@ -922,7 +924,7 @@ def _sos_struct_quintic_windmill(coeff):
                     CyclicSum(c**2*(a-b)**2*pp[1]) * multiplier,
                     CyclicProduct(a) * CyclicSum((a-b)**2)**2
                 ]
-                return sum_y_exprs(y, exprs) / multiplier + radsimp(coeff.poly111()/3) * CyclicSum(a*b) * CyclicProduct(a)
+                return sum_y_exprs(y, exprs) / multiplier + radsimp(coeff111) * CyclicSum(a*b) * CyclicProduct(a)
 
         if not coeff.is_rational:
             return None
-- 
2.43.0


From a1c72a10f9241f50b442ba17b8c05e10b002123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 10/44] fix: Hnmr closed form for (n, r) = (1, 2) was not
 homogeneous

---
 triples/core/structsos/ternary/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 5a6ee2b..907347f 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -620,7 +620,7 @@ class Hnmr:
                 else:
                     d = sp.gcd(n, r)
                     RESULT = {
-                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a-b)**2),
+                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2),
                         (3, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)*CyclicSum(a**2) + CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a+b-c)**2), # (s(a)s(a2)+p(a+b))p(a-b)2+p(a)s((a2-b2)2(a+b-c)2)
                         (5, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)**2*CyclicSum(a**3) + CyclicSum(a*b)*CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a**2+b**2-c**2)**2), # p(a-b)2(s(a3)s(a)2+p(a+b)s(ab))+s((a2-b2)2(a2+b2-c2)2)p(a)
                     }
-- 
2.43.0


From 9bfdd91f103af82de387300519f09b4087a7a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 11/44] fix: CommonExpr.schurinv(2) was twice the documented
 sum

---
 triples/core/structsos/ternary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/utils.py b/triples/core/structsos/ternary/utils.py
index 8997e39..d93dfc2 100644
--- a/triples/core/structsos/ternary/utils.py
+++ b/triples/core/structsos/ternary/utils.py
@@ -170,7 +170,7 @@ class CommonExpr:
         """
         a, b, c = cls.abc
         if n == 2:
-            return CyclicSum((a-b)**2)
+            return CyclicSum((a-b)**2)/2
         elif n == 4:
             return CyclicSum(a**2*(b-c)**2/2)
         elif n == 6:
-- 
2.43.0


From a0d5faa11d5b83d221a1780b7ee370424b3183ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:36 +0000
Subject: [PATCH 12/44] fix: sparse AM-GM counted the coefficient of
 CyclicSum(a**n) twice

---
 triples/core/structsos/ternary/sparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 907347f..caf838a 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -403,13 +403,13 @@ def _sos_struct_sparse_amgm(coeff):
         return None
     monoms = set(CoeffMonom(*m).std() for m in coeff.coeffs.keys())
     monoms = list(monoms)
-    if len(monoms) == 1:
-        degree = coeff.degree()
-        monoms.append(CoeffMonom(degree, 0, 0))
 
     def getv(m):
         v = coeff(m)
         return v if not m.is_center else v/3
+    if len(monoms) == 1:
+        degree = coeff.degree()
+        return AMGM3.solve(getv(monoms[0]), monoms[0], 0, CoeffMonom(degree, 0, 0))
     if len(monoms) == 2:
         return AMGM3.solve(getv(monoms[0]), monoms[0], getv(monoms[1]), monoms[1])
 
-- 
2.43.0


From cb6da1ac15d04c7ce01ae02126de8d13dd397669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:51 +0000
Subject: [PATCH 13/44] fix: partially symmetric 4-variable cubics ignored the
 a*b**2 terms

---
 triples/core/structsos/quarternary/cubic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/quarternary/cubic.py b/triples/core/structsos/quarternary/cubic.py
index 4ddc289..485f582 100644
--- a/triples/core/structsos/quarternary/cubic.py
+++ b/triples/core/structsos/quarternary/cubic.py
@@ -68,7 +68,7 @@ def _quarternary_cubic_partial_symmetric(coeff, real = False):
 
     s(a2-ab)-2s(a)+4+2abc
     """
-    if coeff((3,0,0,0)) or coeff((2,1,0,0)):
+    if coeff((3,0,0,0)) or coeff((2,1,0,0)) or coeff((1,2,0,0)):
         return None
 
     c100, c000, c200, c110, c111 = [coeff(_) for _ in [(1,0,0,2), (0,0,0,3), (2,0,0,1), (1,1,0,1), (1,1,1,0)]]
-- 
2.43.0


From 3815a5e0b8c989d16871f6cb2ab6789d5a3daa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 14/44] fix: a monomial is a certificate only if its odd powers
 are covered by constraints

---
 triples/core/structsos/structsos.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..f4471ed 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -56,10 +56,17 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     d = poly.total_degree()
     nvars = len(poly.gens)
     if poly.is_monomial:
-        if poly.LC() >= 0:
-            # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
-        return None
+        if poly.LC() < 0:
+            return None
+        # since the poly is homogeneous, it must be a monomial, but
+        # its odd powers are nonnegative only by the constraints
+        func_name = uniquely_named_symbol('G', poly.gens + tuple(ineq_constraints.values()))
+        func = sp.Function(func_name)
+        solution = SolutionStructural._extract_nonnegative_exprs(poly.as_expr(), func_name=func_name)
+        solution = solution.xreplace({func(k.as_expr()): v for k, v in ineq_constraints.items()
+                                        if k.as_expr().is_Symbol})
+        if not solution.has(func):
+            return solution
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
     d = poly.total_degree()
-- 
2.43.0


From ac1142411d03c8927ae74b612f087bee93fff10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 15/44] fix: the quadratic solver read cubic monomials as
 quadratic ones

---
 triples/core/structsos/sparse.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/sparse.py b/triples/core/structsos/sparse.py
index 8c0d987..b4e7a71 100644
--- a/triples/core/structsos/sparse.py
+++ b/triples/core/structsos/sparse.py
@@ -98,15 +98,13 @@ def sos_struct_quadratic(poly: Poly, **kwargs):
     mat = sp.zeros(nvars + 1)
     for k, v in coeff.coeffs.items():
         inds = []
+        if sum(k) > 2:
+            return None
         for i in range(nvars):
-            if k[i] > 2:
-                return None
-            elif k[i] == 2:
+            if k[i] == 2:
                 inds = (i, i)
                 break
             elif k[i] == 1:
-                if len(inds) == 2:
-                    return None
                 inds.append(i)
         if len(inds) == 1:
             inds.append(nvars)
-- 
2.43.0


From d9a6d9651103e94e8bee821659f5ac4860bda661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 16/44] fix: linear systems with separated columns: zero rows,
 free variables and unequal groups

---
 triples/sdp/arithmetic.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..a36962f 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -474,19 +474,16 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
                         space[k] = -w
                 spaces.append(space)
 
-        else:
-            bi = b.get(i, 0)
-            if bi != 0 and bi.get(0, zero) != zero:
-                raise ValueError("Linear system has no solution")
-
-            for j in range(len(row)):
-                if ufs[row[j][0]] == row[j][0]:
-                    group = groups[row[j][0]]
+    # rows of zeros are not stored in A
+    for i, bi in b.items():
+        if (not A.get(i)) and bi.get(0, zero) != zero:
+            raise ValueError("Linear system has no solution")
 
-                    space = {}
-                    for k in group:
-                        space[k] = one
-                    spaces.append(space)
+    # variables that do not appear in the equations are free
+    used = set(ufs[k] for row in A.values() for k in row)
+    for head, group in groups.items():
+        if ufs[head] == head and head not in used:
+            spaces.append({k: one for k in group})
 
     x0 = dict(x0)
     spaces = dict(enumerate(spaces))
@@ -546,6 +543,11 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
             if not _column_separated:
                 break
 
+        if _column_separated and len(x0_equal_indices):
+            # equal variables should also have equal coefficients in the same equation
+            columns = {col: (i, v) for i, row in Arep.items() for col, v in row.items()}
+            _column_separated = all(len(set(columns.get(j) for j in group)) <= 1 for group in x0_equal_indices)
+
         if _column_separated:
             if _VERBOSE_SOLVE_CSR_LINEAR:
                 print('>> Column Separated System recognized', time() - time0)
-- 
2.43.0


From 3001f55309181422b8b409c7afedd2b3148b8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 17/44] fix: exact matrix products with an entry equal to
 -2**63

---
 triples/sdp/arithmetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index a36962f..dbb4c85 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -620,6 +620,10 @@ def _cast_sympy_matrix_to_numpy(sympy_mat_rep, dtype: str = 'int64'):
         col_indices[k] = j
         data_list[k] = v.__int__()
 
+    if dtype == 'int64' and data_list and min(data_list) < -_INT64_MAX:
+        # the absolute value of -2**63 is not an int64 number
+        raise OverflowError
+
     arr = np_zeros((rows, cols), dtype=dtype)
     if data_list:
         arr[row_indices, col_indices] = data_list
-- 
2.43.0


From 7a64bcb44faba77e12fc20f32b8ddee9aacc64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 18/44] fix: bilinear products with an empty matrix

---
 triples/sdp/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index dbb4c85..94f3fea 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -830,8 +830,8 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         return eq_mat
 
     N = A.shape[0]
-    if N == 0:
-        return sp.Matrix.zeros(0, U.shape[1]**2)
+    if N == 0 or U.shape[0] == 0 or U.shape[1] == 0:
+        return sp.Matrix.zeros(N, U.shape[1]**2)
 
     if not (is_zz_qq_mat(A) and is_zz_qq_mat(U)):
         return default(A0, U0)
-- 
2.43.0


From 10089f5f9d5bbfe8f77316ab4cdecab2d50872e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 19/44] fix: constant factors of a cyclic product are raised to
 the order of the group

---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..4522310 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -618,7 +618,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -629,7 +629,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From accc6577037308dd0de015e6093b9dbcc4592cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 20/44] fix: rewrite_symmetry to a non-normal subgroup used the
 wrong cosets

---
 triples/utils/expression/cyclic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 4522310..ac2e63f 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -928,7 +928,8 @@ def _get_rewriting_replacement(symbols: Tuple[Symbol], perm_group: PermutationGr
             elif perm_group.is_subgroup(x.args[2]):
                 # 3. check whether the given permutation group is a subgroup of the expression's permutation group
                 transversals = x.args[2].coset_transversal(perm_group)
-                translations = [dict(zip(x.args[1], p(x.args[1]))) for p in transversals]
+                # right cosets -> left cosets, since the translation is applied before those of perm_group
+                translations = [dict(zip(x.args[1], (~p)(x.args[1]))) for p in transversals]
                 trans_perm_group = [dict(zip(x.args[1], p(x.args[1]))) for p in perm_group.elements]
                 exprs = [x.args[0].xreplace(t) for t in translations]
                 for i, expr in enumerate(exprs):
-- 
2.43.0


From 47a7e464f59b4d57425848bbab9fcec6f3b94e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 21/44] fix: substitution into cyclic expressions captured
 symbols and assumed a product group

---
 triples/utils/expression/cyclic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index ac2e63f..f079e9b 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -340,7 +340,9 @@ class CyclicExpr(sp.Expr):
             other_rules = [fs(k) | fs(v) for k, v in rule.items() if not k in changed_vars]
             if not any(_.intersection(self_vars) for _ in other_rules):
                 new_symbols = tuple(rule.get(s, s) for s in self.symbols)
-                if len(set(new_symbols)) == len(new_symbols):
+                # the new symbols should not capture other symbols in the expression
+                others = (self.args[0].free_symbols - self_vars).union(*(fs(v) for k, v in rule.items() if not k in changed_vars))
+                if len(set(new_symbols)) == len(new_symbols) and others.isdisjoint(new_symbols):
                     # distinct new symbols
                     return _xreplace_arg0(self, rule, new_symbols)
 
@@ -376,6 +378,9 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
+            if stab.order() * stab_perp.order() != self.perm.order():
+                # the group is not the product of the two stabilizers
+                return _fallback_xreplace(self, rule)
             for p in stab_perp.elements:
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
-- 
2.43.0


From ed9acb7d652c7ba76e5d36f622bf7c063a7bc9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 22/44] fix: acute solver divided the zero symmetric axis
 instead of the polynomial

---
 triples/core/structsos/constrained/acute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/constrained/acute.py b/triples/core/structsos/constrained/acute.py
index 0b0c0e4..b35dd6c 100644
--- a/triples/core/structsos/constrained/acute.py
+++ b/triples/core/structsos/constrained/acute.py
@@ -347,7 +347,7 @@ def _constrained_acute_lift_for_six(coeff, F):
     d0 = coeff.degree()
     sym = sym_axis(coeff)
     if sym.is_zero:
-        poly = sym.as_poly(a,b,c).div(CyclicProduct((a-b)**2).as_poly(a,b,c))[0]
+        poly = coeff.as_poly(a,b,c).div(CyclicProduct((a-b)**2).as_poly(a,b,c))[0]
         solution = _constrained_acute_dense_symmetric(Coeff(poly), F)
         if solution is not None:
             solution = solution * CyclicProduct((a-b)**2)
-- 
2.43.0


From e2afd94db29d5704de8bcfbb7586c1ed97c0754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 23/44] fix: bivariate solver divided by zero on opposite
 parallel constraints

---
 triples/core/structsos/pivoting/bivariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..0ae14df 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -143,6 +143,9 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         return sp.Add(*(c*p for c, p in zip(coeffs, polys)))
 
     bound = hs.as_bounds()
+    if len(bound) == 2 and hs.cross(bound[0][0], bound[1][0]) == 0:
+        # opposite halfplanes (a line): the two normals do not form a basis
+        bound = bound[:1]
     if len(bound) == 0:
         if d % 2 != 0:
             return None
-- 
2.43.0


From 83397a6ccc810ee901efadb05b495a1e7887c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 24/44] fix: univariate Gram matrix was misaligned when leading
 coefficients cancelled

---
 triples/core/structsos/pivoting/univariate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..774e258 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -292,6 +292,8 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         n = M.shape[0]
         if isinstance(poly, sp.Poly):
             all_coeffs = poly.all_coeffs()
+            # the leading coefficients might be zero after subtraction
+            all_coeffs = [sp.S(0)] * (2*n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
-- 
2.43.0


From 184199c90f6e225dd09507523550658007ffa669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 25/44] fix: univariate proof crashed on large leading
 coefficients of odd degree

---
 triples/core/structsos/pivoting/univariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 774e258..d9a39c1 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -313,6 +313,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
 
         M = M[1]
         n = M.shape[0]
+        if poly.degree() == 2*n - 1:
+            # the leading term only comes from the minor matrix
+            M[0, 0] = poly.LC()
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
             m = i // 2
-- 
2.43.0


From 5933cb29d5bc4aeb38f64e245fade68e0b2d7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 26/44] fix: equality constraint that is a nonzero constant
 crashed the preparation of the problem

---
 triples/core/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 3ad4e17..81ef115 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -234,7 +234,7 @@ def _std_eq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     c, lst = _sqf_list(p)
     ret = sp.S(1 if c > 0 else -1).as_poly(*p.gens, domain=p.domain)
     e = e / c
-    max_d = sp.Integer(max(1, *(d for q, d in lst)))
+    max_d = sp.Integer(max([1] + [d for q, d in lst]))
     for q, d in lst:
         ret *= q
         e = e * q.as_expr()**(max_d - d)
-- 
2.43.0


From 934e13ce7d140fa5e658445969756d3702adc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 27/44] fix: powers of a single expression were enumerated with
 wrong degrees in linear bases

---
 triples/core/linsos/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/linsos/basis.py b/triples/core/linsos/basis.py
index a5dd767..c968cc1 100644
--- a/triples/core/linsos/basis.py
+++ b/triples/core/linsos/basis.py
@@ -259,6 +259,8 @@ def _degree_combinations(d_list: List[int], degree: int, require_equal = False)
                     current_powers[i] = (degree - current_degree) // d_list[i]
                     powers.append(tuple(current_powers))
             i -= 1
+            if i < 0:
+                break
             current_powers[i] += 1
             current_degree += d_list[i]
         else:
-- 
2.43.0


From f6c40fed7243f35881d0419232a8c98ac6f50485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 28/44] fix: decompose_matrix left variables in the constant
 part of unexpanded entries

---
 triples/sdp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..a28177f 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -412,7 +412,7 @@ def decompose_matrix(
     for i in range(rows):
         for j in range(cols):
             expr = M[i, j]
-            terms = collect(expr, variables, evaluate=False)
+            terms = collect(expr.expand(), variables, evaluate=False)
 
             constant_term = terms.pop(singleton.One, 0)  # Extract and remove constant term for x
             x[i * cols + j] = constant_term
-- 
2.43.0


From 7dc12e70121f81f8f1ebae36a330eb724c2de87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 29/44] fix: SDPPrimal.S_from_y failed for the symbolic
 matrices

---
 triples/sdp/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..9b4607e 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -101,7 +101,7 @@ class SDPPrimal(PrimalTransformMixin):
         if y is None:
             y = []
             for i, m in enumerate(self.size.values()):
-                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(j, m)]
+                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(m)]
             y = Matrix(y)
         else:
             m = sum(space.shape[1] for space in self._space.values())
-- 
2.43.0


From e757a6131c726373635577cd76b0a88dbff16dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 30/44] fix: zero diagonals of primal problems were inferred
 from half of an off-diagonal constraint

---
 triples/sdp/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..a2d69df 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -883,7 +883,7 @@ class PrimalTransformMixin(SDPTransformMixin):
                         for j in range(i):
                             if j in zeros:
                                 continue
-                            if space[eq, i*m+j] != 0: # nonzero off-diagonal constraint
+                            if space[eq, i*m+j] + space[eq, j*m+i] != 0: # nonzero off-diagonal constraint
                                 eq_fail = True
                                 break
                         if eq_fail:
-- 
2.43.0


From 4d0e4d84f5b25157f6106a18be553d0433a78d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 31/44] fix: constraining every matrix to zero left variables
 the child problem does not have

---
 triples/sdp/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index a2d69df..ad41602 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -219,6 +219,10 @@ class DualMatrixTransform(SDPMatrixTransform):
 
             new_x0_and_space[key] = (new_x0, new_space)
 
+        if not new_x0_and_space:
+            # every matrix is constrained to be zero: the child has no variables
+            self._trans_space = sp.zeros(trans_space.shape[0], 0)
+
         # print('Used time', time() - time0)
         return self._create_dual_problem(new_x0_and_space)
 
-- 
2.43.0


From 17b7a5d57db7c75d56646379789af9fe2bfb23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:05 +0000
Subject: [PATCH 32/44] fix: a column space that is no restriction crashed the
 constraint of subspaces

---
 triples/sdp/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index ad41602..45f68f3 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -196,8 +196,8 @@ class DualMatrixTransform(SDPMatrixTransform):
 
 
         # eq * y + x0 = 0 => y = trans_x0 + trans_space * z
-        eq_list = sp.Matrix.vstack(*eq_list)
-        x0_list = sp.Matrix(x0_list)
+        eq_list = sp.Matrix.vstack(sp.zeros(0, parent_node.dof), *eq_list)
+        x0_list = sp.Matrix(len(x0_list), 1, x0_list)
         trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
         self._trans_x0, self._trans_space = trans_x0, trans_space
 
-- 
2.43.0


From dc20c7fa2f32df0ff5561418b5844e93659a8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:51 +0000
Subject: [PATCH 33/44] fix: null space passed on to the compressed child
 problem was that of another matrix

---
 triples/sdp/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 45f68f3..cd886f2 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -235,7 +235,10 @@ class DualMatrixTransform(SDPMatrixTransform):
         return parent_node
 
     def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
-        nullspace = {key: matmul(self._columnspace[key].T, nullspace[key]) for key in self.child_node.keys()}
+        # Si * Ni = 0 <=> Mi * Ui' * Ni = 0 where Si = Ui * Mi * Ui', and the child matrix is Ui' * Si * Ui = Ui'Ui * Mi * Ui'Ui
+        def _propagate(U, N):
+            return matmul((U.T * U).inv(), matmul(U.T, N))
+        nullspace = {key: _propagate(self._columnspace[key], nullspace[key]) for key in self.child_node.keys()}
         return nullspace
 
 class PrimalMatrixTransform(SDPMatrixTransform, SDPCopyTransform):
-- 
2.43.0


From 651e176a7640dfac4a37235a476d02cab2a29b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 34/44] fix: use derivatives at zeros in SDPSOS only where no
 terms of a certificate can cancel

The null vectors taken from derivatives at a zero on the border are valid only if
every inequality constraint is a monomial with a positive coefficient and there are
no equality constraints. Otherwise they could make the programme infeasible, e.g.
a*b**2 + a*d**2 + b*c**2 with a >= 0, b - a >= 0.
---
 triples/core/sdpsos/manifold.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/triples/core/sdpsos/manifold.py b/triples/core/sdpsos/manifold.py
index 6020c9f..f0a6f8d 100644
--- a/triples/core/sdpsos/manifold.py
+++ b/triples/core/sdpsos/manifold.py
@@ -220,7 +220,7 @@ def _compute_nonvanishing_diff_orders(poly: Poly, root: Root, monomial: Tuple[in
     return handled_zeros
 
 
-def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly) -> sp.Matrix:
+def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly, higher_order: bool = True) -> sp.Matrix:
     """
     Compute the constraint nullspace spaned by a given root.
 
@@ -229,6 +229,10 @@ def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly)
     f = a * (x'Mx) and f|_r = 0, (df/da)|_r = 0 where r = (a,b,c) and x = [a^3,a^2b,...].
     When M >> 0 and a == 0, we still require Mx = 0 because
     (df/da) = (x'Mx) + a * ((dx/da)'Mx + x'M(dx/da)) = x'Mx.
+
+    The argument about derivatives (higher_order = True) relies on that no two terms of the
+    certificate cancel in a derivative. It holds if every inequality constraint is a
+    monomial with a positive coefficient and there are no equality constraints.
     """
     d = (manifold._degree - constraint.homogeneous_order()) // 2
     nvars = len(constraint.gens)
@@ -236,7 +240,7 @@ def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly)
     symmetry = manifold._symmetry
     base_symmetry = symmetry.base()
     spans = []
-    if isinstance(root, RootRational) and constraint.is_monomial:
+    if higher_order and isinstance(root, RootRational) and constraint.is_monomial:
         monomial = tuple(constraint.monoms()[0])
         for r_ in symmetry.permute(root.root):
             new_r = RootRational(r_)
@@ -371,6 +375,8 @@ class RootSubspace():
     def _nullspace_from_roots(self, constraint: Poly, ineq_constraints: List[Poly] = [], eq_constraints: List[Poly] = [], roots: List[RootAlgebraic] = None) -> List[sp.Matrix]:
         nullspaces = []
         if roots is None: roots = self.roots
+        higher_order = len(eq_constraints) == 0 and all(
+            ineq.is_monomial and ineq.LC() > 0 for ineq in ineq_constraints)
         for root in roots:
             is_feasible = True
             for permed_root in self._symmetry.permute(root.root):
@@ -383,7 +389,7 @@ class RootSubspace():
             if not is_feasible:
                 continue
 
-            span = _root_space(self, root, constraint)
+            span = _root_space(self, root, constraint, higher_order=higher_order)
 
             if span.shape[1] > 0:
                 span = sp.Matrix.hstack(*span.columnspace())
-- 
2.43.0


From 4ad11db1083dbcd7f1607cf61572f3a32174f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 35/44] fix: zeros with coordinates in different number fields
 crashed RootAlgebraic

When no coordinate generates a field that contains the others, use the composite field,
e.g. (sqrt(2), sqrt(3), 1) for (a**2-2*c**2)**2 + (b**2-3*c**2)**2.
---
 triples/utils/roots/roots.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 4a20887..ad21977 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -204,6 +204,14 @@ class RootAlgebraic(Root):
                     self.K = None
                 if self.K is not None:
                     break
+        if self.root_anp is None and any(not isinstance(r, sp.Rational) for r in root):
+            # no entry generates a field that contains all the others, e.g. (sqrt(2), sqrt(3), 1)
+            try:
+                self.K = sp.QQ.algebraic_field(*[r for r in root if not isinstance(r, sp.Rational)])
+                self.root_anp = [self.K.from_sympy(r) for r in root]
+            except Exception as e: # not algebraic numbers
+                self.K = None
+                self.root_anp = None
         if self.root_anp is None:
             self.root_anp = self.root
     
-- 
2.43.0


From 05a220ab8a4c10405d7f1f67644c654fedada6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 36/44] fix: SDP.solve with allow_numer registered malformed
 decompositions

A numerical solution that is accepted as it is was registered with ((U, S),) rather than
(U, S), so SDPSOS(..., allow_numer=3) could not use it, and the registered point was not
the projected one.
---
 triples/sdp/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..c595b04 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -259,8 +259,8 @@ class SDPProblemBase(ABC):
 
                 def _force_return(self: SDPProblemBase, y):
                     self.register_y(y, perturb = True, propagate_to_parent = False)
-                    _decomp = dict((key, (s, d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
-                    return y, _decomp
+                    _decomp = dict((key, (s, *d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
+                    return self.y, _decomp
 
                 if allow_numer >= 3:
                     # force to return the numerical solution
-- 
2.43.0


From d4adb6649ff7c2241438f6638dbe5b6b000bf53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 37/44] fix: sign of the representative of a cyclic product in
 the factored form

(2a-b)(2b-c)(2c-a) was written as minus the polynomial when the chosen
representative is the negative of a permuted factor and the group has odd order.
---
 triples/utils/expression/form.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/triples/utils/expression/form.py b/triples/utils/expression/form.py
index 0f96e34..c6e70c4 100644
--- a/triples/utils/expression/form.py
+++ b/triples/utils/expression/form.py
@@ -211,22 +211,24 @@ def _reduce_factor_list(poly: Poly, perm_group: PermutationGroup) -> Tuple[Expr,
     cyc_factors = []
     for base, power in factors:
         subdict = defaultdict(int)
-        representative = base
+        representative, rep_sign = base, 1
         sign = 1
         for p in perm_group.elements:
             permed_base = base.reorder(*p(poly.gens)).rep
-            permed_poly = rep_dict.get(permed_base)
+            permed_poly, permed_sign = rep_dict.get(permed_base), 1
             if permed_poly is None:
-                permed_poly = rep_dict.get(-permed_base)
-                sign *= -1
+                permed_poly, permed_sign = rep_dict.get(-permed_base), -1
+            sign *= permed_sign
             if permed_poly is None:
                 break
             subdict[permed_poly] += 1
             if pow_dict[permed_poly] < subdict[permed_poly]:
                 break
             if permed_poly.compare(representative) < 0:
-                representative = permed_poly
+                representative, rep_sign = permed_poly, permed_sign
         else:
+            # prod(p(representative)) = rep_sign**order * prod(p(base))
+            sign *= rep_sign**perm_group.order()
             # get max common power
             d = min(pow_dict[p]//v for p, v in subdict.items())
             if sign == -1 and d % 2 == 1: coeff = -coeff
-- 
2.43.0


From a7a1818fb5800729e423af3f87c5a996735135fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 38/44] fix: LaTeX sums and products at the end of the text or
 inside parentheses

\sum a, \sum a^2 - 3 and (a+\sum ab)^2 c were not recognised or closed too late.
---
 triples/utils/text_process.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index fafefb4..4f8d076 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -69,7 +69,7 @@ def _preprocess_text_delatex(poly: str) -> str:
     parenthesis = 0
     paren_depth = [-1]
     i = 0
-    while i < len(poly) - 4:
+    while i < len(poly):
         if poly[i:i+3] == 'sum':
             parenthesis += 1
             paren_depth.append(parenthesis)
@@ -82,12 +82,13 @@ def _preprocess_text_delatex(poly: str) -> str:
             i += 1
         elif poly[i] == '(':
             parenthesis += 1
-        elif poly[i] == ')':
-            parenthesis -= 1
-        elif parenthesis == paren_depth[-1] and (poly[i] == '+' or poly[i] == '-'):
+        elif parenthesis == paren_depth[-1] and (poly[i] == '+' or poly[i] == '-' or poly[i] == ')'):
+            # the sum or product ends at a sign or at the end of the enclosing parenthesis
             poly = poly[:i] + ')' + poly[i:]
             parenthesis -= 1
             paren_depth.pop()
+        elif poly[i] == ')':
+            parenthesis -= 1
         i += 1
     poly += ')' * (len(paren_depth) - 1)
 
-- 
2.43.0


From a64610f7fbd96231e7b285627010ce6487ec1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 39/44] fix: degree_of_zero with signs in front of the first
 term

-a^2+a^2 and a((-b)+b) were given degree 0.
---
 triples/utils/text_process.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 4f8d076..04dd8dd 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -315,6 +315,7 @@ def degree_of_zero(
     )
     gen_names = set([_.name for _ in gens])
 
+    poly = poly.lstrip('+-') # signs in front of the first term
     i = 0
     length = len(poly)
     bracket = 0
@@ -342,13 +343,10 @@ def degree_of_zero(
             bracket -= 1
         elif poly[i] == '(':
             bracket += 1
-            # e.g. a*(-b*c) ,    a*(--+-b*c)
-            i += 1
-            while i < length and (poly[i] == '-' or poly[i] == '+'):
+            # e.g. a*(-b*c) ,    a*(--+-b*c) ,    a*((-b)*c)
+            while i + 1 < length and (poly[i+1] == '-' or poly[i+1] == '+'):
                 i += 1
-            if i == length:
-                break 
-            
+
         i += 1
         
     try:
-- 
2.43.0


From 1d7a34e614a0e8de47d62911b212d9648c31482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 40/44] fix: PrimalBackendCLARABEL.is_available() without
 clarabel installed

SDPPrimal.solve() selected it and raised ModuleNotFoundError although picos is there.
---
 triples/sdp/backend/clarabel_sdp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/backend/clarabel_sdp.py b/triples/sdp/backend/clarabel_sdp.py
index 8b01c10..00d5962 100644
--- a/triples/sdp/backend/clarabel_sdp.py
+++ b/triples/sdp/backend/clarabel_sdp.py
@@ -99,6 +99,8 @@ class DualBackendCLARABEL(DualBackend):
 
 
 class PrimalBackendCLARABEL(PrimalBackend):
+    _dependencies = ('clarabel', 'scipy')
+
     def __init__(self, x0) -> None:
         super().__init__(x0)
 
-- 
2.43.0


From 6c934a5f5105c44ce3151e5988376435c9ec55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 41/44] fix: min_eigen given as a dict of numbers

SDPProblem.solve(min_eigen={key: 1}) raised TypeError while scaling the bounds.
---
 triples/sdp/backend/caller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..4bd2312 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -71,7 +71,7 @@ def _create_numerical_dual_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in x0_and_space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
 
     if scaling > 0:
-- 
2.43.0


From a30ea6ec905974d44109076007c79fb5ca159473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:18 +0000
Subject: [PATCH 42/44] fix: right hand side of a constraint (expression, rhs,
 operator)

exprs_to_arrays dropped the constant: solve(constraints=[(b, -1, "<=")]) required b <= 0.
---
 triples/sdp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index a28177f..c186a48 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -448,6 +448,7 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
         If it is a Relational, it returns the operator also.
     """
     op_list = []
+    rhs_list = []
     vec_list = []
     index_list = []
     result = [None for _ in range(len(exprs))]
@@ -467,6 +468,7 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
         if isinstance(expr, (Expr, int, float)):
             vec_list.append(expr)
             op_list.append(op)
+            rhs_list.append(c)
             index_list.append(i)
         else:
             if op is not None:
@@ -479,9 +481,9 @@ def exprs_to_arrays(locals: Dict[str, Any], symbols: List[Symbol],
     for j in range(len(index_list)):
         i = index_list[j]
         if op_list[j] is not None:
-            result[i] = (A[j,:], -const[j], op_list[j])
+            result[i] = (A[j,:], rhs_list[j] - const[j], op_list[j])
         else:
-            result[i] = (A[j,:], -const[j])
+            result[i] = (A[j,:], rhs_list[j] - const[j])
     return result
 
 
-- 
2.43.0


From c899dac29fae507e6443b8f3d6ca12b9191abae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 43/44] fix: constraints and objective of a primal SDP with
 eigenvalue bounds

They are given for S but were applied to S - (k*r + b)*I: with min_eigen=0.1
the constraint S00 <= 0.6 was solved by S00 = 0.7.
---
 triples/sdp/backend/backend.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/triples/sdp/backend/backend.py b/triples/sdp/backend/backend.py
index 0256176..0a8a129 100644
--- a/triples/sdp/backend/backend.py
+++ b/triples/sdp/backend/backend.py
@@ -287,6 +287,24 @@ class PrimalBackend(SDPBackend, ABC):
         self._eigen_relaxations.append((k, b))
         return self._add_linear_matrix_equality(space)
 
+    def _shift_eigen(self, vec: np.ndarray) -> Tuple[np.ndarray, float]:
+        """
+        Write the inner product of `vec` and S1, ..., SN as an inner product with
+        S1', ..., SN' and the relaxation variable plus a constant.
+        """
+        vec = self.extend_vector(vec).flatten()
+        traces = [v[::m+1].sum() for v, m in zip(self.split_vector(vec), self._mat_size)]
+        vec[-1] += sum(k * t for (k, b), t in zip(self._eigen_relaxations, traces))
+        return vec, sum(b * t for (k, b), t in zip(self._eigen_relaxations, traces))
+
+    def add_constraint(self, constraint: np.ndarray, rhs: float = 0, operator='__ge__') -> None:
+        constraint, const = self._shift_eigen(constraint)
+        return super().add_constraint(constraint, rhs - const, operator)
+
+    def set_objective(self, objective: np.ndarray) -> None:
+        objective, const = self._shift_eigen(objective)
+        return super().set_objective(objective)
+
     def _set_objective(self, objective: np.ndarray) -> None:
         self._objective = objective
 
-- 
2.43.0


From 18e4ac8069907a14e31455ec775914bda1aa1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:33 +0000
Subject: [PATCH 44/44] fix: str_txt: exponents of several digits lost their
 later digits in superscripts

---
 triples/utils/expression/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..f2a3c7d 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -457,11 +457,11 @@ class SolutionSimple(Solution):
             (' ',''),
             ('**', '^'),
             ('*', ''),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
-        return s
+        pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
+        return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
 
     @property
     def str_formatted(self):
-- 
2.43.0

