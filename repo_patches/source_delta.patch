From 3170bdf24ba6bbb4775e4b4ba2b9a4ae831bd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/11] fix: Black76Option.set_param accepts S and no longer
 ignores b

The finite difference delta, gamma and lambda bump S, which Black76Option
calls FT, and so failed with a TypeError. A value set for b was dropped
silently; it is now refused by the constructor.
---
 src/finoptions/vanillaoptions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..8d773a0 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -588,9 +588,12 @@ class Black76Option(GBSOption):
         """
 
         tmp = self.get_params()
-        tmp[x] = value
+        del tmp["b"]  # b is fixed at 0 and is not a parameter of this class
 
-        del tmp["b"]  # delete b prior to re-init
+        # the underlying is called S by the finite difference greeks
+        if x == "S":
+            x = "FT"
+        tmp[x] = value
 
         self.__init__(**tmp)
 
-- 
2.43.0


From cf383759a052ef3662a8ac6626d47a8eb7f38100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 02/11] fix: relative performance payoff divides by Q2*S2

Q1*S1 / Q2*S2 multiplied by S2 instead of dividing by it.
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..f89be5a 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From 36f701406847b2104c0f5580dc784fffa32f7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 03/11] fix: refuse unknown exercise types and payoff numbers
 on the lattices

An unknown otype on the two-asset lattice was priced as european, an unknown
payoff number gave nan, and an unknown type on the trinomial tree returned
an un-rolled terminal value.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..630d4fc 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -157,6 +157,9 @@ class CRRBinomialTreeOption(_Option):
         type: str = "european",
         n: int = 5,
     ):
+        if type not in ("european", "american"):
+            raise ValueError(f"type must be 'european' or 'american', not {type!r}")
+
         self._S = S
         self._K = K
         self._t = t
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index f89be5a..5e5c764 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -160,7 +160,9 @@ class BionomialSpreadAllTypes(_Option):
 
     def _calc_price(self, z, n, otype, tree):
         # fmt: off
-        
+        if otype not in ("european", "american"):
+            raise ValueError(f"otype must be 'european' or 'american', not {otype!r}")
+
         OptionValue = _np.zeros((n+2,n+2))
 
         for j in range(0,n+1):
@@ -222,6 +224,8 @@ class BionomialSpreadAllTypes(_Option):
             return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
+        else:
+            raise ValueError(f"unknown option payoff {option}, must be 1 to 9")
         
     def call(self, tree: bool = False):
         """
-- 
2.43.0


From 25ca75900db27ce9593839886c01f19047177603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 04/11] fix: refuse unknown greek methods instead of returning
 None

---
 src/finoptions/vanillaoptions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 8d773a0..ce462a6 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -77,6 +77,9 @@ class GBSOption(Option):
 
         self._greeks = GreeksFDM(self)
 
+    def _unknown_method(self, method):
+        raise ValueError(f"method must be 'analytic' or 'fdm', not {method!r}")
+
     def _check_sigma(self, func):
         if self._sigma is None:
             raise ValueError(f"sigma not defined. Required for {func}() method")
@@ -175,6 +178,8 @@ class GBSOption(Option):
                 )
         elif method == "fdm":
             return self._greeks.delta(call=call)
+        else:
+            self._unknown_method(method)
 
     def theta(self, call: bool = True, method: str = "analytic"):
         """
@@ -236,6 +241,8 @@ class GBSOption(Option):
                 )
         elif method == "fdm":
             return self._greeks.theta(call=call)
+        else:
+            self._unknown_method(method)
 
     def vega(self, method: str = "analytic"):
         """
@@ -270,6 +277,8 @@ class GBSOption(Option):
             )
         elif method == "fdm":
             return self._greeks.vega()
+        else:
+            self._unknown_method(method)
 
     def rho(self, call: bool = True, method: str = "analytic"):
         """
@@ -330,6 +339,8 @@ class GBSOption(Option):
                 raise ValueError(
                     "rho calculation versus finite difference method currently only works if b = 0"
                 )
+        else:
+            self._unknown_method(method)
 
     def lamb(self, call: bool = True, method: str = "analytic"):
         """
@@ -377,6 +388,8 @@ class GBSOption(Option):
             return result
         elif method == "fdm":
             return self._greeks.lamb(call=call)
+        else:
+            self._unknown_method(method)
 
     def gamma(self, method: str = "analytic"):
         """
@@ -410,6 +423,8 @@ class GBSOption(Option):
             )
         elif method == "fdm":
             return self._greeks.gamma()
+        else:
+            self._unknown_method(method)
 
     def c_of_c(self, call: bool = True):
         """
-- 
2.43.0


From 4d599c186133fd232c56fdf0e764e3d5438a687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 05/11] fix: repr and summary name the option's own class

TIANBinomialTreeOption reported itself as CRR, BionomialSpreadOption as
BionomialMinOption and BionomialSpreadAllTypes as BionomialSpreadOption.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index 630d4fc..fa892f8 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -507,6 +507,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 5e5c764..877673c 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -110,7 +110,7 @@ class BionomialSpreadAllTypes(_Option):
     ----------
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
-    __name__ = "BionomialSpreadOption"
+    __name__ = "BionomialSpreadAllTypes"
     __title__ = "Rubinstein Binomial Tree Spread Option Model"
 
     def __init__(
@@ -749,7 +749,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From b2692c251d69b022b39ccee7252b5697023f2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 06/11] fix: redraw Sobol innovations containing -inf too

abs(max(x)) only sees +inf; a Sobol coordinate of 0 maps to -inf.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..9b3d9c7 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while _np.max(_np.abs(sobol)) == _np.inf:
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From 62cde11a8f349d34193e9f03e08549fc4256d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 07/11] fix: Monte Carlo trace prints the running average

It divided the sum over all loops by the loop number.
---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From a9fda355f7836d069d102f352fe0c1f1ff70ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 08/11] fix: symmetric HN-GARCH likelihood ignores gamma

~symmetric is truthy for both True and False, so the symmetric mode filtered
with gamma. The start vector keeps its fifth element in both modes, as before.
---
 src/finoptions/heston_nandi_options/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..d0f4488 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
@@ -313,8 +313,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
     par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    par_start.append(gam)
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From d59b36383a11770a257a39141a8ff67032137853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 09/11] fix: GBSOption.rho accepts an array of cost-of-carry
 rates

if self._b != 0 is ambiguous for arrays, so rho and greeks failed.
---
 src/finoptions/vanillaoptions.py | 36 +++++++++++++-------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index ce462a6..c26ee43 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -309,31 +309,25 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
-
-            return result
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
+            # b may be an array: choose element by element, [()] keeps scalars scalar
+            return _np.where(self._b != 0, result, -self._t * price)[()]
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From 4772deb72fda79eaaecda1f5152dd9ffa79bd063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 10/11] fix: simulate and filter HN-GARCH series given as whole
 numbers without truncation

---
 src/finoptions/heston_nandi_options/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index d0f4488..6fadcef 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -244,6 +244,7 @@ class ParamFit:
 
 def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
 
+    x = _np.asarray(x, dtype=float)
     h = x.copy()
     z = x.copy()
 
@@ -418,6 +419,7 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
         x = _np.concatenate((inno_start, inno))
     else:
         x = inno.copy()
+    x = _np.asarray(x, dtype=float)
     h = x.copy()
     Z = x.copy()
     
-- 
2.43.0


From 58c284f27b14c37d7613f40378d3a2261583533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 11/11] fix: Barone-Adesi-Whaley prices exist at a zero
 interest rate

With r = 0 the ratio r / (1 - exp(-r t)) evaluated to 0/0 and the put's
seed to 1 - 1/0, so puts (and calls with b < 0) came out as NaN. Use the
limit of both expressions.
---
 .../basic_american_options/__init__.py           | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..49157d0 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -400,6 +400,12 @@ class BAWAmericanApproxOption(_Option):
 
         self._greeks = GreeksFDM(self)
 
+    def _rate_ratio(self):
+        # 2r / (sigma^2 (1 - exp(-rt))), continued to a zero interest rate
+        if self._r == 0:
+            return 2 / (self._sigma ** 2 * self._t)
+        return 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+
     def _bawKc(self):
         # Newton Raphson algorithm to solve for the critical commodity
         # price for a Call.
@@ -414,7 +420,7 @@ class BAWAmericanApproxOption(_Option):
             / (Su - self._K)
         )
         Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._rate_ratio()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -468,14 +474,14 @@ class BAWAmericanApproxOption(_Option):
         n = 2 * self._b / self._sigma ** 2
         m = 2 * self._r / self._sigma ** 2
         q1u = (-(n - 1) - _np.sqrt((n - 1) ** 2 + 4 * m)) / 2
-        Su = self._K / (1 - 1 / q1u)
+        Su = self._K * q1u / (q1u - 1)
         h1 = (
             (self._b * self._t - 2 * self._sigma * _np.sqrt(self._t))
             * self._K
             / (self._K - Su)
         )
         Si = Su + (self._K - Su) * _np.exp(h1)
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._rate_ratio()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -550,7 +556,7 @@ class BAWAmericanApproxOption(_Option):
         else:
             Sk = self._bawKc()
             n = 2 * self._b / self._sigma ** 2
-            X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+            X = self._rate_ratio()
             d1 = (
                 _np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
@@ -593,7 +599,7 @@ class BAWAmericanApproxOption(_Option):
 
         Sk = self._bawKp()
         n = 2 * self._b / self._sigma ** 2
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._rate_ratio()
         d1 = (_np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
-- 
2.43.0

