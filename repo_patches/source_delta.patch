From eb8ab3e0f28377463e5d93c2a38cf306c6810e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 01/70] fix: update the units of a Quantity used as ufunc
 output under numpy 2

In-place *=, /=, //= and **= (and out=) left the units untouched, so
x = 2*m; x *= 3*s gave 6 m.
---
 quantities/quantity.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..55611ab 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -329,6 +329,12 @@ class Quantity(np.ndarray):
         else:
             if not isinstance(obj, Quantity):
                 return self.__array_prepare__(obj, context)
+            # a Quantity was passed as `out` (as the in-place operators do):
+            # its units have to follow those of the inputs
+            if context is not None and any(
+                isinstance(i, Quantity) for i in context[1][:context[0].nin]
+            ):
+                return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
 
@@ -657,7 +663,7 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            None if out is None else out.view(np.ndarray)
         )
         dim = self.dimensionality
         if out is None:
-- 
2.43.0


From 49917cb1df6c098a1daff8093503051837ed51f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 02/70] fix: floor-divide in place must not change the units of
 a view

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 55611ab..2c36557 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -396,6 +396,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
-- 
2.43.0


From cda2ac08018e7bfaa4acf7cf86f7ca2e27ef0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 03/70] fix: fill() must not change the units of a view

Filling a view with a value in other units wrote the raw magnitude into the
parent, which keeps its own units.
---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 2c36557..cca80a0 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -547,11 +547,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dims = getattr(value, 'dimensionality', self._dimensionality)
+        if dims != self._dimensionality and isinstance(self.base, Quantity):
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        self._dimensionality = dims
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From 004d9b1e45e716c260f0bdd5ab33b36bd54fec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 04/70] fix: deepcopy of a Quantity must not share memory or
 lose the uncertainty

---
 quantities/quantity.py          |  5 +++--
 quantities/uncertainquantity.py | 12 +++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index cca80a0..f48c3da 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -816,8 +816,9 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        return Quantity(
+            copy.deepcopy(self.magnitude, memo_dict), self.dimensionality
+        )
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..f47c716 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,9 +1,11 @@
 """
 """
 
-import numpy as np
+import copy
 import warnings
 
+import numpy as np
+
 from . import markup, QuantitiesDeprecationWarning
 from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
@@ -284,3 +286,11 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+    def __deepcopy__(self, memo_dict):
+        return UncertainQuantity(
+            copy.deepcopy(self.magnitude, memo_dict),
+            self.dimensionality,
+            copy.deepcopy(self.uncertainty, memo_dict),
+            dtype=self.dtype
+        )
-- 
2.43.0


From 073e4c346fc26f75711cdb65acf4e4885c99d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 05/70] fix: copy.copy and copy.deepcopy of units

copy.copy returned a broken object, deepcopy a plain Quantity (which made
Dimensionality objects impossible to deepcopy).
---
 quantities/unitquantity.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..f668053 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,14 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable and compared by identity of their names, so there is
+    # nothing to be gained by duplicating them
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
@@ -434,6 +442,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return self
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From a4abe5ad76ec6dcdc561cce2385da1709858921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 06/70] fix: infinite recursion in dimensionless.simplified

---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index f668053..53b565b 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -445,6 +445,10 @@ class Dimensionless(UnitQuantity):
     def copy(self):
         return self
 
+    @property
+    def simplified(self):
+        return self.view(Quantity)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 8ebea05fadfd7e8a69cc71c7b1caf92d5280ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 07/70] fix: nan-ignoring methods ignored axis and out

nanmax, nanmin, nanargmax and nanargmin ignored axis and out; all of the
nan-ignoring methods failed with a Quantity as out.
---
 quantities/quantity.py | 49 +++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index f48c3da..5d327ec 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -540,10 +540,11 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.view(np.ndarray))
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+            return out
+        return Quantity(ret, self.dimensionality)
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -605,10 +606,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.view(np.ndarray))
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+            return out
+        return Quantity(ret, self.dimensionality)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -623,10 +625,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.view(np.ndarray))
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+            return out
+        return Quantity(ret, self.dimensionality)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -634,11 +637,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
@@ -721,9 +724,11 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.view(np.ndarray))
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+            return out
+        return Quantity(ret, self.dimensionality)
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
@@ -749,10 +754,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
+        ret = np.nanstd(
+            self.magnitude, axis, dtype,
+            None if out is None else out.view(np.ndarray), ddof
         )
+        if isinstance(out, Quantity):
+            out._dimensionality = self.dimensionality
+            return out
+        return Quantity(ret, self.dimensionality)
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From 484f9e4e7506da10d0b1b5ffa7ad7aa445bbf805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 08/70] fix: exponents that are multiples of ten lost their
 zeros when formatted

---
 quantities/markup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..e78a60b 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -41,6 +41,13 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(exp):
+    res = '%s'%exp
+    if '.' in res and 'e' not in res:
+        # 2.0 -> 2, 0.50 -> 0.5, but leave 10 alone
+        res = res.rstrip('0').rstrip('.')
+    return res
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +68,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
-- 
2.43.0


From c87fb0eb795bba820ef80dd3d013505b0c815034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 09/70] fix: fractional exponents in unicode, LaTeX and HTML
 unit strings

---
 quantities/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index e78a60b..552bebe 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -126,7 +126,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -159,7 +159,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From bff46a3f786ce028e86c5dca681e9938c62830e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 10/70] fix: parsing of inch and attosecond symbols and of
 repeated '.' in unit strings

'in**2' and '1/as' were syntax errors as 'in' and 'as' are python keywords,
and 'm.s.kg' was rejected because only one of the dots was replaced.
---
 quantities/registry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..275f10b 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -59,7 +59,9 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'(?<=[A-Za-z])\.(?=[A-Za-z])')
+    # symbols which are python keywords
+    __keywords = re.compile(r'\b(in|as)\b')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -72,12 +74,14 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            "*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        label = self.__keywords.sub(
+            lambda m: {'in': 'inch', 'as': 'attosecond'}[m.group()], label)
 
         return self.__registry[label]
 
-- 
2.43.0


From d3f1985ae2fc36c6b280866988d288c3b3beb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 11/70] fix: reject unit strings which do not denote a unit

A numerical factor in a unit string was silently dropped: Quantity(1, '2*m')
was 1 m, and Quantity(1, '1') an AttributeError.
---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 5d327ec..55aed04 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,10 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            units = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            units = unit_registry[str(value)]
+        return validate_unit_quantity(units).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From c8285ae63b351b0682bc3c89d8cbc5206dc98959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 12/70] fix: missing comma in the aliases of the foot

---
 quantities/units/length.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From 2bd2f335c9b7938b2b212f9eaa76a934dd1c0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 13/70] fix: placeholder alias of the oersted

---
 quantities/units/electromagnetism.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..482cf34 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
-- 
2.43.0


From badd6afff44dc1960150974a9a33f923689adcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 14/70] fix: pond is one gram-force, not one kilogram-force

---
 quantities/units/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..7be0d23 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*gram,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From ccf67cf57e87c7403bdf3b06f8105ced2aef5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 15/70] fix: statampere is not an SI base current

It was declared as an electric current but has CGS-ESU dimensions, so
simplifying it raised an exception.
---
 quantities/units/electromagnetism.py  | 2 +-
 quantities/units/electromagnetism.pyi | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index 482cf34..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index bdc6ddb..f3ba38b 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -24,8 +24,8 @@ statcoulomb: UnitQuantity
 statC: UnitQuantity
 franklin: UnitQuantity
 Fr: UnitQuantity
-esu_per_second: UnitCurrent
-statampere: UnitCurrent
+esu_per_second: UnitQuantity
+statampere: UnitQuantity
 ampere_turn: UnitQuantity
 Gi: UnitQuantity
 gilbert: UnitQuantity
-- 
2.43.0


From 566ec37b1ffef01edade989d6738d498f1c4250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/70] fix: logaddexp and logaddexp2 did not check the units
 of the second operand

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..ebc4245 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -375,8 +375,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_dimensionless2(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_dimensionless2
+p_dict[np.logaddexp2] = _d_dimensionless2
 
 def _d_trig(q1, out=None):
     try:
-- 
2.43.0


From a957c656595d8435f2fd5bc167f69f51ebcfd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 17/70] fix: mixing quantities and numbers in ufuncs raised
 AttributeError

The error message was built from attributes which plain numbers don't have;
arctan2 of a dimensionless quantity and a number failed for the same reason.
---
 quantities/dimensionality.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index ebc4245..5abb3c7 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -269,7 +269,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
             )
 
 p_dict[np.add] = _d_check_uniform
@@ -288,14 +288,14 @@ p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
-    try:
-        assert q1._dimensionality == q2._dimensionality
-        return Dimensionality()
-    except AssertionError:
+    d1 = getattr(q1, '_dimensionality', Dimensionality())
+    d2 = getattr(q2, '_dimensionality', Dimensionality())
+    if d1 != d2:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
+            (d1, d2)
         )
+    return Dimensionality()
 
 p_dict[np.arctan2] = _d_arctan2
 
-- 
2.43.0


From 79ca8e2ac766afc6a813783059dde80dfcea8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 18/70] fix: comparison ufuncs attached units to their boolean
 result

---
 quantities/dimensionality.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 5abb3c7..6b9f242 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -278,15 +278,19 @@ p_dict[np.mod] = _d_check_uniform
 p_dict[np.fmod] = _d_check_uniform
 p_dict[np.remainder] = _d_check_uniform
 p_dict[np.hypot] = _d_check_uniform
-p_dict[np.equal] = _d_check_uniform
-p_dict[np.not_equal] = _d_check_uniform
-p_dict[np.less] = _d_check_uniform
-p_dict[np.less_equal] = _d_check_uniform
-p_dict[np.greater] = _d_check_uniform
-p_dict[np.greater_equal] = _d_check_uniform
 p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
+def _d_compare(q1, q2, out=None):
+    _d_check_uniform(q1, q2)
+    return Dimensionality()
+p_dict[np.equal] = _d_compare
+p_dict[np.not_equal] = _d_compare
+p_dict[np.less] = _d_compare
+p_dict[np.less_equal] = _d_compare
+p_dict[np.greater] = _d_compare
+p_dict[np.greater_equal] = _d_compare
+
 def _d_arctan2(q1, q2, out=None):
     d1 = getattr(q1, '_dimensionality', Dimensionality())
     d2 = getattr(q2, '_dimensionality', Dimensionality())
-- 
2.43.0


From 0fd45c398b35d40d6120de63175b5166082da760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 19/70] fix: arctan2 of compatible but different units ignored
 the units

---
 quantities/umath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..8c88938 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -347,6 +347,7 @@ def arctan2(x1, x2, out=None):
             'x1 and x2 must have identical units, got "%s" and "%s"'\
             % (str(x1._dimensionality), str(x2._dimensionality))
         )
+    x2 = x2.rescale(x1._dimensionality)
 
     return Quantity(
         np.arctan2(x1.magnitude, x2.magnitude, out),
-- 
2.43.0


From 7601bc63a80b360a9f4b70d25181565aefef1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 20/70] fix: cross and arctan2 of a quantity and plain numbers
 ignored the units

The code below the guard handles plain operands as dimensionless, but was never
reached: cross dropped the units, arctan2 did not return radians.
---
 quantities/umath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 8c88938..aaa78fb 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -105,7 +105,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
@@ -334,7 +334,7 @@ def arctan2(x1, x2, out=None):
 
     Returns a quantity in units of radians.
     """
-    if not (isinstance(x1, Quantity) and isinstance(x2, Quantity)):
+    if not (isinstance(x1, Quantity) or isinstance(x2, Quantity)):
         return np.arctan2(x1, x2, out)
 
     if not isinstance(x1, Quantity):
-- 
2.43.0


From 57c37a108e024b76182325886ccb3e6dd0b0c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 21/70] fix: unwrap dropped the units or used a period of 2*pi
 degrees

---
 quantities/umath.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index aaa78fb..996b06b 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -382,20 +382,21 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
-        p = Quantity(p, copy=False)
+        p = Quantity(p)
     if not isinstance(discont, Quantity):
-        discont = Quantity(discont, copy=False)
-
-    discont = discont.rescale(p.units)
+        discont = Quantity(discont, radian)
 
+    # the period is 2*pi, so this has to be done in radians
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+        np.unwrap(
+            p.rescale(radian).magnitude, discont.rescale(radian).magnitude, axis
+        ),
+        radian
+    ).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From 44225b3fa9653d65eedcaa5f56d15f5d342a7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 22/70] fix: ediff1d ignored the units of to_end and to_begin

---
 quantities/umath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 996b06b..479488f 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -73,6 +73,11 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    to_end, to_begin = (
+        i.rescale(ary.dimensionality).magnitude if isinstance(i, Quantity) else i
+        for i in (to_end, to_begin)
+    )
+
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From 2008c2e14134fd0a5c4464c0b6f1916bea8c7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 23/70] fix: gradient without spacing, with plain spacing and
 in one dimension

Without spacing an empty tuple was returned, plain numbers raised
AttributeError, and a one-dimensional result was split into scalars.
---
 quantities/umath.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 479488f..298e593 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -94,14 +94,21 @@ def gradient(f, *varargs):
     #   if len(varargs) == 0:
     #       varargs = (Quantity(1),)
 
-    varargsQuantities = [Quantity(i, copy=False) for i in varargs]
+    if not isinstance(f, Quantity):
+        f = Quantity(f)
+    varargsQuantities = [Quantity(i) for i in varargs] or [Quantity(1.0)]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
-    if len(varargs) == 1:
+    if f.ndim == 1:
+        # like np.gradient, don't return a sequence in this case
+        return Quantity(ret, f.units/varargsQuantities[0].units)
+
+    if len(varargsQuantities) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)
+                      for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-- 
2.43.0


From 672e4a868b9d2bd67be20ae426688d139281aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 24/70] fix: cos and tan ignored out

---
 quantities/umath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 298e593..1bbda04 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -291,7 +291,7 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -320,7 +320,7 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From ff3f6adfbf084d30934ff2bc017018f573b10073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 25/70] fix: quantitizer failed for quantities in keyword
 arguments

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From 3396516c9aeca7c4da8ea8ab376080e9a3291319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 26/70] fix: unit assignment and copy construction of uncertain
 quantities

---
 quantities/uncertainquantity.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f47c716..7d1486b 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -28,17 +28,15 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            # a new object, converted to the units of ret
+            ret.uncertainty = data.uncertainty.rescale(ret._dimensionality)
 
         return ret
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self.uncertainty = self.uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
-- 
2.43.0


From 6aa739741dae6ab4412ee597bb9d8065152a908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 27/70] fix: indexing an uncertain quantity gave unprotected
 views and changed the dtype

---
 quantities/uncertainquantity.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 7d1486b..99f7c7b 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -167,11 +167,11 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
-        return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
-        )
+        ret = super().__getitem__(key)
+        if not isinstance(ret, UncertainQuantity):
+            ret = UncertainQuantity(ret, dtype=self.dtype)
+        ret.uncertainty = self.uncertainty[key]
+        return ret
 
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
-- 
2.43.0


From 731f12e2927970be7bc2e5013b08b39b4b4b40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 28/70] fix: propagation of uncertainties for negative, zero
 and exact operands

---
 quantities/uncertainquantity.py | 66 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 99f7c7b..0e46d08 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -11,6 +11,21 @@ from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
+def _with_uncertainty(other):
+    """Return other as an UncertainQuantity, exact unless it has uncertainties"""
+    if isinstance(other, UncertainQuantity):
+        return other
+    if isinstance(other, unit_registry['UnitQuantity']):
+        other = other.view(Quantity)
+    other = np.asanyarray(other)
+    return UncertainQuantity(other, dtype=other.dtype)
+
+def _split(other):
+    """Return the magnitudes of the value and of the uncertainty of other"""
+    if isinstance(other, UncertainQuantity):
+        return other.magnitude, other.uncertainty.magnitude
+    return np.asarray(other), 0.
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -90,6 +105,7 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
+        other = _with_uncertainty(other)
         res = super().__add__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
@@ -102,6 +118,7 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
     def __sub__(self, other):
+        other = _with_uncertainty(other)
         res = super().__sub__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
@@ -109,24 +126,16 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__rsub__, use_header=False)
     @scale_other_units
     def __rsub__(self, other):
-        if not isinstance(other, UncertainQuantity):
-            other = UncertainQuantity(other)
-
-        return UncertainQuantity.__sub__(other, self)
+        return UncertainQuantity.__sub__(_with_uncertainty(other), self)
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
         res = super().__mul__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2*other**2)**0.5
-
-        res._uncertainty = u
+        value, uncertainty = _split(other)
+        u = np.hypot(
+            self.uncertainty.magnitude * value, self.magnitude * uncertainty
+        )
+        res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
     @with_doc(Quantity.__rmul__, use_header=False)
@@ -139,30 +148,27 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2/other**2)**0.5
-
-        res._uncertainty = u
+        value, uncertainty = _split(other)
+        u = np.hypot(
+            self.uncertainty.magnitude / value,
+            res.magnitude * (uncertainty / value)
+        )
+        res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-        temp = UncertainQuantity(
-            1/self.magnitude, self.dimensionality**-1,
-            self.relative_uncertainty/self.magnitude
-        )
-        return other * temp
+        return _with_uncertainty(other).__truediv__(self)
 
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        other = np.asarray(other)
+        derivative = other * np.power(self.magnitude, other - 1.0)
+        u = abs(
+            np.where(other == 0, 0., derivative) * self.uncertainty.magnitude
+        )
+        res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
-- 
2.43.0


From f2d611a5c40023cb7fa2059d5ba1e45f6d9677be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 29/70] fix: sums of exact and uncertain quantities lost the
 uncertainty or the units of the left operand

---
 quantities/uncertainquantity.py | 11 +++++++----
 quantities/unitquantity.py      |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 0e46d08..519ada6 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -111,9 +111,11 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
-    @scale_other_units
     def __radd__(self, other):
-        return self.__add__(other)
+        if isinstance(other, Quantity):
+            # the result is in the units of the left operand
+            return _with_uncertainty(other) + self
+        return self + other
 
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
@@ -124,9 +126,10 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
-    @scale_other_units
     def __rsub__(self, other):
-        return UncertainQuantity.__sub__(_with_uncertainty(other), self)
+        if isinstance(other, Quantity):
+            return _with_uncertainty(other) - self
+        return -self + other
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 53b565b..88e4e82 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -167,7 +167,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -178,7 +178,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -200,7 +200,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -208,7 +208,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 711911a188e91373ff3708315e9d0cceaa8da202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 30/70] fix: in-place arithmetic did not update the uncertainty

---
 quantities/uncertainquantity.py | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 519ada6..f27d018 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -174,6 +174,42 @@ class UncertainQuantity(Quantity):
         res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
+    # the uncertainty depends on the values before the modification in place
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        u = (self + other).uncertainty
+        res = super().__iadd__(other)
+        res.uncertainty = u
+        return res
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        u = (self - other).uncertainty
+        res = super().__isub__(other)
+        res.uncertainty = u
+        return res
+
+    @with_doc(Quantity.__imul__, use_header=False)
+    def __imul__(self, other):
+        u = (self * other).uncertainty
+        res = super().__imul__(other)
+        res.uncertainty = u
+        return res
+
+    @with_doc(Quantity.__itruediv__, use_header=False)
+    def __itruediv__(self, other):
+        u = (self / other).uncertainty
+        res = super().__itruediv__(other)
+        res.uncertainty = u
+        return res
+
+    @with_doc(Quantity.__ipow__, use_header=False)
+    def __ipow__(self, other):
+        u = (self ** other).uncertainty
+        res = super().__ipow__(other)
+        res.uncertainty = u
+        return res
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
         ret = super().__getitem__(key)
-- 
2.43.0


From 25c0ef38a2d2fb1affb432aab28b53a044dc73b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 31/70] fix: in-place powers 0 and 1 of a quantity

---
 quantities/quantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 55aed04..7e7cc58 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -416,6 +416,9 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
+        if other == 0 or other == 1:
+            # ndarray.__ipow__ resorts to unsupported ufuncs for these powers
+            return np.power(self, other, out=self)
         return super().__ipow__(other)
 
     def __round__(self, decimals=0):
-- 
2.43.0


From 0d611a6936c1b0c2ff3cf7661822f2a1c1e1bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 32/70] fix: set_default_unit raised AssertionError for an
 incompatible unit

---
 quantities/unitquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 88e4e82..537fdec 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -326,7 +326,7 @@ class IrreducibleUnit(UnitQuantity):
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
         cls._default_unit = unit
 
-- 
2.43.0


From 31969aece0038245cc5cb3e6abbee2ff4d35412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 33/70] fix: a rejected set_default_units call applied part of
 the selection

---
 quantities/unitquantity.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 537fdec..af6ea00 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -486,6 +486,9 @@ def set_default_units(
     If both system and individual defaults are given, the system
     defaults will be applied first, followed by the individual ones.
     """
+    previous = [
+        (cls, cls.get_default_unit()) for cls in IrreducibleUnit.__subclasses__()
+    ]
     if system is not None:
         system = system.lower()
         try:
@@ -504,14 +507,20 @@ def set_default_units(
         UnitTemperature.set_default_unit('degK')
         UnitTime.set_default_unit('s')
 
-    UnitCurrency.set_default_unit(currency)
-    UnitCurrent.set_default_unit(current)
-    UnitInformation.set_default_unit(information)
-    UnitLength.set_default_unit(length)
-    UnitLuminousIntensity.set_default_unit(luminous_intensity)
-    UnitMass.set_default_unit(mass)
-    UnitSubstance.set_default_unit(substance)
-    UnitTemperature.set_default_unit(temperature)
-    UnitTime.set_default_unit(time)
+    try:
+        UnitCurrency.set_default_unit(currency)
+        UnitCurrent.set_default_unit(current)
+        UnitInformation.set_default_unit(information)
+        UnitLength.set_default_unit(length)
+        UnitLuminousIntensity.set_default_unit(luminous_intensity)
+        UnitMass.set_default_unit(mass)
+        UnitSubstance.set_default_unit(substance)
+        UnitTemperature.set_default_unit(temperature)
+        UnitTime.set_default_unit(time)
+    except Exception:
+        # do not apply the other selections of a rejected call
+        for cls, unit in previous:
+            cls._default_unit = unit
+        raise
 
 
-- 
2.43.0


From d66c02a3b302716ff30edad3b571557e8a531f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 34/70] fix: extrema of uncertain quantities ignored axis

---
 quantities/uncertainquantity.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f27d018..dd00318 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -279,41 +279,49 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _select(self, idx, axis):
+        """Return the elements at the positions found by an arg-function"""
+        if axis is None:
+            return self[np.unravel_index(idx, self.shape)]
+        idx = np.expand_dims(idx, axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self.dimensionality,
+            np.take_along_axis(self.uncertainty.magnitude, idx, axis).squeeze(axis),
+            dtype=self.dtype
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmax(self.magnitude, axis), axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmax(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmin(self.magnitude, axis), axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmin(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis, out)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis, out)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From a9444082aaf3d8a0275f3c2d871669987b94cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 35/70] fix: copies of uncertain quantities shared or lost the
 uncertainty

---
 quantities/quantity.py          |  4 ++--
 quantities/uncertainquantity.py | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7e7cc58..7f20619 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -286,9 +286,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index dd00318..8aa99eb 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -91,6 +91,12 @@ class UncertainQuantity(Quantity):
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
         return ret
 
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = super().astype(dtype, **kwargs).view(UncertainQuantity)
+        ret._uncertainty = self._uncertainty.copy()
+        return ret
+
     def __array_finalize__(self, obj):
         Quantity.__array_finalize__(self, obj)
         self._uncertainty = getattr(
@@ -338,6 +344,15 @@ class UncertainQuantity(Quantity):
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
 
+    @with_doc(np.ndarray.copy)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy('K')
+
     def __deepcopy__(self, memo_dict):
         return UncertainQuantity(
             copy.deepcopy(self.magnitude, memo_dict),
-- 
2.43.0


From 4aa88193c19fd771ab0b79247d303c908472fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 36/70] fix: rescale of uncertain quantities to the preferred
 units

---
 quantities/uncertainquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 8aa99eb..b54a66a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -85,8 +85,11 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
+        if units is None:
+            # the preferred units
+            return super(cls, self).rescale(dtype=dtype)
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
         ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
         return ret
-- 
2.43.0


From 3e33aacc846ca640afe8ff3784c40e41e815973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 37/70] fix: reshaping and transposing uncertain quantities
 left the uncertainty behind

---
 quantities/uncertainquantity.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b54a66a..db3217a 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -2,6 +2,7 @@
 """
 
 import copy
+from functools import wraps
 import warnings
 
 import numpy as np
@@ -26,6 +27,15 @@ def _split(other):
         return other.magnitude, other.uncertainty.magnitude
     return np.asarray(other), 0.
 
+def _rearrange(method):
+    """Wrap an array method so that it applies to the uncertainty as well"""
+    @wraps(method)
+    def g(self, *args, **kwargs):
+        ret = method(self, *args, **kwargs).view(UncertainQuantity)
+        ret._uncertainty = method(self._uncertainty, *args, **kwargs)
+        return ret
+    return g
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -251,6 +261,14 @@ class UncertainQuantity(Quantity):
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
+    reshape = _rearrange(Quantity.reshape)
+    transpose = _rearrange(Quantity.transpose)
+    swapaxes = _rearrange(Quantity.swapaxes)
+    flatten = _rearrange(Quantity.flatten)
+    ravel = _rearrange(Quantity.ravel)
+    squeeze = _rearrange(Quantity.squeeze)
+    T = property(transpose)
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
-- 
2.43.0


From c1debabc9d00326b2c02010a01b0e8fff3cfc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 38/70] fix: a rejected unit definition registered some of its
 names

---
 quantities/registry.py     | 14 +++++++-------
 quantities/unitquantity.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 275f10b..dd7ac5f 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -46,18 +46,18 @@ class UnitRegistry:
                 # could return self['UnitQuantity'](string)
                 raise LookupError('Unable to parse units: "%s"' % string)
 
-        def __setitem__(self, string, val):
+        def check_available(self, string, val):
+            """Raise an error if string denotes something other than val"""
             assert isinstance(string, str)
-            try:
-                assert string not in self.__context
-            except AssertionError:
-                if val == self.__context[string]:
-                    return
+            if string in self.__context and not val == self.__context[string]:
                 raise KeyError(
                     '%s has already been registered for %s'
                     % (string, self.__context[string])
                 )
-            self.__context[string] = val
+
+        def __setitem__(self, string, val):
+            self.check_available(string, val)
+            self.__context.setdefault(string, val)
 
     __regex = re.compile(r'(?<=[A-Za-z])\.(?=[A-Za-z])')
     # symbols which are python keywords
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index af6ea00..7dd1470 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -73,11 +73,12 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        unit_registry[name] = self
-        if symbol:
-            unit_registry[symbol] = self
-        for alias in aliases:
-            unit_registry[alias] = self
+        labels = [name] + ([symbol] if symbol else []) + list(aliases)
+        # do not register any of the labels unless all of them are available
+        for label in labels:
+            unit_registry.check_available(label, self)
+        for label in labels:
+            unit_registry[label] = self
 
     def __array_finalize__(self, obj):
         pass
-- 
2.43.0


From 9dcaa870cbab0f080ce0ae59ce37421fe0b41522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 39/70] fix: the units of the exponents 0, 1 and 2 of plain
 arrays were ignored

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7f20619..b9f23a4 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -412,6 +412,11 @@ class Quantity(np.ndarray):
     def __pow__(self, other):
         return np.power(self, other)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        # ndarray.__rpow__ ignores the units of the exponents 0, 1, 2, ...
+        return np.power(other, self)
+
     @with_doc(np.ndarray.__ipow__)
     @check_uniform
     @protected_power
-- 
2.43.0


From c21a924af89161297afc5bea2ccae268b19af3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 40/70] fix: isnan, isinf and isfinite kept stale units of a
 Quantity output

---
 quantities/quantity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index b9f23a4..09f827e 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -306,6 +306,8 @@ class Quantity(np.ndarray):
 
         uf, objs, huh = context
         if uf.__name__.startswith('is'):
+            if isinstance(obj, Quantity):
+                obj._dimensionality = Dimensionality()
             return obj
 
         try:
-- 
2.43.0


From 9ef0c163bf8b2dd6e8696132714a64a26a3e82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 41/70] fix: dimensionless real and imag parts were assigned
 without conversion

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 09f827e..bcc9865 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -164,6 +164,8 @@ class Quantity(np.ndarray):
 
     @real.setter
     def real(self, r):
+        if isinstance(r, Quantity):
+            r = r.rescale(self.dimensionality)
         self.magnitude.real = Quantity(r, self.dimensionality).magnitude
 
     @property
@@ -172,6 +174,8 @@ class Quantity(np.ndarray):
 
     @imag.setter
     def imag(self, i):
+        if isinstance(i, Quantity):
+            i = i.rescale(self.dimensionality)
         self.magnitude.imag = Quantity(i, self.dimensionality).magnitude
 
     @property
-- 
2.43.0


From 5bcade5febeec091bdf5c086d4d9b742d9702cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 42/70] fix: exponents of small integer types made the
 exponents of units wrap around

---
 quantities/dimensionality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 6b9f242..4e97611 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -165,6 +165,9 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            # the arithmetic of small or unsigned integers wraps around
+            other = other.item()
         if other == 0:
             return Dimensionality()
         new = Dimensionality(self)
@@ -177,6 +180,9 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            # the arithmetic of small or unsigned integers wraps around
+            other = other.item()
         if other == 0:
             self.clear()
             return self
-- 
2.43.0


From a219b32f8d5fd76a30e591299d4ef36565247661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 43/70] fix: dividing a Dimensionality by itself in place
 failed

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 4e97611..4d999e4 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -151,7 +151,7 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From da32779306976b169b7aabd49235c84a789f3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 44/70] fix: the drachm was invisible in the unicode notation

---
 quantities/units/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From b73de7a771b84ac604b8b13a8a021a8b2e3b2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 45/70] fix: LaTeX of products and quotients with compound
 units was garbled

---
 quantities/markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 552bebe..3dced33 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -123,8 +123,10 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     else:
         # Not a compound unit
         compound = False
-        # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        # Replace division (num/den) with \frac{num}{den}, but do not touch
+        # the divisions in the parentheses of a compound unit
+        res = re.sub(r'^(?P<num>(?:[^/()]|\([^()]*\))+)/(?P<den>.+)$',
+                     r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From 90bb313ab6331efa23386c97ea76d56debcf4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 46/70] fix: None and other literals were accepted as the
 definition of a compound unit

---
 quantities/registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index dd7ac5f..0abe97b 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -30,7 +30,12 @@ class UnitRegistry:
             # This approach to avoiding arbitrary evaluation of code is based on https://stackoverflow.com/a/11952618 
             # by https://stackoverflow.com/users/567292/ecatmur
             tree = ast.parse(string, mode="eval")
-            valid = all(isinstance(node, self.whitelist) for node in ast.walk(tree))
+            valid = all(
+                isinstance(node, self.whitelist)
+                # None, strings, ... are neither units nor exponents
+                and isinstance(getattr(node, 'value', 1), (int, float, complex))
+                for node in ast.walk(tree)
+            )
             if valid:
                 try:
                     item = eval(
-- 
2.43.0


From d3aa09182c99cd2929734d55bba40b8beab2467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 47/70] fix: wrong symbols of five constants

The deuteron-proton mass ratio was shown as a ratio to the neutron mass, the
Compton wavelengths of the muon and the tau lepton with the symbol of their
reduced form or the reverse, and the magnetizability with a missing operator and the
atomic unit of the magnetic flux density with a charge in the wrong place.
---
 quantities/constants/atomicunits.py | 6 +++---
 quantities/constants/deuteron.py    | 2 +-
 quantities/constants/muon.py        | 4 ++--
 quantities/constants/tau.py         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantities/constants/atomicunits.py b/quantities/constants/atomicunits.py
index 8e53e93..22b4a63 100644
--- a/quantities/constants/atomicunits.py
+++ b/quantities/constants/atomicunits.py
@@ -112,13 +112,13 @@ atomic_unit_of_magnetic_dipole_moment = UnitConstant(
 atomic_unit_of_magnetic_flux_density = UnitConstant(
     'atomic_unit_of_magnetic_flux_density',
     _cd('atomic unit of magnetic flux density'),
-    symbol='(hbar*e/a_0**2)',
-    u_symbol='(ħ·e/a₀²)'
+    symbol='(hbar/(e*a_0**2))',
+    u_symbol='(ħ/(e·a₀²))'
 )
 atomic_unit_of_magnetizability = UnitConstant(
     'atomic_unit_of_magnetizability',
     _cd('atomic unit of magnetizability'),
-    symbol='(e**2a_0**2/m_e)',
+    symbol='(e**2*a_0**2/m_e)',
     u_symbol='(e²·a₀²/mₑ)'
 )
 m_e = atomic_unit_of_mass = UnitConstant(
diff --git a/quantities/constants/deuteron.py b/quantities/constants/deuteron.py
index a6846a0..2b0d378 100644
--- a/quantities/constants/deuteron.py
+++ b/quantities/constants/deuteron.py
@@ -54,7 +54,7 @@ deuteron_electron_mass_ratio = UnitConstant(
 deuteron_proton_mass_ratio = UnitConstant(
     'deuteron_proton_mass_ratio',
     _cd('deuteron-proton mass ratio'),
-    symbol='(m_d/m_n)'
+    symbol='(m_d/m_p)'
 )
 deuteron_electron_magnetic_moment_ratio = UnitConstant(
     'deuteron_electron_magnetic_moment_ratio',
diff --git a/quantities/constants/muon.py b/quantities/constants/muon.py
index cf81fae..eecc463 100644
--- a/quantities/constants/muon.py
+++ b/quantities/constants/muon.py
@@ -14,13 +14,13 @@ m_mu = muon_mass = UnitConstant(
 lambda_C_mu = muon_Compton_wavelength = UnitConstant(
     'muon_Compton_wavelength',
     _cd('muon Compton wavelength'),
-    symbol='lambdabar_C_mu',
+    symbol='lambda_C_mu',
     u_symbol='λ_C_μ'
 )
 muon_Compton_wavelength_over_2_pi = UnitConstant(
     'muon_Compton_wavelength_over_2_pi',
     _cd('muon Compton wavelength over 2 pi'),
-    symbol='lambdabar_Cmu',
+    symbol='lambdabar_C_mu',
     u_symbol='ƛ_C_μ'
 )
 g_mu = muon_g_factor = UnitConstant(
diff --git a/quantities/constants/tau.py b/quantities/constants/tau.py
index fdbe59a..281d22b 100644
--- a/quantities/constants/tau.py
+++ b/quantities/constants/tau.py
@@ -20,7 +20,7 @@ lambda_C_tau = tau_Compton_wavelength = UnitConstant(
 tau_Compton_wavelength_over_2_pi = UnitConstant(
     'tau_Compton_wavelength_over_2_pi',
     _cd('tau Compton wavelength over 2 pi'),
-    symbol='lambda_C_tau',
+    symbol='lambdabar_C_tau',
     u_symbol='ƛ_C_τ'
 )
 tau_mass_energy_equivalent = UnitConstant(
-- 
2.43.0


From ca88ed589d035bae31d9203f729e13ea6b2afeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 48/70] fix: ambiguous notation of constants whose symbol is an
 expression

1/(e/h) was shown as 1/e/h and the square of the inverse fine-structure
constant as alpha**-1**2 or, in the unicode notation, as the power -12 of
alpha: put the symbols in parentheses like those of the other constants.
---
 quantities/constants/electron.py | 6 +++---
 quantities/constants/quantum.py  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantities/constants/electron.py b/quantities/constants/electron.py
index 865862d..7b7be24 100644
--- a/quantities/constants/electron.py
+++ b/quantities/constants/electron.py
@@ -13,7 +13,7 @@ e = elementary_charge = UnitConstant(
 elementary_charge_over_h = UnitConstant(
     'elementary_charge_over_h',
     _cd('elementary charge over h'),
-    symbol='e/h'
+    symbol='(e/h)'
 )
 Faraday_constant = UnitConstant(
     'Faraday_constant',
@@ -67,8 +67,8 @@ gamma_e = electron_gyromagnetic_ratio = UnitConstant(
 electron_gyromagnetic_ratio_over_2_pi = UnitConstant(
     'electron_gyromagnetic_ratio_over_2_pi',
     _cd('electron gyromagnetic ratio over 2 pi'),
-    symbol='gamma_e/(2*pi)',
-    u_symbol='γₑ/(2·π)'
+    symbol='(gamma_e/(2*pi))',
+    u_symbol='(γₑ/(2·π))'
 )
 mu_e = electron_magnetic_moment = UnitConstant(
     'electron_magnetic_moment',
diff --git a/quantities/constants/quantum.py b/quantities/constants/quantum.py
index b98c1f7..4d447b7 100644
--- a/quantities/constants/quantum.py
+++ b/quantities/constants/quantum.py
@@ -112,8 +112,8 @@ alpha = fine_structure_constant = UnitConstant(
 inverse_fine_structure_constant = UnitConstant(
     'inverse_fine_structure_constant',
     _cd('inverse fine-structure constant'),
-    symbol='alpha**-1',
-    u_symbol='α⁻¹'
+    symbol='(alpha**-1)',
+    u_symbol='(α⁻¹)'
 )
 c_1 = first_radiation_constant = UnitConstant(
     'first_radiation_constant',
@@ -130,8 +130,8 @@ c_1L = first_radiation_constant_for_spectral_radiance = UnitConstant(
 inverse_of_conductance_quantum = UnitConstant(
     'inverse_of_conductance_quantum',
     _cd('inverse of conductance quantum'),
-    symbol='G_0**-1',
-    u_symbol='G₀⁻¹'
+    symbol='(G_0**-1)',
+    u_symbol='(G₀⁻¹)'
 )
 Josephson_constant = K_J = UnitConstant(
     'Josephson_constant',
-- 
2.43.0


From d8e6220263e4192a9139d812ab8d1fb0d753b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 49/70] fix: the definition of a unit could be changed

A unit kept the quantity which the caller passed as its definition, and handed
it out: later in-place changes of that quantity changed the definition (and
what a pickle of the unit contains), but not its conversion factor.
---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 7dd1470..969f6c3 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -56,6 +56,10 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
+            if not isinstance(definition, UnitQuantity):
+                # nobody else may change what the unit means
+                definition = definition.copy()
+                definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From d6b3c4d5937fe9832ac93d3c7e6b6c34896f38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 50/70] fix: simplifying a unit without a definition recursed
 forever

---
 quantities/unitquantity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 969f6c3..96a22a9 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -118,7 +118,11 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
-        return self._reference.simplified
+        ref = self._reference
+        if ref is self:
+            # there is no definition, this is a base unit
+            return self.view(Quantity).copy()
+        return ref.simplified
 
     @property
     def symbol(self):
-- 
2.43.0


From 74123afb43e6d6d4922b277caeebd8ad1091e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 51/70] fix: a name could be defined again with another
 definition

Units of the same name and type compare equal whatever they are defined as, so
the registry took a second, different definition of a name for the same unit.
---
 quantities/registry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 0abe97b..ce639c3 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -54,10 +54,17 @@ class UnitRegistry:
         def check_available(self, string, val):
             """Raise an error if string denotes something other than val"""
             assert isinstance(string, str)
-            if string in self.__context and not val == self.__context[string]:
+            if string not in self.__context:
+                return
+            known = self.__context[string]
+            # units of the same name are equal, so look at the definitions too
+            if not (
+                val == known
+                and getattr(val, '_reference', val)
+                == getattr(known, '_reference', known)
+            ):
                 raise KeyError(
-                    '%s has already been registered for %s'
-                    % (string, self.__context[string])
+                    '%s has already been registered for %s' % (string, known)
                 )
 
         def __setitem__(self, string, val):
-- 
2.43.0


From b7cf2e475b3c4259fe960a2404cd2d3e8b16a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 52/70] fix: a units argument which is zero or empty was
 ignored for quantities

---
 quantities/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index bcc9865..7784277 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -122,7 +122,9 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            # no units are an empty string or None, but not an empty
+            # dimensionality nor something which happens to be zero
+            if units is not None and not (isinstance(units, str) and not units):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 return 1*data
-- 
2.43.0


From 29205ffbbea1e72a8b4c50ae7bef3da346ce0e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 53/70] fix: building an uncertain quantity from a unit raised
 AttributeError

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 7784277..a450113 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -127,7 +127,7 @@ class Quantity(np.ndarray):
             if units is not None and not (isinstance(units, str) and not units):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                data = 1*data
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
-- 
2.43.0


From 490bc659062f3f41f600c8d016bb32114b1f015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 54/70] fix: pq.nansum dropped the uncertainty of its argument

---
 quantities/umath.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 1bbda04..69daa29 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -48,11 +48,7 @@ def nansum(a, axis=None):
     if not isinstance(a, Quantity):
         return np.nansum(a, axis)
 
-    return Quantity(
-        np.nansum(a.magnitude, axis),
-        a.dimensionality,
-        copy=False
-    )
+    return a.nansum(axis)
 
 @with_doc(np.cumprod)
 def cumprod(a, axis=None, dtype=None, out=None):
-- 
2.43.0


From fb338ab0d8c4eb4deb48c3565ad2fea281b230b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 55/70] fix: take() lost the unit of single elements and of out

---
 quantities/quantity.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index a450113..a289a6d 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -585,6 +585,17 @@ class Quantity(np.ndarray):
             values = values.rescale(self.units, dtype=dtype)
         self.magnitude.put(indicies, values, mode)
 
+    @with_doc(np.ndarray.take)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = super().take(indices, axis, None if out is None else out.magnitude, mode)
+        if out is None:
+            # ndarray.take returns single elements as plain numbers
+            return ret if isinstance(ret, Quantity) else Quantity(ret, self.dimensionality)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = self.dimensionality
+        return out
+
     # choose does not function correctly, and it is not clear
     # how it would function, so for now it will not be implemented
 
-- 
2.43.0


From 848b7cbc6691c63f9dc1c7977034d8f8c104e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 56/70] fix: uncertainties did not follow take, repeat,
 compress and diagonal

---
 quantities/uncertainquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index db3217a..bb12f71 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -267,6 +267,10 @@ class UncertainQuantity(Quantity):
     flatten = _rearrange(Quantity.flatten)
     ravel = _rearrange(Quantity.ravel)
     squeeze = _rearrange(Quantity.squeeze)
+    repeat = _rearrange(Quantity.repeat)
+    compress = _rearrange(Quantity.compress)
+    diagonal = _rearrange(Quantity.diagonal)
+    take = _rearrange(Quantity.take)
     T = property(transpose)
 
     @with_doc(np.ndarray.sum)
-- 
2.43.0


From c58fff84ef12a0b338391799b935dc8ef789f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 57/70] fix: sorting an uncertain quantity left the
 uncertainties in their old order

---
 quantities/uncertainquantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index bb12f71..4813533 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -273,6 +273,13 @@ class UncertainQuantity(Quantity):
     take = _rearrange(Quantity.take)
     T = property(transpose)
 
+    @with_doc(np.ndarray.sort)
+    def sort(self, axis=-1, *args, **kwargs):
+        idx = self.magnitude.argsort(axis, *args, **kwargs)
+        u = np.take_along_axis(self.uncertainty.magnitude, idx, axis)
+        self.magnitude[...] = np.take_along_axis(self.magnitude, idx, axis)
+        self._uncertainty = Quantity(u, self._dimensionality)
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
-- 
2.43.0


From a157d665983c4bf86a091d27145074daf3b5b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 58/70] fix: mean of an uncertain quantity over several axes
 raised TypeError

---
 quantities/uncertainquantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 4813533..2a10810 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -298,10 +298,11 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
+        size = np.sum(np.ones(self.shape), axis)
         return UncertainQuantity(
             self.magnitude.mean(axis, dtype, out),
             self.dimensionality,
-            ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
+            ((1.0/size)**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
     @with_doc(np.nanmean)
-- 
2.43.0


From adcbf582ea1517a68e600d1e11508570eea01a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 59/70] fix: nansum and nanmean counted the uncertainties of
 missing values

---
 quantities/uncertainquantity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 2a10810..a889649 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -288,12 +288,16 @@ class UncertainQuantity(Quantity):
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
         )
 
+    def _not_missing(self):
+        """Return the magnitudes of the uncertainties, 0 for missing values"""
+        return np.where(np.isnan(self.magnitude), 0., self.uncertainty.magnitude)
+
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum(self._not_missing()**2, axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -311,7 +315,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(self._not_missing()**2, axis))**0.5
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0


From b2020550f5ccd944f86330673e43196115c2c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 60/70] fix: an uncertain quantity as its own uncertainty made
 it unusable

---
 quantities/uncertainquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index a889649..5425e9e 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -82,6 +82,9 @@ class UncertainQuantity(Quantity):
     def uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
             uncertainty = Quantity(uncertainty)
+        elif isinstance(uncertainty, UncertainQuantity):
+            # an uncertainty has none itself, a quantity is never its own
+            uncertainty = uncertainty.view(Quantity)
         try:
             assert self.shape == uncertainty.shape
         except AssertionError:
-- 
2.43.0


From 720e794b4f9e796a7fbc1fd15af64bcd92e09ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 61/70] fix: building on an uncertain quantity could change the
 unit of its uncertainty

---
 quantities/uncertainquantity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 5425e9e..8ed89bf 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -47,14 +47,14 @@ class UncertainQuantity(Quantity):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         ret = Quantity.__new__(cls, data, units, dtype)
-        # _uncertainty initialized to be dimensionless by __array_finalize__:
-        ret._uncertainty._dimensionality = ret._dimensionality
-
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
             # a new object, converted to the units of ret
             ret.uncertainty = data.uncertainty.rescale(ret._dimensionality)
+        else:
+            # _uncertainty initialized to be dimensionless by __array_finalize__:
+            ret._uncertainty._dimensionality = ret._dimensionality
 
         return ret
 
-- 
2.43.0


From f1931781f9b1c1edf2e8d4a0ef72837d7d062b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 62/70] fix: indexing and reshaping a unit gave an object which
 could not be used

---
 quantities/unitquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 96a22a9..61c2010 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -85,7 +85,10 @@ class UnitQuantity(Quantity):
             unit_registry[label] = self
 
     def __array_finalize__(self, obj):
-        pass
+        if isinstance(obj, UnitQuantity):
+            # views and copies of the data of a unit are not units themselves
+            self.__class__ = Quantity
+            Quantity.__array_finalize__(self, obj)
 
     def __hash__(self):
         return hash((type(self), self._name))
-- 
2.43.0


From 47642ec3a4757f08fc11e44f761f7998aa643608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 63/70] fix: quantitizer failed for functions without a
 docstring

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index deb5081..3829995 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -155,6 +155,6 @@ def quantitizer(base_function,
     # doc string but add an annotation to the beginning
     wrapped_function.__doc__ = (
             "this function has been wrapped to work with Quantities\n"
-            + base_function.__doc__)
+            + (base_function.__doc__ or ""))
 
     return wrapped_function
-- 
2.43.0


From 8d281bdf7df5f926db8199fb8bd8a65da25f48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:00 +0000
Subject: [PATCH 64/70] fix: quantitizer failed for functions with a single
 result

---
 quantities/decorators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index 3829995..d40e25f 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -119,6 +119,13 @@ def quantitizer(base_function,
         #get the result for the function
         result = base_function( *args, **kwargs)
 
+        # the function may return a single result
+        single = not isinstance(result, (tuple, list))
+        if single:
+            result = (result,)
+        if not isinstance(handler_quantities, (tuple, list)):
+            handler_quantities = (handler_quantities,)
+
         # since we have to modify the result, convert it to a list
         result = list(result)
 
@@ -147,7 +154,7 @@ def quantitizer(base_function,
 
         #need to convert the result back to a tuple
         result = tuple(result)
-        return result
+        return result[0] if single else result
 
     # give the wrapped function a similar name to the base function
     wrapped_function.__name__ = base_function.__name__ + "_QWrap"
-- 
2.43.0


From 50c3b96e240896467961455bf55340e5e197ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:13 +0000
Subject: [PATCH 65/70] fix: simplified of an empty unit expression was the
 expression itself

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 4d999e4..2f3bdc8 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -38,7 +38,7 @@ class Dimensionality(dict):
                 rq = rq * u.simplified**d
             return rq.dimensionality
         else:
-            return self
+            return self.copy()
 
     @property
     def string(self):
-- 
2.43.0


From 449f8a28fd9523df15e0c34480f0b7ecd9577142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:57 +0000
Subject: [PATCH 66/70] fix: math functions of the package mixed up the units
 of a Quantity given as out

arcsin(x, out=q) with q in degrees returned the number of radians as if it
were degrees, sin kept the units of q, and hypot converted the result twice.
The output quantity now receives the data and the units of the result, as it
does in sum() or in numpy's own ufuncs.
---
 quantities/umath.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 69daa29..702de6d 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -1,3 +1,6 @@
+from functools import wraps
+from inspect import signature
+
 import numpy as np
 
 from .quantity import Quantity
@@ -35,6 +38,28 @@ __all__ = [
 ]
 
 
+def with_quantity_out(f):
+    """
+    Decorator for functions which pass `out` on to a numpy function: if it is a
+    Quantity, it receives the units of the result along with the data.
+    """
+    sig = signature(f)
+
+    @wraps(f)
+    def g(*args, **kwargs):
+        bound = sig.bind(*args, **kwargs)
+        out = bound.arguments.pop('out', None)
+        if not isinstance(out, Quantity) or not any(
+            isinstance(i, Quantity) for i in bound.arguments.values()
+        ):
+            return f(*args, **kwargs)
+        ret = f(*bound.args, out=out.view(np.ndarray))
+        out._dimensionality = ret._dimensionality
+        return out
+
+    return g
+
+
 @with_doc(np.prod)
 def prod(a, axis=None, dtype=None, out=None):
     return a.prod(axis, dtype, out)
@@ -248,6 +273,7 @@ def _trapz(y, x, dx, axis):
         return trapezoid(y, x=x, dx=dx, axis=axis)
 
 @with_doc(np.sin)
+@with_quantity_out
 def sin(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to radians.
@@ -261,6 +287,7 @@ def sin(x, out=None):
                     copy=False)
 
 @with_doc(np.arcsin)
+@with_quantity_out
 def arcsin(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -278,6 +305,7 @@ def arcsin(x, out=None):
     )
 
 @with_doc(np.cos)
+@with_quantity_out
 def cos(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to radians.
@@ -290,6 +318,7 @@ def cos(x, out=None):
     return Quantity(np.cos(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arccos)
+@with_quantity_out
 def arccos(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -307,6 +336,7 @@ def arccos(x, out=None):
     )
 
 @with_doc(np.tan)
+@with_quantity_out
 def tan(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to radians.
@@ -319,6 +349,7 @@ def tan(x, out=None):
     return Quantity(np.tan(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arctan)
+@with_quantity_out
 def arctan(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -336,6 +367,7 @@ def arctan(x, out=None):
     )
 
 @with_doc(np.arctan2)
+@with_quantity_out
 def arctan2(x1, x2, out=None):
     """
     Raises a ValueError if inputs do not have identical units.
@@ -364,11 +396,12 @@ def arctan2(x1, x2, out=None):
     )
 
 @with_doc(np.hypot)
+@with_quantity_out
 def hypot(x1, x2, out = None):
     """
     Raises a ValueError if inputs do not have identical units.
     """
-    if not (isinstance(x1, Quantity) and isinstance(x2, Quantity)):
+    if not (isinstance(x1, Quantity) or isinstance(x2, Quantity)):
         return np.hypot(x1, x2, out)
 
     if not isinstance(x1, Quantity):
@@ -407,6 +440,7 @@ def unwrap(p, discont=np.pi, axis=-1):
     ).rescale(p.units)
 
 @with_doc(np.sinh)
+@with_quantity_out
 def sinh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -422,6 +456,7 @@ def sinh(x, out=None):
     )
 
 @with_doc(np.cosh)
+@with_quantity_out
 def cosh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -437,6 +472,7 @@ def cosh(x, out=None):
     )
 
 @with_doc(np.tanh)
+@with_quantity_out
 def tanh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -452,6 +488,7 @@ def tanh(x, out=None):
     )
 
 @with_doc(np.arcsinh)
+@with_quantity_out
 def arcsinh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -467,6 +504,7 @@ def arcsinh(x, out=None):
     )
 
 @with_doc(np.arccosh)
+@with_quantity_out
 def arccosh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
@@ -482,6 +520,7 @@ def arccosh(x, out=None):
     )
 
 @with_doc(np.arctanh)
+@with_quantity_out
 def arctanh(x, out=None):
     """
     Raises a ValueError if input cannot be rescaled to a dimensionless
-- 
2.43.0


From 01e256d54381f9dcaa9ce63abfce9ec1dfbcbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:02 +0000
Subject: [PATCH 67/70] fix: an exact operand made the uncertainty of infinite
 values nan

---
 quantities/uncertainquantity.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 8ed89bf..1abe703 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -22,10 +22,13 @@ def _with_uncertainty(other):
     return UncertainQuantity(other, dtype=other.dtype)
 
 def _split(other):
-    """Return the magnitudes of the value and of the uncertainty of other"""
+    """
+    Return the magnitudes of the value and of the uncertainty of other,
+    the latter is None if other is exact
+    """
     if isinstance(other, UncertainQuantity):
         return other.magnitude, other.uncertainty.magnitude
-    return np.asarray(other), 0.
+    return np.asarray(other), None
 
 def _rearrange(method):
     """Wrap an array method so that it applies to the uncertainty as well"""
@@ -157,9 +160,9 @@ class UncertainQuantity(Quantity):
     def __mul__(self, other):
         res = super().__mul__(other)
         value, uncertainty = _split(other)
-        u = np.hypot(
-            self.uncertainty.magnitude * value, self.magnitude * uncertainty
-        )
+        u = abs(self.uncertainty.magnitude * value)
+        if uncertainty is not None:
+            u = np.hypot(u, self.magnitude * uncertainty)
         res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
@@ -174,10 +177,9 @@ class UncertainQuantity(Quantity):
     def __truediv__(self, other):
         res = super().__truediv__(other)
         value, uncertainty = _split(other)
-        u = np.hypot(
-            self.uncertainty.magnitude / value,
-            res.magnitude * (uncertainty / value)
-        )
+        u = abs(self.uncertainty.magnitude / value)
+        if uncertainty is not None:
+            u = np.hypot(u, res.magnitude * (uncertainty / value))
         res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
-- 
2.43.0


From 82f78b598c2f3d2ff8241832b6e7b546fdaba604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:49 +0000
Subject: [PATCH 68/70] fix: output arrays of methods of uncertain quantities
 got a wrong value or unit

---
 quantities/uncertainquantity.py | 42 +++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 1abe703..7855634 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -3,6 +3,7 @@
 
 import copy
 from functools import wraps
+from inspect import signature
 import warnings
 
 import numpy as np
@@ -39,6 +40,31 @@ def _rearrange(method):
         return ret
     return g
 
+def _with_out(method):
+    """
+    Wrap a method which returns an UncertainQuantity: if it is given `out`, the
+    latter receives the data, and a Quantity the units and uncertainty as well
+    """
+    sig = signature(method)
+
+    @wraps(method)
+    def g(*args, **kwargs):
+        bound = sig.bind(*args, **kwargs)
+        out = bound.arguments.pop('out', None)
+        ret = method(*bound.args, **bound.kwargs)
+        if out is None:
+            return ret
+        if out.shape != ret.shape:
+            raise ValueError('output array has the wrong shape')
+        np.copyto(out.view(np.ndarray), ret.magnitude)
+        if not isinstance(out, Quantity):
+            return ret
+        out._dimensionality = ret.dimensionality
+        if isinstance(out, UncertainQuantity):
+            out._uncertainty = ret._uncertainty
+        return out
+    return g
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -273,11 +299,15 @@ class UncertainQuantity(Quantity):
     ravel = _rearrange(Quantity.ravel)
     squeeze = _rearrange(Quantity.squeeze)
     repeat = _rearrange(Quantity.repeat)
-    compress = _rearrange(Quantity.compress)
     diagonal = _rearrange(Quantity.diagonal)
-    take = _rearrange(Quantity.take)
+    take = _with_out(_rearrange(Quantity.take))
     T = property(transpose)
 
+    @with_doc(np.ndarray.compress)
+    @_with_out
+    def compress(self, condition, axis=None, out=None):
+        return _rearrange(Quantity.compress)(self, condition, axis)
+
     @with_doc(np.ndarray.sort)
     def sort(self, axis=-1, *args, **kwargs):
         idx = self.magnitude.argsort(axis, *args, **kwargs)
@@ -286,6 +316,7 @@ class UncertainQuantity(Quantity):
         self._uncertainty = Quantity(u, self._dimensionality)
 
     @with_doc(np.ndarray.sum)
+    @_with_out
     def sum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
             self.magnitude.sum(axis, dtype, out),
@@ -298,6 +329,7 @@ class UncertainQuantity(Quantity):
         return np.where(np.isnan(self.magnitude), 0., self.uncertainty.magnitude)
 
     @with_doc(np.nansum)
+    @_with_out
     def nansum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
@@ -306,6 +338,7 @@ class UncertainQuantity(Quantity):
         )
 
     @with_doc(np.ndarray.mean)
+    @_with_out
     def mean(self, axis=None, dtype=None, out=None):
         size = np.sum(np.ones(self.shape), axis)
         return UncertainQuantity(
@@ -315,6 +348,7 @@ class UncertainQuantity(Quantity):
         )
 
     @with_doc(np.nanmean)
+    @_with_out
     def nanmean(self, axis=None, dtype=None, out=None):
         size = np.sum(~np.isnan(self),axis)
         return UncertainQuantity(
@@ -340,18 +374,22 @@ class UncertainQuantity(Quantity):
         )
 
     @with_doc(np.ndarray.max)
+    @_with_out
     def max(self, axis=None, out=None):
         return self._select(np.argmax(self.magnitude, axis), axis)
 
     @with_doc(np.nanmax)
+    @_with_out
     def nanmax(self, axis=None, out=None):
         return self._select(np.nanargmax(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.min)
+    @_with_out
     def min(self, axis=None, out=None):
         return self._select(np.argmin(self.magnitude, axis), axis)
 
     @with_doc(np.nanmin)
+    @_with_out
     def nanmin(self, axis=None, out=None):
         return self._select(np.nanargmin(self.magnitude, axis), axis)
 
-- 
2.43.0


From 3afb0b7cdf4df29023771e182a247e6d576c32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:46 +0000
Subject: [PATCH 69/70] fix: uncertainties of sums vanished or became infinite
 where their squares do

---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 7855634..1dd98d6 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -158,7 +158,7 @@ class UncertainQuantity(Quantity):
     def __add__(self, other):
         other = _with_uncertainty(other)
         res = super().__add__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = np.hypot(self.uncertainty, other.uncertainty)
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -173,7 +173,7 @@ class UncertainQuantity(Quantity):
     def __sub__(self, other):
         other = _with_uncertainty(other)
         res = super().__sub__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = np.hypot(self.uncertainty, other.uncertainty)
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
-- 
2.43.0


From 06fc794fafd48ba4d5e774b6f00bd5134bbbb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:04 +0000
Subject: [PATCH 70/70] fix: uncertainties of sums and means of arrays vanished
 or became infinite where their squares do

---
 quantities/uncertainquantity.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 1dd98d6..b16b789 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -321,12 +321,13 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             self.magnitude.sum(axis, dtype, out),
             self.dimensionality,
-            (np.sum(self.uncertainty.magnitude**2, axis))**0.5
+            np.hypot.reduce(self.uncertainty.magnitude, axis)
         )
 
     def _not_missing(self):
         """Return the magnitudes of the uncertainties, 0 for missing values"""
-        return np.where(np.isnan(self.magnitude), 0., self.uncertainty.magnitude)
+        u = self.uncertainty.magnitude
+        return np.where(np.isnan(self.magnitude) | np.isnan(u), 0., u)
 
     @with_doc(np.nansum)
     @_with_out
@@ -334,7 +335,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self._not_missing()**2, axis))**0.5
+            np.hypot.reduce(self._not_missing(), axis)
         )
 
     @with_doc(np.ndarray.mean)
@@ -344,7 +345,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             self.magnitude.mean(axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
+            (1.0/size) * np.hypot.reduce(self.uncertainty.magnitude, axis)
         )
 
     @with_doc(np.nanmean)
@@ -354,7 +355,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(self._not_missing()**2, axis))**0.5
+            (1.0/size) * np.hypot.reduce(self._not_missing(), axis)
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0

