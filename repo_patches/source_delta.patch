From 294efc9705a94a0683d462ba137937c0a106642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 01/52] fix: update units of in-place results and ufunc output
 arguments with numpy 2

With numpy >= 2 only __array_wrap__ is called, and it ignored the ufunc
context when the output already was a Quantity, so q *= r, q /= r, q **= n,
q //= r and np.f(..., out=q) changed the values but kept the old units.
Views are protected against floor division by a quantity as for * and /.
---
 quantities/dimensionality.py | 1 +
 quantities/quantity.py       | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..cc88066 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -339,6 +339,7 @@ if _np_version < (2, 0, 0):
     p_dict[np.core.umath.clip] = _d_clip
 else:
     p_dict[np.clip] = _d_clip
+    p_dict[np._core.umath.clip] = _d_clip
 
 def _d_sqrt(q1, out=None):
     return q1._dimensionality**0.5
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..770a3ba 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -327,7 +327,9 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            # with an output argument (including in-place operators) obj is
+            # already a Quantity, whose units have to be updated as well
+            if context is not None or not isinstance(obj, Quantity):
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
@@ -390,6 +392,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
-- 
2.43.0


From 6c0312efc776f8ea228f0f6abdab846556275c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 02/52] fix: do not strip zeros of integer exponents when
 formatting units

m**10 was printed as m**1 and m**20 as m**2.
---
 quantities/markup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..dffee8b 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -41,6 +41,13 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(d):
+    '''
+    create a string representation of an exponent, without a trailing ".0"
+    '''
+    res = str(d)
+    return res[:-2] if res.endswith('.0') else res
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +68,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**' + format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
-- 
2.43.0


From 450de3ee59631b1af01146265f8364af0bda653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 03/52] fix: render fractional exponents completely in unicode,
 latex and html
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

m**0.5 was rendered as m^{0}.5 and m<sup>0</sup>.5, m**10.5 as m¹0.5.
---
 quantities/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index dffee8b..9e82788 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -126,7 +126,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -159,7 +159,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From dfe9f9340736d1d84a88bc57c2da8d4267ea2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 04/52] fix: keep compound units intact when rendering a latex
 fraction

The last '/' may lie within a compound unit: m/(pc/cm**3) was rendered as
\frac{m/(pc}{cm^{3})}.
---
 quantities/markup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 9e82788..57ed8ee 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -124,7 +124,14 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Not a compound unit
         compound = False
         # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        # (a division within parentheses belongs to a compound unit)
+        depth = slash = 0
+        for i, c in enumerate(res):
+            depth += (c == '(') - (c == ')')
+            if c == '/' and depth == 0:
+                slash = i
+        if slash:
+            res = r'\frac{%s}{%s}' % (res[:slash], res[slash+1:])
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>[\d.]+(e[+-]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From 22bf6145669b2d098d9d859685a6ef17fc028250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 05/52] fix: copy and deepcopy preserve type, data and
 independence

copy.deepcopy(quantity) shared the memory of the original, dropped the
uncertainty of uncertain quantities and turned units into quantities (so
that dimensionalities could not be deep-copied at all); copy.copy(unit) was
unusable, and copies of uncertain quantities shared the uncertainty.
---
 quantities/quantity.py          | 3 +--
 quantities/uncertainquantity.py | 9 +++++++++
 quantities/unitquantity.py      | 7 +++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 770a3ba..5421638 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -812,8 +812,7 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        return self.copy()
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..c04cd48 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -270,6 +270,15 @@ class UncertainQuantity(Quantity):
     def nanargmax(self,axis=None, out=None):
         return np.nanargmax(self.magnitude)
 
+    @with_doc(np.ndarray.copy)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy()
+
     def __setstate__(self, state):
         ndarray_state = state[:-2]
         units, sigma = state[-2:]
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..e93a730 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,13 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
-- 
2.43.0


From 03a8d8a93f7295a0bff54a29eb58ff6ad1014dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 06/52] fix: unit.copy() works for dimensionless and keeps the
 formatting order

---
 quantities/unitquantity.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index e93a730..3caea33 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -273,16 +273,16 @@ class UnitQuantity(Quantity):
         )
 
     def copy(self):
-        return (
-            type(self)(
-                self._name,
-                self._definition,
-                self._symbol,
-                self._u_symbol,
-                self._aliases,
-                self.__doc__
-                )
+        ret = type(self)(
+            self._name,
+            self._definition,
+            self._symbol,
+            self._u_symbol,
+            self._aliases,
+            self.__doc__
             )
+        ret._format_order = self._format_order
+        return ret
 
     # units are immutable
     def __copy__(self):
@@ -408,7 +408,9 @@ class CompoundUnit(UnitQuantity):
             )
 
     def copy(self):
-        return type(self)(self._name)
+        ret = type(self)(self._name)
+        ret._format_order = self._format_order
+        return ret
 
 unit_registry['CompoundUnit'] = CompoundUnit
 
@@ -441,6 +443,11 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        ret = type(self)(self._name)
+        ret._format_order = self._format_order
+        return ret
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From e7ec2064f1a6efec13ac8e30c9f5406994d67152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 07/52] fix: parse dotted unit products with single-letter
 factors

The matches of 'N.m.s' overlap, so that only every other dot was replaced.
---
 quantities/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..2bc210e 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -59,7 +59,7 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -72,7 +72,7 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From e33c904238a68fd81cd6ae3cebbc6c3b08845c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 08/52] fix: do not implement argument checks with assert
 statements

Under python -O assert statements are removed: incompatible units were
combined or converted silently, units of views could be modified, labels
rebound. As a consequence get_conversion_factor raises ValueError, as
IrreducibleUnit.set_default_unit expected: set_default_units(time='kg')
raised AssertionError instead of the documented TypeError.
---
 quantities/dimensionality.py    | 60 +++++++++++----------------------
 quantities/quantity.py          | 58 +++++++++++--------------------
 quantities/registry.py          |  7 ++--
 quantities/uncertainquantity.py |  4 +--
 quantities/unitquantity.py      | 12 ++-----
 5 files changed, 46 insertions(+), 95 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index cc88066..4ca887b 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -13,9 +13,7 @@ _np_version = tuple(map(int, np.__version__.split(".dev")[0].split(".")))
 
 
 def assert_isinstance(obj, types):
-    try:
-        assert isinstance(obj, types)
-    except AssertionError:
+    if not isinstance(obj, types):
         raise TypeError(
             f"arg {obj!r} must be of type {types!r}, got {type(obj)!r}"
         )
@@ -68,9 +66,7 @@ class Dimensionality(dict):
 
     def __add__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if self != other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -81,9 +77,7 @@ class Dimensionality(dict):
 
     def __iadd__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if self != other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -92,9 +86,7 @@ class Dimensionality(dict):
 
     def __sub__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if self != other:
             raise ValueError(
                 'can not subtract units of %s and %s'\
                 %(str(self), str(other))
@@ -105,9 +97,7 @@ class Dimensionality(dict):
 
     def __isub__(self, other):
         assert_isinstance(other, Dimensionality)
-        try:
-            assert self == other
-        except AssertionError:
+        if self != other:
             raise ValueError(
                 'can not add units of %s and %s'\
                 %(str(self), str(other))
@@ -161,9 +151,7 @@ class Dimensionality(dict):
         return self
 
     def __pow__(self, other):
-        try:
-            assert np.isscalar(other)
-        except AssertionError:
+        if not np.isscalar(other):
             raise TypeError('exponent must be a scalar, got %r' % other)
         if other == 0:
             return Dimensionality()
@@ -173,9 +161,7 @@ class Dimensionality(dict):
         return new
 
     def __ipow__(self, other):
-        try:
-            assert np.isscalar(other)
-        except AssertionError:
+        if not np.isscalar(other):
             raise TypeError('exponent must be a scalar, got %r' % other)
         if other == 0:
             self.clear()
@@ -245,13 +231,7 @@ p_dict[np.floor_divide] = _d_divide
 
 def _d_check_uniform(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
-        return q1.dimensionality
-    except AssertionError:
-        raise ValueError(
-            'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
-        )
+        uniform = q1._dimensionality == q2._dimensionality
     except AttributeError:
         try:
             if hasattr(q1, 'dimensionality'):
@@ -271,6 +251,12 @@ def _d_check_uniform(q1, q2, out=None):
                 'quantities must have identical units, got "%s" and "%s"' %
                 (q1.units, q2.units)
             )
+    if not uniform:
+        raise ValueError(
+            'quantities must have identical units, got "%s" and "%s"' %
+            (q1.units, q2.units)
+        )
+    return q1.dimensionality
 
 p_dict[np.add] = _d_check_uniform
 p_dict[np.subtract] = _d_check_uniform
@@ -288,14 +274,12 @@ p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
-    try:
-        assert q1._dimensionality == q2._dimensionality
-        return Dimensionality()
-    except AssertionError:
+    if q1._dimensionality != q2._dimensionality:
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
             (q1.units, q2.units)
         )
+    return Dimensionality()
 
 p_dict[np.arctan2] = _d_arctan2
 
@@ -346,9 +330,7 @@ def _d_sqrt(q1, out=None):
 p_dict[np.sqrt] = _d_sqrt
 
 def _d_radians(q1, out=None):
-    try:
-        assert q1.units == unit_registry['degree']
-    except AssertionError:
+    if not (q1.units == unit_registry['degree']):
         raise ValueError(
             'expected units of degrees, got "%s"' % q1._dimensionality
         )
@@ -356,9 +338,7 @@ def _d_radians(q1, out=None):
 p_dict[np.radians] = _d_radians
 
 def _d_degrees(q1, out=None):
-    try:
-        assert q1.units == unit_registry['radian']
-    except AssertionError:
+    if not (q1.units == unit_registry['radian']):
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
         )
@@ -380,9 +360,7 @@ p_dict[np.logaddexp] = _d_dimensionless
 p_dict[np.logaddexp2] = _d_dimensionless
 
 def _d_trig(q1, out=None):
-    try:
-        assert q1.units == unit_registry['radian']
-    except AssertionError:
+    if not (q1.units == unit_registry['radian']):
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
         )
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 5421638..6205175 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -17,11 +17,11 @@ PREFERRED = []  # List of preferred quantities for each symbol,
                 # Intended to be overwritten in down-stream packages
 
 def validate_unit_quantity(value):
-    try:
-        assert isinstance(value, Quantity)
-        assert value.shape in ((), (1, ))
-        assert value.magnitude == 1
-    except AssertionError:
+    if not (
+        isinstance(value, Quantity)
+        and value.shape in ((), (1, ))
+        and value.magnitude == 1
+    ):
         raise ValueError(
                 'units must be a scalar Quantity with unit magnitude, got %s'\
                 %value
@@ -48,10 +48,14 @@ def validate_dimensionality(value):
 def get_conversion_factor(from_u, to_u):
     validate_unit_quantity(from_u)
     validate_unit_quantity(to_u)
-    from_u = from_u._reference
-    to_u = to_u._reference
-    assert from_u.dimensionality == to_u.dimensionality
-    return from_u.magnitude / to_u.magnitude
+    from_ref = from_u._reference
+    to_ref = to_u._reference
+    if from_ref.dimensionality != to_ref.dimensionality:
+        raise ValueError(
+            'Unable to convert between units of "%s" and "%s"'
+            %(from_u._dimensionality, to_u._dimensionality)
+        )
+    return from_ref.magnitude / to_ref.magnitude
 
 def scale_other_units(f):
     @wraps(f)
@@ -68,9 +72,7 @@ def protected_multiplication(f):
     @wraps(f)
     def g(self, other, *args):
         if getattr(other, 'dimensionality', None):
-            try:
-                assert not isinstance(self.base, Quantity)
-            except AssertionError:
+            if isinstance(self.base, Quantity):
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
     return g
@@ -81,9 +83,7 @@ def check_uniform(f):
         if getattr(other, 'dimensionality', None):
             raise ValueError("exponent must be dimensionless")
         other = np.asarray(other)
-        try:
-            assert other.min() == other.max()
-        except AssertionError:
+        if not (other.min() == other.max()):
             raise ValueError('Quantities must be raised to a uniform power')
         return f(self, other, *args)
     return g
@@ -92,9 +92,7 @@ def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
         if other != 1:
-            try:
-                assert not isinstance(self.base, Quantity)
-            except AssertionError:
+            if isinstance(self.base, Quantity):
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
     return g
@@ -185,26 +183,16 @@ class Quantity(np.ndarray):
         return Quantity(1.0, (self.dimensionality))
     @units.setter
     def units(self, units):
-        try:
-            assert not isinstance(self.base, Quantity)
-        except AssertionError:
+        if isinstance(self.base, Quantity):
             raise ValueError('can not modify units of a view of a Quantity')
-        try:
-            assert self.flags.writeable
-        except AssertionError:
+        if not self.flags.writeable:
             raise ValueError('array is not writeable')
         to_dims = validate_dimensionality(units)
         if self._dimensionality == to_dims:
             return
         to_u = Quantity(1.0, to_dims)
         from_u = Quantity(1.0, self._dimensionality)
-        try:
-            cf = get_conversion_factor(from_u, to_u)
-        except AssertionError:
-            raise ValueError(
-                'Unable to convert between units of "%s" and "%s"'
-                %(from_u._dimensionality, to_u._dimensionality)
-            )
+        cf = get_conversion_factor(from_u, to_u)
         mag = self.magnitude
         mag *= cf
         self._dimensionality = to_u.dimensionality
@@ -227,13 +215,7 @@ class Quantity(np.ndarray):
             return self.astype(dtype)
         to_u = Quantity(1.0, to_dims, dtype=dtype)
         from_u = Quantity(1.0, self.dimensionality, dtype=dtype)
-        try:
-            cf = get_conversion_factor(from_u, to_u)
-        except AssertionError:
-            raise ValueError(
-                'Unable to convert between units of "%s" and "%s"'
-                %(from_u._dimensionality, to_u._dimensionality)
-            )
+        cf = get_conversion_factor(from_u, to_u)
         if np.dtype(dtype).kind in 'fc':
             cf = np.array(cf, dtype=dtype)
         new_magnitude = cf*self.magnitude
diff --git a/quantities/registry.py b/quantities/registry.py
index 2bc210e..5749e38 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -47,10 +47,9 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
-            assert isinstance(string, str)
-            try:
-                assert string not in self.__context
-            except AssertionError:
+            if not isinstance(string, str):
+                raise TypeError('label must be a string, got %r' % (string,))
+            if string in self.__context:
                 if val == self.__context[string]:
                     return
                 raise KeyError(
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index c04cd48..6587593 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -57,9 +57,7 @@ class UncertainQuantity(Quantity):
     def uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
             uncertainty = Quantity(uncertainty)
-        try:
-            assert self.shape == uncertainty.shape
-        except AssertionError:
+        if self.shape != uncertainty.shape:
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 3caea33..cc98f52 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -32,13 +32,9 @@ class UnitQuantity(Quantity):
         cls, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        try:
-            assert isinstance(name, str)
-        except AssertionError:
+        if not isinstance(name, str):
             raise TypeError('name must be a string, got %s (not unicode)'%name)
-        try:
-            assert symbol is None or isinstance(symbol, str)
-        except AssertionError:
+        if not (symbol is None or isinstance(symbol, str)):
             raise TypeError(
                 'symbol must be a string, '
                 'got %s (u_symbol can be unicode)'%symbol
@@ -487,9 +483,7 @@ def set_default_units(
     """
     if system is not None:
         system = system.lower()
-        try:
-            assert system in ('si', 'cgs')
-        except AssertionError:
+        if system not in ('si', 'cgs'):
             raise ValueError('system must be "SI" or "cgs", got "%s"' % system)
         if system == 'si':
             UnitCurrent.set_default_unit('A')
-- 
2.43.0


From 9ae99591eb89b0c13c874d30da45d895f5565e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 09/52] fix: unit rules of binary ufuncs check both operands
 and raise ValueError

np.logaddexp(1, 1*m) was accepted, and combining plain numbers with a
quantity (np.add(1, q), 5 % q, np.arctan2(q, 2)) raised an unrelated
AttributeError while building the error message.
---
 quantities/dimensionality.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 4ca887b..1febda2 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -249,7 +249,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', 1), getattr(q2, 'units', 1))
             )
     if not uniform:
         raise ValueError(
@@ -274,11 +274,7 @@ p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
 def _d_arctan2(q1, q2, out=None):
-    if q1._dimensionality != q2._dimensionality:
-        raise ValueError(
-            'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
-        )
+    _d_check_uniform(q1, q2)
     return Dimensionality()
 
 p_dict[np.arctan2] = _d_arctan2
@@ -356,8 +352,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_logaddexp(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_logaddexp
+p_dict[np.logaddexp2] = _d_logaddexp
 
 def _d_trig(q1, out=None):
     if not (q1.units == unit_registry['radian']):
-- 
2.43.0


From 20a20c551bbd91af668ab9796fcaaaa0510ae4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 10/52] fix: register either all labels of a new unit or none

UnitQuantity('foo', 3*m, symbol='s') raised KeyError, but left 'foo'
registered for the unit that could not be defined.
---
 quantities/registry.py     | 12 +++++++-----
 quantities/unitquantity.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 5749e38..d9553b3 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -46,17 +46,19 @@ class UnitRegistry:
                 # could return self['UnitQuantity'](string)
                 raise LookupError('Unable to parse units: "%s"' % string)
 
-        def __setitem__(self, string, val):
+        def check_label(self, string, val):
+            """Raise an error if string can not be registered for val"""
             if not isinstance(string, str):
                 raise TypeError('label must be a string, got %r' % (string,))
-            if string in self.__context:
-                if val == self.__context[string]:
-                    return
+            if string in self.__context and not val == self.__context[string]:
                 raise KeyError(
                     '%s has already been registered for %s'
                     % (string, self.__context[string])
                 )
-            self.__context[string] = val
+
+        def __setitem__(self, string, val):
+            self.check_label(string, val)
+            self.__context.setdefault(string, val)
 
     __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index cc98f52..12cc00d 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -69,11 +69,12 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        unit_registry[name] = self
-        if symbol:
-            unit_registry[symbol] = self
-        for alias in aliases:
-            unit_registry[alias] = self
+        labels = [name, *([symbol] if symbol else []), *aliases]
+        # register either all labels or none of them
+        for label in labels:
+            unit_registry.check_label(label, self)
+        for label in labels:
+            unit_registry[label] = self
 
     def __array_finalize__(self, obj):
         pass
-- 
2.43.0


From f81d3906162404acc5385808c3f6be0df90514f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 11/52] fix: set_default_units checks all units before changing
 any default

A failing call left the defaults it had processed so far changed.
---
 quantities/unitquantity.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 12cc00d..1edb383 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -314,9 +314,7 @@ class IrreducibleUnit(UnitQuantity):
     def get_default_unit(cls):
         return cls._default_unit
     @classmethod
-    def set_default_unit(cls, unit):
-        if unit is None:
-            return
+    def check_default_unit(cls, unit):
         if isinstance(unit, str):
             unit = unit_registry[unit]
         try:
@@ -324,7 +322,12 @@ class IrreducibleUnit(UnitQuantity):
             get_conversion_factor(cls._default_unit, unit)
         except ValueError:
             raise TypeError('default unit must be of same type')
-        cls._default_unit = unit
+        return unit
+    @classmethod
+    def set_default_unit(cls, unit):
+        if unit is None:
+            return
+        cls._default_unit = cls.check_default_unit(unit)
 
 
 class UnitMass(IrreducibleUnit):
@@ -482,6 +485,17 @@ def set_default_units(
     If both system and individual defaults are given, the system
     defaults will be applied first, followed by the individual ones.
     """
+    individual = [
+        (UnitCurrency, currency), (UnitCurrent, current),
+        (UnitInformation, information), (UnitLength, length),
+        (UnitLuminousIntensity, luminous_intensity), (UnitMass, mass),
+        (UnitSubstance, substance), (UnitTemperature, temperature),
+        (UnitTime, time)
+    ]
+    # check everything before changing anything
+    for cls, unit in individual:
+        if unit is not None:
+            cls.check_default_unit(unit)
     if system is not None:
         system = system.lower()
         if system not in ('si', 'cgs'):
@@ -498,14 +512,7 @@ def set_default_units(
         UnitTemperature.set_default_unit('degK')
         UnitTime.set_default_unit('s')
 
-    UnitCurrency.set_default_unit(currency)
-    UnitCurrent.set_default_unit(current)
-    UnitInformation.set_default_unit(information)
-    UnitLength.set_default_unit(length)
-    UnitLuminousIntensity.set_default_unit(luminous_intensity)
-    UnitMass.set_default_unit(mass)
-    UnitSubstance.set_default_unit(substance)
-    UnitTemperature.set_default_unit(temperature)
-    UnitTime.set_default_unit(time)
+    for cls, unit in individual:
+        cls.set_default_unit(unit)
 
 
-- 
2.43.0


From edaebbc3827b6e1a083668ca92d23980414c4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 12/52] fix: the definition of a unit is independent of user
 objects

UnitQuantity kept a reference to the quantity it was defined from, and
unit.definition handed out the internal object: changing either in place
changed the unit's definition (and its pickles), not its conversions.
---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 1edb383..7e1faa8 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -52,6 +52,10 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
+            if not isinstance(definition, UnitQuantity):
+                # the definition must not change with the object passed in
+                definition = definition.copy()
+                definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From c7b388e73a611dc772f89f554df7c390b4b50a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 13/52] fix: filling a view with a quantity in other units is
 refused

view.fill(3*s) wrote into the memory of the parent but relabelled only the
view, as view.units = and view *= would if they were not protected.
---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 6205175..dcbd756 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -525,11 +525,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dim = getattr(value, 'dimensionality', self._dimensionality)
+        if isinstance(self.base, Quantity) and dim != self._dimensionality:
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        self._dimensionality = dim
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From a942b0eb6ac5f5abee8a376574931c37cbcbf4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 14/52] fix: clip of dimensionless quantities accepts plain
 numbers

Quantity([1, 2, 3]).clip(1, 2) raised AttributeError.
---
 quantities/quantity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index dcbd756..f8d1dbd 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -642,6 +642,8 @@ class Quantity(np.ndarray):
             raise ValueError(
                 "both min and max must be Quantities with compatible units"
             )
+        if not isinstance(min, Quantity): min = Quantity(min)
+        if not isinstance(max, Quantity): max = Quantity(max)
 
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
-- 
2.43.0


From c86f5c7b12fc4f28e6d8cfa8db1dedbaf8d5c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 15/52] fix: nan-methods honour axis and out, out is unwrapped
 consistently

nanmax, nanmin, nanargmax and nanargmin ignored axis and out, nansum,
nanmean and nanstd left the units of out unchanged; clip, var and std
overwrote an out argument they then rejected.
---
 quantities/quantity.py | 69 +++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index f8d1dbd..4c160ea 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -518,10 +518,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -583,10 +587,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -601,10 +609,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -612,11 +624,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
@@ -648,7 +660,7 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            None if out is None else out.magnitude
         )
         dim = self.dimensionality
         if out is None:
@@ -701,13 +713,18 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.var(axis, dtype, out, ddof)
+        ret = self.magnitude.var(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self._dimensionality**2
         if out is None:
             return Quantity(ret, dim)
@@ -718,7 +735,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.std(axis, dtype, out, ddof)
+        ret = self.magnitude.std(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
@@ -729,10 +746,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
-        )
+        ret = np.nanstd(self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From f7fa82aef72de499a221bacaa6d58e80378b926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 16/52] fix: comparison ufuncs do not label their boolean
 results with units

np.less(1*m, 2*m) was 'True m'.
---
 quantities/dimensionality.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 1febda2..90711c6 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -264,15 +264,20 @@ p_dict[np.mod] = _d_check_uniform
 p_dict[np.fmod] = _d_check_uniform
 p_dict[np.remainder] = _d_check_uniform
 p_dict[np.hypot] = _d_check_uniform
-p_dict[np.equal] = _d_check_uniform
-p_dict[np.not_equal] = _d_check_uniform
-p_dict[np.less] = _d_check_uniform
-p_dict[np.less_equal] = _d_check_uniform
-p_dict[np.greater] = _d_check_uniform
-p_dict[np.greater_equal] = _d_check_uniform
 p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
+def _d_compare(q1, q2, out=None):
+    _d_check_uniform(q1, q2)
+    return Dimensionality()
+
+p_dict[np.equal] = _d_compare
+p_dict[np.not_equal] = _d_compare
+p_dict[np.less] = _d_compare
+p_dict[np.less_equal] = _d_compare
+p_dict[np.greater] = _d_compare
+p_dict[np.greater_equal] = _d_compare
+
 def _d_arctan2(q1, q2, out=None):
     _d_check_uniform(q1, q2)
     return Dimensionality()
-- 
2.43.0


From ad66c325b5d679c28220f9b50ce07aed9d54db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 17/52] fix: arctan2 converts its arguments to common units

umath.arctan2(1*m, 1*cm) accepted the compatible units but ignored them.
---
 quantities/umath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..d093e51 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -349,7 +349,7 @@ def arctan2(x1, x2, out=None):
         )
 
     return Quantity(
-        np.arctan2(x1.magnitude, x2.magnitude, out),
+        np.arctan2(x1.magnitude, x2.rescale(x1.units).magnitude, out),
         radian,
         copy=False
     )
-- 
2.43.0


From b0770a5283eace1b690ade616fb830341a007f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 18/52] fix: gradient without or with plain sample distances
 and of 1-d data

umath.gradient(q) returned an empty tuple, umath.gradient(q, 2.0) raised
AttributeError, and for one-dimensional data a tuple of scalars was
returned instead of an array.
---
 quantities/umath.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index d093e51..2518a80 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -82,21 +82,21 @@ def ediff1d(ary, to_end=None, to_begin=None):
 @with_doc(np.gradient)
 def gradient(f, *varargs):
     # if no sample distances are specified, use dimensionless 1
-    # this mimics the behavior of np.gradient, but perhaps we should
-    # remove this default behavior
-    # removed for now::
-    #
-    #   if len(varargs) == 0:
-    #       varargs = (Quantity(1),)
+    # this mimics the behavior of np.gradient
+    if len(varargs) == 0:
+        varargs = (Quantity(1),)
 
     varargsQuantities = [Quantity(i, copy=False) for i in varargs]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
-    if len(varargs) == 1:
+    if isinstance(ret, np.ndarray):
+        # one-dimensional input
+        return Quantity(ret, f.units/varargsQuantities[0].units)
+    elif len(varargs) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)  for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-- 
2.43.0


From 7fc4b3494515d32281cc755286aad21b1b43acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 19/52] fix: cross keeps the units if only one argument is a
 quantity

---
 quantities/umath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 2518a80..7f370d6 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -105,7 +105,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
@@ -114,7 +114,7 @@ def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
         b = Quantity(b, dimensionless, copy=False)
 
     return Quantity(
-        np.cross(a, b, axisa, axisb, axisc, axis),
+        np.cross(a.magnitude, b.magnitude, axisa, axisb, axisc, axis),
         a._dimensionality*b._dimensionality,
         copy=False
     )
-- 
2.43.0


From f5e1584cedc38ad061b99ab3016932b54a2153d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 20/52] fix: unwrap angles in any units

np.unwrap was applied with a period of 2*pi to magnitudes in degrees, and
with a plain discontinuity the units were dropped.
---
 quantities/umath.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 7f370d6..4587863 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -381,7 +381,7 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
+    if not (isinstance(p, Quantity) or isinstance(discont, Quantity)):
         return np.unwrap(p, discont, axis)
 
     if not isinstance(p, Quantity):
@@ -389,12 +389,13 @@ def unwrap(p, discont=np.pi, axis=-1):
     if not isinstance(discont, Quantity):
         discont = Quantity(discont, copy=False)
 
-    discont = discont.rescale(p.units)
-
+    # the period is 2*pi radians, whatever the units of p
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+        np.unwrap(
+            p.rescale(radian).magnitude, discont.rescale(radian).magnitude, axis
+        ),
+        radian
+    ).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From f8c048257f062fbc426677ca805fa661d724820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 21/52] fix: ediff1d converts to_end and to_begin to the units
 of the array

---
 quantities/umath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 4587863..e5664c3 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -73,6 +73,11 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if isinstance(to_end, Quantity):
+        to_end = to_end.rescale(ary.units).magnitude
+    if isinstance(to_begin, Quantity):
+        to_begin = to_begin.rescale(ary.units).magnitude
+
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From 5643a4475ab9843449902583d29baf662022f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 22/52] fix: quantitizer simplifies keyword arguments

It called the misspelled attribute 'simplifed' of the quantity.
---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From ad5f22f9b6f6830313e3f4f04cdb99d73593192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 23/52] fix: comparing incompatible quantities for equality
 broadcasts their shapes

1*m == [1, 2]*s had the shape of the left operand only.
---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 4c160ea..3548936 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -456,7 +456,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.zeros(self.shape, '?')
+                return np.zeros(np.broadcast_shapes(self.shape, other.shape), '?')
         return self.magnitude == other
 
     @with_doc(np.ndarray.__ne__)
@@ -465,7 +465,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.ones(self.shape, '?')
+                return np.ones(np.broadcast_shapes(self.shape, other.shape), '?')
         return self.magnitude != other
 
     @with_doc(np.ndarray.__ge__)
-- 
2.43.0


From 3bba7d4c0bb2603cc05de83334616a54c79a3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 24/52] fix: definition of statampere and aliases of the foot

---
 quantities/units/electromagnetism.py | 2 +-
 quantities/units/length.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..f5f2b62 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From 4e0596a80da7a7ebce66f942df2115010aa5e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 25/52] fix: refuse unit strings with a scale instead of
 dropping it

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 3548936..77d89c6 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,11 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            value = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            value = unit_registry[str(value)]
+        # do not silently drop a scale, as in '1000*m'
+        return validate_unit_quantity(value).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From aa083963eceb803926b9a88858d999119b1f4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 26/52] fix: parse the symbols of inch and attosecond in unit
 expressions

---
 quantities/registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index d9553b3..2b23133 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -61,6 +61,9 @@ class UnitRegistry:
             self.__context.setdefault(string, val)
 
     __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
+    # symbols which can not be evaluated because they are keywords
+    __keywords = {'as': 'attosecond', 'in': 'inch'}
+    __keyword_regex = re.compile(r'\b(%s)\b' % '|'.join(__keywords))
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -79,6 +82,8 @@ class UnitRegistry:
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        label = self.__keyword_regex.sub(
+            lambda match: self.__keywords[match.group(0)], label)
 
         return self.__registry[label]
 
-- 
2.43.0


From 7f2ba3085134053863b4b0ee9d43f8e3107d9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 27/52] fix: propagate uncertainties of all operands, also
 exact and zero ones

---
 quantities/uncertainquantity.py | 109 ++++++++++++++++++--------------
 quantities/unitquantity.py      |  10 +--
 2 files changed, 67 insertions(+), 52 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 6587593..8012be0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -9,6 +9,14 @@ from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
+def as_uncertain(value):
+    """Return value as an UncertainQuantity, exact unless it is one already"""
+    value = np.asanyarray(value)
+    if not isinstance(value, UncertainQuantity):
+        value = value.view(UncertainQuantity)
+    return value
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -19,24 +27,26 @@ class UncertainQuantity(Quantity):
             warnings.warn(("The 'copy' argument in UncertainQuantity is deprecated and will be removed in the future. "
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
+        if isinstance(data, unit_registry['UnitQuantity']):
+            data = 1*data
         ret = Quantity.__new__(cls, data, units, dtype)
-        # _uncertainty initialized to be dimensionless by __array_finalize__:
-        ret._uncertainty._dimensionality = ret._dimensionality
 
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret._dimensionality)
+        else:
+            # initialized to be dimensionless by __array_finalize__:
+            ret._uncertainty = Quantity(
+                np.zeros(ret.shape, ret.dtype).real, ret._dimensionality
+            )
 
         return ret
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self._uncertainty = self._uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
@@ -80,7 +90,7 @@ class UncertainQuantity(Quantity):
             obj,
             'uncertainty',
             Quantity(
-                np.zeros(self.shape, self.dtype),
+                np.zeros(self.shape, self.dtype).real,
                 self._dimensionality,
             )
         )
@@ -89,78 +99,83 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
-        return UncertainQuantity(res, uncertainty=u)
+        res._uncertainty = Quantity(
+            np.hypot(
+                self.uncertainty.magnitude,
+                as_uncertain(other).uncertainty.magnitude
+            ),
+            res._dimensionality
+        )
+        return res
 
     @with_doc(Quantity.__radd__, use_header=False)
-    @scale_other_units
     def __radd__(self, other):
-        return self.__add__(other)
+        return as_uncertain(other) + self
 
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
-        return UncertainQuantity(res, uncertainty=u)
+        res._uncertainty = Quantity(
+            np.hypot(
+                self.uncertainty.magnitude,
+                as_uncertain(other).uncertainty.magnitude
+            ),
+            res._dimensionality
+        )
+        return res
 
     @with_doc(Quantity.__rsub__, use_header=False)
-    @scale_other_units
     def __rsub__(self, other):
-        if not isinstance(other, UncertainQuantity):
-            other = UncertainQuantity(other)
-
-        return UncertainQuantity.__sub__(other, self)
+        return as_uncertain(other) - self
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
+        other = as_uncertain(other)
         res = super().__mul__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2*other**2)**0.5
-
-        res._uncertainty = u
+        res._uncertainty = Quantity(
+            np.hypot(
+                np.abs(other.magnitude) * self.uncertainty.magnitude,
+                np.abs(self.magnitude) * other.uncertainty.magnitude
+            ),
+            res._dimensionality
+        )
         return res
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
-        return self.__mul__(other)
+        return as_uncertain(other) * self
 
     def __neg__(self):
         return self*-1
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
+        other = as_uncertain(other)
         res = super().__truediv__(other)
-        try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
-        except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2/other**2)**0.5
-
-        res._uncertainty = u
+        res._uncertainty = Quantity(
+            np.hypot(
+                self.uncertainty.magnitude,
+                np.abs(res.magnitude) * other.uncertainty.magnitude
+            ) / np.abs(other.magnitude),
+            res._dimensionality
+        )
         return res
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-        temp = UncertainQuantity(
-            1/self.magnitude, self.dimensionality**-1,
-            self.relative_uncertainty/self.magnitude
-        )
-        return other * temp
+        return as_uncertain(other) / self
 
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        other = np.asarray(other)
+        if np.all(other == 0):
+            u = np.zeros(res.shape, res.dtype).real
+        else:
+            u = np.abs(other * self.magnitude**(other - 1.0))
+            u = u * self.uncertainty.magnitude
+        res._uncertainty = Quantity(u, res._dimensionality)
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 7e1faa8..537ca17 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -168,7 +168,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -179,7 +179,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -190,7 +190,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mod__, use_header=False)
     def __mod__(self, other):
-        return self.view(Quantity).__mod__(other)
+        return self.view(Quantity) % other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rmod__(self, other):
@@ -201,7 +201,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -209,7 +209,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 1c2d45a24b4c87b5bc3b936ad76b703dd35af3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 28/52] fix: real, imag and squeeze return protected views

---
 quantities/quantity.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 77d89c6..bddbb1b 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -159,7 +159,7 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).real
 
     @real.setter
     def real(self, r):
@@ -167,7 +167,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).imag
 
     @imag.setter
     def imag(self, i):
@@ -696,10 +696,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        return self.view(Quantity).reshape(self.magnitude.squeeze(axis).shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From 9c438e7de9399cfc8c158e13e0ae206d36afd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 29/52] fix: carry uncertainties through ufuncs, in-place
 operators, indexing and rearranging methods

---
 quantities/uncertainquantity.py | 276 ++++++++++++++++++--------------
 1 file changed, 160 insertions(+), 116 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 8012be0..5714749 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -5,7 +5,7 @@ import numpy as np
 import warnings
 
 from . import markup, QuantitiesDeprecationWarning
-from .quantity import Quantity, scale_other_units
+from .quantity import Quantity
 from .registry import unit_registry
 from .decorators import with_doc
 
@@ -17,6 +17,74 @@ def as_uncertain(value):
     return value
 
 
+def _sigma_copy(res, x):
+    return as_uncertain(x).uncertainty.magnitude.copy()
+
+def _sigma_add_sub(res, x, y):
+    x, y = as_uncertain(x), as_uncertain(y)
+    return np.hypot(x.uncertainty.magnitude, y.uncertainty.magnitude)
+
+def _sigma_multiply(res, x, y):
+    x, y = as_uncertain(x), as_uncertain(y)
+    return np.hypot(
+        np.abs(y.magnitude) * x.uncertainty.magnitude,
+        np.abs(x.magnitude) * y.uncertainty.magnitude
+    )
+
+def _sigma_divide(res, x, y):
+    x, y = as_uncertain(x), as_uncertain(y)
+    return np.hypot(
+        x.uncertainty.magnitude, np.abs(res) * y.uncertainty.magnitude
+    ) / np.abs(y.magnitude)
+
+def _sigma_power(res, x, y):
+    x, y = as_uncertain(x), np.asarray(y)
+    if np.all(y == 0):
+        return np.zeros(res.shape, res.dtype).real
+    return np.abs(y * x.magnitude**(y - 1.0)) * x.uncertainty.magnitude
+
+# standard deviations of the results of ufuncs, uncorrelated to first order
+sigma_dict = {
+    np.negative: _sigma_copy,
+    np.absolute: _sigma_copy,
+    np.add: _sigma_add_sub,
+    np.subtract: _sigma_add_sub,
+    np.multiply: _sigma_multiply,
+    np.true_divide: _sigma_divide,
+    np.power: _sigma_power,
+    np.square: lambda res, x: _sigma_power(res, x, 2),
+    np.sqrt: lambda res, x: _sigma_power(res, x, 0.5),
+    np.reciprocal: lambda res, x: _sigma_power(res, x, -1),
+}
+
+
+def propagate(name, iname):
+    """In-place operator, updates the uncertainty as the plain operator does"""
+    @with_doc(getattr(Quantity, iname), use_header=False)
+    def operator(self, other):
+        uncertainty = getattr(self, name)(other).uncertainty
+        ret = getattr(super(UncertainQuantity, self), iname)(other)
+        ret._uncertainty.magnitude[...] = uncertainty.magnitude
+        ret._uncertainty._dimensionality = ret.dimensionality
+        return ret
+    return operator
+
+
+def rearrange(name):
+    """Method which rearranges the elements together with the uncertainties"""
+    @with_doc(getattr(np.ndarray, name))
+    def method(self, *args, **kwargs):
+        ret = getattr(np.ndarray, name)(self, *args, **kwargs)
+        if not isinstance(ret, UncertainQuantity):
+            ret = UncertainQuantity(ret, self._dimensionality, dtype=self.dtype)
+        ret._uncertainty = Quantity(
+            getattr(self._uncertainty.magnitude, name)(*args, **kwargs),
+            self._dimensionality
+        )
+        return ret
+    return method
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -56,9 +124,11 @@ class UncertainQuantity(Quantity):
 
     @property
     def simplified(self):
-        ret = super().simplified.view(UncertainQuantity)
-        ret.uncertainty = self.uncertainty.simplified
-        return ret
+        ret = self.view(Quantity).simplified
+        return UncertainQuantity(
+            ret.magnitude, ret._dimensionality,
+            self.uncertainty.simplified, dtype=ret.dtype
+        )
 
     @property
     def uncertainty(self):
@@ -71,6 +141,8 @@ class UncertainQuantity(Quantity):
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
+        if uncertainty.dtype.kind in 'biu':
+            uncertainty = uncertainty.astype('d')
         self._uncertainty = uncertainty
 
     @property
@@ -78,113 +150,92 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
-        cls = UncertainQuantity
-        ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
-        return ret
+    def rescale(self, units=None, dtype=None):
+        if units is None:
+            return super().rescale()
+        ret = self.view(Quantity).rescale(units, dtype=dtype)
+        return UncertainQuantity(
+            ret.magnitude, ret._dimensionality,
+            self.uncertainty.rescale(units, dtype=dtype), dtype=ret.dtype
+        )
+
+    @with_doc(Quantity.astype, use_header=False)
+    def astype(self, dtype=None, **kwargs):
+        ret = self.view(Quantity).astype(dtype, **kwargs)
+        return UncertainQuantity(
+            ret.magnitude, ret._dimensionality, self.uncertainty.copy(),
+            dtype=ret.dtype
+        )
 
     def __array_finalize__(self, obj):
         Quantity.__array_finalize__(self, obj)
-        self._uncertainty = getattr(
-            obj,
-            'uncertainty',
-            Quantity(
+        uncertainty = getattr(obj, 'uncertainty', None)
+        if uncertainty is None or uncertainty.shape != self.shape:
+            uncertainty = Quantity(
                 np.zeros(self.shape, self.dtype).real,
                 self._dimensionality,
             )
-        )
+        elif not np.may_share_memory(self, obj):
+            uncertainty = uncertainty.copy()
+        self._uncertainty = uncertainty
 
-    @with_doc(Quantity.__add__, use_header=False)
-    @scale_other_units
-    def __add__(self, other):
-        res = super().__add__(other)
-        res._uncertainty = Quantity(
-            np.hypot(
-                self.uncertainty.magnitude,
-                as_uncertain(other).uncertainty.magnitude
-            ),
-            res._dimensionality
-        )
-        return res
+    def __array_wrap__(self, obj, context=None, return_scalar=False):
+        ret = super().__array_wrap__(obj, context, return_scalar)
+        # the in-place operators take care of themselves
+        if isinstance(ret, UncertainQuantity) and ret is not obj:
+            uf, args = context[:2] if context else (None, ())
+            try:
+                sigma = sigma_dict[uf](ret.magnitude, *args[:uf.nin])
+            except KeyError:
+                sigma = np.zeros(ret.shape, ret.dtype).real
+            ret._uncertainty = Quantity(sigma, ret._dimensionality)
+        return ret
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
         return as_uncertain(other) + self
 
-    @with_doc(Quantity.__sub__, use_header=False)
-    @scale_other_units
-    def __sub__(self, other):
-        res = super().__sub__(other)
-        res._uncertainty = Quantity(
-            np.hypot(
-                self.uncertainty.magnitude,
-                as_uncertain(other).uncertainty.magnitude
-            ),
-            res._dimensionality
-        )
-        return res
-
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
         return as_uncertain(other) - self
 
-    @with_doc(Quantity.__mul__, use_header=False)
-    def __mul__(self, other):
-        other = as_uncertain(other)
-        res = super().__mul__(other)
-        res._uncertainty = Quantity(
-            np.hypot(
-                np.abs(other.magnitude) * self.uncertainty.magnitude,
-                np.abs(self.magnitude) * other.uncertainty.magnitude
-            ),
-            res._dimensionality
-        )
-        return res
-
-    @with_doc(Quantity.__rmul__, use_header=False)
-    def __rmul__(self, other):
-        return as_uncertain(other) * self
-
-    def __neg__(self):
-        return self*-1
-
-    @with_doc(Quantity.__truediv__, use_header=False)
-    def __truediv__(self, other):
-        other = as_uncertain(other)
-        res = super().__truediv__(other)
-        res._uncertainty = Quantity(
-            np.hypot(
-                self.uncertainty.magnitude,
-                np.abs(res.magnitude) * other.uncertainty.magnitude
-            ) / np.abs(other.magnitude),
-            res._dimensionality
-        )
-        return res
-
-    @with_doc(Quantity.__rtruediv__, use_header=False)
-    def __rtruediv__(self, other):
-        return as_uncertain(other) / self
-
-    @with_doc(Quantity.__pow__, use_header=False)
-    def __pow__(self, other):
-        res = super().__pow__(other)
-        other = np.asarray(other)
-        if np.all(other == 0):
-            u = np.zeros(res.shape, res.dtype).real
-        else:
-            u = np.abs(other * self.magnitude**(other - 1.0))
-            u = u * self.uncertainty.magnitude
-        res._uncertainty = Quantity(u, res._dimensionality)
-        return res
+    __iadd__ = propagate('__add__', '__iadd__')
+    __isub__ = propagate('__sub__', '__isub__')
+    __imul__ = propagate('__mul__', '__imul__')
+    __itruediv__ = propagate('__truediv__', '__itruediv__')
+    __ipow__ = propagate('__pow__', '__ipow__')
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
-        return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
-        )
+        ret = super().__getitem__(key)
+        if not isinstance(ret, UncertainQuantity):
+            ret = UncertainQuantity(
+                ret.magnitude, self._dimensionality, dtype=ret.dtype
+            )
+        ret._uncertainty = self._uncertainty[key]
+        return ret
+
+    @with_doc(Quantity.__setitem__, use_header=False)
+    def __setitem__(self, key, value):
+        super().__setitem__(key, value)
+        self._uncertainty[key] = as_uncertain(value).uncertainty
+
+    reshape = rearrange('reshape')
+    transpose = rearrange('transpose')
+    swapaxes = rearrange('swapaxes')
+    ravel = rearrange('ravel')
+    flatten = rearrange('flatten')
+    diagonal = rearrange('diagonal')
+    repeat = rearrange('repeat')
+    take = rearrange('take')
+
+    @with_doc(np.ndarray.squeeze)
+    def squeeze(self, axis=None):
+        return self.reshape(self.magnitude.squeeze(axis).shape)
+
+    @property
+    def T(self):
+        return self.transpose()
 
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
@@ -247,41 +298,34 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _select(self, index, axis):
+        # the elements at an index returned by argmin, argmax etc.
+        if axis is None:
+            return self[np.unravel_index(index, self.shape)]
+        index = np.expand_dims(index, axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, index, axis).squeeze(axis),
+            self._dimensionality,
+            np.take_along_axis(
+                self.uncertainty.magnitude, index, axis).squeeze(axis),
+            dtype=self.dtype
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmax(self.magnitude, axis), axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmax(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmin(self.magnitude, axis), axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
-
-    @with_doc(np.ndarray.argmin)
-    def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
-
-    @with_doc(np.ndarray.argmax)
-    def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
-
-    @with_doc(np.nanargmin)
-    def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
-
-    @with_doc(np.nanargmax)
-    def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return self._select(np.nanargmin(self.magnitude, axis), axis)
 
     @with_doc(np.ndarray.copy)
     def copy(self, order='C'):
-- 
2.43.0


From 9b779b68aa6bd8103bfe8d6b9269de687f987f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 30/52] fix: wrong or blank symbols of some units and constants

---
 quantities/constants/deuteron.py | 2 +-
 quantities/constants/muon.py     | 4 ++--
 quantities/constants/tau.py      | 2 +-
 quantities/units/mass.py         | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantities/constants/deuteron.py b/quantities/constants/deuteron.py
index a6846a0..2b0d378 100644
--- a/quantities/constants/deuteron.py
+++ b/quantities/constants/deuteron.py
@@ -54,7 +54,7 @@ deuteron_electron_mass_ratio = UnitConstant(
 deuteron_proton_mass_ratio = UnitConstant(
     'deuteron_proton_mass_ratio',
     _cd('deuteron-proton mass ratio'),
-    symbol='(m_d/m_n)'
+    symbol='(m_d/m_p)'
 )
 deuteron_electron_magnetic_moment_ratio = UnitConstant(
     'deuteron_electron_magnetic_moment_ratio',
diff --git a/quantities/constants/muon.py b/quantities/constants/muon.py
index cf81fae..eecc463 100644
--- a/quantities/constants/muon.py
+++ b/quantities/constants/muon.py
@@ -14,13 +14,13 @@ m_mu = muon_mass = UnitConstant(
 lambda_C_mu = muon_Compton_wavelength = UnitConstant(
     'muon_Compton_wavelength',
     _cd('muon Compton wavelength'),
-    symbol='lambdabar_C_mu',
+    symbol='lambda_C_mu',
     u_symbol='λ_C_μ'
 )
 muon_Compton_wavelength_over_2_pi = UnitConstant(
     'muon_Compton_wavelength_over_2_pi',
     _cd('muon Compton wavelength over 2 pi'),
-    symbol='lambdabar_Cmu',
+    symbol='lambdabar_C_mu',
     u_symbol='ƛ_C_μ'
 )
 g_mu = muon_g_factor = UnitConstant(
diff --git a/quantities/constants/tau.py b/quantities/constants/tau.py
index fdbe59a..281d22b 100644
--- a/quantities/constants/tau.py
+++ b/quantities/constants/tau.py
@@ -20,7 +20,7 @@ lambda_C_tau = tau_Compton_wavelength = UnitConstant(
 tau_Compton_wavelength_over_2_pi = UnitConstant(
     'tau_Compton_wavelength_over_2_pi',
     _cd('tau Compton wavelength over 2 pi'),
-    symbol='lambda_C_tau',
+    symbol='lambdabar_C_tau',
     u_symbol='ƛ_C_τ'
 )
 tau_mass_energy_equivalent = UnitConstant(
diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From 6a00496f28bc34763ab7a61c68d4a0642433b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 31/52] fix: simplify units without a definition, such as
 dimensionless

---
 quantities/unitquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 537ca17..ac47878 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -114,6 +114,9 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
+        if self._conv_ref is None:
+            # not defined in terms of other units
+            return 1*self
         return self._reference.simplified
 
     @property
-- 
2.43.0


From 1ce6569770984e0d70772f7e8620500c3dadba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 32/52] fix: the pond is the weight of a gram, alias of oersted

---
 quantities/units/electromagnetism.py | 2 +-
 quantities/units/force.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index f5f2b62..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..e4cd7a6 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*kg/1000,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From 092dd7d3d03559feb40b5bb771f74a1a9aed6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 33/52] fix: remainder of plain numbers by quantities follows
 the unit rules

---
 quantities/quantity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index bddbb1b..1dfed89 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -356,6 +356,11 @@ class Quantity(np.ndarray):
     def __mod__(self, other):
         return super().__mod__(other)
 
+    @with_doc(np.ndarray.__rmod__)
+    @scale_other_units
+    def __rmod__(self, other):
+        return np.remainder(other, self)
+
     @with_doc(np.ndarray.__imod__)
     @scale_other_units
     def __imod__(self, other):
-- 
2.43.0


From 4935da7255224452b0b8b7a7f4703119945e6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 34/52] fix: refuse plain arrays raised to a scalar exponent
 with units

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 1dfed89..623f087 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -396,6 +396,10 @@ class Quantity(np.ndarray):
     def __pow__(self, other):
         return np.power(self, other)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        return np.power(other, self)
+
     @with_doc(np.ndarray.__ipow__)
     @check_uniform
     @protected_power
-- 
2.43.0


From 48a1042f5fbafa67bcb7c8f1f8619d6e681fdcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 35/52] fix: refuse unit strings with comments, text constants
 or logical operators

---
 quantities/registry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 2b23133..3abfe2c 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -19,7 +19,8 @@ class UnitRegistry:
             ast.BinOp,
             ast.UnaryOp,
             ast.operator,
-            ast.unaryop,
+            ast.UAdd,
+            ast.USub,
         )
 
         def __init__(self):
@@ -31,6 +32,11 @@ class UnitRegistry:
             # by https://stackoverflow.com/users/567292/ecatmur
             tree = ast.parse(string, mode="eval")
             valid = all(isinstance(node, self.whitelist) for node in ast.walk(tree))
+            # only numbers can be used as constants, and comments are not units
+            valid = valid and '#' not in string and all(
+                type(node.value) in (int, float, complex)
+                for node in ast.walk(tree) if isinstance(node, ast.Constant)
+            )
             if valid:
                 try:
                     item = eval(
-- 
2.43.0


From 08cd2afc9995f45e6e1a301eda4d21be0406a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 36/52] fix: np.searchsorted and np.argsort on quantities
 bypassed the methods and their unit check

---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 623f087..0f82378 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -564,18 +564,18 @@ class Quantity(np.ndarray):
     # how it would function, so for now it will not be implemented
 
     @with_doc(np.ndarray.argsort)
-    def argsort(self, axis=-1, kind='quick', order=None):
-        return self.magnitude.argsort(axis, kind, order)
+    def argsort(self, axis=-1, kind=None, order=None, **kwargs):
+        return self.magnitude.argsort(axis, kind, order, **kwargs)
 
     @with_doc(np.ndarray.searchsorted)
-    def searchsorted(self,values, side='left'):
+    def searchsorted(self, values, side='left', sorter=None):
         if not isinstance (values, Quantity):
             values = Quantity(values)
 
         if values._dimensionality != self._dimensionality:
             raise ValueError("values does not have the same units as self")
 
-        return self.magnitude.searchsorted(values.magnitude, side)
+        return self.magnitude.searchsorted(values.magnitude, side, sorter)
 
     @with_doc(np.ndarray.nonzero)
     def nonzero(self):
-- 
2.43.0


From ba8bf6a31e115f2897342d6ca8f43883d2bc0362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 37/52] fix: take with a single index dropped the units

---
 quantities/quantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 0f82378..734d12d 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -577,6 +577,13 @@ class Quantity(np.ndarray):
 
         return self.magnitude.searchsorted(values.magnitude, side, sorter)
 
+    @with_doc(np.ndarray.take)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = super().take(indices, axis, out, mode)
+        if out is None and not isinstance(ret, Quantity):
+            ret = Quantity(ret, self._dimensionality)
+        return ret
+
     @with_doc(np.ndarray.nonzero)
     def nonzero(self):
         return self.magnitude.nonzero()
-- 
2.43.0


From b172359eea1bbad1a753fdcedc7fca6cfef098d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 38/52] fix: take dropped the units of a single element and did
 not label its output

---
 quantities/quantity.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 734d12d..fa7d001 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -580,9 +580,14 @@ class Quantity(np.ndarray):
     @with_doc(np.ndarray.take)
     def take(self, indices, axis=None, out=None, mode='raise'):
         ret = super().take(indices, axis, out, mode)
-        if out is None and not isinstance(ret, Quantity):
-            ret = Quantity(ret, self._dimensionality)
-        return ret
+        if out is None:
+            if not isinstance(ret, Quantity):
+                ret = Quantity(ret, self._dimensionality)
+            return ret
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = self.dimensionality
+        return out
 
     @with_doc(np.ndarray.nonzero)
     def nonzero(self):
-- 
2.43.0


From 5180d335595cd14feb40965b4e1901857c8607d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 39/52] fix: nansum and nanmean counted the uncertainties of
 elements they ignore

---
 quantities/uncertainquantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 5714749..4f77861 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -274,7 +274,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum(self._valid_variance(), axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -291,7 +291,13 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(self._valid_variance(), axis))**0.5
+        )
+
+    def _valid_variance(self):
+        # the elements ignored by nansum, nanmean do not contribute
+        return np.where(
+            np.isnan(self.magnitude), 0, self.uncertainty.magnitude**2
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0


From 9946ab9c6f9187726b46070029c9456b6691d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 40/52] fix: real and imaginary parts of dimensionless
 quantities accepted any units unconverted

---
 quantities/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index fa7d001..467a254 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -163,6 +163,8 @@ class Quantity(np.ndarray):
 
     @real.setter
     def real(self, r):
+        if isinstance(r, Quantity):
+            r = r.rescale(self._dimensionality)
         self.magnitude.real = Quantity(r, self.dimensionality).magnitude
 
     @property
@@ -171,6 +173,8 @@ class Quantity(np.ndarray):
 
     @imag.setter
     def imag(self, i):
+        if isinstance(i, Quantity):
+            i = i.rescale(self._dimensionality)
         self.magnitude.imag = Quantity(i, self.dimensionality).magnitude
 
     @property
-- 
2.43.0


From b84e3a3ed9ed0a03a3664a9928d4cc0e91b5bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 41/52] fix: in-place power with exponent 0 or 1

NumPy replaces these by the ufuncs _ones_like and positive, which have no
entry in p_dict: q **= 1 was refused, q **= 0 was refused after the values
had been overwritten.
---
 quantities/quantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 467a254..e00b44a 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -408,6 +408,9 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
+        if np.ndim(other) == 0 and other in (0, 1):
+            # numpy's shortcuts for these exponents do not know the units
+            return np.power(self, other, out=self)
         return super().__ipow__(other)
 
     def __round__(self, decimals=0):
-- 
2.43.0


From ddc657878ec81890190c5a12b96147b6f8247520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 42/52] fix: refuse to redefine a unit of the same name with
 another definition

---
 quantities/registry.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 3abfe2c..ce883a8 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -56,11 +56,18 @@ class UnitRegistry:
             """Raise an error if string can not be registered for val"""
             if not isinstance(string, str):
                 raise TypeError('label must be a string, got %r' % (string,))
-            if string in self.__context and not val == self.__context[string]:
-                raise KeyError(
-                    '%s has already been registered for %s'
-                    % (string, self.__context[string])
-                )
+            if string in self.__context:
+                existing = self.__context[string]
+                # units of the same name are equal whatever their definition
+                if not (
+                    val == existing and
+                    getattr(val, '_reference', None)
+                    == getattr(existing, '_reference', None)
+                ):
+                    raise KeyError(
+                        '%s has already been registered for %s'
+                        % (string, existing)
+                    )
 
         def __setitem__(self, string, val):
             self.check_label(string, val)
-- 
2.43.0


From f73263e32d6051ff87357d2871ae12cdbc388736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 43/52] fix: default units must not change with the quantity
 passed to set_default_units

---
 quantities/unitquantity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index ac47878..52a4277 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -334,7 +334,12 @@ class IrreducibleUnit(UnitQuantity):
     def set_default_unit(cls, unit):
         if unit is None:
             return
-        cls._default_unit = cls.check_default_unit(unit)
+        unit = cls.check_default_unit(unit)
+        if not isinstance(unit, UnitQuantity):
+            # the default must not change with the object passed in
+            unit = unit.copy()
+            unit.flags.writeable = False
+        cls._default_unit = unit
 
 
 class UnitMass(IrreducibleUnit):
-- 
2.43.0


From 11e364188ec9f7b416d0937c89cb3cf42e5bf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 44/52] fix: ediff1d of a plain array ignored the units of
 to_end and to_begin

---
 quantities/umath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index e5664c3..48e0b9c 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -70,9 +70,11 @@ diff = np.diff
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-    if not isinstance(ary, Quantity):
+    if not any(isinstance(i, Quantity) for i in (ary, to_end, to_begin)):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if not isinstance(ary, Quantity):
+        ary = Quantity(ary, copy=False)
     if isinstance(to_end, Quantity):
         to_end = to_end.rescale(ary.units).magnitude
     if isinstance(to_begin, Quantity):
-- 
2.43.0


From 519727981d17648fbac6bab5a89fa678224da7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 45/52] fix: gradient could not be applied to plain arrays

---
 quantities/umath.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 48e0b9c..da6758e 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -88,6 +88,12 @@ def ediff1d(ary, to_end=None, to_begin=None):
 
 @with_doc(np.gradient)
 def gradient(f, *varargs):
+    if not any(isinstance(i, Quantity) for i in (f,) + varargs):
+        return np.gradient(f, *varargs)
+
+    if not isinstance(f, Quantity):
+        f = Quantity(f, copy=False)
+
     # if no sample distances are specified, use dimensionless 1
     # this mimics the behavior of np.gradient
     if len(varargs) == 0:
-- 
2.43.0


From fc257aa517bca95a08551e6fa950eee64facd67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 46/52] fix: cos and tan of a quantity ignored their output
 argument

---
 quantities/umath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index da6758e..a3afff6 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -292,7 +292,7 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -321,7 +321,7 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out), copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From d0c73104e38d27c6a774b4fbb266811cff22f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 47/52] fix: constructing from a unit ignored the dtype, and
 invalid empty units were ignored

---
 quantities/quantity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index e00b44a..b848aaa 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -121,10 +121,14 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            # without units those of data are kept
+            if units is not None and not (
+                isinstance(units, (str, Dimensionality)) and not units
+            ):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                data = 1*data
+                return data if dtype is None else data.astype(dtype)
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
-- 
2.43.0


From 0aeb430487184169fb1572619d807f404ec12993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 48/52] fix: quantitizer failed for functions without a
 docstring

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index deb5081..3829995 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -155,6 +155,6 @@ def quantitizer(base_function,
     # doc string but add an annotation to the beginning
     wrapped_function.__doc__ = (
             "this function has been wrapped to work with Quantities\n"
-            + base_function.__doc__)
+            + (base_function.__doc__ or ""))
 
     return wrapped_function
-- 
2.43.0


From 30f272fcdcc3ebeb325d04fadbd3134b4ab22c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 49/52] fix: take wrote into an output argument before refusing
 it

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index b848aaa..fac4b0f 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -590,13 +590,13 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.take)
     def take(self, indices, axis=None, out=None, mode='raise'):
+        if not (out is None or isinstance(out, Quantity)):
+            raise TypeError("out parameter must be a Quantity")
         ret = super().take(indices, axis, out, mode)
         if out is None:
             if not isinstance(ret, Quantity):
                 ret = Quantity(ret, self._dimensionality)
             return ret
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
         out._dimensionality = self.dimensionality
         return out
 
-- 
2.43.0


From 5fab9635c81b7ad364ab40c28b1616c71ea53e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:32 +0000
Subject: [PATCH 50/52] fix: output arguments of uncertain methods and ufuncs
 kept their units and uncertainties

---
 quantities/uncertainquantity.py | 89 ++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 23 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 4f77861..5b564a1 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -58,6 +58,25 @@ sigma_dict = {
 }
 
 
+def magnitude_of(out):
+    """Return the magnitude of an output argument of a method"""
+    if out is None:
+        return None
+    if not isinstance(out, Quantity):
+        raise TypeError("out parameter must be a Quantity")
+    return out.magnitude
+
+def label(out, ret):
+    """Give the units and uncertainties of ret to an output argument"""
+    if out is None:
+        return ret
+    out._dimensionality = ret.dimensionality
+    if isinstance(out, UncertainQuantity):
+        out._uncertainty.magnitude[...] = ret.uncertainty.magnitude
+        out._uncertainty._dimensionality = ret.dimensionality
+    return out
+
+
 def propagate(name, iname):
     """In-place operator, updates the uncertainty as the plain operator does"""
     @with_doc(getattr(Quantity, iname), use_header=False)
@@ -181,14 +200,19 @@ class UncertainQuantity(Quantity):
 
     def __array_wrap__(self, obj, context=None, return_scalar=False):
         ret = super().__array_wrap__(obj, context, return_scalar)
-        # the in-place operators take care of themselves
-        if isinstance(ret, UncertainQuantity) and ret is not obj:
+        if isinstance(ret, UncertainQuantity) and (context or ret is not obj):
             uf, args = context[:2] if context else (None, ())
             try:
                 sigma = sigma_dict[uf](ret.magnitude, *args[:uf.nin])
             except KeyError:
                 sigma = np.zeros(ret.shape, ret.dtype).real
-            ret._uncertainty = Quantity(sigma, ret._dimensionality)
+            sigma = Quantity(sigma, ret._dimensionality)
+            if ret is obj:
+                # an output argument, may have views
+                ret._uncertainty.magnitude[...] = sigma.magnitude
+                ret._uncertainty._dimensionality = sigma.dimensionality
+            else:
+                ret._uncertainty = sigma
         return ret
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -227,7 +251,14 @@ class UncertainQuantity(Quantity):
     flatten = rearrange('flatten')
     diagonal = rearrange('diagonal')
     repeat = rearrange('repeat')
-    take = rearrange('take')
+    _take = rearrange('take')
+
+    @with_doc(Quantity.take, use_header=False)
+    def take(self, indices, axis=None, out=None, mode='raise'):
+        ret = self._take(indices, axis, None, mode)
+        if out is not None:
+            super().take(indices, axis, out, mode)
+        return label(out, ret)
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
@@ -263,36 +294,38 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.sum(axis, dtype, out),
+        return label(out, UncertainQuantity(
+            self.magnitude.sum(axis, dtype, magnitude_of(out)),
             self.dimensionality,
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            np.nansum(self.magnitude, axis, dtype, out),
+        sigma = (np.nansum(self._valid_variance(), axis))**0.5
+        return label(out, UncertainQuantity(
+            np.nansum(self.magnitude, axis, dtype, magnitude_of(out)),
             self.dimensionality,
-            (np.nansum(self._valid_variance(), axis))**0.5
-        )
+            sigma
+        ))
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        return UncertainQuantity(
-            self.magnitude.mean(axis, dtype, out),
+        return label(out, UncertainQuantity(
+            self.magnitude.mean(axis, dtype, magnitude_of(out)),
             self.dimensionality,
             ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        ))
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         size = np.sum(~np.isnan(self),axis)
-        return UncertainQuantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
+        sigma = ((1.0/size)**2 * np.nansum(self._valid_variance(), axis))**0.5
+        return label(out, UncertainQuantity(
+            np.nanmean(self.magnitude, axis, dtype, magnitude_of(out)),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(self._valid_variance(), axis))**0.5
-        )
+            sigma
+        ))
 
     def _valid_variance(self):
         # the elements ignored by nansum, nanmean do not contribute
@@ -302,7 +335,9 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
-        return self**0.5
+        ret = self**0.5
+        np.sqrt(self.magnitude, magnitude_of(out))
+        return label(out, ret)
 
     def _select(self, index, axis):
         # the elements at an index returned by argmin, argmax etc.
@@ -319,19 +354,27 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        return self._select(np.argmax(self.magnitude, axis), axis)
+        ret = self._select(np.argmax(self.magnitude, axis), axis)
+        self.magnitude.max(axis, magnitude_of(out))
+        return label(out, ret)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return self._select(np.nanargmax(self.magnitude, axis), axis)
+        ret = self._select(np.nanargmax(self.magnitude, axis), axis)
+        np.nanmax(self.magnitude, axis, magnitude_of(out))
+        return label(out, ret)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        return self._select(np.argmin(self.magnitude, axis), axis)
+        ret = self._select(np.argmin(self.magnitude, axis), axis)
+        self.magnitude.min(axis, magnitude_of(out))
+        return label(out, ret)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return self._select(np.nanargmin(self.magnitude, axis), axis)
+        ret = self._select(np.nanargmin(self.magnitude, axis), axis)
+        np.nanmin(self.magnitude, axis, magnitude_of(out))
+        return label(out, ret)
 
     @with_doc(np.ndarray.copy)
     def copy(self, order='C'):
-- 
2.43.0


From 73c4246af17375b333c11c676a47848ec17695e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:00 +0000
Subject: [PATCH 51/52] fix: dividing a dimensionality by itself in place
 failed half-way

---
 quantities/dimensionality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 90711c6..bd91ee0 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -141,7 +141,8 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        # other may be self
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From 7fb209511b913454f2297e2078375b30860ed84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:00 +0000
Subject: [PATCH 52/52] fix: simplified form of an empty dimensionality was the
 object itself

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index bd91ee0..0cb407f 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -36,7 +36,7 @@ class Dimensionality(dict):
                 rq = rq * u.simplified**d
             return rq.dimensionality
         else:
-            return self
+            return self.copy()
 
     @property
     def string(self):
-- 
2.43.0

