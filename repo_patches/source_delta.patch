From 0f50b6050f2be882e43c52f31b2d6b88d1735393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:03 +0000
Subject: [PATCH 01/93] fix: make the hash of an alias group independent of
 order

Groups with the same members compare equal but hashed differently, so
merging mappings whose groups were built in different orders kept both
entries.
---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b2b1b7e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 25d6e39bdb2ce932b0b1d3c9bdd543d3d5a6d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:48 +0000
Subject: [PATCH 02/93] fix: join every overlapping alias group when merging

Groups._merge looked only at the original groups, so a second overlap
raised or left a name in two groups, appended raw containers instead of
groups, and took a bare string for a collection of characters.
---
 src/goats/core/aliased.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b2b1b7e..11719e3 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,27 +151,22 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not g.isdisjoint(merged)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        new = Group(__x)
+        for i in new:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(new)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From 3887daeda2b06f5faa77c369fd8bf0709613456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:35 +0000
Subject: [PATCH 03/93] fix: read the whole denominator of a rational number

The denominator was matched lazily, so only its first digit was used and
the rest became a separate factor: Expression('a') / 23 gave 3/2 a.
---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..3248736 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 4fe937738c94337a6a1a67c2f533eaea8a9d596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:12 +0000
Subject: [PATCH 04/93] fix: keep rational constants exact when parsing

A constant was stored as the nearest binary fraction, so 3 * '1/3 a' was
not equal to a.
---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 3248736..5fd7b9e 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -890,7 +890,7 @@ class OperandFactory(PartFactory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return PartMatch(
-            result=Term(coefficient=float(coefficient)),
+            result=Term(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From 73c7d976674619ebf8955e1a42dc9a8f7f9d8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:13 +0000
Subject: [PATCH 05/93] fix: do not read a zero exponent or coefficient as one

Expression('a^0') gave a, and Expression('0a') gave a.
---
 src/goats/core/symbolic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 5fd7b9e..710bec0 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,13 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        c = 1 if coefficient is None else coefficient
+        self.coefficient = fractions.Fraction(c)
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        e = 1 if exponent is None else exponent
+        self.exponent = fractions.Fraction(e)
         """The numerical exponent."""
 
     @property
-- 
2.43.0


From 0a8a6bab114cbe65267b7d32f81397efd7422fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:48 +0000
Subject: [PATCH 06/93] fix: raise expressions to exact powers

An integer power was converted to float, which rounded rational
coefficients: Expression('3a') ** -1 * '3a' was not equal to 1.
---
 src/goats/core/symbolic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 710bec0..62150f8 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1608,9 +1608,10 @@ class Expression(collections.abc.Sequence, iterables.ReprStrMixin):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to an exact fraction.
         """
-        exp = float(exp)
+        if not isinstance(exp, fractions.Fraction):
+            exp = fractions.Fraction(float(exp))
         if not exp:
             return NotImplemented
         terms = [pow(term, exp) for term in self]
-- 
2.43.0


From 3321927b34637d8c529a55c3042aabec814627e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:39 +0000
Subject: [PATCH 07/93] fix: join entries that share a name when merging
 aliased mappings

---
 src/goats/core/aliased.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 11719e3..b13dfcf 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -753,7 +753,14 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def __or__(self, other: 'Mapping'):
         """Merge this aliased mapping with another."""
-        items = dict((*self.items(aliased=True), *other.items(aliased=True)))
+        items = dict(self.items(aliased=True))
+        for key, value in other.items(aliased=True):
+            # Join every entry that shares a name with this one.
+            shared = [k for k in items if k != key and not k.isdisjoint(key)]
+            for k in shared:
+                key = k | key
+                del items[k]
+            items[key] = value
         return type(self)(items)
 
     def __str__(self) -> str:
-- 
2.43.0


From 1fb30aca5d54e0b370653ea8bf00d96a93c64bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:16 +0000
Subject: [PATCH 08/93] fix: correct the electromagnetic conversion factors
 between mks and cgs

---
 src/goats/core/metric.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..ddc14ab 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C * 1e-1,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C * 1e-1,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -749,10 +749,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
-    ('F / m', '1'): 36*PI * 1e9,
+    ('H / m', '1'): 1e7 / (4*PI),
+    ('F / m', '1'): 4*PI * C**2 * 1e-11,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 7f1991e619390cb0c967b8f18cc5ec71a4e78f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 09/93] fix: let 'cd' mean candela and register every alias of
 a named unit

---
 src/goats/core/metric.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index ddc14ab..b83ca54 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -917,6 +917,10 @@ def build_unit_aliases(prefix, unit):
     key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
+    if prefix['symbol']:
+        # An unscaled unit takes precedence (e.g., 'cd' is always candela).
+        reserved = {u[k] for u in _units for k in ['name', 'symbol']}
+        key = [k for k in key if k not in reserved]
     return tuple(key)
 
 
@@ -1104,7 +1108,8 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        aliases = named_units.alias(string, include=True)
+        cls._instances[tuple(aliases)] = instance
         return instance
 
 
@@ -1980,8 +1985,8 @@ class _UnitMeta(abc.ABCMeta):
         try:
             # If `name` corresponds to a named unit register both the name and
             # symbol (e.g., 'centimeter' and 'cm').
-            this = NamedUnit(name)
-            key = (this.name, this.symbol)
+            NamedUnit(name)
+            key = tuple(named_units.alias(name, include=True))
         except UnitParsingError:
             # If attempting to parse a named unit from `name` failed, register
             # the canonical string and, if applicable, the string argument.
-- 
2.43.0


From 2b35e497beec27df3889d8fe369086d46f3e4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 10/93] fix: remove the null metric prefix

---
 src/goats/core/metric.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index b83ca54..e39d347 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -23,7 +23,6 @@ _prefixes = [
     {'symbol': 'h', 'name': 'hecto', 'factor': 1e+2},
     {'symbol': 'da', 'name': 'deca', 'factor': 1e+1},
     {'symbol': '', 'name': '', 'factor': 1e0},
-    {'symbol': ' ', 'name': None, 'factor': 0.0},
     {'symbol': 'd', 'name': 'deci', 'factor': 1e-1},
     {'symbol': 'c', 'name': 'centi', 'factor': 1e-2},
     {'symbol': 'm', 'name': 'milli', 'factor': 1e-3},
-- 
2.43.0


From 3a36f0bcd7adb14bc3404a2ad3f9b9b98c8de300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:10 +0000
Subject: [PATCH 11/93] fix: define illuminance, lumen and lux consistently

---
 src/goats/core/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index e39d347..e1525bd 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -440,7 +440,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
@@ -760,6 +760,8 @@ _CONVERSIONS = {
     ('s', 'h'): 1.0 / 3600.0,
     ('s', 'd'): 1.0 / 86400.0,
     ('Wb / m', 'G * cm'): 1e6,
+    ('lm', 'cd * sr'): 1.0,
+    ('lx', 'cd * sr / m^2'): 1.0,
     ('kg / (m * s)', 'P'): 1e1,
 }
 
-- 
2.43.0


From d9c59897845a7873cf3094d1724a679d751bbc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:34 +0000
Subject: [PATCH 12/93] fix: convert compound units through the canonical units
 of a metric system

---
 src/goats/core/metric.py | 70 +++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index e1525bd..53e24f3 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1747,32 +1747,55 @@ class Conversion(iterables.ReprStrMixin):
         e0, e1 = (symbolic.Expression(unit) for unit in (u0, u1))
         if e0 == e1:
             return 1.0
-        terms = [term for term in e0 / e1 if term.base not in UNITY]
+        ratio = e0 / e1
+        scale = float(numpy.prod([float(term.coefficient) for term in ratio]))
+        terms = [term for term in ratio if term.base not in UNITY]
+        if not terms:
+            return scale
         if factor := self._resolve_terms(terms):
-            return factor
+            return scale * factor
         if factor := self._convert_by_dimensions(terms):
-            return factor
+            return scale * factor
         raise UnitConversionError(self.u0, self.u1)
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
-        """Attempt to compute a conversion via unit dimensions."""
-        decomposed = []
-        for term in terms:
-            reduction = NamedUnit(term.base).reduce()
-            if reduction:
-                decomposed.extend(
-                    [
-                        symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
-                            base=this.base,
-                            exponent=term.exponent*this.exponent,
-                        )
-                        for this in reduction.units
-                    ]
-                )
-        if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+        """Attempt to compute a conversion via unit dimensions.
+        
+        This method will express each term in the canonical unit of its quantity
+        within a metric system that allows all terms or, if there is no such
+        system, within any metric system. The conversion exists if the
+        dimensions of all terms cancel in that system.
+        """
+        units = [NamedUnit(term.base) for term in terms]
+        systems = sorted(SYSTEMS, reverse=True)
+        common = [
+            system for system in systems
+            if all(unit.is_allowed_in(system) for unit in units)
+        ]
+        for system in common or systems:
+            factor = 1.0
+            dimension = symbolic.Expression('1')
+            for term in terms:
+                scale = self._get_scale(term.base, system)
+                if not scale:
+                    break
+                quantity = NamedUnit(term.base).quantity
+                this = symbolic.Expression(DIMENSIONS[quantity][system])
+                factor *= scale ** float(term.exponent)
+                dimension *= this ** term.exponent
+            else:
+                if dimension == '1':
+                    return factor
+
+    def _get_scale(self, unit: str, system: str) -> typing.Optional[float]:
+        """Compute the size of `unit` in the canonical unit of `system`."""
+        named = NamedUnit(unit)
+        canonical = UNITS[named.quantity][system]
+        if canonical == '1':
+            return named.scale
+        self._checked = []
+        if scale := self._convert_as_strings(named.base.symbol, canonical):
+            return named.scale * scale
 
     def _match_terms(
         self,
@@ -1788,11 +1811,12 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
-                return conversion ** exponent, term
+                return conversion ** float(exponent), term
         dimensions = NamedUnit(u0).dimensions.values()
         if u0 in named_units and all(d == '1' for d in dimensions):
-            return 1.0, target
+            return self._get_scale(u0, 'mks') ** float(exponent), target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From 5d0231a2b2f65af156505b29b72cfa842ce80d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:53 +0000
Subject: [PATCH 13/93] fix: make the units of radioactivity, displacement and
 permittivity coherent

---
 src/goats/core/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 53e24f3..26bb59c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -381,7 +381,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -585,7 +585,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
@@ -642,7 +642,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'Bq',
-            'cgs': 'Ci',
+            'cgs': 'Bq',
         },
     },
     'ratio': 'identity',
-- 
2.43.0


From 25f791986f2025280d3e688098b04ba7b85541b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:33 +0000
Subject: [PATCH 14/93] fix: keep numerical coefficients when decomposing units

---
 src/goats/core/metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 26bb59c..263e52d 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2158,8 +2158,10 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
             return [term]
         # If the attempt to decompose this unit term succeeded,
         # we need to distribute the term's exponent over the new
-        # terms and append each to the running list.
-        return [base**term.exponent for base in current]
+        # terms and append each to the running list, along with the term's
+        # coefficient, which is independent of its exponent.
+        coefficient = symbolic.Term(coefficient=term.coefficient)
+        return [coefficient, *(base**term.exponent for base in current)]
 
     def __floordiv__(self, other):
         """Compute the magnitude of this unit relative to `other`.
-- 
2.43.0


From 5dc1ba7b99bf26277f916a0cefba5bf33662a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:51 +0000
Subject: [PATCH 15/93] fix: define the conversion of lux to its canonical cgs
 unit

---
 src/goats/core/metric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 263e52d..c89d23c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -762,6 +762,7 @@ _CONVERSIONS = {
     ('Wb / m', 'G * cm'): 1e6,
     ('lm', 'cd * sr'): 1.0,
     ('lx', 'cd * sr / m^2'): 1.0,
+    ('lx', 'cd * sr / cm^2'): 1e-4,
     ('kg / (m * s)', 'P'): 1e1,
 }
 
-- 
2.43.0


From 6cfccb2ba8b1dcc458c52839a3c1ae61d93e8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:07 +0000
Subject: [PATCH 16/93] fix: compare unit sizes up to floating-point rounding

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index c89d23c..da72f1c 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1,6 +1,7 @@
 import abc
 import collections.abc
 import contextlib
+import math
 import numbers
 import typing
 
@@ -2279,7 +2280,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
             # If their numerical conversion factor is unity, they are
             # equivalent; for the purposes of this method (see the justification
             # given in the docstring), they are therefore equal.
-            return self // this == 1.0
+            return math.isclose(self // this, 1.0, rel_tol=1e-12)
         except UnitConversionError:
             # Everything has failed, so we declare them unequal.
             return False
-- 
2.43.0


From 986be3d219d094e97c4eeecf75c0a31e223d6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:07 +0000
Subject: [PATCH 17/93] fix: units are consistent only if they can be converted

---
 src/goats/core/metric.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index da72f1c..4480a82 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2289,15 +2289,10 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         """Called for self | other.
         
         This method tests whether the given unit is metrically consistent with
-        this unit. In order to be metrically consistent, the two units must have
-        the same dimension in at least one metric system or have a defined conversion factor.
+        this unit. In order to be metrically consistent, the two units must represent
+        the same quantity or have a conversion factor.
         """
         that = type(self)(other)
-        for system in SYSTEMS:
-            defined = self.dimensions[system]
-            given = that.dimensions.values()
-            if defined and any(d == defined for d in given):
-                return True
         if self.quantity == that.quantity:
             return True
         try:
-- 
2.43.0


From 7b34c86adc1bbfc79a70a086d944f95d1a8a2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:10 +0000
Subject: [PATCH 18/93] fix: find defined conversions however the unit is
 written

---
 src/goats/core/metric.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4480a82..f2d6fe5 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1611,12 +1611,28 @@ class Conversion(iterables.ReprStrMixin):
         methods: typing.Iterable[typing.Callable[[str, str], float]],
     ) -> typing.Optional[float]:
         """Call conversion methods on this instance's units."""
+        u0, u1 = (self._get_defined(unit) for unit in (self.u0, self.u1))
         for method in methods:
             self._checked = []
-            if conversion := method(self.u0, self.u1):
+            if conversion := method(u0, u1):
                 return conversion
         raise UnitConversionError(self.u0, self.u1)
 
+    @classmethod
+    def _get_defined(cls, unit: str):
+        """Get the equivalent unit in the defined conversions, if any.
+        
+        This method ensures that the existence of a defined conversion does not
+        depend on how the user wrote the unit (e.g., 's / cm' or 'cm^-1 s').
+        """
+        if unit in cls.units:
+            return unit
+        expression = symbolic.Expression(unit)
+        for defined, equivalent in cls._expressions.items():
+            if equivalent == expression:
+                return defined
+        return unit
+
     def _convert_as_strings(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to convert `u0` to `u1` as strings.
         
@@ -1688,6 +1704,9 @@ class Conversion(iterables.ReprStrMixin):
     units = CONVERSIONS.nodes
     """Local copy of `~metric.CONVERSIONS.nodes`."""
 
+    _expressions = {unit: symbolic.Expression(unit) for unit in units}
+    """The symbolic expressions of the units in `~metric.CONVERSIONS`."""
+
     def _complex_conversion(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to compute a complex conversion from `u0` to `u1`.
 
-- 
2.43.0


From 23634a30e640ca657ac35957ea7465962cf6225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:47 +0000
Subject: [PATCH 19/93] fix: refuse unknown quantities and accept unity instead
 of recursing

---
 src/goats/core/metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index f2d6fe5..4404c48 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -871,9 +871,15 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = (
+            'identity' if term.base == '1'
+            else term.base.replace('_', ' ')
+        )
+        if quantity not in _QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 32f6ed0395e64bab133759d0a837d954a32f6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 20/93] fix: find the unit of a dimension however it is written

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4404c48..31c9999 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2806,8 +2806,9 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        expression = symbolic.Expression(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if expression == dimension:
                 return Unit(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From a8216797dae12a7bd53845cf5dda8829af004ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:08 +0000
Subject: [PATCH 21/93] fix: keep instances of unit classes separate

---
 src/goats/core/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 31c9999..e88a251 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1991,7 +1991,11 @@ class _UnitMeta(abc.ABCMeta):
     needing to overload `__new__` on that class or its base class(es).
     """
 
-    _instances = aliased.MutableMapping()
+    def __init__(cls, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        # Each class has its own instances. Otherwise, the type of a new unit
+        # would depend on which class first created the equivalent unit.
+        cls._instances = aliased.MutableMapping()
 
     def __call__(
         cls,
-- 
2.43.0


From 830eea145bb632f55fd97dc6261588e5cd8d4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:29 +0000
Subject: [PATCH 22/93] fix: apply numpy functions that have no signature

---
 src/goats/core/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..3f3a692 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -4,6 +4,7 @@ Objects and functions for operating on metadata.
 
 import abc
 import collections.abc
+import contextlib
 import fractions
 import inspect
 import math
@@ -352,7 +353,9 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
         operator.__name__ = self.name or f'__{method.__name__}__'
         operator.__doc__ = method.__doc__
         if callable(method) and not isinstance(method, type):
-            operator.__text_signature__ = str(inspect.signature(method))
+            # Some builtin callables (e.g., `numpy.sqrt`) have no signature.
+            with contextlib.suppress(ValueError):
+                operator.__text_signature__ = str(inspect.signature(method))
         return operator
 
     def __eq__(self, __o):
-- 
2.43.0


From 70e9f0e72a92b292ff01060f12fad3b5dd6b8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 23/93] fix: in-place operators update the quantity's metadata

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..3c0d95e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From 71448c4c767af15e37ec318d9f49a73f318a4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:17 +0000
Subject: [PATCH 24/93] fix: comparing arrays with different units is refused

---
 src/goats/core/physical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..ef84ed1 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -389,6 +389,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
 
+    _COMPARISONS = ('less', 'less_equal', 'greater', 'greater_equal')
+
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
 
@@ -423,6 +425,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare arrays with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From cf1a5dd67ed1bd34b02a5163e072d14b84f33295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:43 +0000
Subject: [PATCH 25/93] fix: array quantities support the inequality operator

---
 src/goats/core/physical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index ef84ed1..6ee556d 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -274,6 +274,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             return False
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances have different data or attributes."""
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
-- 
2.43.0


From 27af810f1b1d64871b945bed8db6a32aa34f3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:56 +0000
Subject: [PATCH 26/93] fix: numpy operands don't drop the unit of a vector

---
 src/goats/core/physical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 6ee556d..709eb74 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -128,6 +128,10 @@ class Vector(Quantity):
     incorporates native `numpy` operators may be more appropriate.
     """
 
+    # Make `numpy` types defer to the (reflected) operators of this class, in
+    # order to avoid silently dropping metadata.
+    __array_priority__ = 1000
+
     @typing.overload
     def __init__(
         self: Instance,
-- 
2.43.0


From 8b353e956d3a3e4d787e5852cf72bb6ee7637e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:42 +0000
Subject: [PATCH 27/93] fix: comparing variable quantities with different units
 is refused

---
 src/goats/core/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..4b6e12f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -175,6 +175,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
 
+    _COMPARISONS = ('less', 'less_equal', 'greater', 'greater_equal')
+
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
 
@@ -209,6 +211,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._COMPARISONS and not metadata.consistent('unit', *args):
+            raise ValueError("Can't compare arrays with different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From b554d3fe35bff4a05933a0c1135de725dd9554f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:54 +0000
Subject: [PATCH 28/93] fix: variable quantities support the inequality
 operator

---
 src/goats/core/variable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 4b6e12f..f72797d 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -73,6 +73,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             return NotImplemented
         return numpy.array_equal(other, self)
 
+    def __ne__(self, other: typing.Any):
+        """True if two instances are not equal."""
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
+
     def __len__(self):
         """Called for len(self)."""
         try:
-- 
2.43.0


From 122c21bfaa0a2a95309e5d3ba7c54edfef96332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:52 +0000
Subject: [PATCH 29/93] fix: variables with different lengths along a dimension
 don't combine

---
 src/goats/core/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index f72797d..412ee88 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -616,7 +616,11 @@ class Quantity(Array):
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
             tmp = {}
             for v in inputs:
-                tmp.update(v.shape_dict)
+                for d, n in v.shape_dict.items():
+                    if tmp.setdefault(d, n) != n:
+                        raise ValueError(
+                            f"Inconsistent lengths of dimension {d!r}"
+                        ) from None
             full_shape = tuple(tmp[d] for d in dims)
             indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
-- 
2.43.0


From 4aad37bc8702502f68cacfad0b78e6f933a1d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:11 +0000
Subject: [PATCH 30/93] fix: names of metric systems are case-insensitive when
 changing units

---
 src/goats/core/axis.py       | 2 +-
 src/goats/core/index.py      | 2 +-
 src/goats/core/measurable.py | 2 +-
 src/goats/core/observing.py  | 2 +-
 src/goats/core/variable.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..003d9df 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -150,7 +150,7 @@ class Quantity(iterables.ReprStrMixin):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 7be25c9..266c2ac 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -169,7 +169,7 @@ class Array(Quantity):
                 "Can't set the unit of an unmeasurable quantity."
             ) from None
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self.unit:
diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 3c0d95e..4b2b814 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -203,7 +203,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..61cdc2f 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -515,7 +515,7 @@ class Observable:
     def __getitem__(self, __x: metadata.UnitLike):
         """Create a quantity with the new unit."""
         unit = (
-            self.unit.norm[__x]
+            self.unit.norm[str(__x).lower()]
             if str(__x).lower() in metric.SYSTEMS else __x
         )
         self._target = None
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 412ee88..0347fa9 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -588,7 +588,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0


From c26acb686e976a6b0c7a98c6440eeed5401021ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:11 +0000
Subject: [PATCH 31/93] fix: a vector accepts a unit object as its new unit

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 709eb74..7999d8f 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -181,7 +181,7 @@ class Vector(Quantity):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, str):
+        if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
         if isinstance(index, typing.SupportsIndex) and index < 0:
             index += len(self)
-- 
2.43.0


From 47793c9dbf269d83d7e35eecec9a36f8887ac41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:26 +0000
Subject: [PATCH 32/93] fix: a copy of an array keeps the scale of its data

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 7999d8f..4a6ecb7 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -244,8 +244,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 0347fa9..0f37863 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -40,9 +40,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             else __interface
         )
         # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        self._full_array = getattr(__interface, '_full_array', None)
+        # Carry the internal array scale factor from an existing instance.
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From c301b307d5a5ca0a2d54596e71122d1ce9dce656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:38 +0000
Subject: [PATCH 33/93] fix: changing the unit of index values supports any
 sequence

---
 src/goats/core/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/index.py b/src/goats/core/index.py
index 266c2ac..dad5a9d 100644
--- a/src/goats/core/index.py
+++ b/src/goats/core/index.py
@@ -175,8 +175,8 @@ class Array(Quantity):
         if unit == self.unit:
             return self
         new = metadata.Unit(unit)
-        values = self.values * (new // self.unit)
         if self.unit | new:
+            values = numpy.array(self.values) * (new // self.unit)
             return type(self)(
                 Data(self._points, values=values),
                 unit=new,
-- 
2.43.0


From 786f0a62fe76b5014b0fbbe8d1382a194b15419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 34/93] fix: scalars and vectors created from a quantity keep
 its unit

---
 src/goats/core/physical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 4a6ecb7..6f0f851 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,10 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, measurable.Quantity):
+            attrs = {k: getattr(__data, k, '') for k in ('unit', 'name')}
+            meta = {**attrs, **meta}
+            __data = __data.data
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -165,7 +169,7 @@ class Vector(Quantity):
         if isinstance(__data, measurable.Measurement):
             meta = {'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From 0f87ff8b9aeae1447caa71b4063aea83bfc7f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:21 +0000
Subject: [PATCH 35/93] fix: an argument uses the current values of an array

---
 src/goats/core/operational.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..90f146e 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -100,7 +100,10 @@ class Argument:
         if len(args) == 1:
             arg = args[0]
             if isinstance(arg, _HasDataAndUnit):
-                return arg.data, arg.unit
+                # The current values of an array-like object may differ from
+                # its initial data.
+                isarray = hasattr(arg, '__array__')
+                return numpy.array(arg) if isarray else arg.data, arg.unit
             return arg, kwargs.get('unit')
         if len(args) != 2:
             raise TypeError(
-- 
2.43.0


From 8142127a694a2fcb6edbd9ef8efb18550ec5d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 36/93] fix: grid searches support decreasing, repeated and
 multi-dimensional values

---
 src/goats/core/numerical.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..9bf9629 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -46,11 +46,17 @@ def find_1d_indices(
     target: float,
 ) -> typing.Tuple[int, int]:
     """Find the bounding indices in a 1-D array."""
+    if array[0] > array[-1]:
+        # The array is decreasing: Bound `target` in the reversed array.
+        last = len(array) - 1
+        lower, upper = find_1d_indices(array[::-1], target)
+        return last - upper, last - lower
     leq = array <= target
     lower = numpy.where(leq)[0].max() if any(leq) else 0
     geq = array >= target
     upper = numpy.where(geq)[0].min() if any(geq) else len(array)-1
-    return lower, upper
+    # The lower index may exceed the upper index if `target` occurs repeatedly.
+    return min(lower, upper), upper
 
 
 _NT = typing.TypeVar('_NT', bound=numbers.Complex)
@@ -107,19 +113,14 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
-    if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
-    elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+    flat = array.ravel()
+    distance = numpy.abs(flat - target)
+    index = distance.argmin()
+    if bound in {'lower', 'upper'}:
+        allowed = flat >= target if bound == 'lower' else flat <= target
+        if allowed.any():
+            indices = allowed.nonzero()[0]
+            index = indices[distance[indices].argmin()]
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 86a7fd7fe210dc5a0789b26fc476ac0d2918c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:14 +0000
Subject: [PATCH 37/93] fix: interpolation over a two-dimensional coordinate
 supports targets on grid points

---
 src/goats/core/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..4234ade 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return arr[:, 0]
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 3ffd2e524922152edfd2e207766f9068ba508700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 38/93] fix: spelling suggestions include edits at the end of a
 word and of any character

---
 src/goats/core/spelling.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..176ba67 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -31,8 +31,11 @@ class SpellChecker:
     """
     def __init__(self, *words: str) -> None:
         self.words = set(words)
-        letters = 'abcdefghijklmnopqrstuvwxyz'
-        self.letters = letters + letters.upper()
+
+    @property
+    def letters(self) -> str:
+        """The characters from which to construct edits."""
+        return ''.join({letter for word in self.words for letter in word})
 
     def check(self, name: str, mode: str=None):
         """Check the spelling of `name` based on known words."""
@@ -53,11 +56,11 @@ class SpellChecker:
         edits = list(self.edits(name))
         suggestions = self.get_suggestions(edits)
         if not suggestions:
-            edits = [w for edit in edits for w in list(self.edits(edit))]
+            edits = {w for edit in edits for w in self.edits(edit)}
             suggestions = self.get_suggestions(edits)
         return suggestions
 
-    def get_suggestions(self, edits: list):
+    def get_suggestions(self, edits: typing.Collection[str]):
         """Get a batch of suggested words based on `edits`."""
         return [n for n in self.words if n in edits]
 
@@ -78,7 +81,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
@@ -99,14 +102,14 @@ class SpellChecker:
         """All words produced by replacing one letter in `word`."""
         return [
             left + c + right[1:] 
-            for left, right in self.splits(word) if right for c in self.letters
+            for c in self.letters for left, right in self.splits(word) if right
         ]
 
     def inserts(self, word: str) -> typing.List[str]:
         """All words produced by inserting one letter into `word`."""
         return [
             left + c + right
-            for left, right in self.splits(word) for c in self.letters
+            for c in self.letters for left, right in self.splits(word)
         ]
 
 
-- 
2.43.0


From a97db36ca10f7353d5e0ad7af17f2bb0e885aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 39/93] fix: observers check the spelling of names against
 individual names

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..8c2870e 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = self.context.keys
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From 3e1cefdd06c1b160490439ac06cc897b3ed4d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 40/93] fix: a table request that matches one entry is not
 ambiguous

---
 src/goats/core/iterables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..5f784dd 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1105,8 +1105,7 @@ class Table(MappingBase):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
+                if len(subset) > 1 and len(request) == n_checked:
                     raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
-- 
2.43.0


From 4c1ef4f665e1d3f8fe35b5dec8d7193c7b6f42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 41/93] fix: registering an object never replaces another one
 under a default key

---
 src/goats/core/iterables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 5f784dd..65fcc58 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -851,8 +851,10 @@ class ObjectRegistry(collections.abc.Mapping):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
+                new_default_key = proposed
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From 04f61c00d79e7d6767516f70a319bf3ebe29bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 42/93] fix: converting a slice to a range honors zero,
 negative and excessive bounds

---
 src/goats/core/iterables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 65fcc58..75a8375 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -189,6 +189,8 @@ def slice_to_range(s: slice, stop: int=0) -> range:
     """Attempt to convert a slice to a range."""
     if stop is None:
         raise TypeError(f"Cannot convert {s} to a range.")
+    if stop:
+        return range(*s.indices(stop))
     start = s.start or 0
     stop = s.stop or stop
     step = s.step or 1
-- 
2.43.0


From 549e03d88dcba52ef48a6287ad4c80606c5861b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 43/93] fix: a guard also catches subclasses of a known
 exception

---
 src/goats/core/iterables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 75a8375..456bacb 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1674,8 +1674,11 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[t] for t in type(err).mro()
+                if t in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From f99e42495d9b4145689aca7f65d774a08ec269e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:37 +0000
Subject: [PATCH 44/93] fix: the first radiation constant has its cgs value

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From ad172b20533f82f6c6f35004b07fa1bf381add6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:37 +0000
Subject: [PATCH 45/93] fix: elements with the same number of nucleons are
 distinguished by mass

---
 src/goats/core/fundamental.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index a4ad0c2..0226182 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -311,14 +311,17 @@ def get_mass_indices(
     targets: typing.Iterable,
 ) -> list:
     """Get the indices in `ELEMENTS` corresponding to the given masses."""
-    def get_index(this: list, that: int):
-        try:
-            return this.index(that)
-        except ValueError as err:
-            raise MassValueError(that) from err
-
     values = list(nucleons.values())
-    return [get_index(values, round(target)) for target in targets]
+    masses = ELEMENTS['mass']
+
+    def get_index(this: float):
+        """Find the element with the closest mass and the same nucleons."""
+        found = [i for i, value in enumerate(values) if value == round(this)]
+        if not found:
+            raise MassValueError(this) from None
+        return min(found, key=lambda i: abs(masses[i] - this))
+
+    return [get_index(target) for target in targets]
 
 
 def _show_constants():
-- 
2.43.0


From 64c38160191700b82042246d6742b9dd8419b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:37 +0000
Subject: [PATCH 46/93] fix: the charge of a species is rounded, not truncated

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index 0226182..9e4c3ee 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -293,7 +293,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(i)) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From 4a3520e02d3f4d4fc85d2378d88d882e64c2f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:12 +0000
Subject: [PATCH 47/93] fix: measure every given value in its unit, or refuse
 the input

Measuring dropped values or units of some nested input, failed with an
unrelated error for other input, and disagreed with ismeasurable.
---
 src/goats/core/measurable.py | 144 +++++++++++++++++------------------
 1 file changed, 71 insertions(+), 73 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 4b2b814..1ed4035 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
@@ -301,22 +299,13 @@ def ismeasurable(this):
         True if `this` is measurable; false otherwise.
     """
     args = iterables.unwrap(this)
-    if hasattr(args, '__measure__'):
+    if isinstance(args, _Formal):
         return True
-    if isinstance(args, numbers.Number):
-        return True
-    if not isinstance(args, iterables.whole):
+    try:
+        parse_measurable(args)
+    except (Unmeasurable, MeasuringTypeError):
         return False
-    if iterables.allinstance(args, numbers.Number):
-        return True
-    if isinstance(args[-1], metadata.UnitLike):
-        arg0 = args[0]
-        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
-        if iterables.allinstance(values, numbers.Number):
-            return True
-    if all(ismeasurable(i) for i in args):
-        return True
-    return False
+    return True
 
 
 class Unmeasurable(Exception):
@@ -341,9 +330,9 @@ def measure(*args):
     Otherwise, it will attempt to parse `args` into one or more values and a
     corresponding unit.
     """
-    first = args[0]
-    if len(args) == 1 and isinstance(first, _Formal):
-        return first.__measure__()
+    unwrapped = iterables.unwrap(args)
+    if isinstance(unwrapped, _Formal):
+        return unwrapped.__measure__()
     parsed = parse_measurable(args, distribute=False)
     return Measurement(parsed[:-1], parsed[-1])
 
@@ -355,83 +344,92 @@ def parse_measurable(args, distribute: bool=False):
     --------
     measure : returns the parsed object as a `Measurement`.
     """
+    pairs = _distribute_measurable(args)
+    if distribute:
+        return pairs
+    units = [unit for (_, unit) in pairs]
+    if any(not _same_unit(unit, units[0]) for unit in units):
+        errmsg = "Can't combine measurements with different units."
+        raise MeasuringTypeError(errmsg)
+    return (*(value for (value, _) in pairs), units[0])
+
+
+def _distribute_measurable(args):
+    """Compute a list of pairs of a single value and its unit."""
 
     # Strip redundant lists and tuples.
     unwrapped = iterables.unwrap(args)
 
+    # Use the built-in measurement of objects that have one.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return [(value, str(measured.unit)) for value in measured.data]
+
     # Raise an error for null input.
     if iterables.missing(unwrapped):
         raise Unmeasurable(unwrapped) from None
 
-    # Handle a single numerical value:
+    # Handle a single numerical value, including one in a 0-D array.
+    if getattr(unwrapped, 'ndim', None) == 0:
+        unwrapped = unwrapped[()]
     if isinstance(unwrapped, numbers.Number):
-        result = (unwrapped, '1')
-        return [result] if distribute else result
+        return [(unwrapped, '1')]
+
+    # Raise an error for an object that can't contain numerical values.
+    if isinstance(unwrapped, (metadata.UnitLike, typing.Mapping)):
+        raise Unmeasurable(unwrapped) from None
+    if not isinstance(unwrapped, iterables.whole):
+        raise Unmeasurable(unwrapped) from None
+
+    items = list(unwrapped)
+    unit_like = [isinstance(item, metadata.UnitLike) for item in items]
 
-    # Count the number of distinct unit-like objects.
-    types = [type(arg) for arg in unwrapped]
-    n_units = sum(types.count(t) for t in (str, metadata.Unit))
+    # Recursively handle an iterable without its own unit, like (1.1, 2.3) or
+    # [(1.1, 'm'), (2.3, 'm')].
+    if not any(unit_like):
+        pairs = [pair for i in items for pair in _distribute_measurable(i)]
+        if not pairs:
+            raise Unmeasurable(unwrapped) from None
+        return pairs
 
     # Raise an error for multiple units.
-    if n_units > 1:
+    if sum(unit_like) > 1:
         errmsg = "You may only specify one unit."
         raise MeasuringTypeError(errmsg) from None
 
-    # TODO: The structure below suggests that there may be available
-    # refactorings, though they may require first redefining or dismantling
-    # `_callback_parse`.
-
-    # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
-    if all(isinstance(arg, numbers.Number) for arg in unwrapped):
-        return _wrap_measurable(unwrapped, '1', distribute)
-
-    # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
-        return _callback_parse(unwrapped, distribute)
-
     # Ensure an explicit unit-like object
-    unit = ensure_unit(unwrapped)
-
-    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
-    if all(isinstance(arg, numbers.Number) for arg in unwrapped[:-1]):
-        return _wrap_measurable(unwrapped[:-1], unit, distribute)
-
-    # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
-
-
-def _wrap_measurable(values, unit, distribute: bool):
-    """Wrap a parsed measurable and return to caller."""
-    if distribute:
-        return list(iterables.distribute(values, unit))
-    return (*values, unit)
+    if not unit_like[-1]:
+        errmsg = "The unit must follow the value(s)."
+        raise MeasuringTypeError(errmsg) from None
+    try:
+        unit = ensure_unit(items)
+    except metric.UnitParsingError as err:
+        raise MeasuringTypeError(f"Unknown unit {items[-1]!r}") from err
+
+    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm'), as
+    # well as iterable values with a unit, like [(1.1, 2.3), 'm'].
+    values = iterables.unwrap(items[:-1])
+    if isinstance(values, numbers.Number):
+        return [(values, unit)]
+    if isinstance(values, iterables.whole) and not isinstance(values, _Formal):
+        values = list(values)
+        if iterables.missing(values):
+            raise Unmeasurable(unwrapped) from None
+        if iterables.allinstance(values, numbers.Number):
+            return list(iterables.distribute(values, unit))
+    errmsg = f"Can't apply the unit {unit!r} to {values!r}"
+    raise MeasuringTypeError(errmsg) from None
 
 
-def _callback_parse(unwrapped, distribute: bool):
-    """Parse the measurable by calling back to `parse_measurable`."""
-    if distribute:
-        return [
-            item
-            for arg in unwrapped
-            for item in parse_measurable(arg, distribute=True)
-        ]
-    parsed = [
-        parse_measurable(arg, distribute=False) for arg in unwrapped
-    ]
-    units = [item[-1] for item in parsed]
-    if any(unit != units[0] for unit in units):
-        errmsg = "Can't combine measurements with different units."
-        raise MeasuringTypeError(errmsg)
-    values = [i for item in parsed for i in item[:-1]]
-    unit = units[0]
-    return (*values, unit)
+def _same_unit(this: str, that: str) -> bool:
+    """True if these arguments represent the same unit."""
+    return this == that or metadata.Unit(this) == metadata.Unit(that)
 
 
 def ensure_unit(args):
     """Extract the given unit or assume the quantity is unitless."""
     last = args[-1]
-    implicit = not any(isinstance(arg, (str, metadata.Unit)) for arg in args)
+    implicit = not any(isinstance(arg, metadata.UnitLike) for arg in args)
     explicit = last in ['1', metadata.Unit('1')]
     if implicit or explicit:
         return '1'
-- 
2.43.0


From a74e2a329a4263ec7c476bc4431758ed76227b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:31 +0000
Subject: [PATCH 48/93] fix: give numeric functions of units their unit and
 compare axes in order

The square, cube root and reciprocal of a quantity kept its unit, as did
functions without a unit. Dimensions in different order compared equal, so
that adding arrays with permuted axes silently misaligned them.
---
 src/goats/core/metadata.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 3f3a692..988e103 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -552,6 +552,32 @@ class Unit(metric.Unit, Attribute):
         """Implement the square-root function for a unit."""
         return arg**0.5
 
+    def _ufunc_square(self, arg):
+        """Implement the square function for a unit."""
+        return arg**2
+
+    def _ufunc_cbrt(self, arg):
+        """Implement the cube-root function for a unit."""
+        return arg**fractions.Fraction(1, 3)
+
+    def _ufunc_reciprocal(self, arg):
+        """Implement the reciprocal function for a unit."""
+        return arg**-1
+
+    _UNITLESS = {
+        'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan',
+        'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh',
+        'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p',
+        'sign', 'signbit', 'isfinite', 'isinf', 'isnan', 'logical_not',
+    }
+    """Names of functions that produce values without a unit."""
+
+    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
+        """Provide support for `numpy` universal functions."""
+        if ufunc.__name__ in self._UNITLESS:
+            return Unit('1')
+        return super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
     def __mul__(self, other):
         """Called for self * other."""
         if isinstance(other, UnitLike):
@@ -829,9 +855,10 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same dimensions."""
+        if isinstance(other, Dimensions):
+            return other._names == self._names
         return (
-            isinstance(other, Dimensions) and other._names == self._names
-            or (
+            (
                 isinstance(other, str)
                 and len(self) == 1
                 and other == self._names[0]
-- 
2.43.0


From 15b81334b3e145c1cc541cc37948d4d81bcbd38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:31 +0000
Subject: [PATCH 49/93] fix: subscript and reduce array quantities along the
 stated axes

Index sequences on one axis, integers combined with index sequences, slices
with steps, negative or sequence-adjacent bounds, trailing indices after an
ellipsis and numpy integers failed or selected the wrong positions. Means and
squeezes over negative, positional or several axes failed.
---
 src/goats/core/numerical.py |  68 +++++++++++++++++++++
 src/goats/core/physical.py  |  42 ++++---------
 src/goats/core/variable.py  | 115 +++++++++++++++---------------------
 3 files changed, 127 insertions(+), 98 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 9bf9629..995cc07 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -1,4 +1,5 @@
 import numbers
+import operator
 import typing
 import sys
 
@@ -292,3 +293,70 @@ def zero_floor(
     return value
 
 
+def get_axis_indices(
+    user: tuple,
+    shape: typing.Sequence[int],
+) -> typing.Tuple[typing.Union[slice, numpy.ndarray], ...]:
+    """Convert array indices into one index per axis, without dropping axes.
+
+    Parameters
+    ----------
+    user : tuple
+        The indices to convert. Each element must be an integer, a slice, an
+        iterable of integers, or (at most once) an ellipsis.
+
+    shape : sequence of int
+        The shape of the target array.
+
+    Returns
+    -------
+    tuple
+        One slice per array axis if `user` does not contain an iterable of
+        integers; otherwise, one array per array axis, as from `numpy.ix_`.
+    """
+    ndim = len(shape)
+    where = [i for i, arg in enumerate(user) if arg is Ellipsis]
+    n_given = len(user) - len(where)
+    if len(where) > 1:
+        raise IndexError("An index can only have a single ellipsis ('...')")
+    if n_given > ndim:
+        raise IndexError(
+            f"Too many indices: array is {ndim}-dimensional,"
+            f" but {n_given} were indexed"
+        )
+    start = where[0] if where else len(user)
+    expanded = [
+        *user[:start],
+        *([slice(None)] * (ndim - n_given)),
+        *user[start+1:],
+    ]
+    indices = [_get_axis_index(*args) for args in zip(expanded, shape)]
+    if all(isinstance(index, slice) for index in indices):
+        return tuple(indices)
+    return numpy.ix_(
+        *[
+            range(*index.indices(size)) if isinstance(index, slice) else index
+            for index, size in zip(indices, shape)
+        ]
+    )
+
+
+def _get_axis_index(arg, size: int):
+    """Helper function for `get_axis_indices`."""
+    if isinstance(arg, slice):
+        return arg
+    if isinstance(arg, numbers.Integral):
+        index = _validate_index(arg, size)
+        return slice(index, index + 1)
+    array = numpy.asarray(arg)
+    if array.dtype == bool:
+        return array
+    return numpy.array([_validate_index(i, size) for i in array], dtype=int)
+
+
+def _validate_index(index: numbers.Integral, size: int):
+    """Compute the non-negative equivalent of `index`."""
+    i = operator.index(index)
+    if not -size <= i < size:
+        raise IndexError(f"Index {i} is out of bounds for axis size {size}")
+    return i + size if i < 0 else i
diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 6f0f851..394f514 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -12,6 +12,7 @@ from goats.core import iterables
 from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
+from goats.core import numerical
 
 
 Instance = typing.TypeVar('Instance', bound='Quantity')
@@ -326,7 +327,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (numbers.Integral, slice, type(...), type(None))
 
     @typing.overload
     def __getitem__(
@@ -344,10 +345,10 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         """Create a new instance from a subset of data."""
         if len(args) == 1 and isinstance(args[0], metadata.UnitLike):
             return super().__getitem__(args[0])
-        unwrapped = iterables.unwrap(args)
-        if iterables.hastype(unwrapped, self._builtin, tuple, strict=True):
-            return self._subscript_standard(unwrapped)
-        return self._subscript_custom(unwrapped)
+        user = args[0] if len(args) == 1 else args
+        if iterables.hastype(user, self._builtin, tuple, strict=True):
+            return self._subscript_standard(user)
+        return self._subscript_custom(user)
 
     def apply_unit(self, unit: metadata.UnitLike):
         # Create a copy of this instance.
@@ -374,32 +375,15 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         This method handles all cases that don't meet the criteria for
         `_subscript_standard`.
         """
-        if not isinstance(args, (tuple, list)):
-            args = [args]
-        expanded = self._expand_ellipsis(args)
-        idx = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
-            for i, arg in enumerate(expanded)
-        ]
-        indices = numpy.ix_(*list(idx))
+        if isinstance(args, list) and not iterables.allinstance(
+            args, (numbers.Integral, numpy.bool_)
+        ): # This is a list of indices for each axis.
+            args = tuple(args)
+        if not isinstance(args, tuple):
+            args = (args,)
+        indices = numerical.get_axis_indices(args, self.shape)
         return self._copy_with(data=self._get_array(indices))
 
-    def _expand_ellipsis(
-        self,
-        user: typing.Sequence,
-    ) -> typing.Tuple[slice, ...]:
-        """Expand an ``Ellipsis`` into one or more ``slice`` objects."""
-        if all(idx is not Ellipsis for idx in user):
-            return user
-        length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
-        return (
-            *user[slice(start)],
-            *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
-        )
-
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
 
     _COMPARISONS = ('less', 'less_equal', 'greater', 'greater_equal')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 0f37863..e6bc62b 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -14,6 +14,7 @@ from goats.core import iterables
 from goats.core import measurable
 from goats.core import metric
 from goats.core import metadata
+from goats.core import numerical
 from goats.core import utilities
 
 
@@ -117,66 +118,34 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
-
     def __getitem__(self, *args):
         """Extract a subarray."""
-        unwrapped = iterables.unwrap(args)
-        indices = self._normalize_indices(unwrapped)
-        array = self._get_array(indices)
-        result = numpy.array(array, ndmin=self.ndim)
-        if array.ndim != self.ndim:
-            with contextlib.suppress(TypeError):
-                shape = [
-                    self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
-                ]
-                return self._copy_with(data=result.reshape(shape))
-        return self._copy_with(data=result)
-
-    def _get_axis_size(self, i: int, v):
-        """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
-            return 1
-        if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
-        return self.shape[i]
-
-    def _normalize_indices(self, args):
-        """Compute appropriate array indices from `args`.
-        
-        If the indices in `args` have a standard form involving slices, an
+        user = args[0] if len(args) == 1 else args
+        if isinstance(user, tuple) and any(arg is None for arg in user):
+            # Let `numpy` insert new axes.
+            array = self._get_array(user)
+            return self._copy_with(data=numpy.array(array, ndmin=self.ndim))
+        indices = self._normalize_indices(user)
+        return self._copy_with(data=self._get_array(indices))
+
+    def _normalize_indices(self, user):
+        """Compute appropriate array indices from `user`.
+
+        The result of this method contains one index for each array dimension.
+        Each index is a slice if the indices in `user` comprise only slices, an
         ellipsis, or integers (including v[:], v[...], v[i, :], v[:, j], and
-        v[i, j], where i and j are integers), this method will immediately
-        return them. Otherwise, it will extract a sequence of indices that
-        represents the original dimensions of the data.
+        v[i, j], where i and j are integers). Otherwise, the indices are arrays
+        (cf. `numpy.ix_`) that represent the original dimensions of the data.
         """
-        if iterables.hastype(args, self._builtin, tuple, strict=True):
-            return args
-        if not isinstance(args, (tuple, list)):
-            args = [args]
-        expanded = self._expand_ellipsis(args)
-        indices = [
-            range(self.shape[i])
-            if isinstance(arg, slice) else arg
-            for i, arg in enumerate(expanded)
-        ]
-        return numpy.ix_(*list(indices))
-
-    def _expand_ellipsis(
-        self,
-        user: typing.Sequence,
-    ) -> typing.Tuple[slice, ...]:
-        """Expand an ``Ellipsis`` into one or more ``slice`` objects."""
-        if all(idx is not Ellipsis for idx in user):
-            return user
-        length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
-        return (
-            *user[slice(start)],
-            *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
-        )
+        if user is None:
+            user = Ellipsis
+        if isinstance(user, list) and not iterables.allinstance(
+            user, (numbers.Integral, numpy.bool_)
+        ): # This is a list of indices for each axis.
+            user = tuple(user)
+        if not isinstance(user, tuple):
+            user = (user,)
+        return numerical.get_axis_indices(user, self.shape)
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
 
@@ -637,27 +606,35 @@ class Quantity(Array):
 
 
 @Quantity.implements(numpy.squeeze)
-def _squeeze(v: Quantity, **kwargs):
+def _squeeze(a: Quantity, axis=None):
     """Remove singular axes."""
-    data = v._array.squeeze(**kwargs)
-    dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+    data = a._array.squeeze(axis=axis)
+    axes = (
+        [i for i, d in enumerate(a.shape) if d == 1] if axis is None
+        else [i % a.ndim for i in iterables.whole(axis)]
     )
-    return Quantity(data, dimensions=dimensions, unit=v.unit)
+    return Quantity(data, dimensions=_drop(a.dimensions, axes), unit=a.unit)
 
 
 @Quantity.implements(numpy.mean)
-def _mean(v: Quantity, **kwargs):
+def _mean(a: Quantity, *args, **kwargs):
     """Compute the mean of the underlying array."""
-    data = v._array.mean(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
+    data = a._array.mean(*args, **kwargs)
+    if not isinstance(data, numpy.ndarray):
         return data
-    dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
+    if data.ndim == a.ndim:
+        return Quantity(data, dimensions=a.dimensions, unit=a.unit)
+    axis = args[0] if args else kwargs.get('axis')
+    axes = (
+        range(a.ndim) if axis is None
+        else [i % a.ndim for i in iterables.whole(axis)]
     )
-    return Quantity(data, dimensions=dimensions, unit=v.unit)
+    return Quantity(data, dimensions=_drop(a.dimensions, axes), unit=a.unit)
+
+
+def _drop(dimensions: metadata.Dimensions, axes: typing.Iterable[int]):
+    """Get the names of all dimensions except those at the given positions."""
+    return tuple(d for i, d in enumerate(dimensions) if i not in axes)
 
 
 S = typing.TypeVar('S', bound='Interface')
-- 
2.43.0


From 3d08e5874d5be19e9abf807ddd6022c30b937669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:33 +0000
Subject: [PATCH 50/93] fix: keep the unit of arrays without axes

---
 src/goats/core/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index e6bc62b..41aba44 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -196,6 +196,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         )
         kwds = {k: v for k, v in kwargs.items() if k != 'out'}
         meta = evaluate(*args, **kwds)
+        if method == '__call__' and isinstance(data, numpy.number):
+            # The result of operating on an array without axes.
+            data = numpy.asarray(data)
         if type(data) is tuple:
             return tuple(
                 self._new_from_func(x, updates=meta)
@@ -278,7 +281,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             ti for ti in types
             if not issubclass(ti, Array)
         )
-        data = self._array
+        data = numpy.asanyarray(self._array)
         arr = data.__array_function__(func, types, args, kwargs)
         return self._new_from_func(arr)
 
-- 
2.43.0


From 7986f94935e98d50ff4783dd1c7087049a395d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:20 +0000
Subject: [PATCH 51/93] fix: read config-file lines with any spacing and with
 '=' in comments

---
 src/goats/eprem/runtime.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..d1710f4 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,13 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                text = iotools.strip_inline_comments(line, self.comments)
+                if not text:
                     continue
-                key, _tmp = line.split('=')
-                value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                key, separator, value = text.partition('=')
+                if not separator:
+                    raise ValueError(f"No assignment in {text!r}")
+                pairs[key.strip()] = value.strip()
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 2c787ce6c249bb53ba3f836dad963b4c2661a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 52/93] fix: report only differing values when comparing config
 files

---
 src/goats/eprem/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index d1710f4..ed9a8bc 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -532,8 +532,8 @@ class ConfigFile(iterables.MappingBase):
                 1: set(other) - set(self),
             },
             'full': {
-                0: dict(set(self.items())),
-                1: dict(set(other.items())),
+                0: dict(set(self.items()) - set(other.items())),
+                1: dict(set(other.items()) - set(self.items())),
             },
         }
 
-- 
2.43.0


From d2f73f1f638b3d20a0ae65eb77f24799a2f8a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:16 +0000
Subject: [PATCH 53/93] fix: parse signed scientific notation and roots after
 an operator

---
 src/goats/core/symbolic.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 62150f8..6821b1c 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -856,8 +856,9 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            lengths = {key: len(match[0]) for key, match in matches.items()}
+            whole = lengths['constant'] >= lengths['variable']
+            key = 'constant' if whole else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
@@ -1235,8 +1236,14 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
-        if parsed := self.operands.parse(current.string):
-            current.operand = parsed.result ** initial.exponent
+        string, power = current.string, 1
+        if current.operator in {'multiply', 'divide'}:
+            match = self.operators.patterns['sqrt'].match(string)
+            remainder = string[match.end():] if match else ''
+            if remainder.startswith(self.tokens['opening']):
+                string, power = remainder, 0.5
+        if parsed := self.operands.parse(string):
+            current.operand = (parsed.result ** initial.exponent) ** power
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From 9cab1700116877a0a93ce8678d6f1063dc0629a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:04 +0000
Subject: [PATCH 54/93] fix: do not split a decimal number after a slash

---
 src/goats/core/symbolic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 6821b1c..f4437bb 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,8 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+)          # ... an optional denominator
+            (?:/\d+           # ... an optional denominator,
+               (?![\d.]|[eE][-+]?\d)) # if it is an integer
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -245,7 +246,8 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+)          # ... an optional denominator
+            (?:/\d+           # ... an optional denominator,
+               (?![\d.]|[eE][-+]?\d)) # if it is an integer
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -565,7 +567,8 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+)          # ... an optional denominator
+            (?:/\d+           # ... an optional denominator,
+               (?![\d.]|[eE][-+]?\d)) # if it is an integer
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 72ac39732805917f82b5b8a1f76f7473b51ec16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:04 +0000
Subject: [PATCH 55/93] fix: read every constant and parameter from commented
 source lines

---
 src/goats/eprem/runtime.py | 43 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index ed9a8bc..cefaa81 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -65,6 +65,11 @@ from goats.core import operational
 from goats.core import reference
 
 
+def strip_c_comments(line: str) -> str:
+    """Remove C comments and surrounding whitespace from a single line."""
+    return re.sub(r'/\*.*?\*/|//.*', '', line).strip()
+
+
 class BaseTypeDef:
     """Pattern parser for defined constants in baseTypes.h."""
 
@@ -78,7 +83,7 @@ class BaseTypeDef:
             # at least one whitespace character
             \s+
             # the defined name
-            (?P<name>[A-Z_]+)
+            (?P<name>[A-Z_][A-Z_\d]*)
             # at least one whitespace character
             \s+
             # the defined value
@@ -89,7 +94,7 @@ class BaseTypeDef:
 
     def match(self, line: str):
         """Identify lines that define a runtime constant."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(strip_c_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
@@ -198,14 +203,10 @@ class BaseTypesH(SourceFile):
     def _compute(self, key: str) -> numbers.Real:
         """Compute the value of a defined constant."""
         target = self.definitions[key]
-        realtype = self.types.get(key)
-        if isinstance(target, realtype):
-            return target
-        if any(c in target for c in {'*', '/', 'sqrt'}):
+        number = numerical.cast(target, strict=False)
+        if not isinstance(number, numbers.Real):
             return self._evaluate(symbolic.Expression(target))
-        if realtype:
-            return realtype(target)
-        raise TypeError(target)
+        return float(number) if self.types.get(key) == float else number
 
     @property
     def types(self):
@@ -222,6 +223,8 @@ class BaseTypesH(SourceFile):
                 value *= float(term(self._compute(term.base)))
             elif term.base == '1':
                 value *= float(term)
+            else:
+                raise KeyError(f"No {term.base!r} in {self!r}")
         return value
 
 
@@ -268,7 +271,7 @@ class FunctionCall:
 
     def match(self, line: str):
         """Identify lines that read config-file input."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(strip_c_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
@@ -322,7 +325,7 @@ class VariableDefinition:
             # equals sign surrounded by optional whitespace
             \s*=\s*
             # array value(s)
-            \{(?P<value>\d*(?:\.\d+)?)\}
+            \{(?P<value>[^{}]*)\}
             # C statement terminator
             \;
             # optional whitespace, followed by the end of the string
@@ -331,14 +334,15 @@ class VariableDefinition:
 
     def match(self, line: str):
         """Identify lines that define a variable."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(strip_c_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
         """Parse information about a defined variable."""
+        values = [value.strip() for value in parsable['value'].split(',')]
         parsed = {
             'size': int(parsable['size']),
-            'value': f"[{','.join(iterables.whole(parsable['value']))}]",
+            'value': f"[{','.join(values)}]",
         }
         return parsable['name'], parsed
 
@@ -406,7 +410,7 @@ class ConfigurationC(SourceFile):
         arrays = self._get_array_defaults(file)
         subs = {
             key: {
-                'mode': assigned['mode'],
+                **{k: v for k, v in assigned.items() if k != 'size'},
                 'default': arrays[assigned['default']]['value']
             } for key, assigned in assignments.items()
             if assigned['default'] in arrays
@@ -1640,13 +1644,10 @@ def generate_defaults(
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    with outpath.open('w') as fp:
+        json.dump(obj, fp, indent=4, sort_keys=True)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 8a36326310e2a89c84c0967affe3e2fd8b62e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:39 +0000
Subject: [PATCH 56/93] fix: resolve run parameters from every user definition

---
 src/goats/eprem/runtime.py | 82 ++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index cefaa81..3a3fe45 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -654,6 +654,7 @@ class Runtime(iterables.MappingBase):
         if 'source' in paths:
             self._basetypes = None
             self._reference = None
+            self._collection = tuple(self.reference)
 
     @property
     def basetypes(self):
@@ -688,7 +689,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if isinstance(value, numbers.Real):
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -697,7 +699,11 @@ class Runtime(iterables.MappingBase):
             definition = argument['definition']
             if isinstance(definition, argument['type']):
                 return definition
-            return self._evaluate(definition)
+            value = self._evaluate(definition)
+            if argument['type'] in {int, float} and value is not None:
+                cast = argument['type'](value)
+                return cast if cast == value else value
+            return value
         if isinstance(current, str):
             return self._resolve(current)
         raise TypeError(f"Can't evaluate {current!r}") from None
@@ -708,40 +714,57 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
-            return result
-        if any(c in definition for c in {'*', '/'}):
-            expression = symbolic.Expression(definition)
+        terms = self._split_sum(definition)
+        if len(terms) > 1 or terms[0][0] < 0:
+            return sum(sign * self._evaluate(term) for sign, term in terms)
+        if any(c in definition for c in {'*', '/', '('}):
+            expression = symbolic.Expression(definition.replace('config.', ''))
             evaluated = [
                 term.coefficient * self._evaluate(term.base)**term.exponent
                 for term in expression
             ]
-            return functools.reduce(lambda x,y: x*y, evaluated)
+            return float(functools.reduce(lambda x,y: x*y, evaluated))
         raise TypeError(f"Can't resolve {definition!r}") from None
 
-    def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
-        
-        Notes
-        -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
+    _not_binary = re.compile(
+        r"""
+        (?:\A|[-+*/(])\s*                             # a sign, or ...
+        |                                             # OR
+        (?<![\w.])(?:\d+\.?\d*|\.\d+)[eE]              # ... an exponent
+        """,
+        re.VERBOSE,
+    )
+
+    def _split_sum(self, arg: str) -> typing.List[typing.Tuple[int, str]]:
+        """Split a definition into signed terms.
+
+        This method only considers additive operators outside of parentheses. It
+        ignores signs that belong to a number, except at the start of `arg`.
         """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        starts = [0]
+        depth = 0
+        for i, c in enumerate(arg):
+            depth += (c == '(') - (c == ')')
+            if c in '+-' and depth == 0:
+                before = arg[:i]
+                matches = self._not_binary.finditer(before)
+                if not any(match.end() == len(before) for match in matches):
+                    starts.append(i)
+        parts = [
+            arg[start:end].strip()
+            for start, end in zip(starts, [*starts[1:], len(arg)])
+        ]
+        return [
+            (-1 if part.startswith('-') else 1, re.sub(r'\A[-+]\s*', '', part))
+            for part in parts
+        ]
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
         if self._current is None:
             self._current = {
                 key: self._convert(
-                    self.user.get(key) or parameter['default'],
+                    self._get_definition(key, parameter),
                     parameter['type'],
                 )
                 for key, parameter in self.reference.items()
@@ -757,6 +780,13 @@ class Runtime(iterables.MappingBase):
                 'type': type(self.basetypes[name]),
             }
 
+    def _get_definition(self, key: str, parameter: typing.Mapping):
+        """Get the user's definition of a parameter or the default."""
+        for name in (parameter.get('alias'), key):
+            if value := self.user.get(name):
+                return value
+        return parameter['default']
+
     def _convert(self, arg: typing.Union[str, _RT], realtype: _RT):
         """Convert `arg` to its real type, if necessary and possible."""
         if isinstance(arg, realtype):
@@ -850,7 +880,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
@@ -879,7 +909,9 @@ class Interface(aliased.Mapping[str, _VT]):
 
     def config(self, __k: str, default: _T=None) -> operational.Argument:
         """Get a value from the user config file, if possible."""
-        return self.get(__k, default=default) if __k in self.user else default
+        names = self.alias(__k, include=True) if __k in self else {__k}
+        isuser = any(name in self.user for name in names)
+        return self.get(__k, default=default) if isuser else default
 
     @property
     def basetypes(self):
-- 
2.43.0


From d8d0c3d9ed706b5c13dfcf28813ab694a485142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:06 +0000
Subject: [PATCH 57/93] fix: identify path-based instances by the path they
 resolve to

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..37fee24 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return self, pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From 840ea02ad267d9439c294de3f31a7f476f129878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:06 +0000
Subject: [PATCH 58/93] fix: make read-only paths refuse to write

---
 src/goats/core/iotools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 37fee24..053d565 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -1,4 +1,3 @@
-import os
 import pathlib
 import typing
 
@@ -54,7 +53,7 @@ class ReadOnlyPathError(Exception):
         return f"Objects of type {self._obj} are read-only."
 
 
-class ReadOnlyPath(pathlib.Path):
+class ReadOnlyPath(type(pathlib.Path())):
     """A wrapper for read-oriented paths.
     
     This class creates ``pathlib.Path`` objects intended for reading. The instance path is fully resolved with the user wildcard expanded, and raises an exception if the requested path does not exist. 
@@ -70,20 +69,16 @@ class ReadOnlyPath(pathlib.Path):
 
     def __new__(cls, *args, **kwargs):
         """Create a new path object of the appropriate type."""
-        _type = (
-            pathlib.WindowsPath if os.name == 'nt'
-            else pathlib.PosixPath
-        )
-        path = super().__new__(_type, *args, **kwargs)
+        path = super().__new__(cls, *args, **kwargs)
         inst = path.expanduser().resolve()
         if not inst.exists():
             raise NonExistentPathError(inst)
         return inst
 
-    def open(self, *args, **kwargs):
-        if 'w' in args:
+    def open(self, mode='r', *args, **kwargs):
+        if any(c in mode for c in 'wax+'):
             raise ReadOnlyPathError(self.__class__)
-        return super().open(*args, **kwargs)
+        return super().open(mode, *args, **kwargs)
 
     def write_bytes(self, *args, **kwargs):
         raise ReadOnlyPathError(self.__class__)
-- 
2.43.0


From 8d76553c66ede006ed86c5d3f7f54ce5cc120642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:06 +0000
Subject: [PATCH 59/93] fix: keep the viewers of each dataset to itself

---
 src/goats/core/datafile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..51b7daa 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,9 +167,9 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-            return viewers
+            return dict(viewers)
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
@@ -265,6 +265,9 @@ class Interface(iterables.ReprStrMixin, metaclass=iotools.PathSet):
     def use(self, **viewers) -> 'Interface':
         """Update the viewers for this instance."""
         self.viewers.update(viewers)
+        self._variables = None
+        self._axes = None
+        self._units = None
         return self
 
     def __str__(self) -> str:
-- 
2.43.0


From 1e774c35ca709e5d03b0f82a43027a5767447bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 60/93] fix: compute the angle between magnetic and velocity
 fields

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..09d83ce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = br*vr + bt*vt + bp*vp
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From 48efe9dfe2b9e483bb3192305b83454e2c290555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 61/93] fix: give zero perpendicular velocity for parallel
 fields

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 09d83ce..2d17059 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -132,7 +132,7 @@ def v_perp(
     """The velocity-field component parallel to the magnetic field."""
     mag = v_mag(vr, vt, vp)
     para = v_para(vr, vt, vp, br, bt, bp)
-    return numpy.sqrt(mag**2 - para**2)
+    return numpy.sqrt(numpy.maximum(mag**2 - para**2, 0.0))
 
 
 @registry.register
-- 
2.43.0


From 800ecf6b42ea44d16e20326aa580c04d5260e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:34 +0000
Subject: [PATCH 62/93] fix: compute rigidity for any number of species

---
 src/goats/core/computed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 2d17059..44b34f7 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,6 +182,8 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
+    mass = numpy.expand_dims(mass, -1)
+    charge = numpy.expand_dims(charge, -1)
     total_energy = numpy.array(energy, ndmin=1) + mass*c**2
     rest_energy = mass*c**2
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
-- 
2.43.0


From 09e4736f14ee0c15c2b1a07011e88f9d2031c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:34 +0000
Subject: [PATCH 63/93] fix: compare the minimum energy to each species' own
 energies

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 44b34f7..fb1cd10 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -371,10 +371,10 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From ec006c87c32afa8fb32991834aef454ec41816c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:17 +0000
Subject: [PATCH 64/93] fix: compute derived quantities in the system of their
 constants

---
 src/goats/core/computed.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index fb1cd10..4440bce 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -440,19 +440,23 @@ class Method(collections.abc.Mapping, iterables.ReprStrMixin):
         return self.callable(*self.parse(dependencies))
 
     def parse(self, dependencies: typing.Mapping):
-        """Extract arrays and floats from `dependencies`."""
+        """Extract arrays and floats from `dependencies`.
+
+        The registered methods combine their arguments with constants in the MKS
+        system, so this converts each argument to that system.
+        """
         arrays = []
         floats = []
         for name in self.parameters:
             arg = dependencies[name]
             if isinstance(arg, variable.Quantity):
-                arrays.append(numpy.array(arg))
+                arrays.append(numpy.array(arg['mks']))
             elif isinstance(arg, physical.Scalar):
-                floats.append(float(arg))
+                floats.append(float(arg['mks']))
             elif (
                 isinstance(arg, typing.Iterable)
                 and all(isinstance(a, physical.Scalar) for a in arg)
-            ): floats.extend([float(a) for a in arg])
+            ): floats.extend([float(a['mks']) for a in arg])
         return *arrays, *floats
 
     def __len__(self):
@@ -522,11 +526,12 @@ class Quantity(iterables.ReprStrMixin):
 
     def __call__(self, **quantities):
         """Create a variable quantity from input quantities."""
-        return variable.Quantity(
+        result = variable.Quantity(
             self.method.compute(**quantities),
             dimensions=self.dimensions,
-            unit=self.unit,
+            unit=self.unit.norm['mks'],
         )
+        return result[self.unit]
 
     def __str__(self) -> str:
         attrs = [
-- 
2.43.0


From b999068ab8c10e2487cbebd6d011082a18767415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:17 +0000
Subject: [PATCH 65/93] fix: report the axis values of the observed positions

---
 src/goats/eprem/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..5025609 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,7 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(indices, values=[symbols[i] for i in indices])
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +236,8 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                values = numpy.array(converted)
+                return index.Data(targets, values=values[list(targets)])
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 0b8ce350c949654788c5e83ba703f2ee8c6480d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:01 +0000
Subject: [PATCH 66/93] fix: interpolate over any combination of axes

---
 src/goats/eprem/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 5025609..b7e68de 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -450,7 +450,7 @@ class Context(observing.Context):
     _axis_indices = {
         'time': 0,
         'energy': 1,
-        'mu': 1,
+        'mu': 0,
     }
 
     def _compute_interpolants(self, q: variable.Quantity):
@@ -459,9 +459,10 @@ class Context(observing.Context):
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
             if idx and idx.unit is not None:
+                reference_array = numpy.array(self.coordinates[dimension])
                 contained = [
-                    self.coordinates[dimension].array_contains(target)
-                    for target in idx.values
+                    numpy.allclose(reference_array[..., i], target, atol=0.0)
+                    for i, target in zip(idx, idx.values)
                 ]
                 if not numpy.all(contained):
                     coordinates[dimension] = {
@@ -485,11 +486,14 @@ class Context(observing.Context):
                     floats = [float(values)]
                 else:
                     floats = [float(value) for value in values]
-                interpolants['radius'] = {
+                # The reference radius varies with time, so it's necessary to
+                # interpolate over radius before interpolating over time.
+                radial = {
                     'targets': numpy.array(floats),
                     'reference': self.coordinates['radius'],
                     'axis': 1,
                 }
+                interpolants = {'radius': radial, **interpolants}
         return interpolants
 
     def interpolate(
@@ -515,6 +519,9 @@ class Context(observing.Context):
             for d in coordinates
         ]
         dimensions = list(set(q.dimensions) - set(interpolated))
+        if not dimensions:
+            # There are no uninterpolated axes.
+            return base
         return self._subscript(base, *dimensions)
 
     def _interpolate_coordinate(
-- 
2.43.0


From d4c17d6ad3c47921a87f92772aa3352e8e36fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:01 +0000
Subject: [PATCH 67/93] fix: allow reading arrays of names

---
 src/goats/core/physical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 394f514..8fee545 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -527,7 +527,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
           without any numerical scaling to `self._load_array()`, then rescales
           the result if the unit has changed.
         """
-        return self._scale * self._load_array(index)
+        array = self._load_array(index)
+        if numpy.asanyarray(array).dtype.kind in 'US':
+            # There is no way to rescale an array of strings.
+            return numpy.array(array)
+        return self._scale * array
 
     def _load_array(self, index=None):
         """Get the unscaled array from disk or memory.
-- 
2.43.0


From cb73e820834f962725f5a05b07b2a21bf6cee0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:58 +0000
Subject: [PATCH 68/93] fix: observe energies of the requested species

---
 src/goats/eprem/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index b7e68de..b51b5cc 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -459,7 +459,8 @@ class Context(observing.Context):
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
             if idx and idx.unit is not None:
-                reference_array = numpy.array(self.coordinates[dimension])
+                this = self._subscript(self.coordinates[dimension], 'species')
+                reference_array = numpy.array(this)
                 contained = [
                     numpy.allclose(reference_array[..., i], target, atol=0.0)
                     for i, target in zip(idx, idx.values)
@@ -467,7 +468,7 @@ class Context(observing.Context):
                 if not numpy.all(contained):
                     coordinates[dimension] = {
                         'targets': numpy.array(idx.values),
-                        'reference': self.coordinates[dimension],
+                        'reference': this,
                     }
         interpolants = {
             k: {**c, 'axis': self._axis_indices.get(k)}
@@ -502,6 +503,8 @@ class Context(observing.Context):
         coordinates: typing.Dict[str, typing.Dict[str, typing.Any]],
     ) -> variable.Quantity:
         """Internal interpolation logic."""
+        # The reference energies may be different for each species.
+        q = self._subscript(q, 'species')
         array = None
         for coordinate in coordinates.values():
             array = self._interpolate_coordinate(
@@ -518,9 +521,9 @@ class Context(observing.Context):
             'shell' if d == 'radius' else d
             for d in coordinates
         ]
-        dimensions = list(set(q.dimensions) - set(interpolated))
+        dimensions = list(set(q.dimensions) - {'species', *interpolated})
         if not dimensions:
-            # There are no uninterpolated axes.
+            # There are no more axes to subscript.
             return base
         return self._subscript(base, *dimensions)
 
@@ -577,12 +580,15 @@ class Context(observing.Context):
         """Compute the axis-indexing object for `key`."""
         if key not in self.axes:
             raise ContextKeyError(f"No axis corresponding to {key!r}") from None
+        # The energy axis depends on the observed species.
+        isenergy = key in reference.ALIASES.find('energy')
+        opts = {'species': self.get_index('species')[0]} if isenergy else {}
         if key not in self.constraints:
-            return self.axes[key].index()
+            return self.axes[key].index(**opts)
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
-        return self.axes[key].index(*iterables.whole(this))
+        return self.axes[key].index(*iterables.whole(this), **opts)
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
         """Get the parameter value correpsonding to `key`."""
-- 
2.43.0


From 8a81093e5feffd090a42e4acd9667cd5925abf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 69/93] fix: multiply composed quantities of different axes

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index b51b5cc..27e1cb7 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -408,7 +408,7 @@ class Context(observing.Context):
         if len(expression) > 1:
             for term in expression[1:]:
                 result = self.get_observable(term.base)
-                q0 *= result ** term.exponent
+                q0 = q0 * result ** term.exponent
         return q0
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
-- 
2.43.0


From e7e23584eeb124958fc851d9ca417dca3debc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 70/93] fix: observe powers of a quantity

---
 src/goats/core/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index f4437bb..7ad1970 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1666,7 +1666,7 @@ def composition(this):
     """
     return (
         isinstance(this, Expression)
-        or isinstance(this, str) and ('/' in this or '*' in this)
+        or isinstance(this, str) and any(c in this for c in '/*^')
     )
 
 
-- 
2.43.0


From 355846df568b33bf0a8e6ed979a427bc107c28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 71/93] fix: metadata of composed observables

---
 src/goats/core/observing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 61cdc2f..14d5d5c 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -392,7 +392,15 @@ class Context(collections.abc.Collection, typing.Generic[T]):
 
     def get_parameters(self, name: str):
         """Compute or retrieve the parameters of a physical quantity."""
-        return Parameters(self.get_metadata('parameters', name))
+        if found := self.get_attribute('parameters', name):
+            return Parameters(*found)
+        s = str(name)
+        expression = symbolic.Expression(reference.NAMES.get(s, s))
+        return Parameters(*(
+            parameter
+            for term in expression
+            for parameter in self.get_attribute('parameters', term.base) or ()
+        ))
 
     def get_quantity(self, name: str):
         """Retrieve a physical quantity by name, if available."""
@@ -409,6 +417,8 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
         built = self.get_attribute(name, term.base)
+        if term.exponent != 1:
+            built = built ** term.exponent
         if len(expression) > 1:
             for term in expression[1:]:
                 built *= self.get_attribute(name, term.base)**term.exponent
-- 
2.43.0


From 744e5387660f3c04365a7ca075c6f9e3dbcd294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:03 +0000
Subject: [PATCH 72/93] fix: apply constraints under any name of a quantity

---
 src/goats/eprem/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 27e1cb7..26d358c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -373,6 +373,27 @@ class Context(observing.Context):
         self._parameters = None
         self._coordinates = None
 
+    def constrain(self, new: typing.Mapping, append: bool=False):
+        """Update the observing constraints.
+
+        A constraint on one name applies to all aliases of that name.
+        """
+        expanded = {
+            alias: value
+            for name, value in new.items()
+            for alias in self._get_aliases(name)
+        }
+        return super().constrain(expanded, append=append)
+
+    def _get_aliases(self, name: str):
+        """Get all names, including this one, of a constrainable quantity."""
+        known = [
+            set(mapping.alias(name, include=True))
+            for mapping in (self.axes, self.variables, self.constants)
+            if name in mapping
+        ]
+        return {name}.union(*known)
+
     def observe(self, name: str) -> observing.Observation:
         result = self._observe(name)
         return observing.Observation(
-- 
2.43.0


From fb655f3cb222f1f5ccbe52c358bb40a2b210f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:20 +0000
Subject: [PATCH 73/93] fix: report the parameters of derived quantities

---
 src/goats/eprem/__init__.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 26d358c..8471ae4 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -448,14 +448,22 @@ class Context(observing.Context):
         quantity = self.get_quantity(key)
         if isinstance(quantity, computed.Quantity):
             data = self.compute(quantity)
-            parameters = [
-                parameter for parameter in quantity.parameters
-                if parameter in self.parameters
-            ]
+            parameters = self._gather_parameters(quantity)
             return observing.Quantity(data, parameters=parameters)
         if isinstance(quantity, variable.Quantity):
             return observing.Quantity(quantity)
 
+    def _gather_parameters(self, q: computed.Quantity):
+        """Recursively gather the names of relevant physical constants."""
+        names = []
+        for name in q.parameters:
+            this = self.get_quantity(name)
+            if isinstance(this, computed.Quantity):
+                names.extend(self._gather_parameters(this))
+            elif name not in self.variables and name in self.parameters:
+                names.append(name)
+        return names
+
     def _subscript(self, q: variable.Quantity, *dimensions: str):
         """Extract a subset of this quantity."""
         indices = [
-- 
2.43.0


From cfba4de962b22fd6ae74c7d2c4e057cf19b9d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:25 +0000
Subject: [PATCH 74/93] fix: measure operational arguments in their own unit

---
 src/goats/core/operational.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 90f146e..b92a35a 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -169,6 +170,12 @@ class Argument:
         except ValueError as err:
             raise ValueError(f"Can't convert {self!r} to {__type}.") from err
 
+    def __measure__(self):
+        """Measure the value(s) of this argument in its own unit."""
+        if self.unit:
+            return measurable.Measurement(self._data, self.unit)
+        return measurable.measure(self.data)
+
     def __iter__(self) -> typing.Iterator:
         """Called for iter(self)."""
         try:
-- 
2.43.0


From 66460cce3f6a3c467541584e2a51d7f639f448db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:35 +0000
Subject: [PATCH 75/93] fix: keep the metric system of an updated observer

---
 src/goats/eprem/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 8471ae4..70df711 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -724,7 +724,11 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             The path to a new EPREM configuration file from which to extract
             simulation runtime parameter arguments.
         """
-        context = self._build_context(source=source, config=config)
+        context = self._build_context(
+            source=source,
+            config=config,
+            system=self._system,
+        )
         if context:
             self._variables = context.variables
             self._axes = context.axes
-- 
2.43.0


From 26508475669ce029804642400a054b86e023134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:09 +0000
Subject: [PATCH 76/93] fix: interpolate only where target values are given

---
 src/goats/eprem/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 70df711..e2dfcab 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -487,7 +487,7 @@ class Context(observing.Context):
         coordinates = {}
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
-            if idx and idx.unit is not None:
+            if idx and idx.unit is not None and self._has_targets(dimension):
                 this = self._subscript(self.coordinates[dimension], 'species')
                 reference_array = numpy.array(this)
                 contained = [
@@ -526,6 +526,15 @@ class Context(observing.Context):
                 interpolants = {'radius': radial, **interpolants}
         return interpolants
 
+    def _has_targets(self, dimension: str) -> bool:
+        """True if there are target values, not positions, on this axis."""
+        this = self.constraints.get(dimension)
+        if this is None or isinstance(this, (index.Quantity, slice)):
+            return False
+        return not all(
+            isinstance(i, typing.SupportsIndex) for i in iterables.whole(this)
+        )
+
     def interpolate(
         self,
         q: variable.Quantity,
-- 
2.43.0


From 76266d6350b809ca25fc9c3becd0ca5a0ea004b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:23 +0000
Subject: [PATCH 77/93] fix: a vector of target values keeps its unit

---
 src/goats/eprem/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index e2dfcab..0c60637 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -532,9 +532,16 @@ class Context(observing.Context):
         if this is None or isinstance(this, (index.Quantity, slice)):
             return False
         return not all(
-            isinstance(i, typing.SupportsIndex) for i in iterables.whole(this)
+            isinstance(i, typing.SupportsIndex) for i in self._get_args(this)
         )
 
+    def _get_args(self, this):
+        """Convert an axis constraint to axis-indexing arguments."""
+        if isinstance(this, physical.Vector):
+            # The values of a vector are pure numbers.
+            return (*this, str(this.unit))
+        return iterables.whole(this)
+
     def interpolate(
         self,
         q: variable.Quantity,
@@ -626,7 +633,7 @@ class Context(observing.Context):
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
-        return self.axes[key].index(*iterables.whole(this), **opts)
+        return self.axes[key].index(*self._get_args(this), **opts)
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
         """Get the parameter value correpsonding to `key`."""
-- 
2.43.0


From 6119aec6f5d33701d4fbf120c2635d3cfcb63235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 78/93] fix: build variable quantities from a data file in core

variable.Interface read a nonexistent attribute of the raw variable and, given a metric system, would have
replaced the unit without converting the values.
---
 src/goats/core/variable.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 41aba44..0b29f23 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -684,12 +684,8 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
-            __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
-        )
+        v = Quantity(__v.data, dimensions=__v.dimensions, unit=__v.unit)
+        return v[str(self.system)] if self.system else v
 
     @property
     def system(self):
-- 
2.43.0


From 1e92b391f94180782fdb3eb1a1b0b0368621bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:40 +0000
Subject: [PATCH 79/93] fix: keep the explicit unit and axes of a variable
 quantity

A raw data object with its own 'unit' attribute, such as a variable in a data file, silently replaced the unit
given by the caller, so converted values had the original unit.
---
 src/goats/core/variable.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 0b29f23..a1d230f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -466,11 +466,15 @@ class Quantity(Array):
         # Initialize the parent class.
         super().__init__(__interface)
         # Initialize and register the unit.
-        tmp = getattr(__interface, 'unit', unit or '1')
+        new = not isinstance(__interface, measurable.Quantified)
+        tmp = (
+            unit if unit and new
+            else getattr(__interface, 'unit', unit or '1')
+        )
         self._unit = metadata.Unit(tmp)
         self.meta.register('unit')
         # Initialize and register the dimensions.
-        tmp = getattr(
+        tmp = dimensions if dimensions and new else getattr(
             __interface,
             'dimensions',
             dimensions or [f'x{i}' for i in range(self.ndim)]
-- 
2.43.0


From 97ec9b37ed9c20bcea0363ed270e7ca9c01e9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:49 +0000
Subject: [PATCH 80/93] fix: compare arguments of configuration files in any
 directory

compare_arguments stripped the common ancestor from the paths and then tried to open what was left, so it failed unless
run from that directory; it also failed for one file and for files without differences.
---
 src/goats/eprem/runtime.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 3a3fe45..69a49e9 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1583,6 +1583,9 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        # There are no differences to print.
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -1622,7 +1625,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1643,12 +1646,10 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    """Map each path, without the common ancestor, to the full path."""
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From 8b155573b7d664c73fd5a8c6bf17a56a8bdf6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 81/93] fix: index the energy axis of a dataset with one energy

---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 0c60637..ea53020 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -194,11 +194,14 @@ class Axes(aliased.Mapping):
             ) -> index.Data:
                 s = self.species.compute([species]).points
                 t = (
-                    numpy.squeeze(targets[s, :])
+                    numpy.squeeze(targets[s, :], axis=0)
                     if getattr(targets, 'ndim', None) == 2
                     else targets
                 )
-                array = numpy.squeeze(this[s, :]) if this.ndim == 2 else this
+                array = (
+                    numpy.squeeze(this[s, :], axis=0)
+                    if this.ndim == 2 else this
+                )
                 compute = self._build_coordinate(array)
                 return compute(t, unit)
             size = this.shape[this.ndim-1]
-- 
2.43.0


From 188b66e9ccb92f303d5c9b6efda7a5075a7488c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:55 +0000
Subject: [PATCH 82/93] fix: stop observing the previous data after an update
 that finds none

---
 src/goats/eprem/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index ea53020..55a0613 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -748,11 +748,11 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             config=config,
             system=self._system,
         )
-        if context:
-            self._variables = context.variables
-            self._axes = context.axes
-            return super().update(context)
-        return self
+        # Without data or parameters there is nothing to observe; in particular,
+        # it would be wrong to keep observing the previous data.
+        self._variables = context.variables if context else None
+        self._axes = context.axes if context else None
+        return super().update(context)
 
     def _build_context(self, source=None, config=None, system=None):
         """Create an instance of the EPREM observing context."""
-- 
2.43.0


From 06cc9b62ec323f4801ed47978897700fd6d56914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:06 +0000
Subject: [PATCH 83/93] fix: look for a configuration file given as a bare path
 next to the data

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 55a0613..837cfb0 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -782,7 +782,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
         if self._config is None:
             return
         # Compare the current config-file string to its filename.
-        if pathlib.Path(self._config).name == self._config:
+        if pathlib.Path(self._config).name == str(self._config):
             # The current config-file string is just a filename.
             full = self.datapath.parent / self._config
             if full.exists():
-- 
2.43.0


From 6e7c6bf5e60d667339be582dfefb014a24c8aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:52 +0000
Subject: [PATCH 84/93] fix: EPREM variables and axes without a metric system

---
 src/goats/eprem/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 837cfb0..a8476a0 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -54,6 +54,8 @@ class Variables(variable.Interface):
             dimensions=__v.dimensions,
             unit=standardize(__v.unit),
         )
+        if not self.system:
+            return v
         return (
             v[self.system['mass'].unit]
             if name in {'mass', 'm'}
@@ -99,7 +101,7 @@ class Axes(aliased.Mapping):
     ) -> None:
         """Initialize this instance."""
         self._system = metric.System(system or 'mks')
-        self._variables = Variables(__data, system=system)
+        self._variables = Variables(__data, system=self._system)
         self._names = __data.available('axes').canonical
         self._time = None
         self._shell = None
-- 
2.43.0


From eefe98986f8c27624fc4f6147962ae7c617375f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:07 +0000
Subject: [PATCH 85/93] fix: EPREM variables without a unit

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a8476a0..9f6333f 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -85,7 +85,7 @@ def standardize(unit: T):
     string, it just returns the input.
     """
     unit = _UNIT_MAP.get(str(unit), unit)
-    if '/' in unit:
+    if '/' in str(unit):
         num, den = str(unit).split('/', maxsplit=1)
         unit = ' / '.join((num.strip(), f"({den.strip()})"))
     return unit
-- 
2.43.0


From e39845437c467ffcb449451143f7777b3c09249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:34 +0000
Subject: [PATCH 86/93] fix: convert single points and points on the axes to
 spherical coordinates

---
 src/goats/core/numerical.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 995cc07..cb1cb6e 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -215,18 +215,12 @@ def xyz2rtp(*args):
         x, y, z = args
     else:
         raise ArgsNumberError
-    r = numpy.sqrt(x*x + y*y + z*z)
-    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
-    t = numpy.arccos(z/r)
-    t[numpy.asarray(r == 0).nonzero()] = 0.0
+    # Adding zero prevents negative zeros from changing the angles.
+    x, y, z = (numpy.asfarray(v) + 0.0 for v in (x, y, z))
+    r = zero_floor(numpy.sqrt(x*x + y*y + z*z))
+    t = numpy.where(r == 0, 0.0, numpy.arctan2(numpy.hypot(x, y), z))[()]
     p = numpy.arctan2(y, x)
-    p[numpy.asarray(p < 0.0).nonzero()] += 2*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j >= 0 for (i, j) in zip(x, y)]
-    ).nonzero()] = +0.5*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j < 0  for (i, j) in zip(x, y)]
-    ).nonzero()] = -0.5*numpy.pi
+    p = numpy.where(p < 0.0, p + 2*numpy.pi, p)[()]
     return (r, t, p)
 
 
@@ -283,14 +277,8 @@ def zero_floor(
     value: typing.Union[float, numpy.ndarray],
 ) -> typing.Union[float, numpy.ndarray]:
     """Round a small number, or array of small numbers, to zero."""
-    if value.shape:
-        condition = numpy.asarray(
-            numpy.abs(value) < sys.float_info.epsilon
-        ).nonzero()
-        value[condition] = 0.0
-    else:
-        value = 0.0 if numpy.abs(value) < sys.float_info.epsilon else value
-    return value
+    small = numpy.abs(value) < sys.float_info.epsilon
+    return numpy.where(small, 0.0, value)[()]
 
 
 def get_axis_indices(
-- 
2.43.0


From 600002ce79a1e5394f348bcc682fc83d19bc781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:52 +0000
Subject: [PATCH 87/93] fix: look up the rows of a uniform mapping

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 456bacb..ad31977 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -655,7 +655,7 @@ class UniformMapping(MappingBase):
 
     def __getitem__(self, key: str):
         """Create an instance of the type from the mapping."""
-        if key in self:
+        if key in self._mapping:
             kwargs = {p: self._mapping[key].get(p) for p in self._init}
             return self._type(**kwargs)
         raise KeyError(key) from None
-- 
2.43.0


From 53993e4e0e6bd455e7288c60129c2408968cabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 88/93] fix: unary operations on empty names

---
 src/goats/core/metadata.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 988e103..31bc791 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -731,43 +731,43 @@ class Name(collections.abc.Collection, Attribute):
     def __pos__(self):
         """Called for +self."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"+{i}" for i in self])
 
     def __neg__(self):
         """Called for -self."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"-{i}" for i in self])
 
     def __abs__(self):
         """Called for abs(self)."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"abs({i})" for i in self])
 
     def __round__(self):
         """Called for round(self)."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"round({i})" for i in self])
 
     def __floor__(self):
         """Called for math.floor(self)."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"floor({i})" for i in self])
 
     def __ceil__(self):
         """Called for math.ceil(self)."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"ceil({i})" for i in self])
 
     def __trunc__(self):
         """Called for math.trunc(self)."""
         if not self:
-            return Name()
+            return Name([''])
         return Name([f"trunc({i})" for i in self])
 
     def __bool__(self) -> bool:
-- 
2.43.0


From 47ef4179040b856e115ac88c99187b489850777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:36 +0000
Subject: [PATCH 89/93] fix: a quantity keeps its name when its unit changes

---
 src/goats/core/measurable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 1ed4035..f53d06f 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -231,7 +231,8 @@ class Quantity(Quantified):
         object if doing so here would be inefficient.
         """
         data = self._data * (unit // self._unit)
-        return type(self)(data, unit=unit)
+        meta = {k: getattr(self, k) for k in self.meta.parameters}
+        return type(self)(data, **{**meta, 'unit': unit})
 
     def __measure__(self):
         """Create a measurement from this quantity's data and unit."""
-- 
2.43.0


From 9814ef57b0fa6d5d5e215143b17dd75883044df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:22 +0000
Subject: [PATCH 90/93] fix: multiply numpy numbers by array quantities

---
 src/goats/core/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 31bc791..a072752 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -165,7 +165,11 @@ class Operator(iterables.ReprStrMixin):
 
     def __call__(self, name: str, operands: Operands, **kwargs):
         """Apply this operator's method to the given operands."""
-        values = operands.getall(name, mode='force')
+        values = [
+            # `numpy` numbers would attempt to operate on metadata attributes.
+            value.item() if isinstance(value, numpy.number) else value
+            for value in operands.getall(name, mode='force')
+        ]
         try:
             return self.method(*values, **kwargs)
         except TypeError as err:
-- 
2.43.0


From 7f471dbe218bf6e800c1308bf8d3119665b99244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:57 +0000
Subject: [PATCH 91/93] fix: refuse a subscript before the start of a vector

A negative index had the length of the vector added to it twice (here and
by numpy), so that indices down to twice the length selected an element
from the wrong end instead of raising an IndexError.
---
 src/goats/core/physical.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fee545..da2bbc8 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -188,8 +188,6 @@ class Vector(Quantity):
         """Called for index-based value access."""
         if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
-- 
2.43.0


From cfeaad4812d2d5f8bd0b8e5efe5a32a1d7d66261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:37 +0000
Subject: [PATCH 92/93] fix: interpolate between grid points that are
 relatively close

A target coordinate counted as a grid point if it was within the default
relative tolerance of 1e-5, which only needs to absorb rounding errors of
unit conversion. Times given as Julian dates (about 2.5e6 days) are all
that close to each other, so no observation was ever interpolated in time.
---
 src/goats/eprem/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 9f6333f..f57438d 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -496,7 +496,12 @@ class Context(observing.Context):
                 this = self._subscript(self.coordinates[dimension], 'species')
                 reference_array = numpy.array(this)
                 contained = [
-                    numpy.allclose(reference_array[..., i], target, atol=0.0)
+                    numpy.allclose(
+                        reference_array[..., i],
+                        target,
+                        rtol=1e-12,
+                        atol=0.0,
+                    )
                     for i, target in zip(idx, idx.values)
                 ]
                 if not numpy.all(contained):
-- 
2.43.0


From 435c6f9e4ba5cfa065e22b0333c45eb446b3a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:38 +0000
Subject: [PATCH 93/93] fix: leave an observer as it was when an update fails

After a failed update, an observer kept the paths that had failed: its
datapath or confpath raised, and a later update of only the other path
failed or mixed old and new files.
---
 src/goats/eprem/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index f57438d..9a7a82f 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -750,11 +750,17 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             The path to a new EPREM configuration file from which to extract
             simulation runtime parameter arguments.
         """
-        context = self._build_context(
-            source=source,
-            config=config,
-            system=self._system,
-        )
+        paths = self._source, self._config, self._datapath, self._confpath
+        try:
+            context = self._build_context(
+                source=source,
+                config=config,
+                system=self._system,
+            )
+        except Exception:
+            # Keep describing the current data and config file.
+            self._source, self._config, self._datapath, self._confpath = paths
+            raise
         # Without data or parameters there is nothing to observe; in particular,
         # it would be wrong to keep observing the previous data.
         self._variables = context.variables if context else None
-- 
2.43.0

