From 9f288aa587e9e4e6e61240982418b2d2fba5b580 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 01/37] fix: render the document before truncating the file in
 Format.write

A value which could not be rendered destroyed the previous content of the file.
---
 scheme/format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..efb47a3 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -81,5 +81,6 @@ class Format(object):
             else:
                 raise ValueError(format)
 
+        content = format.serialize(value, schema, **params)
         with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+            openfile.write(content)
-- 
2.43.0


From 2bd5b0d2979bc46441a07fc1ad2942cb4f31ed3d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 02/37] fix: remove stray print from Csv.unserialize

Every cell was echoed to stdout, and a closed stdout made decoding fail.
---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..3bbe736 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From d8eb11b4bf36812f6d365df62726f40ae09e5b5f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 03/37] fix: let Csv.unserialize accept text read from a file

Format.read opens files with universal newlines, so rows arrive separated by
'\n' and a file written by Csv.write could not be read back.
---
 scheme/formats/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 3bbe736..c31ba98 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = Reader(StringIO(value.strip('\r\n')), cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From a452fbc65b5e16c6578d779c98c6fd0c2397f37c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 04/37] fix: accept the schema argument in UrlEncoded

Field.serialize/unserialize and Format.read/write always pass it.
---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..dc8f419 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From 6e3f0402d640ba4c6542277227b1059a3132f70c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 05/37] fix: misspelled argument in Union.interpolate

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From c3310f8f6b0836a508c2c01bf4424341d4c24733 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 06/37] fix: do not modify the specification passed to
 Field.reconstruct

A description could only be reconstructed once.
---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..03f07bd 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = specification.copy()
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From 4696960c57f59e8f77058ed6a7c14b5bde840716 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 07/37] fix: apply the surrogate metaclass under python 3

Without it surrogates had no token, so serializing or printing one failed.
---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From fef08429516af9d0b938272b45d8aaa708992f85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 08/37] fix: do not remember a failed surrogate import

One temporary import failure downgraded the token for the life of the process.
---
 scheme/surrogate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..dca222e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -152,7 +152,7 @@ class surrogate(dict):
         try:
             impl = import_object(token)
         except ImportError:
-            impl = surrogate
+            return surrogate
 
         cls.cache[token] = impl
         return impl
-- 
2.43.0


From ab15a6d3e148edd8dce7028d8ac50b44425a2ad7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 09/37] fix: identify objects by identity, not equality

Of two equal objects the second was given the name of the first, and
unhashable objects could not be identified at all.
---
 scheme/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..bd8793d 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -52,9 +52,12 @@ def identify_object(obj, cache={}):
         return '%s.%s' % (obj.__module__, obj.__name__)
 
     try:
-        return cache[obj]
+        cached, identity = cache[id(obj)]
     except KeyError:
         pass
+    else:
+        if cached is obj:
+            return identity
 
     module = getmodule(obj)
     if not module:
@@ -62,7 +65,8 @@ def identify_object(obj, cache={}):
 
     for attr, value in module.__dict__.items():
         if value is obj:
-            identity = cache[obj] = '%s.%s' % (module.__name__, attr)
+            identity = '%s.%s' % (module.__name__, attr)
+            cache[id(obj)] = (obj, identity)
             return identity
     else:
         raise TypeError(obj)
-- 
2.43.0


From 3e493904ecf9c9da2cb1b06778640145b5e34000 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 10/37] fix: hand out copies of mutable default values

Changing the default list or dict of one processed value, generated default
or Element instance changed it in the schema and so in every later one.
---
 scheme/element.py          |  7 +++++--
 scheme/fields/structure.py |  6 +++---
 scheme/util.py             | 16 ++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..01d0dec 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,5 +1,5 @@
 from scheme.fields import *
-from scheme.util import with_metaclass
+from scheme.util import copy_containers, with_metaclass
 
 __all__ = ('Element',)
 
@@ -77,7 +77,10 @@ class Element(object):
             defaults = self.__attrs__
 
         for attr, default in defaults.items():
-            setattr(self, attr, params.get(attr, default))
+            if attr in params:
+                setattr(self, attr, params[attr])
+            else:
+                setattr(self, attr, copy_containers(default))
 
     def __repr__(self):
         aspects = []
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..5de580f 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import getitem, string
+from scheme.util import copy_containers, getitem, string
 
 __all__ = ('Structure',)
 
@@ -412,7 +412,7 @@ class Structure(Field):
             elif partial:
                 continue
             elif phase == INBOUND and field.default is not None:
-                field_value = field.default
+                field_value = copy_containers(field.default)
             elif field.required:
                 valid = False
                 structure[name] = ValidationError(identity=ancestry, field=self).construct(
@@ -538,7 +538,7 @@ class Structure(Field):
             if value is None:
                 value = field.constant
             if not sparse or value is not None:
-                default[name] = value
+                default[name] = copy_containers(value)
 
         return default
 
diff --git a/scheme/util.py b/scheme/util.py
index bd8793d..b1d43cc 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -3,6 +3,11 @@ import sys
 from inspect import getmodule
 from types import ModuleType
 
+try:
+    from collections import OrderedDict
+except ImportError:
+    OrderedDict = dict
+
 try:
     integers = (int, long)
 except NameError:
@@ -37,6 +42,17 @@ def abbreviate_string(value, maxlength=0):
 
     return '%s...%s' % (left, right)
 
+def copy_containers(value):
+    """Returns a copy of ``value`` in which every nested dict, list and tuple is copied, while
+    all other values are retained as is."""
+
+    if type(value) in (dict, OrderedDict):
+        return type(value)((k, copy_containers(v)) for k, v in value.items())
+    elif type(value) in (list, tuple):
+        return type(value)(copy_containers(v) for v in value)
+    else:
+        return value
+
 def getitem(obj, key, default=NODEFAULT):
     if default is not NODEFAULT:
         return obj.get(key, default)
-- 
2.43.0


From 7afdb3e244e1ff53c2e066b7f6e5465c397a7275 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 11/37] fix: report failing preprocessors of sequence, map and
 tuple fields

As for all other fields, the failure is a validation error.
---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..f35fd68 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..d3755ac 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..f383fc5 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -169,7 +169,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From b66c136c4a83b745c878165c4aa496f8e7ae29df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 12/37] fix: report failing extractors of union fields

---
 scheme/fields/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..a953551 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -58,7 +58,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From eb3de7da989a7082fb3fb7e90b5a14308d68af06 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 13/37] fix: merge all members in Structure.merge

Merging stopped at the first member already present, instead of skipping it.
---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5de580f..5296f83 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 19841cdfec0142e37d197adf172501578bbfe92c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 14/37] fix: raise UndefinedFieldError for an undefined member
 without a value

Structure.process failed with an AttributeError instead.
---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5296f83..dfd9455 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -411,6 +411,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = copy_containers(field.default)
             elif field.required:
-- 
2.43.0


From aba74aa972e0bf8b98ef945fef132ea1e3474fb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 15/37] fix: allow a structure to be defined in terms of itself

Defining an undefined member of a structure cloned the definition, which never
ended when the definition contained that same structure.
---
 scheme/fields/structure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index dfd9455..58685f0 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -505,10 +505,15 @@ class Structure(Field):
 
     def _define_undefined_field(self, field, name):
         identity, name = name
+
+        # a deep copy would never end for a field which contains this structure
+        member = field.__new__(type(field))
+        member.__dict__.update(field.__dict__, name=name)
+
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = member
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = member
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From a582bbeb258dbc271481f9b9aacb83f8700bc4af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 16/37] fix: resolve placeholders held by copies once they are
 defined

Only the field a placeholder was given to is updated by its definition; a
copy of that field made earlier stayed undefined forever, and cloning a field
with an undefined placeholder never ended. A placeholder now stands in for its
definition.
---
 scheme/field.py            | 9 +++++++++
 scheme/fields/structure.py | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 03f07bd..57c0bfa 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -626,6 +626,15 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        return self
+
+    def __getattr__(self, name):
+        field = self.__dict__.get('field')
+        if field is None:
+            raise AttributeError(name)
+        return getattr(field, name)
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 58685f0..b52b1b9 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -411,7 +411,7 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
-            elif isinstance(field, Undefined):
+            elif isinstance(field, Undefined) and field.field is None:
                 raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = copy_containers(field.default)
-- 
2.43.0


From 8504bbaf94c4500d5f969b7be2c58c14f47e80d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 17/37] fix: render the bounds of DateTime fields in UTC

Bounds of fields in local time were described and reported as local wall time
marked as UTC, so a reconstructed field had different bounds.
---
 scheme/fields/datetime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..5224089 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -51,9 +51,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
@@ -62,9 +62,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -102,11 +102,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
 
         return value
-- 
2.43.0


From f25325ede2096f5fbc5c1d6b797a8ae4e5d24f7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 18/37] fix: allow fields with custom errors to be cloned

Cloning passes the error table of the field, a dict, to the constructor.
---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 57c0bfa..ca1817e 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -205,6 +205,8 @@ class Field(object):
 
         if errors:
             self.errors = self.errors.copy()
+            if isinstance(errors, dict):
+                errors = errors.values()
             for error in errors:
                 self.errors[error.token] = error
 
-- 
2.43.0


From 8c9f42148eda430d59b042b3d3a035c09ff1517f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 19/37] fix: render tuple values in validation reports

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..1a37f01 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,7 +144,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From 8c2e9f34112fec00f41973bd9fccb8b1518370cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 20/37] fix: report failing preprocessors and constants of
 enumerations

---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index ca1817e..c0d7d8e 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -26,6 +26,8 @@ class FieldError(object):
     def format(self, field, params):
         if 'field' not in params:
             params['field'] = field.name or 'unknown-field'
+        if 'values' not in params:
+            params['values'] = field.representation
         return self.message % params
 
 class FieldMeta(type):
-- 
2.43.0


From c9954157b89f5e67ed5521913d902e3caa95f30d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 21/37] fix: print fields whose default is a tuple

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index c0d7d8e..b3894ec 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -225,7 +225,7 @@ class Field(object):
         if self.constant:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
-- 
2.43.0


From b956e9ec9b129d72a85a9d168e06f6ca311e313f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 22/37] fix: keep failures of map items whose keys coincide
 once converted

---
 scheme/fields/map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index f35fd68..d9b8663 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -207,7 +207,9 @@ class Map(Field):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                item = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                if not isinstance(map.get(name), StructuralError):
+                    map[name] = item
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 7c30f9dd3e51fb46d3a793a06f35e91ad4b1ead9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 23/37] fix: tell the two readings of a repeated local hour
 apart, independently of earlier calls

mktime() resolves an ambiguous wall time according to the calls made before in
the process, and the second occurrence was lost when converting from UTC, so
instants came back shifted and bounds were compared by wall time.
---
 scheme/fields/datetime.py |  9 +++++++--
 scheme/timezone.py        | 24 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 5224089..9f6c929 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -9,6 +9,8 @@ from scheme.timezone import *
 
 __all__ = ('DateTime',)
 
+EPOCH = datetime(1970, 1, 1)
+
 class DateTime(Field):
     """A field for ``datetime`` values."""
 
@@ -68,6 +70,9 @@ class DateTime(Field):
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
+    def _get_instant(self, value):
+        return value.replace(tzinfo=None) - EPOCH - value.utcoffset()
+
     def _normalize_value(self, value):
         timezone = self.timezone
         if value.tzinfo is not None:
@@ -100,12 +105,12 @@ class DateTime(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and self._get_instant(value) < self._get_instant(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and self._get_instant(value) > self._get_instant(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=self._serialize_value(maximum))
 
diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..f95b088 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -1,3 +1,4 @@
+from calendar import timegm
 from datetime import datetime, timedelta, tzinfo
 import time
 
@@ -66,10 +67,27 @@ class LocalTimezone(tzinfo):
         else:
             return STD_OFFSET
 
+    def fromutc(self, value):
+        if time.localtime(self._get_timestamp(value)).tm_isdst > 0:
+            return value + DST_OFFSET
+
+        value += STD_OFFSET
+        if self._isdst(value) and hasattr(value, 'fold'):
+            # the second of the two instants which share this wall time
+            value = value.replace(fold=1)
+        return value
+
+    def _get_timestamp(self, v):
+        return timegm((v.year, v.month, v.day, v.hour, v.minute, v.second))
+
     def _isdst(self, v):
-        timestamp = time.mktime((v.year, v.month, v.day, v.hour, v.minute,
-            v.second, v.weekday(), 0, -1))
-        return (time.localtime(timestamp).tm_isdst > 0)
+        # mktime() resolves a repeated wall time according to the calls which preceded this one
+        timestamp = self._get_timestamp(v)
+        if time.localtime(timestamp - STD_OFFSET.total_seconds()).tm_isdst > 0:
+            return True
+        if getattr(v, 'fold', 0):
+            return False
+        return time.localtime(timestamp - DST_OFFSET.total_seconds()).tm_isdst > 0
 
 LOCAL = LocalTimezone()
 UTC = FixedOffsetTimezone(0, 'UTC')
-- 
2.43.0


From 463fffaf59fda8cadfff8216df88f6f991ffd06c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 24/37] fix: print fields which contain themselves

---
 scheme/fields/map.py       | 3 ++-
 scheme/fields/sequence.py  | 3 ++-
 scheme/fields/structure.py | 3 ++-
 scheme/fields/tuple.py     | 3 ++-
 scheme/fields/union.py     | 3 ++-
 scheme/util.py             | 6 ++++++
 6 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index d9b8663..16963b0 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Map',)
 
@@ -63,6 +63,7 @@ class Map(Field):
         self.required_keys = required_keys
         self.value = value
 
+    @recursive_repr('...')
     def __repr__(self):
         aspects = []
         if self.key:
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index d3755ac..d4fe78d 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import pluralize, string
+from scheme.util import pluralize, recursive_repr, string
 
 __all__ = ('Sequence',)
 
@@ -60,6 +60,7 @@ class Sequence(Field):
         self.min_length = min_length
         self.unique = unique
 
+    @recursive_repr('...')
     def __repr__(self):
         aspects = ['item=%r' % self.item]
         if self.min_length is not None:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b52b1b9..c8029cb 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import copy_containers, getitem, string
+from scheme.util import copy_containers, getitem, recursive_repr, string
 
 __all__ = ('Structure',)
 
@@ -112,6 +112,7 @@ class Structure(Field):
             else:
                 raise ValueError('generate_default must be boolean')
 
+    @recursive_repr('...')
     def __repr__(self):
         aspects = ['structure=%r' % self.structure]
         if self.polymorphic_on:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index f383fc5..671ea45 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Tuple',)
 
@@ -47,6 +47,7 @@ class Tuple(Field):
 
         self.values = tuple(stack)
 
+    @recursive_repr('...')
     def __repr__(self):
         return super(Tuple, self).__repr__(['values=%r' % (self.values,)])
 
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index a953551..2e97083 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 class Union(Field):
     """A field composed of a union of two or more other fields, which attempts to process values
@@ -41,6 +41,7 @@ class Union(Field):
 
         self.fields = tuple(stack)
 
+    @recursive_repr('...')
     def __repr__(self):
         return super(Union, self).__repr__(['fields=%r' % (self.fields,)])
 
diff --git a/scheme/util.py b/scheme/util.py
index b1d43cc..7fbd5c7 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -18,6 +18,12 @@ try:
 except NameError:
     numbers = (float, int)
 
+try:
+    from reprlib import recursive_repr
+except ImportError:
+    def recursive_repr(fillvalue='...'):
+        return lambda function: function
+
 try:
     string = basestring
 except NameError:
-- 
2.43.0


From 76fa8ec4c7711549c316f68a500e7c1a6913ebd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 25/37] fix: raise UndefinedFieldError when instantiating while
 the definition is made

---
 scheme/fields/sequence.py  | 5 +++--
 scheme/fields/structure.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index d4fe78d..5a1218d 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -127,12 +127,13 @@ class Sequence(Field):
         if value is None:
             return None
 
+        definition = self.item
         candidate = []
         for v in value:
             try:
-                candidate.append(self.item.instantiate(v))
+                candidate.append(definition.instantiate(v))
             except AttributeError:
-                if isinstance(self.item, Undefined):
+                if isinstance(definition, Undefined):
                     raise UndefinedFieldError('the item field of this sequence is undefined')
                 else:
                     raise
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index c8029cb..997121c 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -297,10 +297,11 @@ class Structure(Field):
         params = {}
         
         for k, v in value.items():
+            field = definition[k]
             try:
-                params[k] = definition[k].instantiate(v, k)
+                params[k] = field.instantiate(v, k)
             except AttributeError:
-                if isinstance(definition[k], Undefined):
+                if isinstance(field, Undefined):
                     raise UndefinedFieldError('the %r field of this structure is undefined' % k)
                 else:
                     raise
-- 
2.43.0


From db6ecf4cb3e39b0a2823113dab5c3cf7b7312ad7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 26/37] fix: give placeholders' definitions to every field
 which holds them

A field built or copied while a placeholder was being defined, and the copy of
a definition which a structure makes for its member, could be left holding the
placeholder; of placeholders defined concurrently in a tuple or union, one
could be lost. Fields now register once they are complete, including copies,
and a placeholder which is already defined answers at once.
---
 scheme/field.py            | 11 +++++------
 scheme/fields/map.py       |  9 +++++++--
 scheme/fields/sequence.py  |  9 +++++++--
 scheme/fields/structure.py |  3 ++-
 scheme/fields/tuple.py     | 14 +++++++++++---
 scheme/fields/union.py     | 14 +++++++++++---
 6 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index b3894ec..4fda4d8 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -614,6 +614,9 @@ class Field(object):
 
         return value
 
+    def _await_definitions(self):
+        """Registers this field with the placeholders it holds, to be given their definitions."""
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {}
@@ -633,12 +636,6 @@ class Undefined(object):
     def __deepcopy__(self, memo):
         return self
 
-    def __getattr__(self, name):
-        field = self.__dict__.get('field')
-        if field is None:
-            raise AttributeError(name)
-        return getattr(field, name)
-
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
@@ -646,3 +643,5 @@ class Undefined(object):
 
     def register(self, callback, *args):
         self.callbacks.append((callback, args))
+        if self.field is not None:
+            callback(self.field, *args)
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 16963b0..c3ffb05 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -45,8 +45,6 @@ class Map(Field):
         if isinstance(value, Undefined):
             if value.field:
                 value = value.field
-            else:
-                value.register(self._define_undefined_field)
         elif not isinstance(value, Field):
             raise TypeError("argument 'value' must be a Field instance")
 
@@ -63,6 +61,8 @@ class Map(Field):
         self.required_keys = required_keys
         self.value = value
 
+        self._await_definitions()
+
     @recursive_repr('...')
     def __repr__(self):
         aspects = []
@@ -245,6 +245,11 @@ class Map(Field):
         else:
             return self.clone(value=candidate)
 
+    def _await_definitions(self):
+        value = self.value
+        if isinstance(value, Undefined):
+            value.register(self._define_undefined_field)
+
     def _define_undefined_field(self, field):
         self.value = field
 
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 5a1218d..571904e 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -45,8 +45,6 @@ class Sequence(Field):
         if isinstance(item, Undefined):
             if item.field:
                 item = item.field
-            else:
-                item.register(self._define_undefined_field)
         elif not isinstance(item, Field):
             raise TypeError("argument 'item' must be a Field instance")
 
@@ -60,6 +58,8 @@ class Sequence(Field):
         self.min_length = min_length
         self.unique = unique
 
+        self._await_definitions()
+
     @recursive_repr('...')
     def __repr__(self):
         aspects = ['item=%r' % self.item]
@@ -227,6 +227,11 @@ class Sequence(Field):
         else:
             return self.clone(item=candidate)
 
+    def _await_definitions(self):
+        item = self.item
+        if isinstance(item, Undefined):
+            item.register(self._define_undefined_field)
+
     def _define_undefined_field(self, field):
         self.item = field
 
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 997121c..0cc57a8 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -413,7 +413,7 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
-            elif isinstance(field, Undefined) and field.field is None:
+            elif isinstance(field, Undefined):
                 raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = copy_containers(field.default)
@@ -511,6 +511,7 @@ class Structure(Field):
         # a deep copy would never end for a field which contains this structure
         member = field.__new__(type(field))
         member.__dict__.update(field.__dict__, name=name)
+        member._await_definitions()
 
         if self.polymorphic_on:
             self.structure[identity][name] = member
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 671ea45..fa2affb 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -37,7 +37,6 @@ class Tuple(Field):
                 if field.field:
                     stack.append(field.field)
                 else:
-                    field.register(self._define_undefined_field, i)
                     stack.append(field)
             elif isinstance(field, Field):
                 stack.append(field)
@@ -46,6 +45,7 @@ class Tuple(Field):
                     " at least one Field instance")
 
         self.values = tuple(stack)
+        self._await_definitions()
 
     @recursive_repr('...')
     def __repr__(self):
@@ -225,8 +225,16 @@ class Tuple(Field):
         else:
             return self
 
-    def _define_undefined_field(self, field, idx):
-        self.values = tuple(list(self.values[:idx]) + [field] + list(self.values[idx + 1:]))
+    def _await_definitions(self):
+        for field in self.values:
+            if isinstance(field, Undefined):
+                field.register(self._define_undefined_field)
+
+    def _define_undefined_field(self, field):
+        # placeholders can be defined concurrently, none of the definitions can be lost
+        while any(isinstance(field, Undefined) and field.field for field in self.values):
+            self.values = tuple([isinstance(field, Undefined) and field.field or field
+                for field in self.values])
 
     @classmethod
     def _visit_field(cls, specification, callback):
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 2e97083..636bab1 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -32,7 +32,6 @@ class Union(Field):
                 if field.field:
                     stack.append(field.field)
                 else:
-                    field.register(self._define_undefined_field, i)
                     stack.append(field)
             elif isinstance(field, Field):
                 stack.append(field)
@@ -40,6 +39,7 @@ class Union(Field):
                 raise TypeError("fields must be Field instances")
 
         self.fields = tuple(stack)
+        self._await_definitions()
 
     @recursive_repr('...')
     def __repr__(self):
@@ -141,8 +141,16 @@ class Union(Field):
         else:
             return self
 
-    def _define_undefined_field(self, field, idx):
-        self.fields = tuple(list(self.fields[:idx]) + [field] + list(self.fields[idx + 1:]))
+    def _await_definitions(self):
+        for field in self.fields:
+            if isinstance(field, Undefined):
+                field.register(self._define_undefined_field)
+
+    def _define_undefined_field(self, field):
+        # placeholders can be defined concurrently, none of the definitions can be lost
+        while any(isinstance(field, Undefined) and field.field for field in self.fields):
+            self.fields = tuple([isinstance(field, Undefined) and field.field or field
+                for field in self.fields])
 
     @classmethod
     def _visit_field(cls, specification, callback):
-- 
2.43.0


From b49ec6909bc76faf97a1b4171237cbbef33380df Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 27/37] fix: identify nested classes by their qualified name

The name of a class defined within another class did not denote it, and could
denote a different class of that name.
---
 scheme/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 7fbd5c7..5f1f4be 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -69,9 +69,12 @@ def identify_object(obj, cache={}):
     if isinstance(obj, ModuleType):
         return obj.__name__
     elif isinstance(obj, object) and isinstance(obj, type):
+        name = getattr(obj, '__qualname__', obj.__name__)
+        if '<locals>' in name:
+            name = obj.__name__
         if obj.__module__ == '__main__':
-            return obj.__name__
-        return '%s.%s' % (obj.__module__, obj.__name__)
+            return name
+        return '%s.%s' % (obj.__module__, name)
 
     try:
         cached, identity = cache[id(obj)]
-- 
2.43.0


From 221bdc53e3cac672276bbb08efa74659ddb2c21b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 28/37] fix: identify objects of modules which gain members
 meanwhile

Another thread importing a member of the module (or assigning a global of it)
made identify_object fail with a RuntimeError.
---
 scheme/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 5f1f4be..66b3d23 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -88,7 +88,7 @@ def identify_object(obj, cache={}):
     if not module:
         raise TypeError(obj)
 
-    for attr, value in module.__dict__.items():
+    for attr, value in list(module.__dict__.items()):
         if value is obj:
             identity = '%s.%s' % (module.__name__, attr)
             cache[id(obj)] = (obj, identity)
-- 
2.43.0


From e5df374c6ed7a73c42f60b8d720d9414515afe6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 29/37] fix: render sets in yaml in an order of their own

---
 scheme/formats/yaml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..f7a887d 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -80,6 +80,9 @@ class Yaml(Format):
         if not value:
             return '[]'
 
+        if isinstance(value, set):
+            value = sorted(value, key=repr)
+
         if cls._is_simple_sequence(value):
             return '[%s]' % ', '.join(cls._serialize_value(v, None) for v in value)
 
-- 
2.43.0


From f38269fbf332f7ce7ac31aae58187c3e294c24d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 30/37] fix: keep the order of values when an enumeration is
 redefined

---
 scheme/fields/enumeration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..9c32fe1 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -63,7 +63,12 @@ class Enumeration(Field):
         else:
             raise ValueError("argument 'strategy' must be either 'append' or 'replace'")
 
-        self.enumeration = list(set(baseline + enumeration))
+        values = []
+        for value in baseline + enumeration:
+            if value not in values:
+                values.append(value)
+
+        self.enumeration = values
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
     def _is_null(self, value, ancestry):
-- 
2.43.0


From 50d5260a16674c3abe5016dc1dd152ba501ce964 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 31/37] fix: defining a placeholder does not bring back a
 member removed or replaced before

---
 scheme/fields/structure.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 0cc57a8..7227dcb 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -505,18 +505,22 @@ class Structure(Field):
         else:
             return self
 
-    def _define_undefined_field(self, field, name):
-        identity, name = name
+    def _define_undefined_field(self, field, place):
+        identity, name, current = place
+
+        structure = self.structure
+        if self.polymorphic_on:
+            structure = structure[identity]
+
+        # the member may have been removed or replaced by another one meanwhile
+        if structure.get(name) is not current:
+            return
 
         # a deep copy would never end for a field which contains this structure
         member = field.__new__(type(field))
         member.__dict__.update(field.__dict__, name=name)
         member._await_definitions()
-
-        if self.polymorphic_on:
-            self.structure[identity][name] = member
-        else:
-            self.structure[name] = member
+        structure[name] = place[2] = member
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
@@ -574,7 +578,7 @@ class Structure(Field):
                     field = field.field
                     structure[name] = field
                 else:
-                    field.register(self._define_undefined_field, (identity, name))
+                    field.register(self._define_undefined_field, [identity, name, field])
                     continue
 
             if not isinstance(field, Field):
-- 
2.43.0


From 28f198d50274d8c3f08bd8a5897f8eca7c233c8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 32/37] fix: a report about an object that cannot be identified
 says where it is

---
 scheme/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 4fda4d8..cd5ff7e 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -476,6 +476,10 @@ class Field(object):
                 value = self._serialize_value(value)
             except OverflowError:
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+            except StructuralError as exception:
+                if exception.field is self:
+                    exception.identity = ancestry
+                raise
 
         return value
 
-- 
2.43.0


From 98d4cdec9ccf6aace1919b961c6ccca80f6fd462 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 33/37] fix: extending or replacing with a member lent from
 another schema does not rename it there

---
 scheme/fields/structure.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7227dcb..eb78f86 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -176,8 +176,10 @@ class Structure(Field):
         for name, field in structure.items():
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
-            if field.name != name:
+            if field.name is None:
                 field.name = name
+            elif field.name != name:
+                field = field.clone(name=name)
             extension.structure[name] = field
 
         return extension
@@ -475,10 +477,13 @@ class Structure(Field):
         for name, field in structure.items():
             if not isinstance(field, Field):
                 raise TypeError(field)
-            if field.name != name:
+            if name not in replacement.structure:
+                continue
+            if field.name is None:
                 field.name = name
-            if name in replacement.structure:
-                replacement.structure[name] = field
+            elif field.name != name:
+                field = field.clone(name=name)
+            replacement.structure[name] = field
 
         return replacement
 
-- 
2.43.0


From 9e125887dc0db22080ff4be5f1e237acbae4b6c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:00 +0000
Subject: [PATCH 34/37] fix: dates of years before 1000 are written with four
 digits, as they are read

---
 scheme/fields/date.py     | 15 ++++++++-------
 scheme/fields/datetime.py |  3 ++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..8aef293 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -48,22 +48,23 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        # strftime() does not pad the years before 1000
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, date):
@@ -81,9 +82,9 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 9f6c929..6f7bd83 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -86,7 +86,8 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        # strftime() does not pad the years before 1000
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
-- 
2.43.0


From 74ced5cca95b693c5212471230771eae797c56c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:17 +0000
Subject: [PATCH 35/37] fix: writing a document that cannot be encoded leaves
 the existing file alone

---
 scheme/format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/format.py b/scheme/format.py
index efb47a3..c607d3a 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -1,4 +1,5 @@
 import os
+from locale import getpreferredencoding
 
 from scheme.util import with_metaclass
 
@@ -82,5 +83,9 @@ class Format(object):
                 raise ValueError(format)
 
         content = format.serialize(value, schema, **params)
+        if not isinstance(content, bytes):
+            # content which cannot be encoded must not cost the file what it holds
+            content.encode(getpreferredencoding(False))
+
         with open(path, 'w+') as openfile:
             openfile.write(content)
-- 
2.43.0


From 73f4b59b56cc5dae4f5d9d7e3b93f3fdcf0e3779 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:31 +0000
Subject: [PATCH 36/37] fix: a field does not write into the mapping of aspects
 it is given

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index cd5ff7e..594e04f 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -189,7 +189,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects) if aspects else {}
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From ab1c4c1eed512986b071d8d6c0cd058c020e709b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:11 +0000
Subject: [PATCH 37/37] fix: a structure does not write into the mappings it is
 built from

---
 scheme/fields/structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index eb78f86..f9a9be1 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -67,7 +67,11 @@ class Structure(Field):
         if not isinstance(structure, dict):
             raise TypeError("argument 'structure' must be a dict value")
 
+        structure = structure.copy()
         if polymorphic_on:
+            for identity, candidate in structure.items():
+                if isinstance(candidate, dict):
+                    structure[identity] = candidate.copy()
             if '*' in structure:
                 common = structure.pop('*')
                 for value in structure.values():
-- 
2.43.0

