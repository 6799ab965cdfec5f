From 94d108d5e545c9cf0f32d90ae8ebc6ad9e0440e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 01/52] fix: in-place operators no longer detach the stored
 observable container

`h.items += [bad]` was rejected, yet the container still stored on the
instance had been detached: later mutations skipped validation and
notification.
---
 properties/base/containers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index edb8fbf..7a61063 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -81,8 +81,9 @@ def properties_mutator(cls, name, ioper=False):
             return getattr(super(cls, self), name)(*args, **kwargs)
         copy = cls(self)
         val = getattr(copy, name)(*args, **kwargs)
-        if not ioper:
-            setattr(self._instance, self._name, copy)
+        if ioper:
+            return val
+        setattr(self._instance, self._name, copy)
         self._instance = None
         self._name = ''
         return val
-- 
2.43.0


From 59454b2ddb9da018963165e5e668a885de453e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 02/52] fix: Float and Complex compare nan and inf equal to
 themselves

An accepted nan or inf value made validate() fail on the instance, and
setting it again was reported as a change.
---
 properties/basic.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 3ea5b5d..34ffb33 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -770,6 +770,15 @@ def _in_bounds(prop, instance, value):
         prop.error(instance, value, extra='Not within allowed range.')
 
 
+def _close(value_a, value_b):
+    """Check if numbers are within tolerance; inf and nan equal themselves"""
+    return (
+        abs(value_a - value_b) <= TOL or
+        value_a == value_b or
+        (value_a != value_a and value_b != value_b)                            #pylint: disable=comparison-with-itself
+    )
+
+
 class Integer(Boolean):
     """Property for integer values
 
@@ -879,7 +888,7 @@ class Float(Integer):
 
     def equal(self, value_a, value_b):
         try:
-            return abs(value_a - value_b) <= TOL
+            return _close(value_a, value_b)
         except TypeError:
             return False
 
@@ -928,8 +937,8 @@ class Complex(Boolean):
 
     def equal(self, value_a, value_b):
         try:
-            real_equal = abs(value_a.real - value_b.real) <= TOL
-            imag_equal = abs(value_a.imag - value_b.imag) <= TOL
+            real_equal = _close(value_a.real, value_b.real)
+            imag_equal = _close(value_a.imag, value_b.imag)
             return real_equal and imag_equal
         except (TypeError, AttributeError):
             return False
-- 
2.43.0


From 9fe7e33f16e2d9a4155048cc80e130627a014fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 03/52] fix: out-of-range numbers are rejected with a
 ValueError

Integer(inf), Float(10**400) and Complex(10**400) escaped with an
OverflowError instead of the documented ValueError.
---
 properties/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 34ffb33..7286b38 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -827,7 +827,7 @@ class Integer(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
         _in_bounds(self, instance, intval)
         return intval
@@ -881,7 +881,7 @@ class Float(Integer):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
         _in_bounds(self, instance, floatval)
         return floatval
@@ -931,7 +931,7 @@ class Complex(Boolean):
                     value=value,
                     extra='Not within tolerance range of {}.'.format(TOL),
                 )
-        except (TypeError, ValueError, AttributeError):
+        except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
         return compval
 
-- 
2.43.0


From d1d2fe88e20e0596bee2ff581350d1b864292e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 04/52] fix: HasUID.deserialize accepts several references to
 one instance

Once an instance had been rebuilt, the second reference to it in the same
payload failed with 'UID already used'.
---
 properties/extras/uid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index 20feeac..c7bb209 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -147,7 +147,7 @@ class HasUID(base.HasProperties):
             uid = value
         if uid in cls._INSTANCES and uid not in registry:
             return cls._INSTANCES[uid]
-        if uid in cls._INSTANCES:
+        if uid in cls._INSTANCES and registry[uid] is not cls._INSTANCES[uid]:
             raise ValueError('UID already used: {}'.format(uid))
         if uid not in registry:
             raise ValueError('Invalid UID: {}'.format(uid))
-- 
2.43.0


From 5ff88f43eb5b4043958938752dd85b86b5d169c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 05/52] fix: Singleton.deserialize leaves its input dictionary
 untouched

It popped '_singleton_id' from the caller's dictionary, so the same
payload could not be deserialized twice.
---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index bad960d..07c8004 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -77,12 +77,12 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
         """
         if not isinstance(value, dict):
             raise ValueError('HasProperties must deserialize from dictionary')
+        value = value.copy()
         identifier = value.pop('_singleton_id', value.get('name'))
         if identifier is None:
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        value = value.copy()
         name = value.get('name', None)
         value.update({'name': identifier})
         newinst = super(Singleton, cls).deserialize(
-- 
2.43.0


From 9a1c340566a7a50c79f1429991c9c77fc2e8cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 06/52] fix: a listeners_disabled context may be entered again
 while active

Nesting one context object inside itself left listeners disabled for
good, because the inner entry overwrote the saved state.
---
 properties/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index 485ed99..ed2522b 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -28,6 +28,7 @@ class listeners_disabled(object):                                              #
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
+        self._previous_states = []
 
     @property
     def disable_type(self):
@@ -53,14 +54,14 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_state = set(listeners_disabled._quarantine)
+        self._previous_states.append(set(listeners_disabled._quarantine))
         if self.disable_type is None:
             listeners_disabled._quarantine = set(LISTENER_TYPES)
         else:
             listeners_disabled._quarantine.update(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_state
+        listeners_disabled._quarantine = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
-- 
2.43.0


From dbebacfe97f1badc99bcd48075b145cfcc1ac634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 07/52] fix: dynamic values are serialized by the property that
 types them

serialize(save_dynamic=True) wrote raw datetimes, arrays and instances
into the supposedly JSON-compatible output.
---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 7286b38..e2eb677 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -583,6 +583,10 @@ class DynamicProperty(GettableProperty):                                       #
 
         return property(fget=fget, fset=fset, fdel=fdel, doc=scope.sphinx())
 
+    def serialize(self, value, **kwargs):
+        """Serialize using prop serialization"""
+        return self.prop.serialize(value, **kwargs)
+
     def equal(self, value_a, value_b):
         """Determine equality based on prop"""
         return self.prop.equal(value_a, value_b)
-- 
2.43.0


From 3deab1d391ca5ede42a8f86113f6906e1c1c34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 08/52] fix: deserialize no longer stores dynamic values on the
 instance

DynamicProperties have no saved state, but a payload written with
save_dynamic left one behind; from then on every serialize() of the
rebuilt instance included the dynamic property.
---
 properties/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7bf8fb6..7daf081 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -582,6 +582,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
                 for key, val in iteritems(mutable):
                     setattr(instance, key, val)
         for key, val in iteritems(immutable):
+            if isinstance(output_cls._props[key], basic.DynamicProperty):
+                continue
             valid_val = output_cls._props[key].validate(instance, val)
             instance._backend[key] = valid_val
         if assert_valid and not instance.validate():
-- 
2.43.0


From aa097c020a71fd55f14485dce5ab303d48244c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 09/52] fix: values under the old name of a renamed property
 convert to and from JSON

The raw JSON value was assigned without deserialization, so old payloads
of instances, images and the like were rejected; serialize(save_dynamic=True)
wrote the raw value.
---
 properties/base/base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 7daf081..0798229 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -505,7 +505,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             else:
                 prop_source = self._backend
             data = (
-                (key, self._props[key].serialize(getattr(self, key), **kwargs))
+                (key, self._json_prop(key).serialize(getattr(self, key),
+                                                     **kwargs))
                 for key in prop_source
             )
             json_dict = {k: v for k, v in data if v is not None}
@@ -573,7 +574,8 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
         kwargs.update({'trusted': trusted, 'strict': strict})
         newstate = {}
         for key, val in iteritems(state):
-            newstate[key] = output_cls._props[key].deserialize(val, **kwargs)
+            newstate[key] = output_cls._json_prop(key).deserialize(val,
+                                                                   **kwargs)
         mutable, immutable = utils.filter_props(output_cls, newstate, False)
         with handlers.listeners_disabled():
             if instance is None:
@@ -590,6 +592,16 @@ class HasProperties(with_metaclass(PropertyMetaclass, object)):
             raise utils.ValidationError('Deserialized instance is not valid')
         return instance
 
+    @classmethod
+    def _json_prop(cls, name):
+        """Returns the Property that converts the named value to/from JSON"""
+        prop = cls._props[name]
+        while isinstance(prop, basic.Renamed) and not (
+                prop.serializer or prop.deserializer
+        ):
+            prop = cls._props[prop.new_name]
+        return prop
+
     @classmethod
     def _deserialize_class(cls, input_cls_name, trusted, strict):
         """Returns the HasProperties class to use for deserialization"""
-- 
2.43.0


From fe5a26e20b8f2d7d88ea6b6b23eaa00303f1607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 10/52] fix: vector arrays accept tuples of directions and
 leave the input alone

Direction strings were replaced inside the caller's list, and raised
TypeError for a tuple.
---
 properties/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/math.py b/properties/math.py
index bd44fa2..e255fcb 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -445,6 +445,7 @@ class Vector3Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if val.upper() not in VECTOR_DIRECTIONS:
@@ -515,6 +516,7 @@ class Vector2Array(BaseVector):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if isinstance(value, (tuple, list)):
+            value = list(value)
             for i, val in enumerate(value):
                 if isinstance(val, string_types):
                     if (
-- 
2.43.0


From 514bd00a786073da597dd35362b02ff966ffb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 11/52] fix: ImagePNG.to_json serializes the whole image

It started at the current stream position, so an image that had been read
serialized to nothing.
---
 properties/images.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/images.py b/properties/images.py
index aef744a..e145bc6 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -88,6 +88,7 @@ class ImagePNG(File):
 
         to_json assumes that value has passed validation.
         """
+        value.seek(0)
         b64rep = base64.b64encode(value.read())
         value.seek(0)
         jsonrep = '{preamble}{b64}'.format(
-- 
2.43.0


From 3d86389cd842f07866d6f5fd2132cd9efce3316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 12/52] fix: Color knows the web color name firebrick

The table had it as 'irebrick'.
---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index e2eb677..ce326bf 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1541,7 +1541,7 @@ COLORS_NAMED = dict(
     darkslategray="2F4F4F", darkslategrey="2F4F4F", darkturquoise="00CED1",
     darkviolet="9400D3", deeppink="FF1493", deepskyblue="00BFFF",
     dimgray="696969", dimgrey="696969", dodgerblue="1E90FF",
-    irebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
+    firebrick="B22222", floralwhite="FFFAF0", forestgreen="228B22",
     fuchsia="FF00FF", gainsboro="DCDCDC", ghostwhite="F8F8FF",
     gold="FFD700", goldenrod="DAA520", gray="808080",
     grey="808080", green="008000", greenyellow="ADFF2F",
-- 
2.43.0


From cee4f32f37fe64809d987a41c10f407e0c729bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 13/52] fix: Color rejects strings that are not hex digits

int(x, 16) also takes signs and spaces, so '+F+F+F' and ' 1 2 3' were
accepted as colors.
---
 properties/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index ce326bf..db1f9bc 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1209,6 +1209,8 @@ class Color(Property):
                 self.error(instance, value, extra='Color must be known name '
                            'or a hex with 6 digits. e.g. "#FF0000"')
             try:
+                if not set(value) <= set('0123456789ABCDEF'):
+                    raise ValueError('Not base 16')
                 value = [
                     int(value[i:i + 6 // 3], 16) for i in range(0, 6, 6 // 3)
                 ]
-- 
2.43.0


From 7aab7e6ed976e168aec085f2142b90a7aae05a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 14/52] fix: URL.info returns its description

It returned None: class docs and error messages lacked the text, and a
dynamic URL property could not be created.
---
 properties/extras/web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/extras/web.py b/properties/extras/web.py
index 6c8f40d..ad3fc5f 100644
--- a/properties/extras/web.py
+++ b/properties/extras/web.py
@@ -67,3 +67,4 @@ class URL(basic.String):
             info += ', path or query params removed'
         if self.remove_fragment:
             info += ', fragment removed'
+        return info
-- 
2.43.0


From 3b34fd3f35a6092a6e77a7619432a9606b4aa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 15/52] fix: inherited _defaults respect the MRO with multiple
 inheritance

A base that declares no _defaults carries a merged copy, which overrode the
defaults declared by a class between it and their common ancestor.
---
 properties/base/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index 0798229..ccbf665 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -214,6 +214,9 @@ class PropertyMetaclass(type):
             )
         classdict['__doc__'] = doc_str
 
+        # Keep the defaults declared on this class apart from inherited ones
+        classdict['_own_defaults'] = classdict.get('_defaults', dict())
+
         # Create the new class
         newcls = super(PropertyMetaclass, mcs).__new__(
             mcs, name, bases, classdict
@@ -222,7 +225,9 @@ class PropertyMetaclass(type):
         # Update the class defaults to include inherited values
         _defaults = dict()
         for parent in reversed(newcls.__mro__):
-            _defaults.update(getattr(parent, '_defaults', dict()))
+            _defaults.update(parent.__dict__.get(
+                '_own_defaults', parent.__dict__.get('_defaults', dict())
+            ))
 
         # Ensure defaults are valid and add them to the class
         for key, value in iteritems(_defaults):
-- 
2.43.0


From 2d71775d4332284dd6374ac777b2f4d7ff076802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 16/52] fix: unhashable container items are rejected with a
 ValueError

Set and Dictionary properties let the TypeError of the builtin container
escape from validation.
---
 properties/base/containers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 7a61063..1493cbc 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -279,7 +279,11 @@ class Tuple(basic.Property):
                 out += [self.prop.validate(instance, val)]
             except ValueError:
                 self.error(instance, val, extra='This item is invalid.')
-        return out_class(out)
+        try:
+            return out_class(out)
+        except TypeError:
+            self.error(instance, value,
+                       extra='Cannot store items in {}.'.format(out_class))
 
     def assert_valid(self, instance, value=None):
         """Check if tuple and contained properties are valid"""
@@ -592,7 +596,10 @@ class Dictionary(basic.Property):
                     val = self.value_prop.validate(instance, val)
                 except ValueError:
                     self.error(instance, val, extra='This value is invalid.')
-            out[key] = val
+            try:
+                out[key] = val
+            except TypeError:
+                self.error(instance, key, extra='This key is unhashable.')
         value = out
         if not self.observe_mutations:
             return value
-- 
2.43.0


From 5aaf859c5fec4a88db94da9cde51e0ab30db4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 17/52] fix: containers coerce a zero-dimensional array like
 any other scalar

Iterating over it raised TypeError.
---
 properties/base/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index 1493cbc..aacd9c2 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -267,7 +267,8 @@ class Tuple(basic.Property):
         """
         if not self.coerce and not isinstance(value, self._class_container):
             self.error(instance, value)
-        if self.coerce and not isinstance(value, CONTAINERS):
+        if self.coerce and (not isinstance(value, CONTAINERS) or
+                            getattr(value, 'ndim', 1) == 0):
             value = [value]
         if not isinstance(value, self._class_container):
             out_class = self._class_container
-- 
2.43.0


From 128f4b953b7b638b499d9005908e2b4fd5c5ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 18/52] fix: String.validate leaves an already coerced value
 unchanged

Changing case could expose characters to strip, so validating the stored
value again modified it and validate() failed on the instance.
---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index db1f9bc..e2710d5 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1045,6 +1045,7 @@ class String(Property):
             value = value.upper()
         elif self.change_case == 'lower':
             value = value.lower()
+        value = value.strip(self.strip)
         if self.unicode:
             value = text_type(value)
         else:
-- 
2.43.0


From 3258923f7a90440cdc8a8420bff450cfe58da003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 19/52] fix: Boolean stores numpy booleans as bool

A stored numpy.bool_ could not be dumped to JSON and did not equal the
same bool.
---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index e2710d5..4e31190 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -739,7 +739,7 @@ class Boolean(Property):
             value = bool(value)
         if not isinstance(value, BOOLEAN_TYPES):
             self.error(instance, value)
-        return value
+        return bool(value)
 
     def equal(self, value_a, value_b):
         return value_a is value_b
-- 
2.43.0


From 89b59931c1b12db5dd3e4ad596476e261dc1311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 20/52] fix: StringChoice does not rewrite the caller's choices
 dictionary

---
 properties/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties/basic.py b/properties/basic.py
index 4e31190..f27d882 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1112,6 +1112,7 @@ class StringChoice(Property):
             value = collections.OrderedDict((v, []) for v in value)
         if not isinstance(value, dict):
             raise TypeError('choices must be a set, list, tuple, or dict')
+        value = value.copy()
         for key, val in value.items():
             if isinstance(val, (set, list, tuple)):
                 value[key] = list(val)
-- 
2.43.0


From 1b801564f32abdf94be63be092e9b495ee9b05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 21/52] fix: OrderedDict.move_to_end on an observable
 dictionary notifies

---
 properties/base/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/base/containers.py b/properties/base/containers.py
index aacd9c2..ff9c836 100644
--- a/properties/base/containers.py
+++ b/properties/base/containers.py
@@ -31,7 +31,8 @@ OBSERVABLE_REGISTRY = {}
 MUTATOR_CATEGORIES = {
     '_mutators': [
         'add', 'append', 'clear', 'difference_update', 'discard',
-        'extend', 'insert', 'intersection_update', 'pop', 'popitem',
+        'extend', 'insert', 'intersection_update', 'move_to_end', 'pop',
+        'popitem',
         'remove', 'reverse', 'setdefault', 'sort',
         'symmetric_difference_update', 'update', '__delitem__',
         '__delslice__', '__setitem__', '__setslice__',
-- 
2.43.0


From a6f891207f366d52010f9c8f11825e2d3bf47422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 22/52] fix: vectors with nan or inf components survive a round
 trip

to_json writes these as strings, which the vector classes cannot load.
---
 properties/math.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index e255fcb..e59f9bf 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -221,7 +221,16 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(value).astype(self.dtype[0])
+        return self.wrapper(self._load_specials(value)).astype(self.dtype[0])
+
+    @classmethod
+    def _load_specials(cls, value):
+        """Convert the 'nan' and 'inf' strings written by to_json"""
+        if isinstance(value, (list, tuple)):
+            return [cls._load_specials(val) for val in value]
+        if isinstance(value, string_types) and value in ('nan', 'inf', '-inf'):
+            return float(value)
+        return value
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From c61b3a15b925e4f78e8c28d32964af2e7cbd5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 23/52] fix: a HasUID that fails to initialize does not keep
 its uid reserved

Retrying with corrected arguments failed with 'UID already used'.
---
 properties/extras/uid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index c7bb209..cd05232 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -28,7 +28,12 @@ class HasUID(base.HasProperties):
     )
 
     def __init__(self, **kwargs):
-        super(HasUID, self).__init__(**kwargs)
+        try:
+            super(HasUID, self).__init__(**kwargs)
+        except Exception:
+            if self._INSTANCES.get(self.uid) is self:
+                self._INSTANCES.pop(self.uid)
+            raise
         self._INSTANCES[self.uid] = self
 
     @handlers.validator('uid')
-- 
2.43.0


From 5ba5e5419607a4873188c9a7e10e7f2e5ec30738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 24/52] fix: deleting the uid of a HasUID does not register
 'undefined'

Deleting the uid of a second instance then failed with 'UID already used'.
---
 properties/extras/uid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index cd05232..e77b747 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -51,7 +51,8 @@ class HasUID(base.HasProperties):
 
     @handlers.observer('uid')
     def _update_instances(self, change):
-        self._INSTANCES.update({change['value']: self})
+        if change['value'] is not utils.undefined:
+            self._INSTANCES.update({change['value']: self})
 
     @classmethod
     def validate_uid(cls, uid):                                                #pylint: disable=unused-argument
-- 
2.43.0


From eae9fea51ba1d5efba756d104f169231ae8d6745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 25/52] fix: BaseTask.report_status accepts a status without
 progress

progress is optional on TaskStatus, but reporting a message alone raised
TypeError.
---
 properties/extras/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/extras/task.py b/properties/extras/task.py
index 82e5264..2393dd6 100644
--- a/properties/extras/task.py
+++ b/properties/extras/task.py
@@ -83,7 +83,8 @@ class BaseTask(object):
         status = Instance('', TaskStatus).validate(None, status)
         print(r'{taskname} | {percent:>3}% | {message}'.format(
             taskname=self.__class__.__name__,
-            percent=int(round(100*status.progress)),
+            percent='--' if status.progress is None
+            else int(round(100*status.progress)),
             message=status.message if status.message else '',
         ))
 
-- 
2.43.0


From fd6f5d209c312426d0f1a120e85e73782378c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 26/52] fix: untyped properties compare nan and
 multi-dimensional arrays

A stored nan made validate() fail, and replacing a 2-D array raised
'truth value is ambiguous' after the value had been stored, so observers
were never notified.
---
 properties/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index f27d882..407732c 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -269,7 +269,11 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
             This method assumes that :code:`None` and
             :code:`properties.undefined` are never passed in as values
         """
+        if value_a is value_b:
+            return True
         equal = value_a == value_b
+        if hasattr(equal, 'all'):
+            return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
         return equal
-- 
2.43.0


From 9091aa5aa27c5a0e449896226ade88655fd71852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 27/52] fix: HasUID.deserialize honors assert_valid for the
 root instance

---
 properties/extras/uid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properties/extras/uid.py b/properties/extras/uid.py
index e77b747..53139d5 100644
--- a/properties/extras/uid.py
+++ b/properties/extras/uid.py
@@ -144,7 +144,8 @@ class HasUID(base.HasProperties):
             input parameters.
         """
         registry = kwargs.pop('registry', None)
-        if registry is None:
+        root = registry is None
+        if root:
             if not isinstance(value, dict):
                 raise ValueError('HasUID must deserialize from dictionary')
             registry = value.copy()
@@ -170,6 +171,7 @@ class HasUID(base.HasProperties):
                 value=value,
                 trusted=trusted,
                 strict=strict,
+                assert_valid=assert_valid and root,
                 registry=registry,
                 _instance=new_inst,
                 **kwargs
-- 
2.43.0


From b176d8076399abf01085fb5ea968703144338e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 28/52] fix: Integer.from_json does not truncate fractional
 numbers

---
 properties/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 407732c..b710517 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -857,6 +857,9 @@ class Integer(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
+        if isinstance(value, float) and not value.is_integer():
+            # Not truncated here; validation decides about this value
+            return value
         return int(value)
 
 
-- 
2.43.0


From 2172be551a17a8dd91239eaab5b7516836afcbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 29/52] fix: Array.deserialize keeps an allowed data type

---
 properties/math.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index e59f9bf..49ebe07 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -214,14 +214,18 @@ class Array(Property):
         """De-serialize the property value from JSON
 
         If no deserializer has been registered, this converts the value
-        to the wrapper class with given dtype.
+        to the wrapper class; if the data type is not one of the given
+        dtypes, it is converted to the first of these.
         """
         kwargs.update({'trusted': kwargs.get('trusted', False)})
         if self.deserializer is not None:
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        return self.wrapper(self._load_specials(value)).astype(self.dtype[0])
+        value = self.wrapper(self._load_specials(value))
+        if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
+            return value
+        return value.astype(self.dtype[0])
 
     @classmethod
     def _load_specials(cls, value):
-- 
2.43.0


From ca7ee441b753c759d365e0f883b29dfadfd2fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 30/52] fix: undefined default of a Union removes the default
 of its members

---
 properties/base/union.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index 1c800c3..bec7eb2 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -124,14 +124,12 @@ class Union(basic.Property):
     @property
     def default(self):
         """Default value of the property"""
-        prop_def = getattr(self, '_default', utils.undefined)
+        if hasattr(self, '_default'):
+            return self._default
         for prop in self.props:
-            if prop.default is utils.undefined:
-                continue
-            if prop_def is utils.undefined:
-                prop_def = prop.default
-                break
-        return prop_def
+            if prop.default is not utils.undefined:
+                return prop.default
+        return utils.undefined
 
     @default.setter
     def default(self, value):
-- 
2.43.0


From 25ba0d94acfc61cf00739f24ac9c8116b967cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 31/52] fix: inherited members follow the method resolution
 order

---
 properties/base/base.py | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index ccbf665..eca21f1 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -25,26 +25,15 @@ GENERIC_ERRORS = (ValueError, KeyError, TypeError, AttributeError)
 def build_from_bases(bases, classdict, attr, attr_dict):
     """Helper function to build private HasProperties attributes"""
     output = OrderedDict()
-    output_keys = set()
-    all_bases = []
-    # Go through the bases from furthest to nearest ancestor
-    for base in reversed(bases):
-        # Only keep the items that are still defined on the bases
-        if base is not object and isinstance(base, PropertyMetaclass):
-            output_keys = output_keys.union(getattr(base, attr))
-        # Collect all bases so we ensure overridden items are assigned
-        # in the correct order
-        for item in reversed(base.__mro__):
-            if item is object or not isinstance(item, PropertyMetaclass):
-                continue
-            if item not in all_bases:
-                all_bases.append(item)
-    # Update the items in reverse MRO order; only keep those that are
-    # defined on the bases
-    for base in all_bases:
-        for key, val in iteritems(getattr(base, attr)):
-            if key in base.__dict__ and key in output_keys:
-                output.update({key: val})
+    # Go through the ancestors from furthest to nearest, so each name ends
+    # up with the item (if any) that its nearest definition provides
+    for base in reversed(merge_mro(bases)):
+        items = getattr(base, attr, {})
+        for key in base.__dict__:
+            if key in items and isinstance(base, PropertyMetaclass):
+                output.update({key: items[key]})
+            else:
+                output.pop(key, None)
     # Remove all items that were overridden by this class; this is
     # potentially a superset of the items added back in the next step.
     for key in classdict:
@@ -55,6 +44,23 @@ def build_from_bases(bases, classdict, attr, attr_dict):
     return output
 
 
+def merge_mro(bases):
+    """Method resolution order of the ancestors of a class with these bases"""
+    sequences = [list(base.__mro__) for base in bases] + [list(bases)]
+    output = []
+    while any(sequences):
+        for seq in sequences:
+            if seq and not any(seq[0] in other[1:] for other in sequences):
+                nearest = seq[0]
+                break
+        else:
+            raise TypeError('Cannot create a consistent method resolution '
+                            'order for bases')
+        output.append(nearest)
+        sequences = [[base for base in seq if base is not nearest]
+                     for seq in sequences]
+    return output
+
 
 class PropertyMetaclass(type):
     """Metaclass to establish behavior of **HasProperties** classes
-- 
2.43.0


From 8e7de8b82529e9798370bf9572ba7278e3035e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 32/52] fix: untyped properties compare values that numpy
 cannot broadcast

---
 properties/basic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index b710517..4c27de3 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -271,8 +271,15 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
         """
         if value_a is value_b:
             return True
-        equal = value_a == value_b
+        try:
+            equal = value_a == value_b
+        except ValueError:
+            # Values that cannot be compared, such as mismatched arrays
+            return False
         if hasattr(equal, 'all'):
+            shapes = [getattr(val, 'shape', None) for val in (value_a, value_b)]
+            if None not in shapes and shapes[0] != shapes[1]:
+                return False
             return bool(equal.all())
         if hasattr(equal, '__iter__'):
             return all(equal)
-- 
2.43.0


From 6f8039e1858b7eae1e69d965d38d4242c7b808c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 33/52] fix: union equality ignores members that do not accept
 the values

---
 properties/base/union.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/properties/base/union.py b/properties/base/union.py
index bec7eb2..5a5de2b 100644
--- a/properties/base/union.py
+++ b/properties/base/union.py
@@ -250,7 +250,15 @@ class Union(basic.Property):
         return self.from_json(value, **kwargs)
 
     def equal(self, value_a, value_b):
-        return any((prop.equal(value_a, value_b) for prop in self.props))
+        for prop in self.props:
+            try:
+                prop.validate(None, value_a)
+                prop.validate(None, value_b)
+            except GENERIC_ERRORS:
+                continue
+            if prop.equal(value_a, value_b):
+                return True
+        return False
 
     @staticmethod
     def to_json(value, **kwargs):
-- 
2.43.0


From 0cea64dfb5422e5ff14f614014ff274e48bd15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 34/52] fix: too large integers in serialized arrays raise
 ValueError

---
 properties/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 49ebe07..6290e47 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -225,7 +225,11 @@ class Array(Property):
         value = self.wrapper(self._load_specials(value))
         if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
             return value
-        return value.astype(self.dtype[0])
+        try:
+            return value.astype(self.dtype[0])
+        except OverflowError:
+            raise ValueError('Could not load array from JSON: number too '
+                             'large for {}'.format(self.dtype[0].__name__))
 
     @classmethod
     def _load_specials(cls, value):
-- 
2.43.0


From 7067dc24cba0547ed19e59c2017ee103c9431c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 35/52] fix: a singleton whose deserialization fails is not
 kept in the registry

---
 properties/extras/singleton.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 07c8004..b8be807 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -85,13 +85,17 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             return cls._SINGLETONS[identifier]
         name = value.get('name', None)
         value.update({'name': identifier})
-        newinst = super(Singleton, cls).deserialize(
-            value,
-            trusted=trusted,
-            strict=strict,
-            assert_valid=assert_valid,
-            **kwargs
-        )
-        if name:
-            newinst.name = name
+        try:
+            newinst = super(Singleton, cls).deserialize(
+                value,
+                trusted=trusted,
+                strict=strict,
+                assert_valid=assert_valid,
+                **kwargs
+            )
+            if name:
+                newinst.name = name
+        except Exception:
+            cls._SINGLETONS.pop(identifier, None)
+            raise
         return newinst
-- 
2.43.0


From a65680096f363c4548e35bf7d7e1dcbc94182f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:02 +0000
Subject: [PATCH 36/52] fix: deserialization restores an empty name of a
 renamed singleton

---
 properties/extras/singleton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index b8be807..9c333f9 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -93,7 +93,7 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
                 assert_valid=assert_valid,
                 **kwargs
             )
-            if name:
+            if name is not None:
                 newinst.name = name
         except Exception:
             cls._SINGLETONS.pop(identifier, None)
-- 
2.43.0


From 2462317156e84921203f6f775f687e3b31cb0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 37/52] fix: singletons of classes without a name property can
 be deserialized

---
 properties/extras/singleton.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/properties/extras/singleton.py b/properties/extras/singleton.py
index 9c333f9..69db7e7 100644
--- a/properties/extras/singleton.py
+++ b/properties/extras/singleton.py
@@ -83,9 +83,20 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             raise ValueError('Singleton classes must contain identifying name')
         if identifier in cls._SINGLETONS:
             return cls._SINGLETONS[identifier]
-        name = value.get('name', None)
-        value.update({'name': identifier})
+        output_cls = cls._deserialize_class(
+            input_cls_name=value.get('__class__'),
+            trusted=trusted,
+            strict=strict,
+        )
+        if identifier in output_cls._SINGLETONS:
+            return output_cls._SINGLETONS[identifier]
+        name = value.pop('name', None)
         try:
+            if 'name' in output_cls._props:
+                value.update({'name': identifier})
+            else:
+                name = None
+                kwargs['_instance'] = output_cls(identifier)
             newinst = super(Singleton, cls).deserialize(
                 value,
                 trusted=trusted,
@@ -96,6 +107,6 @@ class Singleton(six.with_metaclass(SingletonMetaclass, HasProperties)):
             if name is not None:
                 newinst.name = name
         except Exception:
-            cls._SINGLETONS.pop(identifier, None)
+            output_cls._SINGLETONS.pop(identifier, None)
             raise
         return newinst
-- 
2.43.0


From 3ef7b9180f59681ee7ec74ae83f0f1e8ea108711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 38/52] fix: an immutable property whose default function gives
 undefined stays undefined

---
 properties/base/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/base/base.py b/properties/base/base.py
index eca21f1..83ad389 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -279,10 +279,10 @@ class PropertyMetaclass(type):
                     val = obj._defaults[key]
                 else:
                     val = prop.default
-                if val is utils.undefined:
-                    continue
                 if callable(val):
                     val = val()
+                if val is utils.undefined:
+                    continue
                 obj._backend[key] = prop.validate(obj, val)
 
         # Set the other defaults without triggering change notifications
-- 
2.43.0


From 9e4032fb161f58c5cd2e4048c9ef5547a2cb0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 39/52] fix: report values an array property cannot convert as
 validation errors

---
 properties/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties/math.py b/properties/math.py
index 6290e47..36851fa 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -142,7 +142,10 @@ class Array(Property):
         if not isinstance(value, (tuple, list, np.ndarray)):
             self.error(instance, value)
         if self.coerce:
-            value = self.wrapper(value)
+            try:
+                value = self.wrapper(value)
+            except (TypeError, ValueError, OverflowError):
+                self.error(instance, value)
         valid_class = (
             self.wrapper if isinstance(self.wrapper, type) else np.ndarray
         )
-- 
2.43.0


From a2823f7bf8b04265557b13cc2fb5662d09af23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 40/52] fix: validate PNG data from its start and refuse empty
 files with ValidationError

---
 properties/images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties/images.py b/properties/images.py
index e145bc6..e37dac3 100644
--- a/properties/images.py
+++ b/properties/images.py
@@ -63,9 +63,10 @@ class ImagePNG(File):
             pass
         else:
             value = super(ImagePNG, self).validate(instance, value)
+            value.seek(0)
             try:
                 png.Reader(value).validate_signature()
-            except png.FormatError:
+            except (png.FormatError, EOFError):
                 self.error(instance, value, extra='Open file is not PNG.')
             value.seek(0)
         # Write input to new bytestream
-- 
2.43.0


From b4929c7359fa978edf17561030f1f315099da678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 41/52] fix: accept files opened in mode 'wb+'

---
 properties/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/basic.py b/properties/basic.py
index 4c27de3..5912522 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1421,6 +1421,9 @@ class File(Property):
             self.error(instance, value, extra='Not a file-like object')
         if not hasattr(value, 'mode') or self.valid_modes is None:
             pass
+        elif value.mode == 'rb+' and 'wb+' in self.valid_modes:
+            # Files opened with 'wb+' report this mode
+            pass
         elif value.mode not in self.valid_modes:
             self.error(instance, value,
                        extra='Invalid mode: {}'.format(value.mode))
-- 
2.43.0


From ab898e6d24930d7464a65ec0324552b2a7174803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 42/52] fix: report file names that are not possible as
 validation errors

---
 properties/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties/basic.py b/properties/basic.py
index 5912522..48af4d6 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1414,7 +1414,7 @@ class File(Property):
         if isinstance(value, string_types) and self.mode is not None:
             try:
                 value = open(value, self.mode)
-            except (IOError, TypeError):
+            except (IOError, TypeError, ValueError):
                 self.error(instance, value,
                            extra='Cannot open file: {}'.format(value))
         if not all([hasattr(value, attr) for attr in ('read', 'seek')]):
-- 
2.43.0


From 1af6e22c736e68c92b1d9386bac430957ec7eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 43/52] fix: keep the file open when its deletion is refused

---
 properties/basic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 48af4d6..e428ae2 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -1398,9 +1398,10 @@ class File(Property):
 
         def fdel(self):
             """Set value to utils.undefined on delete"""
-            if self._get(scope.name) is not None:
-                self._get(scope.name).close()
+            value = self._get(scope.name)
             self._set(scope.name, undefined)
+            if value is not None:
+                value.close()
 
         new_prop = property(fget=prop.fget, fset=prop.fset,
                             fdel=fdel, doc=scope.sphinx())
-- 
2.43.0


From dd8c3f1393ff7d2357dd4bcaaefe140de565a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 44/52] fix: accept None as the limit of numbers next to
 another limit

The documentation says None (the default) means no limit, but passing it
after the other limit compared it to a number and failed.
---
 properties/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index e428ae2..b663d3b 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -817,7 +817,7 @@ class Integer(Boolean):
 
     @min.setter
     def min(self, value):
-        if self.max is not None and value > self.max:
+        if value is not None and self.max is not None and value > self.max:
             raise TypeError('min must be <= max')
         self._min = value
 
@@ -828,7 +828,7 @@ class Integer(Boolean):
 
     @max.setter
     def max(self, value):
-        if self.min is not None and value < self.min:
+        if value is not None and self.min is not None and value < self.min:
             raise TypeError('max must be >= min')
         self._max = value
 
-- 
2.43.0


From 639c094df4ebe1331829f1874e0bb64a4b93a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:38 +0000
Subject: [PATCH 45/52] fix: refuse renamed properties that refer back to
 themselves

Such a property has no target: accessing it exhausts the stack, and
serializing or deserializing it by name does not terminate.
---
 properties/base/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 83ad389..148fd67 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -136,6 +136,12 @@ class PropertyMetaclass(type):
             if isinstance(prop, basic.Renamed) and prop.new_name not in _props:
                 raise TypeError('Invalid new name for renamed property: '
                                 '{}'.format(prop.new_name))
+            names = [key]
+            while isinstance(_props.get(names[-1]), basic.Renamed):
+                names.append(_props[names[-1]].new_name)
+                if names[-1] in names[:-1]:
+                    raise TypeError('Renamed property refers back to itself: '
+                                    '{}'.format(' -> '.join(names)))
             prop.name = key
             classdict[key] = prop.get_property()
 
-- 
2.43.0


From 62605d678b33a4aaaae928f23283e6dbef638d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 46/52] fix: numbers that are not within tolerance report one
 error

Integer, Float and Complex raised the ValidationError inside the try block
whose handler reports 'Cannot cast', so the error hook was called twice and
the reason that was reported was the wrong one
---
 properties/basic.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index b663d3b..710f8d3 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -836,14 +836,15 @@ class Integer(Boolean):
         """Checks that value is an integer and in min/max bounds"""
         try:
             intval = int(value)
-            if not self.cast and abs(value - intval) > TOL:
-                self.error(
-                    instance=instance,
-                    value=value,
-                    extra='Not within tolerance range of {}.'.format(TOL),
-                )
+            within_tol = self.cast or not abs(value - intval) > TOL
         except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to integer.')
+        if not within_tol:
+            self.error(
+                instance=instance,
+                value=value,
+                extra='Not within tolerance range of {}.'.format(TOL),
+            )
         _in_bounds(self, instance, intval)
         return intval
 
@@ -893,14 +894,15 @@ class Float(Integer):
         """
         try:
             floatval = float(value)
-            if not self.cast and abs(value - floatval) > TOL:
-                self.error(
-                    instance=instance,
-                    value=value,
-                    extra='Not within tolerance range of {}.'.format(TOL),
-                )
+            within_tol = self.cast or not abs(value - floatval) > TOL
         except (TypeError, ValueError, OverflowError):
             self.error(instance, value, extra='Cannot cast to float.')
+        if not within_tol:
+            self.error(
+                instance=instance,
+                value=value,
+                extra='Not within tolerance range of {}.'.format(TOL),
+            )
         _in_bounds(self, instance, floatval)
         return floatval
 
@@ -940,17 +942,18 @@ class Complex(Boolean):
         """
         try:
             compval = complex(value)
-            if not self.cast and (
-                    abs(value.real - compval.real) > TOL or
-                    abs(value.imag - compval.imag) > TOL
-            ):
-                self.error(
-                    instance=instance,
-                    value=value,
-                    extra='Not within tolerance range of {}.'.format(TOL),
-                )
+            within_tol = self.cast or not (
+                abs(value.real - compval.real) > TOL or
+                abs(value.imag - compval.imag) > TOL
+            )
         except (TypeError, ValueError, AttributeError, OverflowError):
             self.error(instance, value)
+        if not within_tol:
+            self.error(
+                instance=instance,
+                value=value,
+                extra='Not within tolerance range of {}.'.format(TOL),
+            )
         return compval
 
     def equal(self, value_a, value_b):
-- 
2.43.0


From c5c8d6d452b882571d84e9e9562ea536b30a0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 47/52] fix: deserializing too large floats and complex numbers
 raises ValueError

Float.from_json(10**400) escaped with an OverflowError, so a Union of a Float
and an Integer could store and serialize such a number but not load it back.
---
 properties/basic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index 710f8d3..d33d490 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -920,7 +920,10 @@ class Float(Integer):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return float(value)
+        try:
+            return float(value)
+        except OverflowError:
+            raise ValueError('Could not load float from JSON: number too large')
 
 
 class Complex(Boolean):
@@ -970,7 +973,11 @@ class Complex(Boolean):
 
     @staticmethod
     def from_json(value, **kwargs):
-        return complex(value)
+        try:
+            return complex(value)
+        except OverflowError:
+            raise ValueError('Could not load complex number from JSON: number '
+                             'too large')
 
 
 class String(Property):
-- 
2.43.0


From 2cde94118e834cc62a2ff8baa36bb039770b87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 48/52] fix: too large integers in serialized vectors raise
 ValueError

---
 properties/math.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/properties/math.py b/properties/math.py
index 36851fa..b9afe46 100644
--- a/properties/math.py
+++ b/properties/math.py
@@ -225,10 +225,11 @@ class Array(Property):
             return self.deserializer(value, **kwargs)
         if value is None:
             return None
-        value = self.wrapper(self._load_specials(value))
-        if value.dtype.kind in ''.join(TYPE_MAPPINGS[t] for t in self.dtype):
-            return value
         try:
+            value = self.wrapper(self._load_specials(value))
+            kinds = ''.join(TYPE_MAPPINGS[t] for t in self.dtype)
+            if value.dtype.kind in kinds:
+                return value
             return value.astype(self.dtype[0])
         except OverflowError:
             raise ValueError('Could not load array from JSON: number too '
-- 
2.43.0


From 89d859d809c78236e7de3a34cae8642fd0cf39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 49/52] fix: stop_recursion_with tells equal instances apart

Instances were looked up among the held objects with ==, so a method
of an instance with its own __eq__ was skipped as recursive when an equal
instance was running it.
---
 properties/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properties/utils.py b/properties/utils.py
index bcb688d..a1b1c93 100644
--- a/properties/utils.py
+++ b/properties/utils.py
@@ -102,7 +102,7 @@ class stop_recursion_with(object):                                             #
             This function holds the source object in the decorator's
             held_objects while the function is running.
             """
-            if self in decorator.held_objects:
+            if any(self is held for held in decorator.held_objects):
                 if callable(decorator.backup):
                     output = decorator.backup(self, *args, **kwargs)
                 else:
@@ -114,7 +114,9 @@ class stop_recursion_with(object):                                             #
                 decorator.held_objects.append(self)
                 output = func(self, *args, **kwargs)
             finally:
-                decorator.held_objects.remove(self)
+                decorator.held_objects = [
+                    held for held in decorator.held_objects if held is not self
+                ]
             return output
 
         return run_once
-- 
2.43.0


From 1048a05ce065938224209112580b925dd9c0617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 50/52] fix: equal no longer compares renamed properties with
 ==

Renamed properties have no equality of their own, so instances with an old
name for an Instance, a container of instances or a tolerant type never
compared equal, not even to their copies.
---
 properties/base/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properties/base/base.py b/properties/base/base.py
index 148fd67..5386375 100644
--- a/properties/base/base.py
+++ b/properties/base/base.py
@@ -675,6 +675,9 @@ def equal(value_a, value_b):
         if value_a.__class__ is not value_b.__class__:
             return False
         for prop in itervalues(value_a._props):
+            if isinstance(prop, basic.Renamed):
+                # The value is compared under its new name
+                continue
             prop_a = getattr(value_a, prop.name)
             prop_b = getattr(value_b, prop.name)
             if prop_a is None and prop_b is None:
-- 
2.43.0


From ab9e1efd32aa12c73a6b426953374cff89143b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 51/52] fix: documentation refers to property classes under
 python -O

The check for IPython was an assert, which optimized code skips.
---
 properties/basic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properties/basic.py b/properties/basic.py
index d33d490..b565538 100644
--- a/properties/basic.py
+++ b/properties/basic.py
@@ -370,11 +370,11 @@ class GettableProperty(with_metaclass(ArgumentWrangler, object)):              #
     def sphinx(self):
         """Generate Sphinx-formatted documentation for the Property"""
         try:
-            assert __IPYTHON__
-            classdoc = ''
-        except (NameError, AssertionError):
-            scls = self.sphinx_class()
-            classdoc = ' ({})'.format(scls) if scls else ''
+            in_ipython = bool(__IPYTHON__)
+        except NameError:
+            in_ipython = False
+        scls = '' if in_ipython else self.sphinx_class()
+        classdoc = ' ({})'.format(scls) if scls else ''
 
         prop_doc = '**{name}**{cls}: {doc}{info}'.format(
             name=self.name,
-- 
2.43.0


From 1ded0c19bef6d7f86f54604ee26fa87e09b9a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 52/52] fix: disabled listeners stay disabled in the current
 thread only

---
 properties/handlers.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/properties/handlers.py b/properties/handlers.py
index ed2522b..48f9822 100644
--- a/properties/handlers.py
+++ b/properties/handlers.py
@@ -4,6 +4,8 @@ from __future__ import division
 from __future__ import print_function
 from __future__ import unicode_literals
 
+from threading import local
+
 from six import string_types
 
 from .utils import everything
@@ -11,6 +13,12 @@ from .utils import everything
 LISTENER_TYPES = {'validate', 'observe_set', 'observe_change'}
 
 
+class _Quarantine(local):                                                      #pylint: disable=too-few-public-methods
+    """Types of listeners that are disabled in the current thread"""
+
+    types = frozenset()
+
+
 class listeners_disabled(object):                                              #pylint: disable=invalid-name, too-few-public-methods
     """Context manager for disabling all HasProperties listeners
 
@@ -24,7 +32,7 @@ class listeners_disabled(object):                                              #
             self.quietly_update()
     """
 
-    _quarantine = set()
+    _quarantine = _Quarantine()
 
     def __init__(self, disable_type=None):
         self.disable_type = disable_type
@@ -54,14 +62,15 @@ class listeners_disabled(object):                                              #
         self._disable_type = value
 
     def __enter__(self):
-        self._previous_states.append(set(listeners_disabled._quarantine))
+        quarantine = listeners_disabled._quarantine
+        self._previous_states.append(quarantine.types)
         if self.disable_type is None:
-            listeners_disabled._quarantine = set(LISTENER_TYPES)
+            quarantine.types = frozenset(LISTENER_TYPES)
         else:
-            listeners_disabled._quarantine.update(self.disable_type)
+            quarantine.types = quarantine.types.union(self.disable_type)
 
     def __exit__(self, *exc):
-        listeners_disabled._quarantine = self._previous_states.pop()
+        listeners_disabled._quarantine.types = self._previous_states.pop()
 
 
 class validators_disabled(listeners_disabled):                                 #pylint: disable=invalid-name, too-few-public-methods
@@ -102,7 +111,7 @@ def _set_listener(instance, obs):
 def _get_listeners(instance, change):
     """Gets listeners of changed Property on a HasProperties instance"""
     if (
-            change['mode'] not in listeners_disabled._quarantine and           #pylint: disable=protected-access
+            change['mode'] not in listeners_disabled._quarantine.types and     #pylint: disable=protected-access
             change['name'] in instance._listeners
     ):
         return instance._listeners[change['name']][change['mode']]
-- 
2.43.0

