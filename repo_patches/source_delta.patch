From 7391a272ae73a40855789bd98bee876221157a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:23 +0000
Subject: [PATCH 01/86] fix: make_nullable no longer modifies the type it is
 called on

---
 recap/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..0ab3b65 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -44,7 +44,8 @@ class RecapType:
         # Move doc to the union type
         doc = attrs.pop("doc", None)
         # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # Copy extra_attrs so `self` isn't modified by the pops below.
+        extra_attrs = dict(attrs.pop("extra_attrs", {}))
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -64,7 +65,8 @@ class RecapType:
         # type_copy.types` because equality checks extra_attrs, which can vary.
         # Instead, just look for any NullType instance.
         if not list(filter(lambda t: isinstance(t, NullType), type_copy.types)):
-            type_copy.types.insert(0, NullType())
+            # Don't insert in place; the list might belong to `self`.
+            type_copy.types = [NullType(), *type_copy.types]
         return type_copy
 
     def is_nullable(self) -> bool:
-- 
2.43.0


From 7805b1a24c35e37d2ab1b670cc5ea3c2e77007eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 02/86] fix: proxies inside registered types resolve against
 the live registry

---
 recap/types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 0ab3b65..85f1985 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -339,6 +339,13 @@ class RecapTypeRegistry:
         # Define and register built-in aliases
         self._type_registry: dict[str, RecapType] = copy.deepcopy(BUILTIN_ALIASES)
 
+    def __deepcopy__(self, memo) -> RecapTypeRegistry:
+        # Types are copied when they're registered and resolved. A ProxyType
+        # inside such a copy must keep using the registry it was defined with;
+        # a snapshot wouldn't contain aliases that are registered later
+        # (including the alias of a recursive type).
+        return self
+
     def register_alias(self, recap_type: RecapType):
         alias = recap_type.alias
         if alias is None:
-- 
2.43.0


From 122c4913497ce1d50b53c4cf97f4a111782edce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 03/86] fix: resolving a proxy applies its doc, logical and
 bytes overrides

---
 recap/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 85f1985..6fcb6c9 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -321,7 +321,15 @@ class ProxyType(RecapType):
         if self._resolved is None:
             self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))
             # Apply attribute overrides
-            for attr, value in self.extra_attrs.items():
+            overrides = dict(self.extra_attrs)
+            if self.doc is not None:
+                overrides["doc"] = self.doc
+            if self.logical is not None:
+                overrides["logical"] = self.logical
+            for attr, value in overrides.items():
+                # "bytes" is stored as "bytes_" in StringType and BytesType
+                if attr == "bytes" and hasattr(self._resolved, "bytes_"):
+                    attr = "bytes_"
                 if hasattr(self._resolved, attr):
                     setattr(self._resolved, attr, value)
                 else:
-- 
2.43.0


From b786d7bfc1d369d09bdc9e7ef82a47e13b57c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:40 +0000
Subject: [PATCH 04/86] fix: to_dict works for aliases that are defined more
 than one level deep

---
 recap/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 6fcb6c9..4a687ba 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -758,8 +758,12 @@ def alias_dict(
     if type_dict.get("alias") is not None:
         return type_dict
 
-    registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    if registry is None:
+        registry = RecapTypeRegistry()
+        # Make aliases that are defined inside type_dict available as well
+        from_dict(type_dict, registry)
+    # Use a separate registry since nested aliases might already be in `registry`
+    recap_type = from_dict(type_dict)
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From eabf0f37afba57432074dc1b4aad6248f31d3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:46 +0000
Subject: [PATCH 05/86] fix: unions nested in a list of types are no longer
 dropped silently

---
 recap/types.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 4a687ba..17aa549 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -428,10 +428,7 @@ def from_dict(
         # If type is a list, handle as a union
         union_types = []
         for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
+            union_types.append(from_dict(t, registry))
         recap_type = UnionType(union_types, **type_dict)
     elif isinstance(type_name, str):
         match type_name:
-- 
2.43.0


From 984d23d80c8696734834688eacf4a0e7e686e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 06/86] fix: clean_dict accepts a list of types as the type
 attribute

---
 recap/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 17aa549..ebd07d1 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -670,8 +670,9 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
             type_dict["types"] = [clean_dict(t) for t in type_dict["types"]]
     elif isinstance(type_name, list):
         type_dict = {
+            **type_dict,
             "type": "union",
-            "types": [clean_dict(t) for t in type_dict["types"]],
+            "types": [clean_dict(t) for t in type_name],
         }
 
     # Support "optional" sytnactic sugar.
-- 
2.43.0


From 1ad66d38716ee7cee2622c640007bcd27c410160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 07/86] fix: optional syntactic sugar keeps every attribute and
 the order of the types

---
 recap/types.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index ebd07d1..78dc425 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -410,6 +410,7 @@ def from_dict(
         # Special handling for reserved words in struct fields
         name = type_dict.pop("name", None)
         default = type_dict.pop("default", None)
+        doc = type_dict.pop("doc", None)
         if type_dict["type"] != "union":
             type_dict = {
                 "type": "union",
@@ -419,6 +420,8 @@ def from_dict(
             type_dict["types"] = ["null"] + type_dict["types"]
         if name is not None:
             type_dict["name"] = name
+        if doc is not None:
+            type_dict["doc"] = doc
         type_dict["default"] = default
 
     registry = registry or RecapTypeRegistry()
@@ -677,12 +680,16 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
 
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
-    # to {"type": "union", "types": [...], "optional": True}
+    # to {"type": "union", "types": [...], "optional": True}. The "null" must be
+    # the first (and only) one, since that's where from_dict puts it.
     if (
         type_dict["type"] == "union"
         and "null" in type_dict["types"]
+        and type_dict["types"].index("null") == 0
+        and type_dict["types"].count("null") == 1
         and "default" in type_dict
     ):
+        unsugared = type_dict.copy()
         # Pop off standard attributes that should be kept whether the type is kept
         # as a union or converted to a single nested type.
         alias = type_dict.pop("alias", None)
@@ -699,12 +706,19 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
             # If the type was ["null", <some type>], use <some type> instead
             # of a union of a single type. Don't do this if union is an alias or
             # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
+            # the alias/logical type means. Nested unions, and nested types with
+            # an attribute that would belong to the union once they're promoted,
+            # have to stay nested, too.
             if len(type_dict["types"]) == 1 and alias is None and logical is None:
                 nested_type = type_dict["types"][0]
                 if isinstance(nested_type, str):
                     nested_type = {"type": nested_type}
-                type_dict = nested_type
+                if (
+                    isinstance(nested_type, dict)
+                    and nested_type["type"] != "union"
+                    and not nested_type.keys() & {"default", "doc", "name", "optional"}
+                ):
+                    type_dict = nested_type
             assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
             attributes = {
                 "alias": alias,
@@ -718,6 +732,8 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
             attributes = {k: v for k, v in attributes.items() if v is not None}
             # Add attributes to the type_dict.
             type_dict |= attributes
+        else:
+            type_dict = unsugared
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
-- 
2.43.0


From f6c71eeb78fff2df7171028718cdd6140e42b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 08/86] fix: Avro unions may be array items and map values

---
 recap/converters/avro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..3704e71 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -251,14 +251,14 @@ class AvroConverter:
 
     def _parse(
         self,
-        avro_schema: dict | str,
+        avro_schema: dict | list | str,
         namespace: str | None,
     ) -> RecapType:
         return_type = None
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From 56614b7966b9314b2adf39e16b994948eccf9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:50 +0000
Subject: [PATCH 09/86] fix: Avro field names are not registered as aliases

---
 recap/converters/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3704e71..e6b0f58 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -271,7 +271,10 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only these types are named types in Avro. Anything else with a
+            # name is a field, which can't be referenced.
+            if avro_schema.get("type") in ("record", "enum", "fixed"):
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-- 
2.43.0


From 026a5f3d7d64ea0ddc84cd3bd23bd05a48785a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:54 +0000
Subject: [PATCH 10/86] fix: the doc of an Avro field with a nested type
 becomes the doc of the Recap type

---
 recap/converters/avro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index e6b0f58..d5f8ea9 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -350,6 +350,7 @@ class AvroConverter:
 
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
+                return_type.doc = extra_attrs.pop("doc", return_type.doc)
                 return_type.extra_attrs |= extra_attrs
 
                 # Short circuit so we don't re-register aliases for nested types
-- 
2.43.0


From 285026b13089399ac04b565b9a5a63dfb7e54b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:59 +0000
Subject: [PATCH 11/86] fix: named Avro types with a logical type can be
 referenced

---
 recap/converters/avro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index d5f8ea9..1f297ef 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -278,7 +278,11 @@ class AvroConverter:
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            if alias is not None:
+                return_type.alias = alias
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
-- 
2.43.0


From 4a3f35fe4597100751ef0b9d3fb4dae5a834e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:02 +0000
Subject: [PATCH 12/86] fix: Avro writer resolves builtin aliases everywhere

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 1f297ef..fb4c534 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -138,7 +138,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From ea699c303c71c8053195184d0a37c3f982a084d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 13/86] fix: Avro writer accepts map keys that are an alias of
 a string

---
 recap/converters/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index fb4c534..26d0bf6 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -124,8 +124,11 @@ class AvroConverter:
                 avro_schema["type"] = "array"
                 avro_schema["items"] = self._from_recap(values)
             case MapType(
-                keys=StringType(),
+                keys=StringType() | ProxyType() as keys,
                 values=values,
+            ) if isinstance(
+                keys.resolve() if isinstance(keys, ProxyType) else keys,
+                StringType,
             ):  # Avro only supports string keys
                 avro_schema["type"] = "map"
                 avro_schema["values"] = self._from_recap(values)
-- 
2.43.0


From f5a42f410ef71ee61f8ffd9eb9fd2142829fafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:40 +0000
Subject: [PATCH 14/86] fix: Avro writer keeps the full name of named types, so
 references to it resolve

---
 recap/converters/avro.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 26d0bf6..d8dc454 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -152,6 +152,24 @@ class AvroConverter:
             case _:
                 raise ValueError(f"Unsupported Recap type: {recap_type}")
 
+        if (
+            name
+            and "aliases" in avro_schema
+            and avro_schema["type"] in ("record", "enum", "fixed")
+        ):
+            # References use the alias, so it has to be the full name of the type.
+            # If it isn't called like the field, the type has to be nested.
+            avro_schema.pop("aliases")
+            namespace, type_name = recap_type.alias.rsplit(".", 1)
+            field = {}
+            if name != type_name:
+                for attr in ("doc", "name", "default"):
+                    if attr in avro_schema:
+                        field[attr] = avro_schema.pop(attr)
+            avro_schema |= {"name": type_name, "namespace": namespace}
+            if field:
+                avro_schema = field | {"type": avro_schema}
+
         if len(avro_schema) == 1 and isinstance(avro_schema["type"], str):
             # Convert {"type": "type"} to "type"
             avro_schema = avro_schema["type"]
-- 
2.43.0


From 758898e52a860959db87e0f46a93e8097ec81d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:17 +0000
Subject: [PATCH 15/86] fix: an empty JSON schema registry passed to the
 converter is used

---
 recap/converters/json_schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..88776fc 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -32,9 +32,10 @@ AliasStrategy = Callable[[str], str]
 class JSONSchemaConverter:
     def __init__(self, json_registry: Registry | None = None):
         self.registry = RecapTypeRegistry()
-        self.json_registry = json_registry or Registry(
-            retrieve=JSONSchemaConverter.httpx_retrieve
-        )
+        # An empty registry is falsy, but might still retrieve schemas.
+        if json_registry is None:
+            json_registry = Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
+        self.json_registry = json_registry
 
     def to_recap(
         self,
-- 
2.43.0


From 3547efbc0a6c4558a160cb07bb0fdbcd6f120bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:23 +0000
Subject: [PATCH 16/86] fix: JSON schemas can refer to schemas that have to be
 retrieved

---
 recap/converters/json_schema.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 88776fc..5ff816a 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -129,10 +129,12 @@ class JSONSchemaConverter:
                     # type as a normal Recap type with an alias set.
                     retrieved = self.json_registry.get_or_retrieve(urn)
                     resource = retrieved.value
-                    self.json_registry = (
-                        retrieved.registry @ self.json_registry
-                    )  # pyright: ignore[reportGeneralTypeIssues]
-                    return self._parse(resource.contents, alias_strategy)
+                    # This is self.json_registry with the resource added to it
+                    self.json_registry = retrieved.registry
+                    recap_type = self._parse(resource.contents, alias_strategy)
+                    recap_type.doc = extra_attrs.pop("doc", recap_type.doc)
+                    recap_type.extra_attrs |= extra_attrs
+                    return recap_type
             case _:
                 raise ValueError(f"Unsupported JSON schema: {json_schema}")
 
-- 
2.43.0


From 747bcfca213854274ec660072fd8d33c8a2ccdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:28 +0000
Subject: [PATCH 17/86] fix: references to JSON schemas resolve to the type of
 the schema

---
 recap/converters/json_schema.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 5ff816a..7670de7 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -36,6 +36,8 @@ class JSONSchemaConverter:
         if json_registry is None:
             json_registry = Registry(retrieve=JSONSchemaConverter.httpx_retrieve)
         self.json_registry = json_registry
+        # IDs of the schemas that have been (or are being) converted.
+        self.crawled: set[str] = set()
 
     def to_recap(
         self,
@@ -68,7 +70,21 @@ class JSONSchemaConverter:
             resource_id = resource.id()
             assert resource_id is not None, f"$id must be set for {json_schema}"
             self.json_registry = resource @ self.json_registry
-            extra_attrs["alias"] = alias_strategy(resource_id)
+            alias = alias_strategy(resource_id)
+            self.crawled.add(resource_id)
+            recap_type = self._parse(
+                {k: v for k, v in json_schema.items() if k != "$id"},
+                alias_strategy,
+            )
+            if isinstance(recap_type, ProxyType):
+                raise ValueError(f"Unsupported JSON schema: {json_schema}")
+            recap_type.alias = alias
+            try:
+                self.registry.register_alias(recap_type)
+            except ValueError:
+                # Not every alias strategy's alias is an (unused) qualified name.
+                pass
+            return recap_type
 
         match json_schema:
             # Special handling for "type" defined as a list of strings like
@@ -123,6 +139,9 @@ class JSONSchemaConverter:
                         resource.id() is not None
                     ), f"$id must be set for {resource.contents}"
                     alias = alias_strategy(str(resource.id()))
+                    if resource.id() not in self.crawled:
+                        # The registry had the resource from the beginning
+                        raise KeyError(alias)
                     return ProxyType(alias, self.registry, **extra_attrs)
                 except KeyError:
                     # We haven't crawled this type yet, so crawl and define the
-- 
2.43.0


From c99bf1e865f700458154aa80dfa29e4febee2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:03 +0000
Subject: [PATCH 18/86] fix: references no longer replace the definitions in a
 written JSON schema

---
 recap/converters/json_schema.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 7670de7..6f6482c 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -169,23 +169,42 @@ class JSONSchemaConverter:
 
         type_dict = self._convert_field(recap_type)
 
-        if defs := self._generate_alias_defs(recap_type):
+        referenced = {}
+        if defs := self._generate_alias_defs(recap_type, referenced):
             type_dict["$defs"] = defs
+        # Aliases that aren't defined in recap_type itself
+        if undefined := {k: v for k, v in referenced.items() if k not in defs}:
+            type_dict.setdefault("$defs", {}).update(undefined)
 
         return type_dict
 
-    def _generate_alias_defs(self, recap_type: RecapType) -> dict[str, Any]:
+    def _generate_alias_defs(
+        self,
+        recap_type: RecapType,
+        referenced: dict[str, Any],
+    ) -> dict[str, Any]:
         """
         Generate a dictionary of alias definitions for the given Recap type.
         Recursively generates definitions for any nested types, as well.
         This method is used to generate the "$defs" key in the top-level.
 
         :param recap_type: The Recap type to generate definitions for.
+        :param referenced: Definitions of the aliases that are referenced in the
+            given type are added to this dictionary.
         :return: A dictionary of alias definitions.
         """
 
         defs = {}
 
+        if isinstance(recap_type, ProxyType):
+            # A proxy references an alias, it doesn't define it
+            alias = recap_type.alias
+            if alias not in BUILTIN_ALIASES and alias not in referenced:
+                alias_type = recap_type.registry.from_alias(alias)
+                referenced[alias] = self._convert_field(alias_type, False)
+                referenced |= self._generate_alias_defs(alias_type, referenced)
+            return defs
+
         if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
@@ -193,14 +212,14 @@ class JSONSchemaConverter:
 
         if isinstance(recap_type, StructType):
             for field in recap_type.fields:
-                defs |= self._generate_alias_defs(field)
+                defs |= self._generate_alias_defs(field, referenced)
         elif isinstance(recap_type, ListType):
-            defs |= self._generate_alias_defs(recap_type.values)
+            defs |= self._generate_alias_defs(recap_type.values, referenced)
         elif isinstance(recap_type, UnionType):
             for value in recap_type.types:
-                defs |= self._generate_alias_defs(value)
+                defs |= self._generate_alias_defs(value, referenced)
         elif isinstance(recap_type, MapType):
-            defs |= self._generate_alias_defs(recap_type.values)
+            defs |= self._generate_alias_defs(recap_type.values, referenced)
 
         return defs
 
-- 
2.43.0


From ce2feb3adf38ff4f60418467843660d3bcfc131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:08 +0000
Subject: [PATCH 19/86] fix: JSON schema writer terminates for fields that
 refer to the struct they are in

---
 recap/converters/json_schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 6f6482c..8540b65 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -295,7 +295,8 @@ class JSONSchemaConverter:
             case NullType():
                 type_dict |= {"type": "null"}
             case ProxyType(alias=alias) if alias in BUILTIN_ALIASES or len(
-                field.extra_attrs
+                # The name and default don't change the referenced type
+                field.extra_attrs.keys() - {"name", "default"}
             ) > 0:
                 # If there are attribute overrides, we can't use refs. JSON
                 # schema doesn't support $def overrides. Also, if the alias
-- 
2.43.0


From af07f6cafcd99b70f75da1d5a4cd871472624be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:14 +0000
Subject: [PATCH 20/86] fix: JSON schema reader understands the format the
 writer uses for bytes

---
 recap/converters/json_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 8540b65..01f9635 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -112,7 +112,7 @@ class JSONSchemaConverter:
             case {"type": "array", "items": items}:
                 values = self._parse(items, alias_strategy)
                 return ListType(values, **extra_attrs)
-            case {"type": "string", "format": "bytes"}:
+            case {"type": "string", "format": "bytes" | "byte"}:
                 return BytesType(**extra_attrs)
             case {"type": "string", "format": "date"}:
                 return StringType(logical="org.iso.8601.Date", **extra_attrs)
-- 
2.43.0


From 5f2d6abc64c00a42bcb58f1e89066f5167913f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:20 +0000
Subject: [PATCH 21/86] fix: JSON schema writer keeps the date, time and
 date-time formats

---
 recap/converters/json_schema.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 01f9635..35bebf3 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -288,6 +288,12 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "integer"}
             case FloatType():
                 type_dict |= {"type": "number"}
+            case StringType(logical="org.iso.8601.Date"):
+                type_dict |= {"type": "string", "format": "date"}
+            case StringType(logical="org.iso.8601.DateTime"):
+                type_dict |= {"type": "string", "format": "date-time"}
+            case StringType(logical="org.iso.8601.Time"):
+                type_dict |= {"type": "string", "format": "time"}
             case StringType():
                 type_dict |= {"type": "string"}
             case BytesType():
-- 
2.43.0


From 448721e6a5718ea2d7b23c11313105bcd0dbf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:50 +0000
Subject: [PATCH 22/86] fix: null is kept in optional types that are not struct
 fields (JSON schema)

---
 recap/converters/json_schema.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 35bebf3..32b39fe 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -182,6 +182,7 @@ class JSONSchemaConverter:
         self,
         recap_type: RecapType,
         referenced: dict[str, Any],
+        is_property: bool = False,
     ) -> dict[str, Any]:
         """
         Generate a dictionary of alias definitions for the given Recap type.
@@ -191,6 +192,7 @@ class JSONSchemaConverter:
         :param recap_type: The Recap type to generate definitions for.
         :param referenced: Definitions of the aliases that are referenced in the
             given type are added to this dictionary.
+        :param is_property: If true, the type is a field of a struct.
         :return: A dictionary of alias definitions.
         """
 
@@ -208,11 +210,11 @@ class JSONSchemaConverter:
         if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
-            defs[alias] = self._convert_field(recap_type, False)
+            defs[alias] = self._convert_field(recap_type, False, is_property)
 
         if isinstance(recap_type, StructType):
             for field in recap_type.fields:
-                defs |= self._generate_alias_defs(field, referenced)
+                defs |= self._generate_alias_defs(field, referenced, True)
         elif isinstance(recap_type, ListType):
             defs |= self._generate_alias_defs(recap_type.values, referenced)
         elif isinstance(recap_type, UnionType):
@@ -227,12 +229,15 @@ class JSONSchemaConverter:
         self,
         field: RecapType,
         use_refs: bool = True,
+        is_property: bool = False,
     ) -> dict[str, Any]:
         """
         Convert a Recap type to a JSON schema type.
 
         :param field: The Recap type to convert.
         :param use_refs: If true, use $ref for concrete types with aliases.
+        :param is_property: If true, the type is a field of a struct. Optional
+            fields may be absent, so they needn't be nullable.
         :return: A JSON schema type.
         """
 
@@ -254,7 +259,7 @@ class JSONSchemaConverter:
             case UnionType(types=types):
                 # If field is optional, just return the nested type.
                 # from_recap will mark the field as required in the struct.
-                if field.is_optional:
+                if field.is_optional and is_property:
                     non_null_types = [t for t in types if not isinstance(t, NullType)]
                     assert len(non_null_types) == 1
                     type_dict |= self._convert_field(non_null_types[0])
@@ -264,7 +269,10 @@ class JSONSchemaConverter:
                 type_dict |= {"type": "object", "properties": {}}
                 for field in field.fields:
                     if field_name := field.extra_attrs.get("name"):
-                        type_dict["properties"][field_name] = self._convert_field(field)
+                        type_dict["properties"][field_name] = self._convert_field(
+                            field,
+                            is_property=True,
+                        )
 
                         if not isinstance(field, UnionType) or not field.is_optional:
                             type_dict.setdefault("required", []).append(field_name)
-- 
2.43.0


From f399b0af94484ca68d03cc2ded18fa31b1919412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:17 +0000
Subject: [PATCH 23/86] fix: a Protobuf message that is used more than once is
 only defined once

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..497aedc 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -60,8 +60,9 @@ class ProtobufConverter:
         resolved: set[str] | None = None,
         seen: set[str] | None = None,
     ) -> RecapType:
-        resolved = resolved or set()
-        seen = seen or set()
+        # Empty sets must be shared too, so every alias is only defined once.
+        resolved = set() if resolved is None else resolved
+        seen = set() if seen is None else seen
 
         # Detect circular references.
         if not isinstance(recap_type, ProxyType) and recap_type.alias is not None:
-- 
2.43.0


From e5a72804660c0798e93640506f11b1feec12f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:23 +0000
Subject: [PATCH 24/86] fix: Protobuf converter keeps its default namespace for
 the next schema

---
 recap/converters/protobuf.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 497aedc..4dc8541 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -99,15 +99,22 @@ class ProtobufConverter:
         return recap_type
 
     def _parse(self, file: File) -> StructType:
-        root_message = None
-
         # Find the namespace first, since we need it for message and enum aliases.
         packages = [p for p in file.file_elements if isinstance(p, Package)]
 
-        if packages:
-            self.namespaces.append(packages[0].name)
+        if not packages:
+            return self._parse_elements(file)
+
+        self.namespaces.append(packages[0].name)
+
+        try:
+            return self._parse_elements(file)
+        finally:
+            self.namespaces.pop()
+
+    def _parse_elements(self, file: File) -> StructType:
+        root_message = None
 
-        # Now parse messages and enums.
         for file_element in file.file_elements:
             if isinstance(file_element, Message):
                 struct_type = self._parse_message(file_element)
@@ -118,8 +125,6 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
-
         return root_message
 
     def _parse_message(self, message: Message) -> StructType:
-- 
2.43.0


From 41dbf94fecead10e7606960d2ac0ad41656a149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:30 +0000
Subject: [PATCH 25/86] fix: Protobuf types may be referenced with a leading
 dot

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 4dc8541..f6f8a81 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -192,6 +192,8 @@ class ProtobufConverter:
     def _protobuf_type_to_recap_type(self, protobuf_type: str) -> RecapType:
         # NOTE: Protobuf doesn't support type aliases, so we don't need to
         # register aliases here (or in oneof, map, etc).
+        # A leading dot just means that the name is fully qualified.
+        protobuf_type = protobuf_type.removeprefix(".")
         match protobuf_type:
             case "string":
                 return StringType(bytes_=2_147_483_648, variable=True)
-- 
2.43.0


From ac2d2348c2b7ecf0c97b0e87caec04256a5c5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:36 +0000
Subject: [PATCH 26/86] fix: Protobuf map keys may be bools

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index f6f8a81..609449e 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -172,8 +172,8 @@ class ProtobufConverter:
     def _parse_map_field(self, field: MapField) -> RecapType:
         key_type = self._protobuf_type_to_recap_type(field.key_type)
 
-        # Proto map keys are always strings or integers.
-        assert isinstance(key_type, IntType) or isinstance(key_type, StringType)
+        # Proto map keys are always strings, integers or bools.
+        assert isinstance(key_type, (IntType, StringType, BoolType))
 
         value_type = self._protobuf_type_to_recap_type(field.value_type)
         map_type = UnionType(
-- 
2.43.0


From 8a362bc0292fbb006b1622788d685b2b270e6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:42 +0000
Subject: [PATCH 27/86] fix: Protobuf writer accepts the strings and bytes that
 were read from Protobuf

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 609449e..92ae232 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -435,9 +435,9 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(values, field_number, package)
-- 
2.43.0


From dde17fb17499de2554c99090ffe5e1118c1fb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:49 +0000
Subject: [PATCH 28/86] fix: Protobuf fields after a oneof get numbers of their
 own

---
 recap/converters/protobuf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 92ae232..0516e8b 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -329,10 +329,12 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    element = self._recap_to_field(field, field_number, package)
+                    message_elements.append(element)
+                    # The fields of a oneof have a number each.
+                    field_number += (
+                        len(element.elements) if isinstance(element, OneOf) else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From 192d14214275392f51006103dd9fb27429b9624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:56 +0000
Subject: [PATCH 29/86] fix: Protobuf writer keeps the names of list and
 nullable fields

---
 recap/converters/protobuf.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0516e8b..f4c5dd1 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -394,6 +394,7 @@ class ProtobufConverter:
         recap_type: RecapType,
         field_number: int,
         package: str,
+        default_name: str | None = None,
     ) -> Field | MapField | OneOf:
         """
         Convert a Recap type to a Protobuf field. This method is recursive and
@@ -402,10 +403,14 @@ class ProtobufConverter:
         :param recap_type: The Recap type to convert.
         :param field_number: The field number to assign to the field.
         :param package: The package of the field.
+        :param default_name: The field's name if the Recap type has no name.
         :return: The Protobuf field.
         """
 
-        field_name = recap_type.extra_attrs.get("name", f"field_{field_number}")
+        field_name = recap_type.extra_attrs.get(
+            "name",
+            default_name or f"field_{field_number}",
+        )
         match recap_type:
             case NullType():
                 return Field(field_name, field_number, "google.protobuf.NullValue")
@@ -442,7 +447,12 @@ class ProtobufConverter:
             case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
-                nested_field = self._recap_to_field(values, field_number, package)
+                nested_field = self._recap_to_field(
+                    values,
+                    field_number,
+                    package,
+                    field_name,
+                )
                 assert isinstance(
                     nested_field,
                     Field,
@@ -471,6 +481,7 @@ class ProtobufConverter:
                         non_null_types[0],
                         field_number,
                         package,
+                        field_name,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
                     field.cardinality = FieldCardinality.OPTIONAL
-- 
2.43.0


From 8895bc3bcccaa4d2ac9e0c112c05f6e40c58c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:02 +0000
Subject: [PATCH 30/86] fix: Protobuf writer keeps nullable lists repeated and
 accepts nullable maps

---
 recap/converters/protobuf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index f4c5dd1..8f882ef 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -483,8 +483,9 @@ class ProtobufConverter:
                         package,
                         field_name,
                     )
-                    assert isinstance(field, Field), "Maps can't be nullable."
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    # Maps and repeated fields have no cardinality of their own.
+                    if isinstance(field, Field) and field.cardinality is None:
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From e14ecc3a459e5544fd9942d1af8e8a753aeb54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:51 +0000
Subject: [PATCH 31/86] fix: the struct passed to the Protobuf writer is the
 first message in the file

---
 recap/converters/protobuf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 8f882ef..37add38 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -300,9 +300,12 @@ class ProtobufConverter:
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
+        elements = self._from_recap_construct_elements(package, package_to_types)
+        # The first message in the file is the root message.
+        root_name = struct_type.alias.rsplit(".", 1)[1]
+        elements.sort(key=lambda e: isinstance(e, Message) and e.name != root_name)
         return File(
-            file_elements=[Package(name=package)]
-            + self._from_recap_construct_elements(package, package_to_types)  # type: ignore
+            file_elements=[Package(name=package)] + elements  # type: ignore
         )
 
     def _from_recap_gather_types(
-- 
2.43.0


From adf8e589b2cf36e39834a828be3c89c15a814b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:56 +0000
Subject: [PATCH 32/86] fix: Protobuf writer rejects types it would leave out
 of the file

---
 recap/converters/protobuf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 37add38..8e00a10 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -301,6 +301,10 @@ class ProtobufConverter:
                 f"but found root={package} and subpackage={subpackage}."
             )
         elements = self._from_recap_construct_elements(package, package_to_types)
+        assert not package_to_types, (
+            "Types must be in the root package or nested in a message, "
+            f"but found root={package} and subpackages={list(package_to_types)}."
+        )
         # The first message in the file is the root message.
         root_name = struct_type.alias.rsplit(".", 1)[1]
         elements.sort(key=lambda e: isinstance(e, Message) and e.name != root_name)
@@ -374,7 +378,7 @@ class ProtobufConverter:
         """
         Construct the proto file elements for a given package. This method
         mutates the existing Message/Enum structures to contain nested
-        elements.
+        elements, and removes the types it has used from package_to_types.
 
         :param package: The package to construct elements for.
         :param package_to_types: A mapping of package to types that have been
@@ -382,7 +386,7 @@ class ProtobufConverter:
         :return: The proto FileElements (or MessageElements) for the package.
         """
 
-        package_types = package_to_types.get(package, [])
+        package_types = package_to_types.pop(package, [])
         for package_type in package_types:
             if isinstance(package_type, Message):
                 subelements = self._from_recap_construct_elements(
-- 
2.43.0


From 219d37adc491022e42e545a12e76d706e90a60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:02 +0000
Subject: [PATCH 33/86] fix: Protobuf writer rejects nested lists, and lists
 and maps where there can't be any

---
 recap/converters/protobuf.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 8e00a10..1854d2e 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -35,6 +35,11 @@ DEFAULT_NAMESPACE = "_root"
 Namespace to use when no namespace is specified in the schema.
 """
 
+MAP_KEY_TYPES = {"bool", "int32", "int64", "uint32", "uint64", "string"}
+"""
+Protobuf types that are written for Recap types, and may be keys of a map.
+"""
+
 
 class ProtobufConverter:
     def __init__(self, namespace: str = DEFAULT_NAMESPACE) -> None:
@@ -464,16 +469,24 @@ class ProtobufConverter:
                     nested_field,
                     Field,
                 ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    nested_field.cardinality != FieldCardinality.REPEATED
+                ), "Lists can't be repeated."
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
+                assert (
+                    isinstance(key_field, Field)
+                    and key_field.cardinality != FieldCardinality.REPEATED
+                    and key_field.type in MAP_KEY_TYPES
                 ), "Key must be integral or string type."
-                assert isinstance(value_field, Field), "Value must not be a map type."
+                assert (
+                    isinstance(value_field, Field)
+                    and value_field.cardinality != FieldCardinality.REPEATED
+                ), "Value must not be a map or list type."
                 return MapField(
                     field_name,
                     field_number,
@@ -496,6 +509,7 @@ class ProtobufConverter:
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
+                    assert non_null_types, "Union must have a type besides null."
                     oneof_field_num = field_number
                     oneof_fields = []
                     # OneOf fields are always optional, so no need to include NullType.
@@ -505,6 +519,11 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field)
+                            and field.cardinality != FieldCardinality.REPEATED
+                        ), "Maps, lists, and unions can't be in a union."
+                        field.cardinality = None
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From 370494225c6023471753cfdc39032c8b3cd6daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:07 +0000
Subject: [PATCH 34/86] fix: Protobuf writer resolves references to types that
 have no name in Protobuf

---
 recap/converters/protobuf.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 1854d2e..833c6f3 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -527,6 +527,13 @@ class ProtobufConverter:
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
+            case ProxyType() if (resolved := self._resolve_scalar(recap_type)):
+                return self._recap_to_field(
+                    resolved,
+                    field_number,
+                    package,
+                    default_name,
+                )
             case (
                 StructType(alias=alias) | EnumType(alias=alias) | ProxyType(alias=alias)
             ):
@@ -535,3 +542,18 @@ class ProtobufConverter:
                 return Field(field_name, field_number, "." + alias)
             case _:
                 raise ValueError(f"Invalid RecapType: {recap_type}")
+
+    def _resolve_scalar(self, proxy_type: ProxyType) -> RecapType | None:
+        """
+        Resolve a reference to a type that isn't a message or an enum. Such types
+        have no name in Protobuf that a field could refer to.
+
+        :param proxy_type: The reference to resolve.
+        :return: The resolved type, or None if it's a message, enum, or unknown.
+        """
+
+        try:
+            resolved = proxy_type.resolve()
+        except TypeError:
+            return None
+        return None if isinstance(resolved, (StructType, EnumType)) else resolved
-- 
2.43.0


From d2762266bc11707235d8e4cd2d05ca8c29e5470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:12 +0000
Subject: [PATCH 35/86] fix: Protobuf writer declares that the file is proto3

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 833c6f3..89dc5d1 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -314,7 +314,8 @@ class ProtobufConverter:
         root_name = struct_type.alias.rsplit(".", 1)[1]
         elements.sort(key=lambda e: isinstance(e, Message) and e.name != root_name)
         return File(
-            file_elements=[Package(name=package)] + elements  # type: ignore
+            syntax="proto3",
+            file_elements=[Package(name=package)] + elements,  # type: ignore
         )
 
     def _from_recap_gather_types(
-- 
2.43.0


From 39775ec948c5108c54e4811154ac52c5c2a34d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:12 +0000
Subject: [PATCH 36/86] fix: Protobuf writer rejects enums without symbols

---
 recap/converters/protobuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 89dc5d1..c562b02 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -366,6 +366,7 @@ class ProtobufConverter:
                 self._from_recap_gather_types(values, package_to_types)
             case EnumType(symbols=symbols):
                 assert recap_type.alias is not None, "Enum must have an alias."
+                assert symbols, "Enum must have at least one symbol."
                 enum_package, enum_name = recap_type.alias.rsplit(".", 1)
                 elements: list[EnumElement] = [
                     EnumValue(symbol, idx)
-- 
2.43.0


From 268127336e69fc34ba2a9a55d896985ee921d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 37/86] fix: Protobuf fields that refer to an aliased field
 keep their own name

---
 recap/converters/protobuf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index c562b02..8e11621 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -558,4 +558,9 @@ class ProtobufConverter:
             resolved = proxy_type.resolve()
         except TypeError:
             return None
-        return None if isinstance(resolved, (StructType, EnumType)) else resolved
+        if isinstance(resolved, (StructType, EnumType)):
+            return None
+        if "name" not in proxy_type.extra_attrs:
+            # The name of the field that defines the alias isn't this field's name
+            resolved.extra_attrs.pop("name", None)
+        return resolved
-- 
2.43.0


From 691703f1880ad554bd19c42a6ee1ce8ca7223988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:45 +0000
Subject: [PATCH 38/86] fix: PostgreSQL tables with arrays can be read more
 than once

---
 recap/converters/postgresql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..2c510a9 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -14,6 +14,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +39,12 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Array aliases are only unique within a table, so every table needs a
+        # registry of its own.
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
-- 
2.43.0


From 146dcbde0ab1da8a439cc65cff07d0fd46b85103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:50 +0000
Subject: [PATCH 39/86] fix: PostgreSQL arrays of bools, smallints, timestamps,
 decimals, chars and bits are read

---
 recap/converters/postgresql.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 2c510a9..46de10d 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -25,6 +25,17 @@ DEFAULT_NAMESPACE = "_root"
 Namespace to use when no namespace is specified in the schema.
 """
 
+ARRAY_VALUE_TYPES = {
+    "bool": "boolean",
+    "bpchar": "character",
+    "int2": "smallint",
+    "timestamptz": "timestamp with time zone",
+    "varbit": "bit varying",
+}
+"""
+Array value types whose internal name (UDT_NAME) isn't a DATA_TYPE.
+"""
+
 
 class PostgresqlConverter(DbapiConverter):
     def __init__(
@@ -103,6 +114,7 @@ class PostgresqlConverter(DbapiConverter):
         elif data_type == "array":
             # Remove _ for standard PG types like _int4
             nested_data_type = udt_name.lstrip("_")
+            nested_data_type = ARRAY_VALUE_TYPES.get(nested_data_type, nested_data_type)
             # Recurse to get the array value type (the int4 in int4[])
             # Postgres arrays ignore value type octet lengths for varchars, bit
             # lengths, etc. Thus, we only set DATA_TYPE here. Sigh.
@@ -119,6 +131,11 @@ class PostgresqlConverter(DbapiConverter):
                     "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
                     # * 8 because bit columns use bits not bytes.
                     "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
+                    # Same for precisions. PostgreSQL timestamps default to
+                    # microseconds.
+                    "DATETIME_PRECISION": 6,
+                    "NUMERIC_PRECISION": None,
+                    "NUMERIC_SCALE": None,
                     "UDT_NAME": None,
                     "ATTNDIMS": 0,
                 }
-- 
2.43.0


From 6dd4faa55bfde9c3c3ae72f83336a4ca3303d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:54 +0000
Subject: [PATCH 40/86] fix: PostgreSQL array columns may have any name

---
 recap/converters/postgresql.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index 46de10d..7cf6354 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -1,4 +1,5 @@
 from math import ceil
+from re import sub
 from typing import Any
 
 from recap.converters.dbapi import DbapiConverter
@@ -143,8 +144,7 @@ class PostgresqlConverter(DbapiConverter):
             if self.enforce_array_dimensions:
                 base_type = self._create_n_dimension_list(value_type, ndims)
             else:
-                column_name_without_periods = column_name.replace(".", "_")
-                base_type_alias = f"{self.namespace}.{column_name_without_periods}"
+                base_type_alias = self._create_array_alias(column_name)
                 # Construct a self-referencing list comprised of the array's value
                 # type and a proxy to the list itself. This allows arrays to be an
                 # arbitrary number of dimensions, which is how PostgreSQL treats
@@ -172,6 +172,28 @@ class PostgresqlConverter(DbapiConverter):
 
         return base_type
 
+    def _create_array_alias(self, column_name: str) -> str:
+        """
+        Create an unused alias for a column. Column names may contain any
+        character, so different columns can lead to the same alias.
+        """
+        name = sub(r"[^A-Za-z0-9_]", "_", column_name)
+        if name[:1].isdigit():
+            name = f"_{name}"
+        alias = f"{self.namespace}.{name}"
+        suffix = 2
+        while self._is_used(alias):
+            alias = f"{self.namespace}.{name}_{suffix}"
+            suffix += 1
+        return alias
+
+    def _is_used(self, alias: str) -> bool:
+        try:
+            self.registry.from_alias(alias)
+            return True
+        except TypeError:
+            return False
+
     def _create_n_dimension_list(self, base_type: RecapType, ndims: int) -> RecapType:
         """
         Build a list type with `ndims` dimensions containing nullable `base_type` as the innermost value type.
-- 
2.43.0


From 78755e982f8007d3c1eb1e3a39c84f9747a56d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:00 +0000
Subject: [PATCH 41/86] fix: PostgreSQL enum symbols are read in the order
 they're declared in

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..3a960bb 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From c902a5689b7709c133bb9fb84b5df72e071f4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:05 +0000
Subject: [PATCH 42/86] fix: unsigned MySQL integers are read as unsigned

---
 recap/converters/mysql.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/converters/mysql.py b/recap/converters/mysql.py
index 4947ff0..e83de85 100644
--- a/recap/converters/mysql.py
+++ b/recap/converters/mysql.py
@@ -10,22 +10,27 @@ class MysqlConverter(DbapiConverter):
         octet_length = column_props["CHARACTER_OCTET_LENGTH"]
         precision = column_props["NUMERIC_PRECISION"]
         scale = column_props["NUMERIC_SCALE"]
+        # DATA_TYPE doesn't include attributes, COLUMN_TYPE does (`int unsigned`).
+        column_type = column_props.get("COLUMN_TYPE") or ""
+        if isinstance(column_type, (bytes, bytearray)):
+            column_type = column_type.decode("utf-8")
+        signed = "unsigned" not in column_type.lower()
 
         if data_type == "bigint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=64, signed=True)
+            base_type = IntType(bits=64, signed=signed)
         elif data_type in ["int", "integer"]:
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=32, signed=True)
+            base_type = IntType(bits=32, signed=signed)
         elif data_type == "mediumint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=24, signed=True)
+            base_type = IntType(bits=24, signed=signed)
         elif data_type == "smallint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=16, signed=True)
+            base_type = IntType(bits=16, signed=signed)
         elif data_type == "tinyint":
             # https://dev.mysql.com/doc/refman/8.0/en/integer-types.html
-            base_type = IntType(bits=8, signed=True)
+            base_type = IntType(bits=8, signed=signed)
         elif data_type == "double" or (data_type == "float" and precision > 23):
             # https://dev.mysql.com/doc/refman/8.0/en/floating-point-types.html
             base_type = FloatType(bits=64)
-- 
2.43.0


From 1fb85f6e8e6346e4806adfa13cb38f18fba363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:09 +0000
Subject: [PATCH 43/86] fix: lists and maps in Hive unions don't get a stray
 extra_attrs attribute

---
 recap/converters/hive_metastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..ca65a69 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,13 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From 97b829ae058c641936e5627a5d5e628c73d3565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:54 +0000
Subject: [PATCH 44/86] fix: safe URLs keep the brackets of IPv6 addresses

---
 recap/settings.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..afda833 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -45,14 +45,9 @@ class RecapSettings(BaseSettings):
 
         for url in self.urls:
             split_url = urlsplit(str(url))
-            netloc = split_url.netloc
-
-            if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
+            # Remove the user and password, but keep the host (including the
+            # brackets of an IPv6 address) and the port as they are.
+            netloc = split_url.netloc.rpartition("@")[2]
 
             sanitized_url = urlunsplit(
                 (
-- 
2.43.0


From 1e50373f45b2e582506252c88e6be20f1db71425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:58 +0000
Subject: [PATCH 45/86] fix: file URLs in the settings don't get extra slashes

---
 recap/settings.py | 52 ++++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index afda833..0f3dd44 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -24,6 +24,16 @@ def mkdirs():
 mkdirs()
 
 
+def _unsplit_url(scheme: str, netloc: str, path: str, query: str, fragment: str) -> str:
+    """
+    Like urlunsplit, but always with a double slash after the scheme. urlunsplit
+    only adds it for some schemes if netloc is empty, but Recap's URLs should
+    have one (e.g. bigquery:// or sqlite:///some/file.db).
+    """
+
+    return f"{scheme}://{netloc}{path}" + urlunsplit(("", "", "", query, fragment))
+
+
 class RecapSettings(BaseSettings):
     urls: list[AnyUrl] = Field(default_factory=list)
     registry_storage_url: AnyUrl = Field(default=DEFAULT_REGISTRY_STORAGE_PATH.as_uri())
@@ -49,22 +59,14 @@ class RecapSettings(BaseSettings):
             # brackets of an IPv6 address) and the port as they are.
             netloc = split_url.netloc.rpartition("@")[2]
 
-            sanitized_url = urlunsplit(
-                (
-                    split_url.scheme,
-                    netloc,
-                    split_url.path.rstrip("/"),
-                    split_url.query,
-                    split_url.fragment,
-                )
+            sanitized_url = _unsplit_url(
+                split_url.scheme,
+                netloc,
+                split_url.path.rstrip("/"),
+                split_url.query,
+                split_url.fragment,
             )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
-
             safe_urls_list.append(sanitized_url)
 
         return safe_urls_list
@@ -104,24 +106,14 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                return _unsplit_url(
+                    url_split.scheme,
+                    netloc,
+                    url_path.rstrip("/"),
+                    query,
+                    url_split.fragment or unsafe_url_split.fragment,
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
-                return merged_url
-
         if strict:
             raise ValueError(f"URL must be configured in Recap settings: {url}")
 
-- 
2.43.0


From 5baa3f74bbffe87033bd1939b860f0ab678acaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:02 +0000
Subject: [PATCH 46/86] fix: URLs are only merged with settings for the same
 path or one above it

---
 recap/settings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0f3dd44..0550dbf 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -77,7 +77,7 @@ class RecapSettings(BaseSettings):
         into the input URL and return it. Merging occurs if:
 
         - The input URL's scheme, hostname, and port match a URL in settings.
-        - The input URL's path starts with the settings URL's path.
+        - The input URL's path is the settings URL's path or below it.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -94,7 +94,10 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                # Path is the same or a child; /foobar is not a child of /foo,
+                # and neither is /foo/../bar.
+                and Path(url_path).is_relative_to(unsafe_url_split.path or "/")
+                and ".." not in Path(url_path).parts
             ):
                 netloc = unsafe_url_split.netloc
 
-- 
2.43.0


From 9e145cd194ca2b0f65c8b3075c59b7fdb11f5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:06 +0000
Subject: [PATCH 47/86] fix: options without a value are kept when URLs are
 merged with settings

---
 recap/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0550dbf..cb0a357 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -104,8 +104,8 @@ class RecapSettings(BaseSettings):
                 # Merge query strings.
                 # NOTE: This doesn't work for URLs that have multiple values
                 # for the same key spanning both the unsafe and input URLs.
-                unsafe_qs = parse_qs(unsafe_url_split.query)
-                url_qs = parse_qs(url_split.query)
+                unsafe_qs = parse_qs(unsafe_url_split.query, keep_blank_values=True)
+                url_qs = parse_qs(url_split.query, keep_blank_values=True)
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-- 
2.43.0


From 9d5b9c14b0feb6ae86633b97f4fdb5dcdfda4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:10 +0000
Subject: [PATCH 48/86] fix: query parameters no longer replace the host,
 credentials or path of a URL

---
 recap/clients/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..6b0b2c8 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -124,7 +124,16 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
-    parsed_dict |= parsed_qs
+    # Query parameters must not replace the components of the URL. Otherwise,
+    # ?host= would send the credentials of the URL to another host. They may
+    # be used for a host, port, or credentials the URL doesn't contain, though.
+    optional = {"user", "username", "password", "host", "hostname", "port", "query"}
+    components = {k for k, v in parsed_dict.items() if v or k not in optional}
+    parsed_dict |= {
+        key: value
+        for key, value in parsed_qs.items()
+        if key == "query" or key not in components
+    }
 
     return parsed_dict
 
-- 
2.43.0


From 47402be652dcb579034744f41cac1af67e3586fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:14 +0000
Subject: [PATCH 49/86] fix: percent-encoded credentials in URLs are decoded

---
 recap/clients/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 6b0b2c8..9d9ea64 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -111,7 +111,12 @@ def _url_to_dict(url: str) -> dict[str, str]:
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
-    if username := parsed_url.username:
+    # Credentials are percent-encoded in URLs.
+    for field in ["username", "password"]:
+        if value := parsed_dict[field]:
+            parsed_dict[field] = unquote(value)
+
+    if username := parsed_dict["username"]:
         parsed_dict["user"] = username
 
     if hostname := parsed_url.hostname:
-- 
2.43.0


From 3b36ebd3cdfdbc270178e980b75453e0a5d8e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:20 +0000
Subject: [PATCH 50/86] fix: Confluent registries and Hive metastores can be
 used with commands

---
 recap/clients/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 9d9ea64..b50331e 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager
 from importlib import import_module
+from re import sub
 from typing import Any, Generator, Protocol
 from urllib.parse import parse_qs, unquote, urlparse
 
@@ -65,6 +66,10 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+        if dialect := url_args.get("dialect"):
+            # Clients might return a URL without the driver, but the driver is
+            # needed to find the URL in the settings and to create a client.
+            connection_url = sub(f"^{dialect}://", f"{scheme}://", connection_url)
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From 1918353cfa7a2457607f9852a9bd41351dbd04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:25 +0000
Subject: [PATCH 51/86] fix: options of a Confluent registry URL are not part
 of the request URLs

---
 recap/clients/confluent_registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recap/clients/confluent_registry.py b/recap/clients/confluent_registry.py
index 54c6563..c8b91ba 100644
--- a/recap/clients/confluent_registry.py
+++ b/recap/clients/confluent_registry.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from contextlib import contextmanager
 from typing import Any, Generator
+from urllib.parse import urlsplit
 
 from confluent_kafka.schema_registry import SchemaRegistryClient
 
@@ -26,6 +27,10 @@ class ConfluentRegistryClient:
         # Filter out kwargs that are not allowed by the SchemaRegistryClient
         url_args = {k: v for k, v in url_args.items() if k in ALLOWED_ATTRS}
 
+        # Query parameters are client options; the client appends to the URL.
+        split_url = urlsplit(url_args["url"])
+        url_args["url"] = split_url._replace(query="", fragment="").geturl()
+
         with SchemaRegistryClient(url_args) as registry:
             yield ConfluentRegistryClient(registry)
 
-- 
2.43.0


From 060c5a67543172e33fb7f69ab0000147ed6dfb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 52/86] fix: Hive metastore URLs don't need a port

---
 recap/clients/hive_metastore.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..1d6ad39 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -18,6 +18,8 @@ from pymetastore.stats import (
 from recap.converters.hive_metastore import HiveMetastoreConverter
 from recap.types import RecapType, StructType
 
+DEFAULT_PORT = 9083
+
 
 class HiveMetastoreClient:
     def __init__(self, client: HMS):
@@ -25,8 +27,12 @@ class HiveMetastoreClient:
 
     @staticmethod
     @contextmanager
-    def create(host: str, port: int, **_) -> Generator[HiveMetastoreClient, None, None]:
-        with HMS.create(host, port) as client:
+    def create(
+        host: str,
+        port: int | None = None,
+        **_,
+    ) -> Generator[HiveMetastoreClient, None, None]:
+        with HMS.create(host, port or DEFAULT_PORT) as client:
             yield HiveMetastoreClient(client)
 
     @staticmethod
-- 
2.43.0


From 7da1e34604e2094242eb45439154156c0af06e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 53/86] fix: Hive metastore URLs may contain IPv6 addresses

---
 recap/clients/hive_metastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 1d6ad39..5709ad3 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -43,7 +43,9 @@ class HiveMetastoreClient:
         include_stats: str | None = None,
         **url_args,
     ) -> tuple[str, list[Any]]:
-        clean_url = f"thrift://{url_args['host']}"
+        host = url_args["host"]
+        # IPv6 addresses must be in brackets.
+        clean_url = f"thrift://[{host}]" if ":" in host else f"thrift://{host}"
         if url_args["port"]:
             clean_url += f":{url_args['port']}"
         match method:
-- 
2.43.0


From 38b7a083d6eda4c6d5b266e2ce70f86ab9652c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:40 +0000
Subject: [PATCH 54/86] fix: MySQL URLs don't need a port

---
 recap/clients/mysql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 004e40f..449e458 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -27,7 +27,12 @@ class MysqlClient(DbapiClient):
             url_args["database"] = paths[0]
 
         # Only include kwargs that are valid for the MySQL connector
-        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
+        # that are set in the URL. The connector doesn't accept None for a port.
+        kwargs = {
+            k: v
+            for k, v in url_args.items()
+            if k in DEFAULT_CONFIGURATION and v is not None
+        }
 
         with mysql.connector.connect(**kwargs) as client:
             yield MysqlClient(client)  # type: ignore
-- 
2.43.0


From 6c23f28d218858d0107c2439cd19c5baef7c9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:45 +0000
Subject: [PATCH 55/86] fix: Snowflake client connects to the account, port and
 database in the URL

---
 recap/clients/snowflake.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..2ac7d47 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,13 +20,16 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
-            case str(database), str(schema):
+            case [str(database), str(schema)]:
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        # Leave unset components (like the port) to the connector.
+        url_args = {k: v for k, v in url_args.items() if v is not None}
+
+        with snowflake.connector.connect(**(url_args | snowflake_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From b17dd6634919987e7d57e2485a8a7a377d2c4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:50 +0000
Subject: [PATCH 56/86] fix: BigQuery URLs can be listed

---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From 56a89d2868c447c6e14b754d8a9f1530b72d2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 57/86] fix: relative paths keep their first character

---
 recap/clients/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..f1b89ae 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -26,8 +26,11 @@ class FilesystemClient:
 
         if split_url.netloc:
             path += split_url.netloc + "/"
-        if split_url.path:
+        if split_url.path.startswith("/"):
             path += split_url.path[1:] + "/"
+        elif split_url.path:
+            # Path is relative to the working directory
+            path = split_url.path + "/"
 
         return (root_url, [path])
 
-- 
2.43.0


From d1cffbd1ea6f4fc81bb9d02d4d5c55537fe633c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:00 +0000
Subject: [PATCH 58/86] fix: SQLite tables may have any name

---
 recap/clients/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..2bc73d6 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -85,7 +85,8 @@ class SQLiteClient:
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        quoted_table = '"' + table.replace('"', '""') + '"'
+        cursor.execute(f"PRAGMA table_info({quoted_table});")
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
-- 
2.43.0


From 5743efc152478ef139fadfd65f10397fa7606138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 59/86] fix: SQLite schemas can be read from absolute paths

---
 recap/clients/sqlite.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 2bc73d6..1dfb41d 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -47,28 +47,22 @@ class SQLiteClient:
             case "ls":
                 return (url_args["url"], [])
             case "schema":
-                table = url_args["paths"].pop(-1)
-                connection_url = urlunparse(
+                # Keep every / in front of the file, since absolute paths start
+                # with one more (e.g. sqlite:////some/file.db).
+                path, _, table = url_args["path"].rpartition("/")
+                scheme = url_args.get("dialect") or url_args.get("scheme")
+                netloc = url_args.get("netloc") or ""
+                suffix = urlunparse(
                     [
-                        url_args.get("dialect") or url_args.get("scheme"),
-                        url_args.get("netloc"),
-                        # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        "",
+                        "",
+                        "",
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
                     ]
                 )
-
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db). Include an extra "/"
-                # because the root path is not included with an empty netloc
-                # and join().
-                if not url_args.get("netloc"):
-                    connection_url = connection_url.replace(":", ":///", 1)
-
-                return (connection_url, [table])
+                return (f"{scheme}://{netloc}{path}{suffix}", [table])
             case _:
                 raise ValueError("Invalid method")
 
-- 
2.43.0


From 21713966d9fc1aa0f331355aefdd412de3059459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:58 +0000
Subject: [PATCH 60/86] fix: options in SQLite URLs are not part of the file
 name

---
 recap/clients/sqlite.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 1dfb41d..16a6529 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -19,6 +19,12 @@ SQLITE3_CONNECT_ARGS = {
     "uri",
 }
 
+SQLITE3_NUMERIC_ARGS = {
+    "timeout": float,
+    "detect_types": int,
+    "cached_statements": int,
+}
+
 
 class SQLiteClient:
     def __init__(self, connection: Connection) -> None:
@@ -31,7 +37,19 @@ class SQLiteClient:
         import sqlite3
 
         # Strip sqlite:/// URL prefix
-        url_args["database"] = url[len("sqlite:///") :]
+        database = url[len("sqlite:///") :]
+
+        # SQLite parses the query of a URI itself. Otherwise, the query contains
+        # connection arguments that aren't part of the file name.
+        if not url_args.get("uri"):
+            database = database.partition("?")[0]
+
+        url_args["database"] = database
+
+        # sqlite3 does not convert numbers
+        for arg, type_ in SQLITE3_NUMERIC_ARGS.items():
+            if arg in url_args:
+                url_args[arg] = type_(url_args[arg])
 
         # Only include kwargs that are valid for PsycoPG2 parse_dsn()
         url_args = {k: v for k, v in url_args.items() if k in SQLITE3_CONNECT_ARGS}
-- 
2.43.0


From b80af57ab6d8cbcd0881a55f6b4c01a92d823f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:03 +0000
Subject: [PATCH 61/86] fix: names that consist of dots don't leave the
 registry's directory

---
 recap/storage/registry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..a67f880 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -25,7 +25,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +47,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +63,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
@@ -76,6 +76,13 @@ class RegistryStorage:
         except FileNotFoundError:
             return None
 
+    @staticmethod
+    def _quote(name: str) -> str:
+        if not name:
+            raise ValueError("Name must not be empty")
+        # Don't leave the registry's directory if the name is . or ..
+        return quote_plus(name) if name.strip(".") else name.replace(".", "%2E")
+
     def latest(self, name: str) -> int | None:
         versions = self.versions(name)
         if not versions:
-- 
2.43.0


From 20c4e679456081037956d3643b6d8bea74f5be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:07 +0000
Subject: [PATCH 62/86] fix: types that can't be serialized don't leave an
 empty version behind

---
 recap/storage/registry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index a67f880..e63253a 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -53,12 +53,13 @@ class RegistryStorage:
             version = (self.latest(name) or 0) + 1
 
         path_without_version = f"{self.root_path}/{quoted_name}"
-        type_dict = to_dict(type_)
+        # Serialize before a file is created, in case the type can't be.
+        type_json = json.dumps(to_dict(type_))
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
         with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
-            json.dump(type_dict, f)
+            f.write(type_json)
 
         return version
 
-- 
2.43.0


From d3e6d356a0b099153042a8333e5b27105ea1a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:12 +0000
Subject: [PATCH 63/86] fix: a version that could not be written completely
 doesn't exist

---
 recap/storage/registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index e63253a..334bc50 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -58,8 +58,12 @@ class RegistryStorage:
 
         self.fs.mkdirs(path_without_version, exist_ok=True)
 
-        with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
+        # Write to a file that isn't a version (see versions()) first, so a
+        # version is either complete or doesn't exist.
+        temp_path = f"{path_without_version}/{version}.json.tmp"
+        with self.fs.open(temp_path, "w") as f:
             f.write(type_json)
+        self.fs.mv(temp_path, f"{path_without_version}/{version}.json")
 
         return version
 
@@ -72,6 +76,7 @@ class RegistryStorage:
                 [
                     int(Path(file_path).stem)
                     for file_path in self.fs.ls(path_without_version)
+                    if Path(file_path).suffix == ".json"
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From ffe7d66611d881a3705daf82291269a88761a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:16 +0000
Subject: [PATCH 64/86] fix: concurrent requests can't replace a version in the
 registry

---
 recap/server/registry.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..dd232a4 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,16 +76,23 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    _check_conflict(storage, name, version)
+
+    type_ = await _request_to_type(request)
+
+    # The version might have been created while the request was received.
+    _check_conflict(storage, name, version)
+
+    return storage.put(name, type_, version)
+
+
+def _check_conflict(storage: RegistryStorage, name: str, version: int):
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
-    return storage.put(name, type_, version)
-
 
 async def _request_to_type(request: Request) -> RecapType:
     content_type = request.headers.get("content-type") or "application/x-recap+json"
-- 
2.43.0


From c72030cd5087641f9a1ecfd8b9538472a50d3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:21 +0000
Subject: [PATCH 65/86] fix: requests with an undecodable type are bad requests

---
 recap/server/registry.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index dd232a4..5bd52db 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -104,16 +104,17 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
-
-    try:
-        type_json = json.loads(type_str)
-    except json.JSONDecodeError:
-        # Assume payload is string alias if we can't decode as JSON.
-        # If it's not, from_dict will fail below.
-        type_json = type_str
 
     try:
+        type_str = type_bytes.decode("utf-8")
+        try:
+            type_json = json.loads(type_str)
+        except json.JSONDecodeError:
+            # Assume payload is string alias if we can't decode as JSON.
+            # If it's not, from_dict will fail below.
+            type_json = type_str
+        # Python accepts values that can't be sent in a response (like NaN).
+        json.dumps(type_json, allow_nan=False, ensure_ascii=False).encode("utf-8")
         return from_dict(type_json)
     except Exception as e:
         raise HTTPException(
-- 
2.43.0


From fa2424601c5ba992485b38d5abfcd9957418169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:27 +0000
Subject: [PATCH 66/86] fix: protobuf schemas are printed as they are

---
 recap/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..d2b4174 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
@@ -35,7 +35,8 @@ def schema(
         case dict():
             print_json(data=struct_obj)
         case str():
-            print(struct_obj)
+            # Don't wrap lines or interpret markup
+            typer.echo(struct_obj)
         case _:
             raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
 
-- 
2.43.0


From d2f90b3b3a0c61da37766ba4761af22aff7a1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:32 +0000
Subject: [PATCH 67/86] fix: an empty list of children is printed as a list

---
 recap/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/cli.py b/recap/cli.py
index d2b4174..ca5a301 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -14,7 +14,7 @@ def ls(url: Annotated[Optional[str], typer.Argument(help="URL to parent.")] = No
     List a URL's children.
     """
 
-    if children := commands.ls(url, strict=False):
+    if (children := commands.ls(url, strict=False)) is not None:
         print_json(data=children)
 
 
-- 
2.43.0


From e38da188be72ffcbe96f15257d1e7b338e8e39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:52 +0000
Subject: [PATCH 68/86] fix: sizes of SQLite types may contain spaces

---
 recap/clients/sqlite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 16a6529..b0daf58 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -134,7 +134,9 @@ class SQLiteClient:
         # This regex matches the following patterns:
         # - <type>(<param1>(, <param2>)?)
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        numeric_pattern = re_compile(
+            r"(\w+)\s*\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)"
+        )
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
-- 
2.43.0


From 73483234ca5ffbf7ebbae19fa1ae8ad3dabc4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:56 +0000
Subject: [PATCH 69/86] fix: sizes of SQLite types that consist of several
 words are used

---
 recap/clients/sqlite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index b0daf58..6db5056 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -141,12 +141,12 @@ class SQLiteClient:
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            _, precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            # All words are relevant for the affinity (e.g. CHARACTER VARYING).
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 90f78cc631fddbe9b53f610ea63c634df600f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 70/86] fix: generated columns of SQLite tables are read

---
 recap/clients/sqlite.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 6db5056..f0a45a4 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -98,12 +98,16 @@ class SQLiteClient:
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
         quoted_table = '"' + table.replace('"', '""') + '"'
-        cursor.execute(f"PRAGMA table_info({quoted_table});")
+        # table_info doesn't include generated columns, table_xinfo does
+        cursor.execute(f"PRAGMA table_xinfo({quoted_table});")
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
         for row_cells in cursor.fetchall():
             row = dict(zip(names, row_cells))
+            # Hidden columns of virtual tables
+            if row["HIDDEN"] == 1:
+                continue
             row = self.add_information_schema(row)
             rows.append(row)
 
-- 
2.43.0


From 142214913293ecd424ea3f343eef7de812a6f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:23 +0000
Subject: [PATCH 71/86] fix: BigQuery's BOOL type is read

---
 recap/converters/bigquery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/bigquery.py b/recap/converters/bigquery.py
index 7532d13..b8ec413 100644
--- a/recap/converters/bigquery.py
+++ b/recap/converters/bigquery.py
@@ -30,7 +30,7 @@ class BigQueryConverter:
                     field_type = IntType(bits=64)
                 case "FLOAT" | "FLOAT64":
                     field_type = FloatType(bits=64)
-                case "BOOLEAN":
+                case "BOOLEAN" | "BOOL":
                     field_type = BoolType()
                 case "TIMESTAMP" | "DATETIME":
                     field_type = IntType(
-- 
2.43.0


From 2dc15f62834e4fc3bc09ad6c656b9e0d35309b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:15 +0000
Subject: [PATCH 72/86] fix: directories of any fsspec filesystem can be listed

---
 recap/clients/fs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index f1b89ae..2366a85 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -41,7 +41,8 @@ class FilesystemClient:
             import fsspec
 
             fs = fsspec.filesystem(self.scheme)
-            return [Path(p).name for p in fs.ls(path)]
+            # Some filesystems return dicts rather than names by default.
+            return [Path(p).name for p in fs.ls(path, detail=False)]
 
     def schema(self, path: str = "/") -> StructType:
         suffix = Path(path).suffix.lower().strip(".")
-- 
2.43.0


From fca0ff7c63b4f363329b515d619b9d2ffbe59626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:55 +0000
Subject: [PATCH 73/86] fix: the registry can be stored on any fsspec
 filesystem

---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 334bc50..616d907 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -75,7 +75,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                     if Path(file_path).suffix == ".json"
                 ]
             )
-- 
2.43.0


From 3b85ddf50edb79567e5eb7e6eac2c9f9fdbdcbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:46 +0000
Subject: [PATCH 74/86] fix: requests with neither a type nor an alias are bad
 requests

---
 recap/server/registry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 5bd52db..c3c5ece 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -4,7 +4,7 @@ from fastapi import APIRouter, Depends, HTTPException, Request
 
 from recap.settings import RecapSettings
 from recap.storage.registry import RegistryStorage
-from recap.types import RecapType, from_dict, to_dict
+from recap.types import ProxyType, RecapType, from_dict, to_dict
 
 router = APIRouter(prefix="/registry")
 settings = RecapSettings()
@@ -111,11 +111,15 @@ async def _request_to_type(request: Request) -> RecapType:
             type_json = json.loads(type_str)
         except json.JSONDecodeError:
             # Assume payload is string alias if we can't decode as JSON.
-            # If it's not, from_dict will fail below.
+            # If it's not, parsing the type will fail below.
             type_json = type_str
         # Python accepts values that can't be sent in a response (like NaN).
         json.dumps(type_json, allow_nan=False, ensure_ascii=False).encode("utf-8")
-        return from_dict(type_json)
+        type_ = from_dict(type_json)
+        if isinstance(type_, ProxyType):
+            # Fail if the payload is neither a type nor an alias.
+            type_.registry.from_alias(type_.alias)
+        return type_
     except Exception as e:
         raise HTTPException(
             status_code=400,
-- 
2.43.0


From 01f933fb17f316ccb4d763184dad72e26dc4815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:51 +0000
Subject: [PATCH 75/86] fix: requested options can't lead configured secrets to
 another system

---
 recap/settings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index cb0a357..c613880 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -14,6 +14,10 @@ DEFAULT_REGISTRY_STORAGE_PATH = Path(HOME_PATH, "schemas")
 SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
 
+# Driver options that lead to another system than the URL's host and port.
+REDIRECTING_OPTIONS = {"host", "hostaddr", "port", "proxy_host", "unix_socket"}
+
+
 def mkdirs():
     HOME_PATH.mkdir(exist_ok=True)
 
@@ -78,6 +82,7 @@ class RecapSettings(BaseSettings):
 
         - The input URL's scheme, hostname, and port match a URL in settings.
         - The input URL's path is the settings URL's path or below it.
+        - The input URL has no option that leads to another system.
 
         :param url: URL to merge
         :param strict: If True, raise an error if the URL is not configured in settings.
@@ -86,6 +91,7 @@ class RecapSettings(BaseSettings):
 
         url_split = urlsplit(url)
         url_path = Path(url_split.path or "/").as_posix()
+        url_qs = parse_qs(url_split.query, keep_blank_values=True)
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
@@ -98,6 +104,7 @@ class RecapSettings(BaseSettings):
                 # and neither is /foo/../bar.
                 and Path(url_path).is_relative_to(unsafe_url_split.path or "/")
                 and ".." not in Path(url_path).parts
+                and not url_qs.keys() & REDIRECTING_OPTIONS
             ):
                 netloc = unsafe_url_split.netloc
 
@@ -105,7 +112,6 @@ class RecapSettings(BaseSettings):
                 # NOTE: This doesn't work for URLs that have multiple values
                 # for the same key spanning both the unsafe and input URLs.
                 unsafe_qs = parse_qs(unsafe_url_split.query, keep_blank_values=True)
-                url_qs = parse_qs(url_split.query, keep_blank_values=True)
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-- 
2.43.0


From 3825934732df8d020ff440e007b272649928ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:26 +0000
Subject: [PATCH 76/86] fix: the filesystem client reads schema files as UTF-8
 whatever the locale

---
 recap/clients/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 2366a85..c28c722 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -65,9 +65,9 @@ class FilesystemClient:
 
     def _read_file(self, path: str) -> str:
         if self.scheme == "file":
-            return Path(path).read_text()
+            return Path(path).read_text(encoding="utf-8")
         else:
             import fsspec
 
             fs = fsspec.filesystem(self.scheme)
-            return fs.read_text(path)
+            return fs.read_text(path, encoding="utf-8")
-- 
2.43.0


From f0047b1406a81d2aec2eba3558dac94db8b4cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 77/86] fix: registry of a home directory with spaces or
 non-ASCII characters is kept in that directory

---
 recap/server/registry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index c3c5ece..b13bd44 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -1,4 +1,5 @@
 import json
+from urllib.parse import unquote
 
 from fastapi import APIRouter, Depends, HTTPException, Request
 
@@ -11,10 +12,11 @@ settings = RecapSettings()
 
 
 def get_storage() -> RegistryStorage:
-    return RegistryStorage(
-        settings.registry_storage_url.unicode_string(),
-        **settings.registry_storage_url_args,
-    )
+    storage_url = settings.registry_storage_url.unicode_string()
+    if settings.registry_storage_url.scheme == "file":
+        # fsspec does not decode paths (e.g. %20 for a space in RECAP_HOME).
+        storage_url = unquote(storage_url)
+    return RegistryStorage(storage_url, **settings.registry_storage_url_args)
 
 
 @router.get("/")
-- 
2.43.0


From dcfa51a3a26b1180e830ecff1170271f83e79400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 78/86] fix: RECAP_HOME may be a relative path

---
 recap/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index c613880..106d4d4 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -9,7 +9,9 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 load_dotenv()
 
-HOME_PATH = Path(os.environ.get("RECAP_HOME") or os.path.expanduser("~/.recap"))
+HOME_PATH = Path(
+    os.environ.get("RECAP_HOME") or os.path.expanduser("~/.recap")
+).absolute()
 DEFAULT_REGISTRY_STORAGE_PATH = Path(HOME_PATH, "schemas")
 SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
-- 
2.43.0


From f5fd9e22b4472928f6b4c6d5c461aec738b991d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:19 +0000
Subject: [PATCH 79/86] fix: a version is renamed, not copied, into place on
 local filesystems

---
 recap/storage/registry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 616d907..18f6ff3 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -63,10 +63,18 @@ class RegistryStorage:
         temp_path = f"{path_without_version}/{version}.json.tmp"
         with self.fs.open(temp_path, "w") as f:
             f.write(type_json)
-        self.fs.mv(temp_path, f"{path_without_version}/{version}.json")
+        self._mv(temp_path, f"{path_without_version}/{version}.json")
 
         return version
 
+    def _mv(self, from_path: str, to_path: str):
+        try:
+            # Local filesystems rename the file, where mv() copies it.
+            self.fs.mv_file(from_path, to_path)
+        except AttributeError:
+            # Not every filesystem has mv_file.
+            self.fs.mv(from_path, to_path)
+
     def versions(self, name: str) -> list[int] | None:
         quoted_name = self._quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
-- 
2.43.0


From 162395c1aaab731c3b1aa5f50d93c86e8303c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:27 +0000
Subject: [PATCH 80/86] fix: PostgreSQL clients in several threads don't share
 a converter

---
 recap/clients/postgresql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 3a960bb..7bb4f16 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -52,9 +52,11 @@ class PostgresqlClient(DbapiClient):
     def __init__(
         self,
         connection: Connection,
-        converter: PostgresqlConverter = PostgresqlConverter(),
+        converter: PostgresqlConverter | None = None,
     ) -> None:
-        super().__init__(connection, converter)
+        # Converters keep the aliases of the table they're converting, so clients
+        # must not share one by default.
+        super().__init__(connection, converter or PostgresqlConverter())
 
     @staticmethod
     @contextmanager
-- 
2.43.0


From 319f67f34361b33ba43b52639be9f24384923387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:42 +0000
Subject: [PATCH 81/86] fix: ints with many bits are written to Avro quickly,
 as decimals

---
 recap/converters/avro.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index d8dc454..44404a4 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -80,7 +80,10 @@ class AvroConverter:
             ) or (bits <= 64 and signed):
                 avro_schema["type"] = "long"
             case IntType(bits=int(bits), signed=bool(signed)):
-                precision = len(str(2 ** (bits - (1 if signed else 0)))) - 1
+                # The decimal digits that always fit, which is log10(2) per bit.
+                # (Computing 2 ** bits takes too long if there are many bits.)
+                value_bits = bits - (1 if signed else 0)
+                precision = value_bits * 301_029_995_663_981_195_213_738 // 10**24
                 avro_schema |= {
                     "type": "bytes",
                     "logicalType": "decimal",
-- 
2.43.0


From 4be3f90a09c4ed70fbf86f3e85d1d2df81605abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 82/86] fix: JSON schemas may have any URI as their $id

---
 recap/converters/json_schema.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 32b39fe..981b9d5 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -331,6 +331,8 @@ class JSONSchemaConverter:
         - The path is converted to lowercase and special characters are replaced
           with dots, e.g. "/foo/bar" becomes "foo.bar"
         - The domain and path are combined, e.g. "com.example/foo.bar"
+        - Parts are prefixed with an underscore if they start with a digit, and
+          with "_root" if there is only one, e.g. "_root.localhost"
 
         It's possible that this function will generate the same alias for
         different URNs. If this happens, you can provide a custom alias
@@ -358,7 +360,17 @@ class JSONSchemaConverter:
         if path and path != ".":
             dotted_type += "." + path.strip(".")
 
-        return dotted_type
+        # Make sure the alias is a qualified name. URNs may contain characters
+        # that aliases may not, have no domain, or have parts that are numbers.
+        parts = [
+            re.sub(r"^(?=[0-9])", "_", re.sub(r"[^a-zA-Z0-9_]", "_", part))
+            for part in dotted_type.split(".")
+            if part
+        ]
+        if len(parts) < 2:
+            parts = ["_root", *(parts or ["_"])]
+
+        return ".".join(parts)
 
     @staticmethod
     @retrieval.to_cached_resource()
-- 
2.43.0


From cab4b41b7e7bd35ed9c91197f426668cd1f3cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:35 +0000
Subject: [PATCH 83/86] fix: URLs with more parts than an object has don't lead
 to another object

---
 recap/clients/bigquery.py | 2 +-
 recap/clients/dbapi.py    | 2 +-
 recap/clients/mysql.py    | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index b70a526..0e9f345 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -24,7 +24,7 @@ class BigQueryClient:
         project, dataset, table = (paths + [None, None, None])[:3]
 
         match method:
-            case "ls" | "schema":
+            case "ls" | "schema" if len(paths) <= 3:
                 return ("bigquery://", [project, dataset, table])
             case _:
                 raise ValueError("Invalid method")
diff --git a/recap/clients/dbapi.py b/recap/clients/dbapi.py
index 5716601..2071d5b 100644
--- a/recap/clients/dbapi.py
+++ b/recap/clients/dbapi.py
@@ -33,7 +33,7 @@ class DbapiClient(ABC):
         match method:
             case "ls" if not table:
                 return (connection_url, [catalog, schema])
-            case "schema" if catalog and schema and table:
+            case "schema" if catalog and schema and table and not paths:
                 return (connection_url, [catalog, schema, table])
             case _:
                 raise ValueError("Invalid method")
diff --git a/recap/clients/mysql.py b/recap/clients/mysql.py
index 449e458..1b95a8f 100644
--- a/recap/clients/mysql.py
+++ b/recap/clients/mysql.py
@@ -56,9 +56,9 @@ class MysqlClient(DbapiClient):
         )
 
         match method:
-            case "ls":
+            case "ls" if not table:
                 return (connection_url, [schema])
-            case "schema" if schema and table:
+            case "schema" if schema and table and not paths:
                 return (connection_url, [schema, table])
             case _:
                 raise ValueError("Invalid method")
-- 
2.43.0


From 13f98a00aff0bc4d57c05a134947037cb1338550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:24 +0000
Subject: [PATCH 84/86] fix: Hive's statistics of decimals are exact numbers
 that can be written as JSON

---
 recap/clients/hive_metastore.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 5709ad3..c17923c 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -1,8 +1,10 @@
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from typing import Any, Generator
 
+from pymetastore.hive_metastore import ttypes
 from pymetastore.metastore import HMS, HTable
 from pymetastore.stats import (
     BinaryTypeStats,
@@ -128,10 +130,19 @@ class HiveMetastoreClient:
                         "cardinality": col_stats.stats.cardinality,
                     }
                     if col_stats.stats.lowValue is not None:
-                        stats["low"] = col_stats.stats.lowValue
+                        stats["low"] = self._parse_decimal(col_stats.stats.lowValue)
                     if col_stats.stats.highValue is not None:
-                        stats["high"] = col_stats.stats.highValue
+                        stats["high"] = self._parse_decimal(col_stats.stats.highValue)
                     recap_type.extra_attrs |= stats
 
             if isinstance(col_stats.stats, TypeStats):
                 recap_type.extra_attrs["null_count"] = col_stats.stats.numNulls
+
+    @staticmethod
+    def _parse_decimal(value: Any) -> Any:
+        if isinstance(value, ttypes.Decimal) and value.unscaled is not None:
+            # The metastore sends the unscaled value as a big-endian integer. Use
+            # a string since attributes must be JSON, where floats aren't exact.
+            unscaled = int.from_bytes(value.unscaled, "big", signed=True)
+            return f"{Decimal(f'{unscaled}E{-value.scale}'):f}"
+        return value
-- 
2.43.0


From 24e6b04324310fb50e4b537a549ae702317039d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 85/86] fix: credentials of a URL are kept if none are
 configured for it

---
 recap/settings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/settings.py b/recap/settings.py
index 106d4d4..981a835 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -109,6 +109,9 @@ class RecapSettings(BaseSettings):
                 and not url_qs.keys() & REDIRECTING_OPTIONS
             ):
                 netloc = unsafe_url_split.netloc
+                if "@" not in netloc:
+                    # Keep the input URL's user and password, if any.
+                    netloc = url_split.netloc
 
                 # Merge query strings.
                 # NOTE: This doesn't work for URLs that have multiple values
-- 
2.43.0


From 2646e6596a035d75413eb427ef2e3a645cf4e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 86/86] fix: Snowflake's region can't lead configured secrets
 to another system

---
 recap/settings.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/settings.py b/recap/settings.py
index 981a835..39e087a 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -17,7 +17,14 @@ SECRETS_PATH = Path(dir) if (dir := os.environ.get("RECAP_SECRETS")) else None
 
 
 # Driver options that lead to another system than the URL's host and port.
-REDIRECTING_OPTIONS = {"host", "hostaddr", "port", "proxy_host", "unix_socket"}
+REDIRECTING_OPTIONS = {
+    "host",
+    "hostaddr",
+    "port",
+    "proxy_host",
+    "region",
+    "unix_socket",
+}
 
 
 def mkdirs():
-- 
2.43.0

