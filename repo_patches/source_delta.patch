From 0039411f8ce00a7c248df26c34f12ee475471270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 01/84] fix: a one element instance range opens a new level
 like any other range

---
 src/vss_tools/vspec/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..826ba96 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -446,7 +446,7 @@ def expand_instance(
     # or when specifying instances as a list entry
     # Otherwise next instance generation call will
     # attach nodes to the same roots again
-    if len(names) > 1 or isinstance(instance, list):
+    if isinstance(instance, list) or names != [str(instance)]:
         return nodes, nodes
     else:
         return roots, nodes
-- 
2.43.0


From 94c7c93343b23d35200f36ff9a65f0cb0ab894e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 02/84] fix: merging instance specific data only overwrites
 explicitly given attributes

---
 src/vss_tools/vspec/model.py | 4 ++--
 src/vss_tools/vspec/tree.py  | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..11af15e 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -313,12 +313,12 @@ def resolve_vss_raw(model: VSSRaw) -> VSSData:
     Resolves a raw model to the actual node that
     it should be validated to
     """
-    model = VSSData(**model.model_dump())
+    model = VSSData(**model.model_dump(exclude_unset=True))
     cls = TYPE_CLASS_MAP.get(model.type)
     if not cls:
         log.warning(f"No class mapping for type='{model.type.value}'")
         raise ModelException()
-    model = cls(**model.model_dump())
+    model = cls(**model.model_dump(exclude_unset=True))
     return model  # type: ignore
 
 
diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 826ba96..e735be3 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -72,6 +72,7 @@ class VSSNode(Node):  # type: ignore[misc]
             self.data.model_dump(
                 mode="json",
                 exclude=set(["fqn"]),
+                exclude_unset=True,
             ),
         )
         for c in self.children:
@@ -128,8 +129,10 @@ class VSSNode(Node):  # type: ignore[misc]
             raise NotMergeableException(f"{self.get_fqn()} != {other.get_fqn()}")
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
-        self_data = self.data.as_dict(exclude_fields=["fqn"])
-        other_data = other.data.as_dict(exclude_fields=["fqn"])
+        # Only attributes that are explicitly given take part in the merge.
+        # Model defaults of the other node must not overwrite our values
+        self_data = self.data.model_dump(mode="json", exclude={"fqn"}, exclude_unset=True)
+        other_data = other.data.model_dump(mode="json", exclude={"fqn"}, exclude_unset=True)
 
         deep_update(self_data, other_data)
         self.data = get_vss_raw(self_data, self.get_fqn())
-- 
2.43.0


From 0e59e6a969ac62971192a1dcfc91a18e6153e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 03/84] fix: instances outside of a declared range are not
 copied below the declared instances

---
 src/vss_tools/vspec/tree.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index e735be3..e003da5 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -220,16 +220,18 @@ class VSSNode(Node):  # type: ignore[misc]
                 # Fixing that would increase performance a bit since `deepcopy`
                 # is very slow
 
+                instances: list[Any] = instance_node.data.instances  # type: ignore
+
                 # Remove children from copy that should not be instantiatet
                 for child in instance_node_copy.children:
-                    if not getattr(child.data, "instantiate", True):
-                        log.debug(f"'{child.get_fqn()}', removing from copy (instantiate=False)")
+                    if not is_instantiated(child, instances):
+                        log.debug(f"'{child.get_fqn()}', removing from copy (not instantiated)")
                         child.parent = None
 
                 # Remove children from instance node that need to be put on created instances instead
                 for child in instance_node.children:
-                    if getattr(child.data, "instantiate", True):
-                        log.debug(f"'{child.get_fqn()}', removing from node (instantiate=True)")
+                    if is_instantiated(child, instances):
+                        log.debug(f"'{child.get_fqn()}', removing from node (instantiated)")
                         child.parent = None
 
                 # Roots to attach generated nodes
@@ -455,6 +457,25 @@ def expand_instance(
         return roots, nodes
 
 
+def is_instantiated(child: VSSNode, instances: list[Any]) -> bool:
+    """
+    Whether a child of a node with the given instances gets put on the created instances.
+    This is not the case if the user opts out or if the child already is an
+    expanded instance of a range outside of the declared values (E.g. "Row5" for "Row[1,2]")
+    """
+    if not getattr(child.data, "instantiate", True):
+        return False
+    for instance in instances:
+        for label in instance if isinstance(instance, list) else [instance]:
+            match = re.match(r"(.*)\[\d+,\d+\](.*)", str(label))
+            if not match:
+                continue
+            pattern = re.escape(match.group(1)) + r"\d+" + re.escape(match.group(2))
+            if re.fullmatch(pattern, child.name) and child.name not in expand_string(str(label)):
+                return False
+    return True
+
+
 def count_seperator(s: str) -> int:
     return s.count(SEPARATOR)
 
-- 
2.43.0


From c6fcd649c848f7c9240c5cb39009dfa3b7642350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 04/84] fix: booleans are not accepted as values of numeric
 datatypes

---
 src/vss_tools/vspec/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..85f5615 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -26,7 +26,8 @@ def is_xintx(value: Any, signed: bool, bits: int):
         values = value
 
     for v in values:
-        if not isinstance(v, int):
+        # bool is a subclass of int
+        if not isinstance(v, int) or isinstance(v, bool):
             return False
         if not signed and v < 0:
             return False
@@ -76,7 +77,8 @@ def is_x(value: Any, c: type) -> bool:
     values = [value]
     if isinstance(value, list):
         values = value
-    return all([isinstance(v, c) for v in values])
+    # bool is a subclass of int
+    return all([isinstance(v, c) and (c is bool or not isinstance(v, bool)) for v in values])
 
 
 def is_bool(value: Any) -> bool:
-- 
2.43.0


From ff92149f9b75366e6f46de42ac705c98a471a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 05/84] fix: falsy default values are checked against the
 allowed list

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 11af15e..264bcd5 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -222,7 +222,7 @@ class VSSDataDatatype(VSSData):
         Checks that the given default values
         are in the allowed list
         """
-        if self.default and self.allowed:
+        if self.default is not None and self.allowed:
             values = self.default
             if not isinstance(self.default, list):
                 values = [self.default]
-- 
2.43.0


From 81cbece96ac9d94659f676e033f74c269aacaf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 06/84] fix: the unit attribute allowed_datatypes is accepted
 as documented in the FAQ

---
 src/vss_tools/vspec/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 264bcd5..280b850 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -147,6 +147,9 @@ class VSSDataBranch(VSSData):
 
 
 class VSSUnit(BaseModel):
+    # Allows both documented spellings 'allowed-datatypes' and 'allowed_datatypes'
+    model_config = ConfigDict(populate_by_name=True)
+
     definition: str
     unit: str | None
     quantity: str
-- 
2.43.0


From 9f08cc7dcc89d111f813529265ec964c0a8db6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 07/84] fix: JSON export filters extended attributes on all
 nodes, not only on the root

---
 src/vss_tools/vspec/vssexporters/vss2json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..d3eaab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,9 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {
+            datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)
+        }
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From d466321a90bdf7dfb207e05976c3ae751313e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 08/84] fix: bare struct names resolve to the closest
 namespace, not to a textual prefix match

---
 src/vss_tools/vspec/datatypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index 85f5615..344d06f 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -240,16 +240,17 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Sorting by depth: if a name exists in several enclosing namespaces the closest one wins
+    for t in sorted(dynamic_datatypes, key=lambda t: t.count(".")):
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if f"{fqn}.".startswith(f"{t}."):
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
         # We are checking whether fqn starts with Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
+        if fqn.startswith(".".join(t.split(".")[:-1]) + "."):
             fqn_namespaced_datatypes[(t.split(".")[-1])] = t
 
     if fqn_namespaced_datatypes:
-- 
2.43.0


From 3211c43185cc4c745dac317346deb339e1f1cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 09/84] fix: struct datatypes do not resolve depending on the
 definition order

---
 src/vss_tools/vspec/tree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index e003da5..53ea82f 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -19,10 +19,10 @@ from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes, dynamic_datatypes
 from vss_tools.vspec.model import (
     ModelValidationException,
+    NodeType,
     VSSData,
     VSSDataBranch,
     VSSDataDatatype,
-    VSSDataStruct,
     VSSRaw,
     get_vss_raw,
     resolve_vss_raw,
@@ -488,16 +488,17 @@ def build_tree(data: dict[str, Any], connect_orphans: bool = False) -> tuple[VSS
     """
     nodes: dict[str, VSSNode] = {}
 
+    # Struct nodes are datatypes. All of them need to be known before any node is
+    # built, otherwise datatypes would resolve depending on the definition order
+    for k, v in data.items():
+        if isinstance(v, dict) and v.get("type") == NodeType.STRUCT.value:
+            dynamic_datatypes.add(k)
+
     for k in sorted(data.keys(), key=count_seperator):
         v: Any = data.get(k)
         parent = get_expected_parent(k)
         node_name = get_name(k)
         node = VSSNode(node_name, k, v)
-        # If this is a datatype tree we should add the
-        # struct node as a datatype
-        if isinstance(node.data, VSSDataStruct):
-            dynamic_datatypes.add(k)
-
         # We connect a parent and children
         # Probably we should be fine only connecting
         # children since we are sorting for separators
-- 
2.43.0


From 671878f8d1c308717cc724a9019e10edee7b3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 10/84] fix: later type files are merged into earlier ones as
 documented

---
 src/vss_tools/vspec/main.py | 38 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..b3b9a88 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -22,7 +22,7 @@ from vss_tools.vspec.model import (
     VSSDataStruct,
     get_all_model_fields,
 )
-from vss_tools.vspec.tree import ModelValidationException, VSSNode, build_tree
+from vss_tools.vspec.tree import ModelValidationException, MultipleRootsException, VSSNode, build_tree
 from vss_tools.vspec.units_quantities import load_quantities, load_units
 from vss_tools.vspec.vspec import InvalidSpecDuplicatedEntryException, load_vspec
 
@@ -109,22 +109,15 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
         log.debug("No user 'types' defined")
         return None
 
-    types_root: VSSNode | None = None
-    # We are iterating to be able to reference
-    # types from earlier type files
-    for types_file in list(types):
-        data = load_vspec(include_dirs, [types_file], "Types")
-        root, orphans = build_tree(data.data)
-        if orphans:
-            log.error(f"Types model has orphans\n{orphans}")
-            exit(1)
-        if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
-        else:
-            types_root = root
+    # Later type files are merged into earlier ones
+    data = load_vspec(include_dirs, list(types), "Types")
+    try:
+        types_root, orphans = build_tree(data.data)
+    except MultipleRootsException as e:
+        raise MultipleTypeTreesException() from e
+    if orphans:
+        log.error(f"Types model has orphans\n{orphans}")
+        exit(1)
 
     if dynamic_datatypes:
         log.info(f"Dynamic datatypes added={len(dynamic_datatypes)}")
@@ -135,12 +128,11 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
     if not all(["." in t for t in dynamic_datatypes]):
         raise RootTypesException()
 
-    if types_root:
-        try:
-            types_root.resolve()
-        except ModelValidationException as e:
-            log.critical(e)
-            exit(1)
+    try:
+        types_root.resolve()
+    except ModelValidationException as e:
+        log.critical(e)
+        exit(1)
 
     return types_root
 
-- 
2.43.0


From e67bd8aebeeeb3fffdf7b7cb12707b084f51c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 11/84] fix: an empty list as default value is exported

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 280b850..35949b8 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -95,7 +95,7 @@ class VSSRaw(BaseModel):
         data = {}
         for k, v in self.model_dump(mode="json", exclude_none=False, exclude=set(excludes)).items():
             if k not in extended_attributes:
-                if v == []:
+                if v == [] and k != "default":
                     continue
                 if v is None:
                     continue
-- 
2.43.0


From 15c4c45c1161a8fb48d12f15b69e9c84c38621ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 12/84] fix: extend-all-attributes also exports extended
 attributes without content

---
 src/vss_tools/vspec/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 35949b8..8ace5af 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -94,7 +94,7 @@ class VSSRaw(BaseModel):
                     excludes.append(extra_attribute)
         data = {}
         for k, v in self.model_dump(mode="json", exclude_none=False, exclude=set(excludes)).items():
-            if k not in extended_attributes:
+            if k not in extended_attributes and k in self.model_fields:
                 if v == [] and k != "default":
                     continue
                 if v is None:
-- 
2.43.0


From ca2034b5933607e207fd2e885262e64cc18ccda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 13/84] fix: NEL characters survive the YAML export

---
 src/vss_tools/vspec/vssexporters/vss2yaml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2yaml.py b/src/vss_tools/vspec/vssexporters/vss2yaml.py
index 608cdb4..7b4a015 100644
--- a/src/vss_tools/vspec/vssexporters/vss2yaml.py
+++ b/src/vss_tools/vspec/vssexporters/vss2yaml.py
@@ -47,6 +47,14 @@ class NoAliasDumper(yaml.SafeDumper):
             super().write_line_break()
 
 
+def represent_str(dumper: NoAliasDumper, data: str):
+    # A NEL character is a line break that would be folded into a space in the default style
+    return dumper.represent_scalar("tag:yaml.org,2002:str", data, style='"' if "\x85" in data else None)
+
+
+NoAliasDumper.add_representer(str, represent_str)
+
+
 @click.command()
 @clo.vspec_opt
 @clo.output_required_opt
-- 
2.43.0


From 82354b6aef4802344d3fa415c51b367c06b449d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 14/84] fix: a single formerly known as name is accepted
 without a list as documented

---
 src/vss_tools/vspec/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index 8ace5af..c2c5332 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -114,6 +114,16 @@ class VSSData(VSSRaw):
     fka: list[str] = []
     instantiate: bool = True
 
+    @field_validator("fka", mode="before")
+    @classmethod
+    def fill_fka(cls, v: Any) -> Any:
+        """
+        A single former name can be given without a list
+        """
+        if isinstance(v, str):
+            return [v]
+        return v
+
     @field_validator("constUID")
     @classmethod
     def check_const_uid_format(cls, v: str | None) -> str | None:
-- 
2.43.0


From 0534535dd1f03176b653293f97d4d99f096b02c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 15/84] fix: a constUID with a trailing newline is malformed

---
 src/vss_tools/vspec/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index c2c5332..6c48684 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -129,8 +129,8 @@ class VSSData(VSSRaw):
     def check_const_uid_format(cls, v: str | None) -> str | None:
         if v is None:
             return v
-        pattern = r"^0x[0-9A-Fa-f]{8}$"
-        assert bool(re.match(pattern, v)), f"'{v}' is not a valid 'constUID'"
+        pattern = r"0x[0-9A-Fa-f]{8}"
+        assert bool(re.fullmatch(pattern, v)), f"'{v}' is not a valid 'constUID'"
         return v
 
 
-- 
2.43.0


From 5e3d8056c9692cfbaa686d05050e835b5f6e13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 16/84] fix: static UIDs that only differ in the letter case of
 a constUID are duplicates

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..02e6a3b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if int(node_id, 16) == int(value, 16):
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From c90a772083983ac48cfe7bcc2efcec1ebd95b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 17/84] fix: static UID validation follows the case-sensitive
 option instead of strict

---
 src/vss_tools/vspec/utils/vss2id_val.py    | 8 ++++----
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index 8231e32..dccecfb 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -16,12 +16,12 @@ from vss_tools.vspec.tree import VSSNode
 from vss_tools.vspec.utils.idgen_utils import fnv1_32_wrapper
 
 
-def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: bool):
+def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sensitive: bool):
     """Check if static UIDs have changed or if new ones need to be added
 
     @param signals_dict: to be exported dict of all signals containing static UID
     @param validation_tree: tree loaded from validation file
-    @param strict
+    @param case_sensitive: whether the static UIDs have been generated case-sensitive
     @return: None
     """
 
@@ -98,11 +98,11 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, strict: b
                 other_sUID = getattr(other_node.data, "staticUID", None)
                 if value["staticUID"] == other_sUID:
                     if key != other_node.get_fqn():
-                        _ = check_semantics(key, value, strict)
+                        _ = check_semantics(key, value, case_sensitive)
                     matched_uids.append((key, id_validation_tree))
             # if not matched via UID check semantics or path change
             if len(matched_uids) == 0:
-                semantic_match = check_semantics(key, value, strict)
+                semantic_match = check_semantics(key, value, case_sensitive)
                 if semantic_match is None:
                     key_found = False
                     for i, node in enumerate(validation_tree_nodes):
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 02e6a3b..2e955ff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From 1a84c340faf163101f89ff9f09f2880f6430be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 18/84] fix: static UIDs can be validated in strict mode

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 2e955ff..f060ddd 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -206,7 +206,8 @@ def cli(
             include_dirs=include_dirs,
             aborts=aborts,
             strict=strict,
-            extended_attributes=extended_attributes,
+            # The static UIDs of the validation file are no violation
+            extended_attributes=tuple(extended_attributes) + ("staticUID",),
             uuid=uuid,
             quantities=quantities,
             units=units,
-- 
2.43.0


From 1d17f14a0f722187848e07188352dfb1e842f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:13 +0000
Subject: [PATCH 19/84] fix: static UID validation matches renamed nodes before
 comparing keys

---
 src/vss_tools/vspec/utils/vss2id_val.py | 40 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/vss_tools/vspec/utils/vss2id_val.py b/src/vss_tools/vspec/utils/vss2id_val.py
index dccecfb..4a75080 100644
--- a/src/vss_tools/vspec/utils/vss2id_val.py
+++ b/src/vss_tools/vspec/utils/vss2id_val.py
@@ -91,6 +91,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
         `DELETED ATTRIBUTE` warning.
         """
         nonlocal validation_tree_nodes
+        unmatched = []
 
         for key, value in signals_dict.items():
             matched_uids = []
@@ -104,24 +105,7 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
             if len(matched_uids) == 0:
                 semantic_match = check_semantics(key, value, case_sensitive)
                 if semantic_match is None:
-                    key_found = False
-                    for i, node in enumerate(validation_tree_nodes):
-                        if key == node.get_fqn():
-                            key_found = True
-                            validation_tree_nodes.pop(i)
-                            break
-
-                    if key_found:
-                        log.warning(
-                            f"[Validation] BREAKING CHANGE: "
-                            f"There was a breaking change for '{key}' which "
-                            f"means its name, unit, datatype, type, enum or "
-                            f"min/max has changed."
-                        )
-                    else:
-                        log.warning(
-                            f"[Validation] ADDED ATTRIBUTE: " f"The node '{key}' was added since the last validation."
-                        )
+                    unmatched.append(key)
                 else:
                     validation_tree_nodes.pop(semantic_match)
 
@@ -139,6 +123,26 @@ def validate_static_uids(signals_dict: dict, validation_tree: VSSNode, case_sens
                 )
                 sys.exit(-1)
 
+        # Keys are compared after all nodes have been matched via UID or fka,
+        # otherwise a node could take the counterpart of a renamed one
+        for key in unmatched:
+            key_found = False
+            for i, node in enumerate(validation_tree_nodes):
+                if key == node.get_fqn():
+                    key_found = True
+                    validation_tree_nodes.pop(i)
+                    break
+
+            if key_found:
+                log.warning(
+                    f"[Validation] BREAKING CHANGE: "
+                    f"There was a breaking change for '{key}' which "
+                    f"means its name, unit, datatype, type, enum or "
+                    f"min/max has changed."
+                )
+            else:
+                log.warning(f"[Validation] ADDED ATTRIBUTE: The node '{key}' was added since the last validation.")
+
         for node in validation_tree_nodes:
             log.warning(
                 "[Validation] DELETED ATTRIBUTE: "
-- 
2.43.0


From 2997e75b5ccf0b1b26be302eb2625eafe05d69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 20/84] fix: types, units and quantities of an earlier load are
 not known to the next one

---
 src/vss_tools/vspec/main.py                | 7 +++++++
 src/vss_tools/vspec/vssexporters/vss2id.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index b3b9a88..c5e2e62 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -186,11 +186,18 @@ def get_trees(
     types: tuple[Path, ...] = (),
     overlays: tuple[Path, ...] = (),
     expand: bool = True,
+    keep_definitions: bool = False,
 ) -> tuple[VSSNode, VSSNode | None]:
     """
     Loading vspec files, building and validating trees (types and normal).
     Returning a tuple of the root and the types tree
+    If 'keep_definitions' is set, types, quantities and units of the previously
+    loaded trees are still known.
     """
+    if not keep_definitions:
+        dynamic_datatypes.clear()
+        dynamic_quantities.clear()
+        dynamic_units.clear()
     if extended_attributes:
         log.info(f"User defined extra attributes: {extended_attributes}")
     try:
diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index f060ddd..7954d29 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,6 +213,7 @@ def cli(
             units=units,
             types=types,
             expand=expand,
+            keep_definitions=True,
         )
         vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
-- 
2.43.0


From 960a97c792ab0b4f62e6552fc15779dc42113d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 21/84] fix: DDS-IDL export does not repeat the signals of an
 earlier export

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..2f75407 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -376,6 +376,7 @@ def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False)
     """This method is used to traverse through the root VSS node to build
     -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
     """
+    idl_file_buffer.clear()
     export_node(root, generate_uuids, generate_all_idl_features)
     file.write("\n".join(idl_file_buffer))
     log.info("IDL file generated at location : " + file.name)
-- 
2.43.0


From cd02c6b1fbdef8d58c1fd584b64c01e9fa651cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 22/84] fix: protobuf type files are not extended by every run

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..5df762b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -60,6 +60,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    initialized: set[Path] = set()
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -71,8 +72,9 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
+        if out_file not in initialized:
             init_package_file(out_file, ".".join(struct_path.parent.parts))
+            initialized.add(out_file)
 
         with open(out_file, "a") as fd:
             imports = []
-- 
2.43.0


From 8547c35325d8b900eb64c460ea0793d83f1c0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 23/84] fix: SAMM export does not reuse the namespace and node
 names of an earlier export

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..d487c37 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -12,6 +12,7 @@
 
 
 import importlib
+import sys
 from pathlib import Path
 from types import ModuleType
 from typing import Optional
@@ -34,6 +35,12 @@ def __setup_environment(output_namespace, vspec_version, split_depth: int) -> No
     # Initialize config before to load other helpers / libraries, based on defined by user input, config data
     cfg.init(output_namespace, vspec_version, split_depth)
 
+    # The helpers read the config (and collect node names) on module level, never reuse them from an earlier export
+    helpers = f"{__package__}.helpers"
+    for name in list(sys.modules):
+        if name == helpers or name.startswith(f"{helpers}."):
+            del sys.modules[name]
+
     global VSSConcepts
     VSSConcepts = importlib.import_module("vss_tools.vspec.vssexporters.vss2samm.helpers.samm_concepts").VSSConcepts
 
-- 
2.43.0


From 3904c2b62ac9c679d8ed01186094080f0255732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:01 +0000
Subject: [PATCH 24/84] fix: binary export writes allowed values that are no
 strings

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..dcd9563 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -39,7 +39,7 @@ from vss_tools.vspec.tree import VSSNode
 
 def allowedString(allowedList):
     allowedStr = ""
-    for elem in allowedList:
+    for elem in map(str, allowedList):
         allowedStr += hexAllowedLen(elem) + elem
     return allowedStr
 
-- 
2.43.0


From fcdb983edbbcce92238dfeef9b7c79197f339b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 25/84] fix: binary export rejects content that does not fit
 instead of writing a corrupt file

Lengths were counted in characters and not in bytes, too long strings got
cut and the output was truncated before its content was known.
---
 .../vspec/vssexporters/vss2binary.py          | 52 ++++++++++++++++---
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index dcd9563..874ae10 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -26,6 +26,7 @@
 # the length is 0.
 
 import struct
+from io import BytesIO
 from pathlib import Path
 from typing import BinaryIO
 
@@ -36,6 +37,33 @@ from vss_tools import log
 from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
+MAX_UINT8 = 255
+MAX_UINT16 = 65535
+
+
+class BinaryFormatException(Exception):
+    """
+    The model contains something that does not fit into the binary format
+    """
+
+
+def encode(s: str, max_length: int) -> bytes:
+    """
+    Encodes a string, all lengths in the binary format are numbers of bytes
+    """
+    data = s.encode()
+    if len(data) > max_length:
+        raise BinaryFormatException(f"'{s[:40]}...' has {len(data)} bytes, maximum is {max_length}")
+    if 0 in data:
+        raise BinaryFormatException(f"'{s[:40]}' contains a NUL character")
+    return data
+
+
+def check_amount(amount: int, what: str) -> int:
+    if amount > MAX_UINT8:
+        raise BinaryFormatException(f"{amount} {what}, maximum is {MAX_UINT8}")
+    return amount
+
 
 def allowedString(allowedList):
     allowedStr = ""
@@ -45,8 +73,9 @@ def allowedString(allowedList):
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = len(encode(allowed, MAX_UINT8))
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -60,7 +89,8 @@ def intToHexChar(hexInt):
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    data = encode(s, MAX_UINT8)
+    pack = struct.pack(f"=B{len(data)}s", len(data), data)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -68,7 +98,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    data = encode(s, MAX_UINT16)
+    pack = struct.pack(f"=H{len(data)}s", len(data), data)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
@@ -91,14 +122,15 @@ def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
     f.write(create_l8v_string(data.get("unit", "")))
 
     if data.get("allowed") is None:
-        f.write(struct.pack("H", 0))
+        f.write(struct.pack("=H", 0))
     else:
+        check_amount(len(data["allowed"]), "allowed values")
         f.write(create_l16v_string(allowedString(data.get("allowed", ""))))
 
     f.write(create_l8v_string(str(data.get("default", ""))))
     f.write(create_l8v_string(str(data.get("validate", ""))))
 
-    f.write(struct.pack("B", len(node.children)))
+    f.write(struct.pack("B", check_amount(len(node.children), "children")))
 
     for child in node.children:
         export_node(child, generate_uuid, f)
@@ -143,6 +175,12 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating binary output...")
+    content = BytesIO()
+    try:
+        export_node(tree, uuid, content)
+    except BinaryFormatException as e:
+        log.critical(f"The model cannot be represented in the binary format: {e}")
+        exit(1)
     with open(str(output), "wb") as f:
-        export_node(tree, uuid, f)
+        f.write(content.getvalue())
     log.info("Binary output generated in %s", output)
-- 
2.43.0


From aa4bbe0c2b276529164e3bba803d6f93ab5e3eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 26/84] fix: binary export rejects paths and access control
 values the libraries cannot represent

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 874ae10..60df224 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -39,6 +39,11 @@ from vss_tools.vspec.tree import VSSNode
 
 MAX_UINT8 = 255
 MAX_UINT16 = 65535
+# Size of the path buffers in the C library (including the terminating NUL)
+MAX_CHARS_PATH = 512
+
+# Values of the extended attribute 'validate' that are known by the libraries
+ACCESS_CONTROL = ["", "write-only", "read-write", "write-only+consent", "read-write+consent"]
 
 
 class BinaryFormatException(Exception):
@@ -107,6 +112,14 @@ def create_l16v_string(s: str) -> bytes:
 def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
     data = node.get_vss_data().as_dict()
 
+    if len(node.get_fqn().encode()) >= MAX_CHARS_PATH:
+        raise BinaryFormatException(f"Path of '{node.name}' is too long, maximum is {MAX_CHARS_PATH - 1} bytes")
+
+    validate = data.get("validate")
+    validate = "" if validate is None else str(validate)
+    if validate not in ACCESS_CONTROL:
+        raise BinaryFormatException(f"'{node.get_fqn()}', unknown access control '{validate}'")
+
     f.write(create_l8v_string(node.name))
     f.write(create_l8v_string(data.get("type", "")))
     if node.uuid is None:
@@ -128,7 +141,7 @@ def export_node(node: VSSNode, generate_uuid, f: BinaryIO):
         f.write(create_l16v_string(allowedString(data.get("allowed", ""))))
 
     f.write(create_l8v_string(str(data.get("default", ""))))
-    f.write(create_l8v_string(str(data.get("validate", ""))))
+    f.write(create_l8v_string(validate))
 
     f.write(struct.pack("B", check_amount(len(node.children), "children")))
 
-- 
2.43.0


From a2db88894110f8362a1d6806eb731917df0d4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:26 +0000
Subject: [PATCH 27/84] fix: C library initialises the fields of a node that
 are not present in the file

---
 binary/c_parser/cparserlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..019522a 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -522,7 +522,7 @@ void writeNode(struct node_t* node) {
 }
 
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));  // fields not present in the file are zero
 	updateReadMetadata(true);
 	populateNode(thisNode);
 
-- 
2.43.0


From 2f23d5261992b5d8af42c34e19d1faf132112a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 28/84] fix: C library writes nodes without access control back
 unchanged

---
 binary/c_parser/cparserlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 019522a..35c96d7 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -139,6 +139,7 @@ uint8_t validateToUint8(char* validate) {
 }
 
 void validateToString(uint8_t validate, char *validation) {
+    validation[0] = 0;
     if (validate%10 == 1) {
         strcpy(validation, "write-only");
     } else if (validate%10 == 2) {
-- 
2.43.0


From a1ba1fd28eaf596389a4f8656690be561e7d465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 29/84] fix: C library reads allowed values of up to 255
 characters without overflow

---
 binary/c_parser/cparserlib.c | 2 +-
 binary/c_parser/cparserlib.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 35c96d7..4d058b9 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -429,7 +429,7 @@ void populateNode(node_t* thisNode) {
 	uint8_t validateLen;
 	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
 	if (validateLen > 0) {
-		char validate[50];
+		char validate[255+1];
 		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
 		validate[validateLen] = '\0';
 		thisNode->validate = validateToUint8(validate);
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..e60405d 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256  // length is given by two hex digits
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
-- 
2.43.0


From 0edc194eaec2131286f9b85d71484ca0403e052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:14 +0000
Subject: [PATCH 30/84] fix: C library search returns exactly the matching
 nodes

Failed wildcard speculations removed matches of other branches, exact
paths also matched nodes above their end, the limit on the number of
results was ignored and long segments or many wildcards overflowed buffers.
---
 binary/c_parser/cparserlib.c | 112 ++++++++++++++---------------------
 binary/c_parser/testparser.c |   4 ++
 2 files changed, 48 insertions(+), 68 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 4d058b9..a4a8ad2 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -40,8 +40,6 @@ typedef struct SearchContext_t {
 	char* searchPath;
 	path_t matchPath;
 	int currentDepth;  // depth in tree from rootNode, and also depth (in segments) in searchPath
-	int speculationIndex;  // inc/dec when pathsegment in focus is wildcard
-	int speculativeMatches[20];  // inc when matching node is saved
 	int maxValidation;
 	int numOfMatches;
 	searchData_t* searchData;
@@ -171,45 +169,40 @@ void incDepth(long thisNode, SearchContext_t* context) {
 	context->currentDepth++;
 }
 
-char getPathSegmentBuf[100];  // modified by getPathSegment() only
+char getPathSegmentBuf[MAXCHARSPATH];  // modified by getPathSegment() only
 char* getPathSegment(int offset, SearchContext_t* context) {
-	char* frontDelimiter = &(context->searchPath[0]);
-	char* endDelimiter;
+	char* segment = context->searchPath;
 	for (int i = 1 ; i < context->currentDepth + offset ; i++) {
-		frontDelimiter = strchr(frontDelimiter+1, '.');
-		if (frontDelimiter == NULL) {
-			if (context->searchPath[strlen(context->searchPath)-1] == '*' && context->currentDepth < context->maxDepth) {
+		segment = strchr(segment, '.');
+		if (segment == NULL) {
+			// a trailing wildcard also stands for the levels below it
+			int pathLen = strlen(context->searchPath);
+			if (pathLen > 0 && context->searchPath[pathLen-1] == '*' && context->currentDepth < context->maxDepth) {
 				return "*";
 			} else {
 				return "";
 			}
 		}
+		segment++;
 	}
-	endDelimiter = strchr(frontDelimiter+1, '.');
-	if (endDelimiter == NULL) {
-		endDelimiter = &(context->searchPath[strlen(context->searchPath)]);
+	int segmentLen = strcspn(segment, ".");
+	if (segmentLen >= MAXCHARSPATH) {
+		return "";  // longer than any name
 	}
-	if (frontDelimiter[0] == '.') {
-		frontDelimiter++;
-	}
-	strncpy(getPathSegmentBuf, frontDelimiter, (int)(endDelimiter-frontDelimiter));
-	getPathSegmentBuf[(int)(endDelimiter-frontDelimiter)] = 0;
+	memcpy(getPathSegmentBuf, segment, segmentLen);
+	getPathSegmentBuf[segmentLen] = 0;
 	return getPathSegmentBuf;
 }
 
 int countSegments(char* path) {
-	int i;
 	if (strlen(path) == 0) {
 		return 0;
 	}
-	char* delim = strchr(path, '.');
-	for (i = 0 ; i < 100 ; i++) {
-		if (delim == NULL) {
-			break;
-		}
-		delim = strchr(delim+1, '.');
+	int segments = 1;
+	for (char* delim = strchr(path, '.') ; delim != NULL ; delim = strchr(delim+1, '.')) {
+		segments++;
 	}
-	return i+1;
+	return segments;
 }
 
 bool compareNodeName(char* nodeName, char* pathName) {
@@ -234,14 +227,15 @@ bool isEndOfScope(SearchContext_t* context) {
 }
 
 int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
-	if (strcmp(getPathSegment(0, context), "*") == 0) {
-		context->speculationIndex++;
-	}
+	bool match = false;
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
 	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
-			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
-			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
+			if (context->numOfMatches < context->maxFound) {
+				strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
+				context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
+				context->numOfMatches++;
+			}
 		} else {
 			if (isGetLeafNodeList == true) {
 			    if (context->numOfMatches == 0) {
@@ -264,36 +258,19 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
 			    fwrite("\"}", 2, 1, context->listFp);
 			}
+			context->numOfMatches++;
 		}
-		context->numOfMatches++;
-		if (context->speculationIndex >= 0) {
-			context->speculativeMatches[context->speculationIndex]++;
-		}
+		match = context->currentDepth >= countSegments(context->searchPath);
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context->currentDepth == context->maxDepth || isEndOfScope(context) == true) {
 		*done = true;
 	} else {
 		*done = false;
 	}
-	if (context->speculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context->currentDepth >= countSegments(context->searchPath)) || context->currentDepth == context->maxDepth)) {
-		return 1;
-	}
-	return 0;
+	return match ? 1 : 0;
 }
 
-/**
- * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
- **/
-void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context->numOfMatches--;
-			context->speculativeMatches[context->speculationIndex]--;
-		}
-	}
-	if (strcmp(getPathSegment(0, context), "*") == 0) {
-		context->speculationIndex--;
-	}
+void decDepth(SearchContext_t* context) {
 	popPathSegment(context);
 	context->currentDepth--;
 }
@@ -545,25 +522,32 @@ void traverseAndWriteNode(struct node_t* node) {
 	}
 }
 
+/**
+ * Returns the number of nodes that match the complete search path. If there are none then
+ * the nodes that have been saved on the way to here are reversed.
+ **/
 int traverseNode(long thisNode, SearchContext_t* context) {
-	int speculationSucceded = 0;
+	int matches = 0;
 
 	incDepth(thisNode, context);
 	if (compareNodeName(VSSgetName(thisNode), getPathSegment(0, context)) == true) {
+		int savedNumOfMatches = context->numOfMatches;
+		int savedMaxValidation = context->maxValidation;
 		bool done;
-		speculationSucceded = saveMatchingNode(thisNode, context, &done);
+		matches = saveMatchingNode(thisNode, context, &done);
 		if (done == false) {
 			int numOfChildren = VSSgetNumOfChildren(thisNode);
-			char* childPathName = getPathSegment(1, context);
 			for (int i = 0 ; i < numOfChildren ; i++) {
-				if (compareNodeName(VSSgetName(VSSgetChild(thisNode, i)), childPathName) == true) {
-					speculationSucceded += traverseNode(VSSgetChild(thisNode, i), context);
-				}
+				matches += traverseNode(VSSgetChild(thisNode, i), context);
 			}
 		}
+		if (matches == 0) {
+			context->numOfMatches = savedNumOfMatches;
+			context->maxValidation = savedMaxValidation;
+		}
 	}
-	decDepth(speculationSucceded, context);
-	return speculationSucceded;
+	decDepth(context);
+	return matches;
 }
 
 void initContext(SearchContext_t* context, char* searchPath, long rootNode, int maxFound, searchData_t* searchData, bool anyDepth, bool leafNodesOnly, int listSize, noScopeList_t* noScopeList) {
@@ -575,7 +559,7 @@ void initContext(SearchContext_t* context, char* searchPath, long rootNode, int
 	context->maxFound = maxFound;
 	context->searchData = searchData;
 	if (anyDepth == true) {
-		context->maxDepth = 100;  //jan 2020 max tree depth = 8
+		context->maxDepth = MAXCHARSPATH;  // deeper than any path
 	} else {
 		context->maxDepth = countSegments(context->searchPath);
 	}
@@ -589,10 +573,6 @@ void initContext(SearchContext_t* context, char* searchPath, long rootNode, int
 	context->currentDepth = 0;
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
-	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 //used for VSSGetLeafNodeList
@@ -603,7 +583,7 @@ void initContext_LNL(SearchContext_t* context, char* searchPath, long rootNode,
 	context->searchData = NULL;
 	context->listFp = listFp;
 	if (anyDepth == true) {
-		context->maxDepth = 100;  //jan 2020 max tree depth = 8
+		context->maxDepth = MAXCHARSPATH;  // deeper than any path
 	} else {
 		context->maxDepth = countSegments(context->searchPath);
 	}
@@ -617,10 +597,6 @@ void initContext_LNL(SearchContext_t* context, char* searchPath, long rootNode,
 	context->currentDepth = 0;
 	context->matchPath[0] = 0;
 	context->numOfMatches = 0;
-	context->speculationIndex = -1;
-	for (int i = 0 ; i < 20 ; i++) {
-		context->speculativeMatches[i] = 0;
-	}
 }
 
 long VSSReadTree(char* filePath) {
diff --git a/binary/c_parser/testparser.c b/binary/c_parser/testparser.c
index 04aa0f0..66dcf74 100644
--- a/binary/c_parser/testparser.c
+++ b/binary/c_parser/testparser.c
@@ -134,6 +134,10 @@ int main(int argc, char** argv) {
                 scanf("%d", &depth);
                 searchData_t searchData[MAXFOUNDNODES];
                 int foundResponses = VSSSearchNodes(subTreePath, rootNode, MAXFOUNDNODES, searchData, false, false, 0, NULL, NULL);
+                if (foundResponses == 0) {
+                    printf("\nNo node found\n");
+                    break;
+                }
                 long subtreeNode = (long)(&(searchData[foundResponses-1]))->foundNodeHandles;
                 char subTreeRootName[MAXCHARSPATH];
                 strcpy(subTreeRootName, VSSgetName((long)(&(searchData[foundResponses-1]))->foundNodeHandles));
-- 
2.43.0


From 5371540f2476acf870c30f213f3931891324a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:14 +0000
Subject: [PATCH 31/84] fix: C library UUID list does not depend on an earlier
 leaf node list

---
 binary/c_parser/cparserlib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index a4a8ad2..58d1763 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -631,6 +631,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
@@ -645,6 +646,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
+	isGetLeafNodeList = false;
 	isGetUuidList = true;
 
 	FILE* listFp = fopen(listFname, "w+");
-- 
2.43.0


From 9d3874f18b5c8e59e31ecc3abeee39bb2c7af47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:14 +0000
Subject: [PATCH 32/84] fix: C library writes the UUID list as valid JSON like
 the Go library

---
 binary/c_parser/cparserlib.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 58d1763..dac3deb 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -247,14 +247,13 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 			    fwrite("\"", 1, 1, context->listFp);
 			} else {
 			    if (context->numOfMatches == 0) {
-				    fwrite("{\"", 2, 1, context->listFp);
+				    fwrite("{\"path\":\"", 9, 1, context->listFp);
 			    } else {
-				    fwrite(", {\"", 4, 1, context->listFp);
+				    fwrite(", {\"path\":\"", 11, 1, context->listFp);
 			    }
 			    fwrite(context->matchPath, strlen(context->matchPath), 1, context->listFp);
-			    fwrite("\", \"", 4, 1, context->listFp);
-			    char uuid[32+1];
-			    strcpy(uuid, VSSgetUUID(thisNode));
+			    fwrite("\", \"uuid\":\"", 11, 1, context->listFp);
+			    char* uuid = VSSgetUUID(thisNode);
 			    fwrite(uuid, strlen(uuid), 1, context->listFp);
 			    fwrite("\"}", 2, 1, context->listFp);
 			}
-- 
2.43.0


From 52cd4f2e14d4d0e1c92a583510fd974ba6c52613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 33/84] fix: Go library knows the node type property

---
 binary/go_parser/datamodel/datamodel.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..0e0947c 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
-- 
2.43.0


From 596e2c4fa1c6b1f09beb8a2c3b130be2f3c271f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 34/84] fix: Go library writes access control values with
 consent back unchanged

---
 binary/go_parser/datamodel/datamodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index 0e0947c..ffd2a22 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
-- 
2.43.0


From 9558b3d5c000b1aa3d9cf7fc1680b776cbc8a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 35/84] fix: Go library does not leave the end of a longer
 existing file behind

---
 binary/go_parser/parserlib/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..5b91e13 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -575,7 +575,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -593,7 +593,7 @@ func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetUuidList = true
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -622,7 +622,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From 2b3e6d7c49a3b1d257dda217b5c65773baa62a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 36/84] fix: Go library UUID list does not depend on an earlier
 leaf node list

---
 binary/go_parser/parserlib/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 5b91e13..821305f 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -574,6 +574,7 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
@@ -591,6 +592,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
+    isGetLeafNodeList = false
     isGetUuidList = true
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
-- 
2.43.0


From cc6cf4a5a25e9a962921a3043541c64e1ac9e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 37/84] fix: Go library does not print a debug message for
 every allowed value

---
 binary/go_parser/parserlib/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 821305f..ee1baac 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -448,7 +448,6 @@ func calculatAllowedStrLen(allowedDef []string) int {
 
 func allowedWrite(allowed string) {
     treeFp.Write(intToHex(len(allowed)))
-fmt.Printf("allowedHexLen: %s\n", string(intToHex(len(allowed))))
     treeFp.Write([]byte(allowed))
 }
 
-- 
2.43.0


From 9547b0a1a8870947a8c0b53acbabc953ece3d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 38/84] fix: Go library search returns exactly the matching
 nodes

Segments behind the end of a search path were taken from its start, failed
wildcard speculations removed matches of other branches, exact paths also
matched nodes above their end and the limit on the number of results was
exceeded.
---
 binary/go_parser/parserlib/parser.go | 97 ++++++++++------------------
 binary/go_parser/testparser.go       |  4 ++
 2 files changed, 39 insertions(+), 62 deletions(-)

diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index ee1baac..707fb97 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -43,8 +43,6 @@ type SearchContext_t struct {
 	SearchPath string
 	MatchPath string
 	CurrentDepth int  // depth in tree from rootNode, and also depth (in segments) in searchPath
-	SpeculationIndex int  // inc/dec when pathsegment in focus is wildcard
-	SpeculativeMatches [20]int  // inc when matching node is saved
 	MaxValidation int
 	NumOfMatches int
 	SearchData []SearchData_t
@@ -169,37 +167,44 @@ func traverseAndWriteNode(node *def.Node_t) {
 	}
 }
 
+/**
+ * Returns the number of nodes that match the complete search path. If there are none then
+ * the nodes that have been saved on the way to here are reversed.
+ **/
 func traverseNode(thisNode *def.Node_t, context *SearchContext_t) int {
-	speculationSucceded := 0
+	matches := 0
 
 	incDepth(thisNode, context)
-//	fmt.Printf("before compareNodeName():VSSnodename=%s, pathnodename=%s\n", VSSgetName(thisNode), getPathSegment(0, context))
 	if (compareNodeName(VSSgetName(thisNode), getPathSegment(0, context)) == true) {
+		savedNumOfMatches := context.NumOfMatches
+		savedMaxValidation := context.MaxValidation
 		var done bool
-		speculationSucceded = saveMatchingNode(thisNode, context, &done)
+		matches = saveMatchingNode(thisNode, context, &done)
 		if (done == false) {
 			numOfChildren := VSSgetNumOfChildren(thisNode)
-			childPathName := getPathSegment(1, context)
 			for i := 0 ; i < numOfChildren ; i++ {
-				if (compareNodeName(VSSgetName(VSSgetChild(thisNode, i)), childPathName) == true) {
-					speculationSucceded += traverseNode(VSSgetChild(thisNode, i), context)
-				}
+				matches += traverseNode(VSSgetChild(thisNode, i), context)
 			}
 		}
+		if (matches == 0) {
+			context.NumOfMatches = savedNumOfMatches
+			context.MaxValidation = savedMaxValidation
+		}
 	}
-	decDepth(speculationSucceded, context)
-	return speculationSucceded
+	decDepth(context)
+	return matches
 }
 
 func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool) int {
-	if (getPathSegment(0, context) == "*") {
-		context.SpeculationIndex++
-	}
+	match := false
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
 	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
-			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
-			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
+			if (context.NumOfMatches < context.MaxFound) {
+				context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
+				context.SearchData[context.NumOfMatches].NodeHandle = thisNode
+				context.NumOfMatches++
+			}
 		} else {
 			if (isGetLeafNodeList == true) {
 			    if (context.NumOfMatches == 0) {
@@ -221,18 +226,16 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 			    context.ListFp.Write([]byte(uuid))
 			    context.ListFp.Write([]byte("\"}"))
 			}
+			context.NumOfMatches++
 		}
-		context.NumOfMatches++
-		if (context.SpeculationIndex >= 0) {
-			context.SpeculativeMatches[context.SpeculationIndex]++
-		}
+		match = context.CurrentDepth >= countSegments(context.SearchPath)
 	}
 	if (VSSgetNumOfChildren(thisNode) == 0 || context.CurrentDepth == context.MaxDepth  || isEndOfScope(context) == true) {
 		*done = true
 	} else {
 		*done = false
 	}
-	if (context.SpeculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context.CurrentDepth >= countSegments(context.SearchPath)) || context.CurrentDepth == context.MaxDepth)) {
+	if (match) {
 		return 1
 	}
 	return 0
@@ -275,25 +278,16 @@ func popPathSegment(context *SearchContext_t) {
 }
 
 func getPathSegment(offset int, context *SearchContext_t) string {
-	frontDelimiter := 0
-	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
-			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
-				return "*"
-			} else {
-				return ""
-			}
-		}
+	segments := strings.Split(context.SearchPath, ".")
+	index := context.CurrentDepth + offset - 1
+	if (index < len(segments)) {
+		return segments[index]
 	}
-	endDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".") + frontDelimiter + 1
-	if (endDelimiter == frontDelimiter) {
-		endDelimiter = len(context.SearchPath)
+	// a trailing wildcard also stands for the levels below it
+	if (strings.HasSuffix(context.SearchPath, "*") && context.CurrentDepth < context.MaxDepth) {
+		return "*"
 	}
-	if (context.SearchPath[frontDelimiter] == '.') {
-		frontDelimiter++
-	}
-	return context.SearchPath[frontDelimiter:endDelimiter]
+	return ""
 }
 
 func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
@@ -301,20 +295,7 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
 	context.CurrentDepth++
 }
 
-/**
- * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
- **/
-func decDepth(speculationSucceded int, context *SearchContext_t) {
-	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
-		if (speculationSucceded == 0) {  // it failed so remove a saved match
-			context.NumOfMatches--
-			context.SpeculativeMatches[context.SpeculationIndex]--
-		}
-	}
-	if (getPathSegment(0, context) == "*") {
-		context.SpeculationIndex--
-	}
+func decDepth(context *SearchContext_t) {
 	popPathSegment(context)
 	context.CurrentDepth--
 }
@@ -509,7 +490,7 @@ func initContext(context *SearchContext_t, searchPath string, rootNode *def.Node
 	context.MaxFound = maxFound
 	context.SearchData = searchData
 	if (anyDepth == true) {
-		context.MaxDepth = 100  //jan 2020 max tree depth = 8
+		context.MaxDepth = 512  // deeper than any path
 	} else {
 		context.MaxDepth = countSegments(context.SearchPath)
 	}
@@ -523,10 +504,6 @@ func initContext(context *SearchContext_t, searchPath string, rootNode *def.Node
 	context.CurrentDepth = 0
 	context.MatchPath = ""
 	context.NumOfMatches = 0
-	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.Node_t, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string) {
@@ -536,7 +513,7 @@ func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.
 	context.SearchData = nil
 	context.ListFp = treeFp
 	if (anyDepth == true) {
-		context.MaxDepth = 100  //jan 2020 max tree depth = 8
+		context.MaxDepth = 512  // deeper than any path
 	} else {
 		context.MaxDepth = countSegments(context.SearchPath)
 	}
@@ -550,10 +527,6 @@ func initContext_LNL(context *SearchContext_t, searchPath string, rootNode *def.
 	context.CurrentDepth = 0
 	context.MatchPath = ""
 	context.NumOfMatches = 0
-	context.SpeculationIndex = -1
-	for i := 0 ; i < 20 ; i++ {
-		context.SpeculativeMatches[i] = 0
-	}
 }
 
 func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDepth bool, leafNodesOnly bool, listSize int, noScopeList []string, validation *int) ([]SearchData_t, int) {
diff --git a/binary/go_parser/testparser.go b/binary/go_parser/testparser.go
index 4c598e6..357bdbd 100644
--- a/binary/go_parser/testparser.go
+++ b/binary/go_parser/testparser.go
@@ -129,6 +129,10 @@ func main() {
                 fmt.Printf("\nSubtree depth: ")
                 fmt.Scanf("%d", &depth)
                 searchData, foundResponses := parser.VSSsearchNodes(subTreePath, root, parser.MAXFOUNDNODES, false, false, 0, nil, nil)
+                if (foundResponses == 0) {
+                    fmt.Printf("\nNo node found\n")
+                    break
+                }
                 subtreeNode := searchData[foundResponses-1].NodeHandle
                 subTreeRootName := parser.VSSgetName(searchData[foundResponses-1].NodeHandle)
                 for i := 1 ; i < depth ; i++ {
-- 
2.43.0


From 8d95a68369c39ecb9986952605c45a57e3c09019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 39/84] fix: protobuf export maps the numeric datatype to
 double

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 5df762b..97db92d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -35,6 +35,7 @@ mapped = {
     "int8": "int32",
     "int16": "int32",
     "boolean": "bool",
+    "numeric": "double",
 }
 
 
-- 
2.43.0


From d229362efd08031c6707c275fc2e3a583cdb7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 40/84] fix: protobuf export rejects static UIDs that give
 illegal field numbers

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 97db92d..0b937e0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -145,9 +145,15 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                     )
                 )
                 sys.exit(-1)
-            fieldNumber = int(int(getattr(node.data, "staticUID"), 0) / 8)
+            fieldNumber = int(getattr(node.data, "staticUID"), 0) >> 3
+            if not 1 <= fieldNumber < 2**29:
+                log.fatal(
+                    f"Aborting because field number {fieldNumber} for signal {node.name} is no legal field number. "
+                    "Consider changing the signal to alter the staticUID."
+                )
+                sys.exit(-1)
             if fieldNumber < 20000 and fieldNumber >= 19000:
-                log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
+                log.fatal(f"""Aborting because field number {fieldNumber} for signal {node.name} is in
                 reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
                 sys.exit(-1)
             if fieldNumber in usedKeys:
-- 
2.43.0


From 79eaf232eb0bb046e5d1640f3a680185e21b183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 41/84] fix: protobuf export lists every import of a type file
 once

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 0b937e0..d0c8f86 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -61,7 +61,8 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
-    initialized: set[Path] = set()
+    # the imports a file already has, an import must not be listed twice
+    initialized: dict[Path, set[str]] = {}
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -75,19 +76,20 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
         out_file = package_path / f"{package_path.name}.proto"
         if out_file not in initialized:
             init_package_file(out_file, ".".join(struct_path.parent.parts))
-            initialized.add(out_file)
+            initialized[out_file] = set()
 
         with open(out_file, "a") as fd:
-            imports = []
+            imports: set[str] = set()
             for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
                 datatype = c_node.data.datatype
                 if "." not in datatype:
                     continue
                 c_struct_path = Path(datatype.replace(".", "/"))
                 if c_struct_path.parent != struct_path.parent:
-                    imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+                    imports.add(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
 
-            write_imports(fd, imports)
+            write_imports(fd, list(imports - initialized[out_file]))
+            initialized[out_file] |= imports
 
             fd.write(f"message {struct_path.name} {{" + "\n")
             print_messages(node.children, fd, static_uid, add_optional)
-- 
2.43.0


From d0825cadb9cf40a676bbd4dad27e99719d408823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 42/84] fix: protobuf export rejects branches that would share
 a message name

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index d0c8f86..63f8bde 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -110,8 +110,21 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
     write_imports(fd, imports)
 
     # write proto messages to file
+    messages: dict[str, str] = {}
+    if imports:
+        # the package of the types cannot share its name with a message
+        messages[imports[0].split(DIR_DELIMITER)[0]] = "the data types"
     for node in findall(tree, filter_=lambda node: isinstance(node.data, VSSDataBranch)):
-        fd.write(f"message {node.get_fqn('')} {{" + "\n")
+        name = node.get_fqn("")
+        if name in messages:
+            log.fatal(
+                f"Aborting, due to collision for message name {name}. "
+                f"It is used by {node.get_fqn()} and {messages[name]}. "
+                "Consider changing the names of the branches."
+            )
+            sys.exit(-1)
+        messages[name] = node.get_fqn()
+        fd.write(f"message {name} {{" + "\n")
         print_messages(node.children, fd, static_uid, add_optional)
         fd.write("}\n\n")
 
-- 
2.43.0


From b3c6649e04fd6254179560cac1b2490bbdfa023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 43/84] fix: protobuf export rejects branches of structs that
 would import each other

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 63f8bde..463d961 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -63,6 +63,8 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
     # the imports a file already has, an import must not be listed twice
     initialized: dict[Path, set[str]] = {}
+    # the packages a package imports
+    needed: dict[str, set[str]] = {}
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -87,6 +89,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
                 c_struct_path = Path(datatype.replace(".", "/"))
                 if c_struct_path.parent != struct_path.parent:
                     imports.add(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+                    needed.setdefault(str(struct_path.parent), set()).add(str(c_struct_path.parent))
 
             write_imports(fd, list(imports - initialized[out_file]))
             initialized[out_file] |= imports
@@ -96,6 +99,15 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
             fd.write("}\n\n")
             log.info(f"Wrote {struct_path.name} to {out_file}")
 
+    # files of protobuf cannot import each other
+    while needed:
+        done = [package for package, imported in needed.items() if not imported & needed.keys()]
+        if not done:
+            log.fatal(f"Aborting, as the structs of {', '.join(sorted(needed))} refer to each other in a circle.")
+            sys.exit(-1)
+        for package in done:
+            del needed[package]
+
 
 def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
-- 
2.43.0


From ce17307e7ab93359fb123ce17efac7218fae06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 44/84] fix: protobuf export refers to struct types
 unambiguously

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 463d961..e01e55f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -155,6 +155,9 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
         if isinstance(node.data, VSSDataDatatype):
             dt_val = node.data.datatype
             data_type = mapped.get(dt_val.strip("[]"), dt_val.strip("[]"))
+            if "." in data_type and data_type.split(".")[0] in [n.name for n in node.root.descendants]:
+                # protobuf looks for the first part of a name in the inner scopes first
+                data_type = "." + data_type
             if dt_val.endswith("[]"):
                 data_type = "repeated " + data_type
             elif add_optional:
-- 
2.43.0


From 2ee27a7db9d5c56ccb864bff15c26623d47f7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 45/84] fix: graphql export maps the numeric datatype to Float

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..968aee8 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -53,6 +53,8 @@ GRAPHQL_TYPE_MAPPING = {
     Datatypes.FLOAT_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.DOUBLE[0]: GraphQLFloat,
     Datatypes.DOUBLE_ARRAY[0]: GraphQLList(GraphQLFloat),
+    Datatypes.NUMERIC[0]: GraphQLFloat,
+    Datatypes.NUMERIC_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.BOOLEAN[0]: GraphQLBoolean,
     Datatypes.BOOLEAN_ARRAY[0]: GraphQLList(GraphQLBoolean),
     Datatypes.STRING[0]: GraphQLString,
-- 
2.43.0


From 7464cfc8f5340a210e33f63a2845ff153a00d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 46/84] fix: graphql export does not write types without fields

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 968aee8..2fbf6a2 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -21,6 +21,7 @@ from graphql import (
     GraphQLObjectType,
     GraphQLSchema,
     GraphQLString,
+    assert_valid_schema,
     print_schema,
 )
 
@@ -85,7 +86,9 @@ def get_schema_from_tree(root: VSSNode, additional_leaf_fields: list) -> str:
         "Query",
         lambda: {"vehicle": GraphQLField(to_gql_type(root, additional_leaf_fields), args)},
     )
-    return print_schema(GraphQLSchema(root_query))
+    schema = GraphQLSchema(root_query)
+    assert_valid_schema(schema)
+    return print_schema(schema)
 
 
 def to_gql_type(node: VSSNode, additional_leaf_fields: list) -> GraphQLObjectType:
@@ -119,8 +122,8 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 
 
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
-    # we only consider nodes that either have children or are datatype leafs
-    valid = (c for c in node.children if len(c.children) or hasattr(c.data, "datatype"))
+    # we only consider nodes that are or contain datatype leafs, a type without fields is no valid one
+    valid = (c for c in node.children if any(isinstance(n.data, VSSDataDatatype) for n in (c, *c.descendants)))
     return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
 
 
-- 
2.43.0


From b44197259260b53abdb2893341aa6ddcf007f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 47/84] fix: graphql export rejects siblings that would share a
 field name

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index 2fbf6a2..cb75931 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -124,7 +124,13 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
 def branch_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQLField]:
     # we only consider nodes that are or contain datatype leafs, a type without fields is no valid one
     valid = (c for c in node.children if any(isinstance(n.data, VSSDataDatatype) for n in (c, *c.descendants)))
-    return {camel_back(c.name): field(c, type=to_gql_type(c, additional_leaf_fields)) for c in valid}
+    fields: Dict[str, GraphQLField] = {}
+    for c in valid:
+        name = camel_back(c.name)
+        if name in fields:
+            raise GraphQLFieldException("", "", f"Two children of {node.get_fqn()} get the field name {name}")
+        fields[name] = field(c, type=to_gql_type(c, additional_leaf_fields))
+    return fields
 
 
 def field(node: VSSNode, description_prefix="", type=GraphQLString) -> GraphQLField:
-- 
2.43.0


From 887348c76a798b8960c5a26d12f625b744b4b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 48/84] fix: graphql export does not let additional fields
 replace the value field

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index cb75931..f833657 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -111,6 +111,8 @@ def leaf_fields(node: VSSNode, additional_leaf_fields: list) -> Dict[str, GraphQ
     field_dict["timestamp"] = field(node, "Timestamp: ")
     if additional_leaf_fields:
         for additional_field in additional_leaf_fields:
+            if additional_field[0] in ("value", "timestamp", "unit"):
+                raise GraphQLFieldException("", "", f"Field {additional_field[0]} is always generated")
             if len(additional_field) == 2:
                 field_dict[additional_field[0]] = field(node, f" {str(additional_field[1])}: ")
             else:
-- 
2.43.0


From dde6b19211f494bcacec93ffd2827b87d761ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 49/84] fix: graphql export does not touch the output if the
 schema cannot be generated

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index f833657..db72e87 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -189,10 +189,10 @@ def cli(
         overlays=overlays,
     )
     log.info("Generating graphql output...")
-    outfile = open(output, "w")
     gqlfields: list[list[str]] = []
     for field in gql_fields:
         gqlfields.append(field.split(","))
-    outfile.write(get_schema_from_tree(tree, gqlfields))
-    outfile.write("\n")
-    outfile.close()
+    schema = get_schema_from_tree(tree, gqlfields)
+    with open(output, "w") as outfile:
+        outfile.write(schema)
+        outfile.write("\n")
-- 
2.43.0


From a0d08d7cc51ad45b41242dcf49a08fb20da26d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 50/84] fix: jsonschema export maps the numeric datatype to
 number

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..b64b2c8 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -33,6 +33,7 @@ type_map = {
     "boolean": "boolean",
     "float": "number",
     "double": "number",
+    "numeric": "number",
     "string": "string",
     "int8[]": "array",
     "uint8[]": "array",
@@ -45,6 +46,7 @@ type_map = {
     "boolean[]": "array",
     "float[]": "array",
     "double[]": "array",
+    "numeric[]": "array",
     "string[]": "array",
 }
 
-- 
2.43.0


From e275925b863205c4ed26a7d5c5f46c1a43e13d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 51/84] fix: jsonschema export keeps default values like 0 and
 false

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index b64b2c8..97d73ec 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -82,7 +82,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From 1c0d3edb1fef79c20c0d620245f64658e5cfc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 52/84] fix: jsonschema export applies the constraints of
 arrays to their items

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 97d73ec..8a99436 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -69,17 +69,25 @@ def export_node(
     if isinstance(data, VSSDataDatatype):
         json_dict[node.name]["type"] = type_map[data.datatype]
 
+    # the constraints of an array apply to its items
+    constraints = json_dict[node.name]
+    if constraints.get("type") == "array":
+        constraints = json_dict[node.name]["items"] = {"type": type_map[data.datatype.removesuffix("[]")]}
+        if data.arraysize:
+            json_dict[node.name]["minItems"] = data.arraysize
+            json_dict[node.name]["maxItems"] = data.arraysize
+
     min = getattr(data, "min", None)
     if min is not None:
-        json_dict[node.name]["minimum"] = min
+        constraints["minimum"] = min
 
     max = getattr(data, "max", None)
     if max is not None:
-        json_dict[node.name]["maximum"] = max
+        constraints["maximum"] = max
 
     allowed = getattr(data, "allowed", None)
     if allowed:
-        json_dict[node.name]["enum"] = allowed
+        constraints["enum"] = allowed
 
     default = getattr(data, "default", None)
     if default is not None:
-- 
2.43.0


From 14067a1422cefee0f8b71876438948a4412784ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 53/84] fix: jsonschema export with --extend-all-attributes
 accepts types files

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8a99436..b7195a6 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -218,8 +218,8 @@ def cli(
     )
 
     # Add data types to the schema
+    data_types_json_schema: Dict[str, Any] = {}
     if datatype_tree is not None:
-        data_types_json_schema: Dict[str, Any] = {}
         export_node(
             data_types_json_schema,
             datatype_tree,
@@ -228,9 +228,6 @@ def cli(
             no_additional_properties,
             require_all_properties,
         )
-        if extend_all_attributes:
-            signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
-
     # VSS models only have one root, so there should only be one
     # key in the dict
     assert len(signals_json_schema.keys()) == 1
@@ -243,5 +240,7 @@ def cli(
         "type": "object",
         **signals_json_schema,
     }
+    if extend_all_attributes and data_types_json_schema:
+        json_schema["x-ComplexDataTypes"] = data_types_json_schema
     with open(output, "w", encoding="utf-8") as output_file:
         json.dump(json_schema, output_file, indent=indent, sort_keys=False)
-- 
2.43.0


From 61a15885ef1320d07c184514764fc80278c62cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 54/84] fix: jsonschema export writes only the requested
 extended attributes

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index b7195a6..cf4a77e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -56,6 +56,7 @@ def export_node(
     node: VSSNode,
     print_uuid: bool,
     all_extended_attributes: bool,
+    extended_attributes: tuple[str],
     no_additional_properties: bool,
     require_all_properties: bool,
 ):
@@ -122,6 +123,8 @@ def export_node(
             json_dict[node.name]["x-uuid"] = node.uuid
 
     for field in data.get_extra_attributes():
+        if not all_extended_attributes and field not in extended_attributes:
+            continue
         json_dict[node.name][field] = getattr(data, field)
 
     # Generate child nodes
@@ -137,6 +140,7 @@ def export_node(
                 child,
                 print_uuid,
                 all_extended_attributes,
+                extended_attributes,
                 no_additional_properties,
                 require_all_properties,
             )
@@ -213,6 +217,7 @@ def cli(
         tree,
         uuid,
         extend_all_attributes,
+        extended_attributes,
         no_additional_properties,
         require_all_properties,
     )
@@ -225,6 +230,7 @@ def cli(
             datatype_tree,
             uuid,
             extend_all_attributes,
+            extended_attributes,
             no_additional_properties,
             require_all_properties,
         )
-- 
2.43.0


From cc47b82cd44f4d5be9675a7cb6a655ddc1256639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 55/84] fix: ddsidl export recognises all keywords of IDL and
 Python

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 2f75407..27f8ef5 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -146,7 +146,13 @@ idl_keywords = [
 
 
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    # identifiers of IDL collide with keywords regardless of the case
+    if (
+        name.lower() in c_keywords
+        or name.lower() in [k.lower() for k in idl_keywords]
+        or keyword.iskeyword(name)
+        or keyword.iskeyword(name.lower())
+    ):
         return "_" + name
     else:
         return name
-- 
2.43.0


From 9d91dbacaf916fa59d8e5231ed06fd272b20a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 56/84] fix: ddsidl export maps the numeric datatype to double

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 27f8ef5..52e2ee5 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -189,6 +189,7 @@ dataTypesMap_covesa_dds = {
     "boolean": "boolean",
     "float": "float",
     "double": "double",
+    "numeric": "double",
     "string": "string",
 }
 
@@ -365,6 +366,8 @@ class StructExporter(object):
         else:
             datatype = getattr_nn(node.data, "datatype", "")
             datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            if datatype_str == "numeric":
+                datatype_str = dataTypesMap_covesa_dds[datatype_str]
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From c541a09ac94d1a4360495aedff5ceb8ca29a5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 57/84] fix: ddsidl export escapes quotes and line breaks

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 52e2ee5..6e3fe1d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -175,6 +175,13 @@ def get_allowed_enum_literal(name: str):
     return name
 
 
+def get_string_literal(text: str) -> str:
+    """The text as string literal on a single line"""
+    for char, escape in (("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\r", "\\r")):
+        text = text.replace(char, escape)
+    return f'"{text}"'
+
+
 idl_file_buffer = []
 
 dataTypesMap_covesa_dds = {
@@ -263,9 +270,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         max = getattr(node.data, "max")
 
         default = getattr(node.data, "default")
-        if default:
+        if default is not None:
             if isinstance(default, str) and not enum_created:
-                default = '"' + default + '"'
+                default = get_string_literal(default)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
@@ -304,7 +311,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     )
 
         if unit is not None:
-            idl_file_buffer.append(("" if generate_all_idl_features else "//") + 'const string unit="' + unit + '";')
+            idl_file_buffer.append(("" if generate_all_idl_features else "//") + "const string unit=" + get_string_literal(unit) + ";")
 
         data = node.get_vss_data()
         idl_file_buffer.append(
@@ -312,7 +319,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         )
 
         idl_file_buffer.append(
-            ("" if generate_all_idl_features else "//") + 'const string description="' + data.description + '";'
+            ("" if generate_all_idl_features else "//") + "const string description=" + get_string_literal(data.description) + ";"
         )
         idl_file_buffer.append("};")
 
-- 
2.43.0


From 86500ef43cdf45bb94345137bfc35e29ae4b363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 58/84] fix: ddsidl export does not write empty modules

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 6e3fe1d..b67e10a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -213,6 +213,11 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         idl_file_buffer.append("module " + getAllowedName(node.name))
         idl_file_buffer.append("{")
         for child in node.children:
+            # a module must not be empty
+            if isinstance(child.data, VSSDataBranch) and all(
+                isinstance(n.data, VSSDataBranch) for n in child.descendants
+            ):
+                continue
             export_node(child, generate_uuid, generate_all_idl_features)
         idl_file_buffer.append("};")
         idl_file_buffer.append("")
@@ -393,7 +398,8 @@ def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False)
     -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
     """
     idl_file_buffer.clear()
-    export_node(root, generate_uuids, generate_all_idl_features)
+    if not all(isinstance(n.data, VSSDataBranch) for n in root.descendants):
+        export_node(root, generate_uuids, generate_all_idl_features)
     file.write("\n".join(idl_file_buffer))
     log.info("IDL file generated at location : " + file.name)
 
-- 
2.43.0


From 4eacd9b0cc99457dd1e8c6d56a6f461b28e18578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 59/84] fix: ddsidl export does not write values that are no
 identifiers as enum literals

---
 .../vspec/vssexporters/vss2ddsidl.py          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index b67e10a..82e803d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -11,6 +11,7 @@
 #
 
 import keyword
+import re
 from pathlib import Path
 
 import rich_click as click
@@ -172,7 +173,15 @@ def get_allowed_enum_literal(name: str):
     """
     if name[0].isdigit():
         return "d" + name
-    return name
+    return getAllowedName(name)
+
+
+def are_allowed_enum_literals(names: list) -> bool:
+    """
+    Check if all of these can be literals of one enum: identifiers that differ in more than their case
+    """
+    literals = [get_allowed_enum_literal(n).lower() for n in names if n and re.fullmatch("[A-Za-z0-9][A-Za-z0-9_]*", n)]
+    return len(literals) == len(names) == len(set(literals))
 
 
 def get_string_literal(text: str) -> str:
@@ -231,7 +240,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
             enum should be enclosed under module block to avoid namespec conflict
             module name for enum is chosen as the node name +
             """
-            if datatype in ["string", "string[]"]:
+            if datatype in ["string", "string[]"] and are_allowed_enum_literals(allowed):
                 idl_file_buffer.append("module " + getAllowedName(node.name) + "_M")
                 idl_file_buffer.append("{")
                 idl_file_buffer.append(
@@ -246,7 +255,7 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                 allowed_values = str(allowed)
             else:
                 print(
-                    f"Warning: VSS2IDL can only handle allowed values for string type, "
+                    f"Warning: VSS2IDL can only handle allowed values for string type that are distinct identifiers, "
                     f"signal {node.name} has type {datatype}"
                 )
 
@@ -276,8 +285,8 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
 
         default = getattr(node.data, "default")
         if default is not None:
-            if isinstance(default, str) and not enum_created:
-                default = get_string_literal(default)
+            if isinstance(default, str):
+                default = get_allowed_enum_literal(default) if enum_created else get_string_literal(default)
 
         if datatype is not None:
             # adding range if min and max are specified in vspec file
-- 
2.43.0


From 80505bee98302743563f4dc011868cde3bdbb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 60/84] fix: ddsidl export refers to structs by their declared
 names

---
 .../vspec/vssexporters/vss2ddsidl.py          | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 82e803d..4de1f97 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -210,6 +210,15 @@ dataTypesMap_covesa_dds = {
 }
 
 
+def get_custom_type(node: VSSNode, datatype: str) -> str:
+    """The scoped name of a struct as it has to be written within the given node"""
+    scoped_name = "::".join(getAllowedName(name) for name in datatype.split("."))
+    # IDL looks for the first part of a scoped name in the inner scopes first
+    if datatype.split(".")[0].lower() in [n.name.lower() for n in node.root.descendants]:
+        return "::" + scoped_name
+    return scoped_name
+
+
 def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: bool) -> None:
     """
     This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
@@ -272,9 +281,11 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     nodevalueArray = datatype.split("[", 1)
                     if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
                         datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
-                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
+                    else:  # custom data type
+                        datatype = get_custom_type(node, nodevalueArray[0])
+                    arraysize = "[" + str(arraysize) + nodevalueArray[1]
                 else:  # no primitive type. this is custom
-                    datatype = datatype.replace(".", "::")  # custom data type
+                    datatype = get_custom_type(node, datatype)  # custom data type
 
         except AttributeError:
             pass
@@ -386,9 +397,11 @@ class StructExporter(object):
             self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
         else:
             datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.replace(".", "::").split("[", 1)[0]
+            datatype_str = datatype.split("[", 1)[0]
             if datatype_str == "numeric":
                 datatype_str = dataTypesMap_covesa_dds[datatype_str]
+            elif "." in datatype_str:
+                datatype_str = get_custom_type(node, datatype_str)
             is_seq = "[" in datatype
             if is_seq:
                 self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-- 
2.43.0


From 03af2b06fd27fb7051024579fb85c52c627ea9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 61/84] fix: ddsidl export declares every struct before it is
 used

---
 .../vspec/vssexporters/vss2ddsidl.py          | 91 +++++++++----------
 1 file changed, 44 insertions(+), 47 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4de1f97..433e381 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -15,6 +15,7 @@ import re
 from pathlib import Path
 
 import rich_click as click
+from anytree import PreOrderIter
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
@@ -357,62 +358,58 @@ class StructExporter(object):
     def __init__(self):
         self.str_buf = ""
         self.structs_seen = []
+        self.modules = []
 
     def export(self, root) -> str:
         self.str_buf = ""
         self.structs_seen = []
-        self.export_data_type_node(root)
+        self.modules = []
+        for node in PreOrderIter(root, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
+            self.export_struct(node)
+        self.enter_modules([])
         return self.str_buf
 
-    def export_data_type_node(self, node: VSSNode):
+    def enter_modules(self, modules: list[str]):
+        """Close and open modules such that the given ones are open"""
+        common = 0
+        while common < min(len(modules), len(self.modules)) and modules[common] == self.modules[common]:
+            common += 1
+        self.str_buf += "};\n" * (len(self.modules) - common)
+        for module in modules[common:]:
+            self.str_buf += f"module {getAllowedName(module)}" + " {\n"
+        self.modules = modules
+
+    def export_struct(self, node: VSSNode):
         """
-        This method is used to traverse VSS node and to create corresponding DDS IDL buffer string
+        This method is used to create the DDS IDL string buffer of a struct and of the structs it needs to be complete
         """
-
-        prefix = ""
-        suffix = ""
-        if isinstance(node.data, VSSDataBranch):
-            prefix = f"module {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-        elif isinstance(node.data, VSSDataStruct):
-            # check if the properties use structs that have not been seen before
-            # if not, add a forward declaration
-            fwds = []
-            for c in node.children:
-                datatype = getattr_nn(c.data, "datatype", "")
-                if not datatype.startswith("Types."):
-                    continue
-
-                datatype_str = datatype(".", "::").split("[", 1)[0]
-                if datatype_str not in self.structs_seen:
-                    base_type = datatype_str.split("::")[-1]
-                    fwds.append(base_type)
-
-            fwds.sort()
-            for f in set(fwds):
-                prefix += f"struct {f};\n"
-
-            prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-            suffix = "};\n"
-            self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
+        if node in self.structs_seen:
+            return
+        self.structs_seen.append(node)
+        for c in node.children:
+            datatype = getattr_nn(c.data, "datatype", "").split("[", 1)[0]
+            needed = node.root.get_node_with_fqn(datatype) if "." in datatype else None
+            if needed is not None:
+                self.export_struct(needed)
+
+        self.enter_modules([n.name for n in node.path[:-1]])
+        self.str_buf += f"struct {getAllowedName(node.name)}" + " {\n"
+        for c in node.children:
+            self.export_property(c)
+        self.str_buf += "};\n"
+
+    def export_property(self, node: VSSNode):
+        datatype = getattr_nn(node.data, "datatype", "")
+        datatype_str = datatype.split("[", 1)[0]
+        if datatype_str == "numeric":
+            datatype_str = dataTypesMap_covesa_dds[datatype_str]
+        elif "." in datatype_str:
+            datatype_str = get_custom_type(node, datatype_str)
+        is_seq = "[" in datatype
+        if is_seq:
+            self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
         else:
-            datatype = getattr_nn(node.data, "datatype", "")
-            datatype_str = datatype.split("[", 1)[0]
-            if datatype_str == "numeric":
-                datatype_str = dataTypesMap_covesa_dds[datatype_str]
-            elif "." in datatype_str:
-                datatype_str = get_custom_type(node, datatype_str)
-            is_seq = "[" in datatype
-            if is_seq:
-                self.str_buf += f"sequence<{datatype_str}> {getAllowedName(node.name)};\n"
-            else:
-                self.str_buf += f"{datatype_str} {getAllowedName(node.name)};\n"
-
-        self.str_buf += f"{prefix}"
-
-        for child in node.children:
-            self.export_data_type_node(child)
-        self.str_buf += suffix
+            self.str_buf += f"{datatype_str} {getAllowedName(node.name)};\n"
 
 
 def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False):
-- 
2.43.0


From f981885297be162d2a83b4c20e66affaca57e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 62/84] fix: ddsidl export writes types and signals in one go

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 433e381..b60d579 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -471,12 +471,13 @@ def cli(
     )
     log.info("Generating DDS-IDL output...")
 
+    types_idl = ""
     if datatype_tree is not None:
         exporter = StructExporter()
-        with open(output, "w") as idl_out:
-            idl_out.write(exporter.export(datatype_tree))
+        types_idl = exporter.export(datatype_tree)
 
-    with open(output, "a" if datatype_tree is not None else "w") as idl_out:
+    with open(output, "w") as idl_out:
+        idl_out.write(types_idl)
         export_idl(
             idl_out,
             tree,
-- 
2.43.0


From 81f851547040e2098e85d2d0cda315e3e3a05648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 63/84] fix: go export only shares structs between instances of
 identical content

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 75 ++++++++++++++--------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..5c5273a 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -63,18 +63,6 @@ def get_instance_root(root: VSSNode, depth: int = 1) -> tuple[VSSNode, int]:
         raise NoInstanceRootException()
 
 
-def add_children_map_entries(root: VSSNode, fqn: str, replace: str, map: dict[str, str]) -> None:
-    """
-    Adding rename map entries for children of a given node
-    """
-    child: VSSNode
-    for child in root.children:
-        child_fqn = child.get_fqn()
-        new_name = child_fqn.replace(fqn, replace)
-        map[child_fqn] = new_name
-        add_children_map_entries(child, fqn, replace, map)
-
-
 def get_instance_mapping(root: VSSNode | None) -> dict[str, str]:
     """
     Constructing a rename map of fqn->new_name.
@@ -85,16 +73,47 @@ def get_instance_mapping(root: VSSNode | None) -> dict[str, str]:
         return {}
     instance_map: dict[str, str] = {}
     for node in PreOrderIter(root):
-        if isinstance(node.data, VSSDataBranch):
-            if node.data.is_instance:
-                instance_root, depth = get_instance_root(node)
-                new_name = instance_root.get_fqn() + "." + "I" + str(depth)
-                fqn = node.get_fqn()
-                instance_map[fqn] = new_name
-                add_children_map_entries(node, fqn, instance_root.get_fqn(), instance_map)
+        if not isinstance(node.data, VSSDataBranch):
+            continue
+        if node.data.is_instance:
+            instance_root, depth = get_instance_root(node)
+            name = f"I{depth}"
+        elif node.parent and node.parent.data.is_instance:
+            instance_root, _ = get_instance_root(node.parent)
+            name = node.name
+        elif node.parent and node.parent.get_fqn() in instance_map:
+            instance_root = node.parent
+            name = node.name
+        else:
+            continue
+        instance_map[node.get_fqn()] = f"{get_struct_name(instance_root.get_fqn(), instance_map)}.{name}"
+    remove_ambiguous_names(root, instance_map)
     return instance_map
 
 
+def remove_ambiguous_names(root: VSSNode, map: dict[str, str]) -> None:
+    """
+    Branches (like instances of the same branch) can only share one struct if their content is identical.
+    The other ones keep their own name.
+    """
+    while True:
+        content: dict[str, list[GoStruct]] = {}
+        nodes: dict[str, list[str]] = {}
+        for node in PreOrderIter(root):
+            if isinstance(node.data, VSSDataBranch):
+                struct = get_go_struct(node, map)
+                structs = content.setdefault(struct.name, [])
+                if str(struct) not in [str(s) for s in structs]:
+                    structs.append(struct)
+                nodes.setdefault(struct.name, []).append(node.get_fqn())
+        ambiguous = [name for name, structs in content.items() if len(structs) > 1]
+        if not ambiguous:
+            return
+        for name in ambiguous:
+            for fqn in nodes[name]:
+                map.pop(fqn, None)
+
+
 def get_datatype(node: VSSNode) -> str | None:
     """
     Gets the datatype string of a node.
@@ -147,19 +166,23 @@ def get_struct_name(fqn: str, map: dict[str, str]) -> str:
         return fqn
 
 
+def get_go_struct(node: VSSNode, map: dict[str, str]) -> GoStruct:
+    struct = GoStruct(get_struct_name(node.get_fqn(), map))
+    for child in node.children:
+        datatype = get_datatype(child)
+        if not datatype:
+            datatype = get_struct_name(child.get_fqn(), map)
+        struct.members.append(GoStructMember(child.name, datatype))
+    return struct
+
+
 def get_go_structs(root: VSSNode | None, map: dict[str, str], type_tree: bool = False) -> dict[str, GoStruct]:
     structs: dict[str, GoStruct] = {}
     if root is None:
         return structs
     for node in PreOrderIter(root):
         if isinstance(node.data, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
-            struct = GoStruct(get_struct_name(node.get_fqn(), map))
-            for child in node.children:
-                datatype = get_datatype(child)
-                if not datatype:
-                    datatype = get_struct_name(child.get_fqn(), map)
-                member = GoStructMember(child.name, datatype)
-                struct.members.append(member)
+            struct = get_go_struct(node, map)
             if type_tree and isinstance(node.data, VSSDataBranch):
                 pass
             else:
-- 
2.43.0


From 748ac2025567de3d5d5e406535b46fc7c5f0e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 64/84] fix: go export writes distinct type names and no
 keywords

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 48 +++++++++++++++++++---
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 5c5273a..b4dacd8 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -43,6 +43,17 @@ datatype_map = {
 }
 
 
+GO_KEYWORDS = {
+    *["break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go"],
+    *["goto", "if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type"],
+    "var",
+}
+GO_TYPES = {
+    *["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"],
+    *["float32", "float64", "string", "bool", "init"],
+}
+
+
 class NoInstanceRootException(Exception):
     pass
 
@@ -146,8 +157,12 @@ class GoStruct:
         self.name = name
         self.members: list[GoStructMember] = []
 
+    @property
+    def go_name(self) -> str:
+        return self.name.replace(".", "")
+
     def __str__(self) -> str:
-        r = f"type {self.name.replace('.', '')} struct {{\n"
+        r = f"type {self.go_name} struct {{\n"
         for member in self.members:
             r += f"\t{member.name} {member.datatype.replace('.', '')}\n"
         r += "}\n"
@@ -222,13 +237,13 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
         split = struct.name.split(".")
         sp = split[0]
         if len(split) == 1:
-            structs_new.append(struct.name)
+            structs_new.append(struct.go_name)
         else:
-            if sp != prefix:
-                structs_new.append(struct.name)
+            if sp != prefix or is_only_instance(".".join(split[1:])):
+                structs_new.append(struct.go_name)
             else:
                 log.debug(f"Stripping, {prefix=}, {struct.name=}")
-                structs_new.append(".".join(split[1:]))
+                structs_new.append("".join(split[1:]))
                 log.debug(f"New name: {structs_new[-1]}")
 
     return len(structs_new) - len(set(structs_new))
@@ -278,6 +293,27 @@ def strip_structs_prefix(prefix: str, structs: dict[str, GoStruct]) -> int:
     return stripped
 
 
+def check_names(structs: dict[str, GoStruct]) -> None:
+    """
+    Aborts if the structs do not have distinct names that are usable in go
+    """
+    names: set[str] = set()
+    for fqn, struct in structs.items():
+        name = struct.go_name
+        if name in names:
+            log.error(f"'{fqn}': There is more than one struct '{name}'")
+            raise SystemExit(1)
+        names.add(name)
+    for fqn, struct in structs.items():
+        for name in [struct.go_name] + [member.name for member in struct.members]:
+            if name in GO_KEYWORDS:
+                log.error(f"'{fqn}': '{name}' is a keyword of go")
+                raise SystemExit(1)
+        if struct.go_name in GO_TYPES:
+            log.error(f"'{fqn}': '{struct.go_name}' is a predeclared name of go")
+            raise SystemExit(1)
+
+
 @click.command()
 @clo.vspec_opt
 @clo.output_required_opt
@@ -343,6 +379,8 @@ def cli(
             else:
                 rounds += 1
 
+    check_names(structs)
+
     with open(output, "w") as f:
         f.write(f"package {package}\n\n")
         for struct in structs.values():
-- 
2.43.0


From 9bc362ebc31f7460dcfdd980521bc3f50261888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 65/84] fix: instances with the name of another node of the
 same branch are rejected

---
 src/vss_tools/vspec/main.py | 14 ++++++++++++--
 src/vss_tools/vspec/tree.py | 11 ++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index c5e2e62..9c31684 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -22,7 +22,13 @@ from vss_tools.vspec.model import (
     VSSDataStruct,
     get_all_model_fields,
 )
-from vss_tools.vspec.tree import ModelValidationException, MultipleRootsException, VSSNode, build_tree
+from vss_tools.vspec.tree import (
+    InvalidExpansionEntryException,
+    ModelValidationException,
+    MultipleRootsException,
+    VSSNode,
+    build_tree,
+)
 from vss_tools.vspec.units_quantities import load_quantities, load_units
 from vss_tools.vspec.vspec import InvalidSpecDuplicatedEntryException, load_vspec
 
@@ -225,7 +231,11 @@ def get_trees(
         exit(1)
 
     if expand:
-        root.expand_instances()
+        try:
+            root.expand_instances()
+        except InvalidExpansionEntryException as e:
+            log.critical(f"Invalid instances: {e}")
+            exit(1)
 
     if uuid:
         log.warning("UUID support is deprecated and will be removed in VSS-tools 6.0")
diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 53ea82f..5afd6bc 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -436,6 +436,8 @@ def expand_instance(
     log.debug(f"Requested instance names: {names}")
     for name in names:
         for root in roots:
+            if name in [child.name for child in root.children]:
+                raise InvalidExpansionEntryException(f"'{root.get_fqn()}': More than one node '{name}'")
             # Need to copy the template so that we
             # are not messing with the same node
             node = template.copy()
@@ -466,12 +468,15 @@ def is_instantiated(child: VSSNode, instances: list[Any]) -> bool:
     if not getattr(child.data, "instantiate", True):
         return False
     for instance in instances:
-        for label in instance if isinstance(instance, list) else [instance]:
-            match = re.match(r"(.*)\[\d+,\d+\](.*)", str(label))
+        labels = [str(label) for label in (instance if isinstance(instance, list) else [instance])]
+        if child.name in [name for label in labels for name in expand_string(label)]:
+            continue
+        for label in labels:
+            match = re.match(r"(.*)\[\d+,\d+\](.*)", label)
             if not match:
                 continue
             pattern = re.escape(match.group(1)) + r"\d+" + re.escape(match.group(2))
-            if re.fullmatch(pattern, child.name) and child.name not in expand_string(str(label)):
+            if re.fullmatch(pattern, child.name):
                 return False
     return True
 
-- 
2.43.0


From 8508ef679b66635beba948d49aeaa4fe2a754a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 66/84] fix: go export terminates when no name is left to
 resolve

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index b4dacd8..d393a4d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -117,12 +117,11 @@ def remove_ambiguous_names(root: VSSNode, map: dict[str, str]) -> None:
                 if str(struct) not in [str(s) for s in structs]:
                     structs.append(struct)
                 nodes.setdefault(struct.name, []).append(node.get_fqn())
-        ambiguous = [name for name, structs in content.items() if len(structs) > 1]
+        ambiguous = [fqn for name, fqns in nodes.items() for fqn in fqns if len(content[name]) > 1 and fqn in map]
         if not ambiguous:
             return
-        for name in ambiguous:
-            for fqn in nodes[name]:
-                map.pop(fqn, None)
+        for fqn in ambiguous:
+            map.pop(fqn)
 
 
 def get_datatype(node: VSSNode) -> str | None:
-- 
2.43.0


From 4ba101c5e4d4acf4b5d9e15864cc03e8620234a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 67/84] fix: franca export escapes quotes and line breaks

---
 src/vss_tools/vspec/vssexporters/vss2franca.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2franca.py b/src/vss_tools/vspec/vssexporters/vss2franca.py
index c1192df..75134da 100644
--- a/src/vss_tools/vspec/vssexporters/vss2franca.py
+++ b/src/vss_tools/vspec/vssexporters/vss2franca.py
@@ -9,6 +9,7 @@
 # Convert vspec tree to franca
 
 
+import json
 from io import TextIOWrapper
 from pathlib import Path
 
@@ -21,6 +22,13 @@ from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.tree import VSSNode
 
 
+def quoted(text: str) -> str:
+    """
+    String literal, quotes, backslashes and line breaks are escaped
+    """
+    return json.dumps(text, ensure_ascii=False)
+
+
 # Write the header line
 def print_franca_header(file, version="unknown"):
     file.write(f"""
@@ -30,7 +38,7 @@ def print_franca_header(file, version="unknown"):
 // Mozilla Public License, version 2.0.  The full text of the
 // Mozilla Public License is at https://www.mozilla.org/MPL/2.0/
 
-const UTF8String VSS_VERSION = "{version}"
+const UTF8String VSS_VERSION = {quoted(str(version))}
 
 struct SignalSpec {{
     UInt32 id
@@ -58,17 +66,17 @@ def print_franca_content(file: TextIOWrapper, root: VSSNode, with_uuid: bool) ->
                 output += ",\n{"
             else:
                 output += "{"
-            output += f'\tname: "{node.get_fqn()}"'
+            output += f'\tname: {quoted(node.get_fqn())}'
             output += f',\n\ttype: "{data.type.value}"'
-            output += f',\n\tdescription: "{data.description}"'
+            output += f',\n\tdescription: {quoted(data.description)}'
             datatype = getattr(data, "datatype", None)
             if datatype:
-                output += f',\n\tdatatype: "{datatype}"'
+                output += f',\n\tdatatype: {quoted(datatype)}'
             if with_uuid:
                 output += f',\n\tuuid: "{node.uuid}"'
             unit = getattr(data, "unit", None)
             if unit:
-                output += f',\n\tunit: "{unit}"'
+                output += f',\n\tunit: {quoted(unit)}'
             min = getattr(data, "min", None)
             if min is not None:
                 output += f",\n\tmin: {min}"
-- 
2.43.0


From 8de6202ce7e178216c97bdad54a24e299344c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 68/84] fix: apigear export maps the numeric datatype and
 writes allowed numbers with their value

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index df72495..515c0f7 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -150,7 +150,7 @@ def get_apigear_datatype(t: str) -> typing.Optional[ApiGearType]:
         apigear_type = ApiGearType(ApiGearBasicType.INT64.value)
     elif t == "float":
         apigear_type = ApiGearType(ApiGearBasicType.FLOAT32.value)
-    elif t == "double":
+    elif t in ["double", "numeric"]:
         apigear_type = ApiGearType(ApiGearBasicType.FLOAT64.value)
     elif t == "boolean":
         apigear_type = ApiGearType(ApiGearBasicType.BOOL.value)
@@ -216,6 +216,8 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
                 datatype = getattr(data, "datatype")
                 if datatype == Datatypes.FLOAT[0]:
                     enum.variants.append((variant, None))
+                elif isinstance(element, int) and not isinstance(element, bool):
+                    enum.variants.append((variant, element))
                 else:
                     enum.variants.append((variant, element_dec))
 
-- 
2.43.0


From 622460378c29b0a72e2466762e4216d280eb93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 69/84] fix: apigear export accepts empty allowed strings and
 writes negative allowed numbers as identifiers

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 515c0f7..59ce360 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -108,7 +108,7 @@ class ApiGearModule:
 
 
 def starts_with_number(name: str) -> bool:
-    return name[0].isdigit()
+    return name[:1].isdigit()
 
 
 def hex_to_dec(number: str) -> int | None:
@@ -132,8 +132,8 @@ def get_allowed_enum_literal(name: str) -> str:
     Python code by Eclipse Cyclone DDS idlc Python Backend.
     By that reason we now add a regular character instead.
     """
-    if starts_with_number(name):
-        return "d" + name.replace(".", "_")
+    if starts_with_number(name.lstrip("-")):
+        return "d" + name.replace(".", "_").replace("-", "_").replace("+", "")
     return name
 
 
-- 
2.43.0


From 1a628917d0e1f6fe5f4dbdf3763b47b42b682115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 70/84] fix: apigear export rejects models with colliding names
 and fails if the directory exists

---
 .../vspec/vssexporters/vss2apigear.py         | 40 ++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 59ce360..ccd5fb3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -25,6 +25,10 @@ from pathlib import Path
 from math import inf
 
 
+class ApiGearNameException(Exception):
+    pass
+
+
 class SolutionLayers(Flag):
     UNREAL = auto()
     CPP = auto()
@@ -174,6 +178,25 @@ def node_name(node: VSSNode) -> str:
         return name
 
 
+def add_property(
+    properties: typing.Dict[str, ApiGearProperty], name: str, property: ApiGearProperty, node: VSSNode
+) -> None:
+    if name in properties:
+        raise ApiGearNameException(f"'{node.get_fqn()}': More than one property '{name}'")
+    properties[name] = property
+
+
+def check_type_names(module: ApiGearModule) -> None:
+    """
+    Interfaces, enums and structs are separated by their name only
+    """
+    names: set[str] = set()
+    for element in [*[i for i in module.interfaces if i.properties], *module.enumerations, *module.structures]:
+        if element.name in names:
+            raise ApiGearNameException(f"More than one interface, enum or struct '{element.name}'")
+        names.add(element.name)
+
+
 def generate_property(node: VSSNode, datatype: str) -> ApiGearProperty | None:
     apigear_type = get_apigear_datatype(datatype)
     data = node.get_vss_data()
@@ -225,13 +248,13 @@ def export_node(node: VSSNode, module: ApiGearModule, interface: ApiGearInterfac
             if data.description != "":
                 property.description = data.description
             if interface is not None:
-                interface.properties[name] = property
+                add_property(interface.properties, name, property, node)
                 module.enumerations.append(enum)
         elif isinstance(node.data, VSSDataDatatype):
             datatype = getattr(data, "datatype")
             prop = generate_property(node, datatype)
             if prop is not None and interface is not None:
-                interface.properties[name] = prop
+                add_property(interface.properties, name, prop, node)
 
 
 def export_data_type_node(node: VSSNode | None, module: ApiGearModule, structure: ApiGearStructure | None = None):
@@ -263,7 +286,7 @@ def export_data_type_node(node: VSSNode | None, module: ApiGearModule, structure
         datatype = getattr(data, "datatype")
         prop = generate_property(node, datatype)
         if prop is not None and structure is not None:
-            structure.properties[name] = prop
+            add_property(structure.properties, name, prop, node)
 
 
 def generate_module(directory: Path, module: ApiGearModule, module_name: str, module_filename: str):
@@ -433,6 +456,8 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     export_node(root, module)
     export_data_type_node(data_type_tree, module)
+    check_type_names(module)
+    directory.mkdir(parents=True)
     generate_solution(directory, module_filename, module_name, layers)
     generate_module(directory, module, module_name, module_filename)
     log.info(f"Apigear files generated at location: {directory}")
@@ -510,8 +535,7 @@ def cli(
     log.info("Generating ApiGear output...")
     if output_dir.exists():
         log.error("Directory already exists. Aborting..")
-        return
-    output_dir.mkdir(exist_ok=True, parents=True)
+        exit(1)
 
     layers = {}
     if (apigear_template_unreal_path is not None):
@@ -523,4 +547,8 @@ def cli(
     if (apigear_template_qt6_path is not None):
         layers[SolutionLayers.QT6] = apigear_template_qt6_path
 
-    export_apigear(output_dir, tree, data_type_tree, layers)
+    try:
+        export_apigear(output_dir, tree, data_type_tree, layers)
+    except ApiGearNameException as e:
+        log.error(f"{e}. Aborting..")
+        exit(1)
-- 
2.43.0


From 4f0b5d772ac5afcb119474c8cc70deab96a397c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 71/84] fix: apigear export refers to deprecated structs by
 their declared name

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index ccd5fb3..1526ff1 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -12,6 +12,7 @@
 import abc
 import typing
 import yaml
+from anytree import PreOrderIter
 import rich_click as click
 import vss_tools.vspec.cli_options as clo
 
@@ -186,6 +187,18 @@ def add_property(
     properties[name] = property
 
 
+def rename_deprecated_structs(root: VSSNode | None, module: ApiGearModule) -> None:
+    """
+    Properties refer to structs by the name they are declared with
+    """
+    if root is None:
+        return
+    names = {node.get_fqn("_"): node_name(node) for node in PreOrderIter(root) if isinstance(node.data, VSSDataStruct)}
+    for element in [*module.interfaces, *module.structures]:
+        for property in element.properties.values():
+            property.type.type = names.get(property.type.type, property.type.type)
+
+
 def check_type_names(module: ApiGearModule) -> None:
     """
     Interfaces, enums and structs are separated by their name only
@@ -456,6 +469,7 @@ def export_apigear(directory: Path, root: VSSNode, data_type_tree: VSSNode | Non
 
     export_node(root, module)
     export_data_type_node(data_type_tree, module)
+    rename_deprecated_structs(data_type_tree, module)
     check_type_names(module)
     directory.mkdir(parents=True)
     generate_solution(directory, module_filename, module_name, layers)
-- 
2.43.0


From 18491c53e4f287e12e012732d8c91fe44d17ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 72/84] fix: apigear export keeps the directories of the
 template paths

---
 src/vss_tools/vspec/vssexporters/vss2apigear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 1526ff1..94e8aa3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -417,16 +417,16 @@ def generate_solution(directory: Path, module_filename: str, module_name: str,
     for solution in layers:
         match solution:
             case SolutionLayers.UNREAL:
-                unreal["output"] = layers[solution].name
+                unreal["output"] = str(layers[solution])
                 yaml_dict["layers"].append(unreal)
             case SolutionLayers.CPP:
-                cpp14["output"] = layers[solution].name
+                cpp14["output"] = str(layers[solution])
                 yaml_dict["layers"].append(cpp14)
             case SolutionLayers.QT5:
-                qt5["output"] = layers[solution].name
+                qt5["output"] = str(layers[solution])
                 yaml_dict["layers"].append(qt5)
             case SolutionLayers.QT6:
-                qt6["output"] = layers[solution].name
+                qt6["output"] = str(layers[solution])
                 yaml_dict["layers"].append(qt6)
 
     solution_filename = f"{module_name}.solution.yaml"
-- 
2.43.0


From cab5080a0e8b79775e593dd746d2a05ef7dbe658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 73/84] fix: protobuf export writes nothing before everything
 could be generated

---
 .../vspec/vssexporters/vss2protobuf.py        | 79 +++++++++++--------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index e01e55f..1173288 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -10,8 +10,9 @@
 #
 
 import sys
-from io import TextIOWrapper
+from io import StringIO
 from pathlib import Path
+from typing import TextIO
 
 import rich_click as click
 from anytree import findall
@@ -39,15 +40,16 @@ mapped = {
 }
 
 
-def init_package_file(path: Path, package_name: str):
-    with open(path, "w") as f:
-        log.info(f"Initializing {path}, package {package_name}")
-        f.write('syntax = "proto3";\n\n')
-        f.write(f"package {package_name};\n\n")
+def init_package_file(f: TextIO, path: Path, package_name: str):
+    log.info(f"Initializing {path}, package {package_name}")
+    f.write('syntax = "proto3";\n\n')
+    f.write(f"package {package_name};\n\n")
 
 
-def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path):
+def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool, out_dir: Path) -> dict[Path, StringIO]:
     """
+    Returns the content of the files to write.
+
     All structs in a branch are written to a single .proto file.
     The file's base name is same as the branch's name
     The fully qualified path of the type becomes the package.
@@ -63,6 +65,7 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
     # the imports a file already has, an import must not be listed twice
     initialized: dict[Path, set[str]] = {}
+    files: dict[Path, StringIO] = {}
     # the packages a package imports
     needed: dict[str, set[str]] = {}
     node: VSSNode
@@ -72,32 +75,31 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C
         package_path = out_dir / struct_path.parent
-        package_path.mkdir(parents=True, exist_ok=True)
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
         if out_file not in initialized:
-            init_package_file(out_file, ".".join(struct_path.parent.parts))
+            files[out_file] = StringIO()
+            init_package_file(files[out_file], out_file, ".".join(struct_path.parent.parts))
             initialized[out_file] = set()
 
-        with open(out_file, "a") as fd:
-            imports: set[str] = set()
-            for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
-                datatype = c_node.data.datatype
-                if "." not in datatype:
-                    continue
-                c_struct_path = Path(datatype.replace(".", "/"))
-                if c_struct_path.parent != struct_path.parent:
-                    imports.add(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
-                    needed.setdefault(str(struct_path.parent), set()).add(str(c_struct_path.parent))
-
-            write_imports(fd, list(imports - initialized[out_file]))
-            initialized[out_file] |= imports
-
-            fd.write(f"message {struct_path.name} {{" + "\n")
-            print_messages(node.children, fd, static_uid, add_optional)
-            fd.write("}\n\n")
-            log.info(f"Wrote {struct_path.name} to {out_file}")
+        fd = files[out_file]
+        imports: set[str] = set()
+        for c_node in findall(node, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
+            datatype = c_node.data.datatype
+            if "." not in datatype:
+                continue
+            c_struct_path = Path(datatype.replace(".", "/"))
+            if c_struct_path.parent != struct_path.parent:
+                imports.add(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
+                needed.setdefault(str(struct_path.parent), set()).add(str(c_struct_path.parent))
+
+        write_imports(fd, list(imports - initialized[out_file]))
+        initialized[out_file] |= imports
+
+        fd.write(f"message {struct_path.name} {{" + "\n")
+        print_messages(node.children, fd, static_uid, add_optional)
+        fd.write("}\n\n")
 
     # files of protobuf cannot import each other
     while needed:
@@ -107,9 +109,10 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
             sys.exit(-1)
         for package in done:
             del needed[package]
+    return files
 
 
-def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def traverse_signal_tree(tree: VSSNode, fd: TextIO, static_uid: bool, add_optional: bool):
     fd.write('syntax = "proto3";\n\n')
 
     imports = []
@@ -141,7 +144,7 @@ def traverse_signal_tree(tree: VSSNode, fd: TextIOWrapper, static_uid: bool, add
         fd.write("}\n\n")
 
 
-def write_imports(fd: TextIOWrapper, imports: list[str]):
+def write_imports(fd: TextIO, imports: list[str]):
     imports = list(set(imports))
     imports.sort()
     for stmt in imports:
@@ -149,7 +152,7 @@ def write_imports(fd: TextIOWrapper, imports: list[str]):
     fd.write("\n")
 
 
-def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, add_optional: bool):
+def print_messages(nodes: tuple[VSSNode], fd: TextIO, static_uid: bool, add_optional: bool):
     usedKeys: dict[int, str] = {}
     for i, node in enumerate(nodes, 1):
         if isinstance(node.data, VSSDataDatatype):
@@ -194,7 +197,6 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                         "Consider changing the signals to alter the staticUID."
                     )
                 )
-                fd.truncate(0)
                 sys.exit(-1)
             else:
                 usedKeys[fieldNumber] = node.get_fqn()
@@ -255,12 +257,19 @@ def cli(
         types=types,
         overlays=overlays,
     )
+    files: dict[Path, StringIO] = {Path(output): StringIO()}
     if datatype_tree:
         if not types_out_dir:
             types_out_dir = Path.cwd()
             log.warning(f"No output directory given. Writing to: {types_out_dir.absolute()}")
-        traverse_data_type_tree(datatype_tree, static_uid, add_optional, types_out_dir)
+        files.update(traverse_data_type_tree(datatype_tree, static_uid, add_optional, Path(types_out_dir)))
+
+    traverse_signal_tree(tree, files[Path(output)], static_uid, add_optional)
 
-    with open(output, "w") as f:
-        log.info(f"Writing to: {output}")
-        traverse_signal_tree(tree, f, static_uid, add_optional)
+    # nothing is written before everything could be generated
+    for path, content in files.items():
+        log.info(f"Writing to: {path}")
+        if path != Path(output):
+            path.parent.mkdir(parents=True, exist_ok=True)
+        with open(path, "w") as f:
+            f.write(content.getvalue())
-- 
2.43.0


From e2f9f2e6fa487a85ef142d0d1c55a4d8470e310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 74/84] fix: output files in directories that do not exist are
 rejected before anything is written

---
 src/vss_tools/vspec/cli_options.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/cli_options.py b/src/vss_tools/vspec/cli_options.py
index 1306e3b..3990448 100644
--- a/src/vss_tools/vspec/cli_options.py
+++ b/src/vss_tools/vspec/cli_options.py
@@ -113,10 +113,23 @@ vspec_opt = option(
     help="The vspec file.",
 )
 
+
+class OutputPath(click.Path):
+    """
+    File to write. It need not exist, but it has to be possible to create it
+    """
+
+    def convert(self, value, param, ctx):
+        path = super().convert(value, param, ctx)
+        if not Path(path).absolute().parent.is_dir():
+            self.fail(f"Directory of '{path}' does not exist.", param, ctx)
+        return path
+
+
 output_required_opt = option(
     "--output",
     "-o",
-    type=click.Path(dir_okay=False, writable=True, path_type=Path),
+    type=OutputPath(dir_okay=False, writable=True, path_type=Path),
     help="Output file.",
     required=True,
 )
@@ -124,7 +137,7 @@ output_required_opt = option(
 output_opt = option(
     "--output",
     "-o",
-    type=click.Path(dir_okay=False, writable=True, path_type=Path),
+    type=OutputPath(dir_okay=False, writable=True, path_type=Path),
     help="Output file.",
 )
 
@@ -139,7 +152,7 @@ types_opt = option(
 
 types_output_opt = option(
     "--types-output",
-    type=click.Path(dir_okay=False, writable=True, path_type=Path),
+    type=OutputPath(dir_okay=False, writable=True, path_type=Path),
     help="""
         Output file for writing data types from vspec file.
         If not specified, a single file is used where applicable.
-- 
2.43.0


From fa8d3cb55f3ae0d56be7f8f2af720419a31839d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 75/84] fix: SAMM export writes lists, allowed values and texts
 as RDF terms

---
 .../vssexporters/vss2samm/config/config.py    |   3 -
 .../vss2samm/helpers/file_helper.py           |  35 +++---
 .../vss2samm/helpers/samm_concepts.py         |   7 +-
 .../vss2samm/helpers/ttl_builder_helper.py    | 105 ++++++++----------
 .../vss2samm/helpers/vss_helper.py            |   8 --
 5 files changed, 60 insertions(+), 98 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
index 22cd806..996c51f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/config/config.py
@@ -9,9 +9,6 @@
 # General CONFIG variables
 SAMM_TYPE = "samm"
 SAMM_VERSION = "2.1.0"
-# Custom string, which we use to escape " and ' characters in VSS node description/comments
-# Used in file_helper.write_graph_to_file to properly escape characters in filedata, before to write it to a file.
-CUSTOM_ESCAPE_CHAR = "#V2E-ESC-CHAR#"
 
 # CONFIG Variable defined at runtime as per user input and in available init function
 OUTPUT_NAMESPACE = None
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
index 53daa48..c26e742 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/file_helper.py
@@ -6,12 +6,21 @@
 #
 # SPDX-License-Identifier: MPL-2.0
 
+from io import BytesIO
 from pathlib import Path
 
-from rdflib import Graph
+from rdflib import Graph, Literal
+from rdflib.namespace import XSD
+from rdflib.plugins.serializers.turtle import TurtleSerializer
 from vss_tools import log
 
-from ..config import config as cfg
+
+class SammTurtleSerializer(TurtleSerializer):
+    # By default doubles are written in scientific notation with 6 digits only
+    def label(self, node, position):
+        if isinstance(node, Literal) and node.datatype == XSD.double:
+            return node._literal_n3(qname_callback=lambda dt: self.getQName(dt, True))
+        return super().label(node, position)
 
 
 # Write RDF Graph data to specified file
@@ -23,23 +32,9 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
         Path.cwd(),
     )  # type: ignore
 
-    filedata = graph.serialize(format="ttl")
-
-    # Clean up entries like: samm:operations "()" OR samm:operations "( )"
-    filedata = filedata.replace(' "()" ', " () ")
-    filedata = filedata.replace(' "( )" ', " ( ) ")
-    filedata = filedata.replace(' "( ', " ( ")
-    filedata = filedata.replace(' )" ', " ) ")
-
-    # Cleanup other escape characters, that were introduced automatically by some of used libraries/tools
-    filedata = filedata.replace("\\", "")
-
-    # Cleanup some CUSTOM ESCAPED, by this script characters.
-    # Usually double and single quotes in node.description or node.comment field
-    filedata = filedata.replace(cfg.CUSTOM_ESCAPE_CHAR, "\\")
-
-    # Cleanup xsd:anyURI with xsd:double
-    filedata = filedata.replace("xsd:anyURI", "xsd:double")
+    stream = BytesIO()
+    SammTurtleSerializer(graph).serialize(stream, encoding="utf-8")
+    filedata = stream.getvalue().decode("utf-8")
 
     # Make sure that output_folder is created with default permissions
     output_folder: Path = Path(path_to_file)
@@ -47,7 +42,7 @@ def write_graph_to_file(path_to_file: Path, file_name: str, graph: Graph):
 
     # Create and write data to ttl file
     output_file: Path = output_folder / f"{file_name}.ttl"
-    file_writer = output_file.open("w")
+    file_writer = output_file.open("w", encoding="utf-8", newline="\n")
     file_writer.write(filedata)
 
     # Add new line and close the file
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
index 9a8a13d..073b758 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/samm_concepts.py
@@ -12,7 +12,6 @@ from enum import Enum
 from rdflib import URIRef
 
 from ..config import config as cfg
-from . import string_helper as str_helper
 from .namespaces import samm_base_namespace, samm_output_namespace
 
 
@@ -61,6 +60,7 @@ class SammConcepts(Enum):
     PREFERRED_NAME = "preferredName"
     PROPERTIES = "properties"
     PROPERTY = "Property"
+    PROPERTY_RELATION = "property"
 
     def __init__(self, vss_name):
         self.ns = f"{samm_base_namespace}:meta-model:{cfg.SAMM_VERSION}#"
@@ -74,11 +74,6 @@ class SammConcepts(Enum):
     def uri_string(self):
         return f"{self.ns}{self.value}"
 
-    @property
-    def samm_name(self):
-        # Make sure that enum value is lc_first
-        return f"samm:{str_helper.str_to_lc_first_camel_case(self.value)}"
-
 
 class SammCConcepts(Enum):
     BASE_CHARACTERISTICS = "baseCharacteristic"
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..2978f58 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -8,7 +8,8 @@
 
 from typing import Sequence
 
-from rdflib import Graph, Literal, URIRef
+from rdflib import BNode, Graph, Literal, URIRef
+from rdflib.collection import Collection
 from rdflib.namespace import RDF, XSD
 from vss_tools import log
 from vss_tools.vspec.tree import VSSNode
@@ -26,7 +27,9 @@ from .string_helper import str_camel_case_split, str_to_lc_first_camel_case, str
 #
 
 
-def __add_node_tuple(graph: Graph, subject_uri: URIRef, predicate_uri: URIRef, object_data: Literal | URIRef) -> bool:
+def __add_node_tuple(
+    graph: Graph, subject_uri: URIRef | BNode, predicate_uri: URIRef, object_data: Literal | URIRef | BNode
+) -> bool:
     """
     Helper function to add a Node tuple to specified graph.<br>
     Will validate if the node is present and skip it to avoid duplicates or add is as usual.
@@ -64,6 +67,17 @@ def __add_node_tuple(graph: Graph, subject_uri: URIRef, predicate_uri: URIRef, o
         return True
 
 
+# Add an RDF list with given items to the graph
+def add_list(graph: Graph, items: Sequence[Literal | URIRef | BNode]) -> URIRef | BNode:
+    if not items:
+        return RDF.nil
+
+    list_node = BNode()
+    Collection(graph, list_node, list(items))
+
+    return list_node
+
+
 # Initialize an empty RDF Graph with related bindings and ESMF - AME namespaces
 def setup_graph():
     # Create a Graph
@@ -122,16 +136,11 @@ def add_node_aspect(graph: Graph, vss_node: VSSNode, node_uri: URIRef):
         )
 
         # Add the property instance of this Tree node to its Aspect
-        __add_node_tuple(
-            graph,
-            aspect_node_uri,
-            SammConcepts.PROPERTIES.uri,
-            Literal(f"( {get_property_uri_from_node_uri(node_uri)} )"),
-        )
+        __add_node_tuple(graph, aspect_node_uri, SammConcepts.PROPERTIES.uri, add_list(graph, [node_uri]))
 
         # Add placeholders for Aspect operations and events
-        __add_node_tuple(graph, aspect_node_uri, SammConcepts.OPERATIONS.uri, Literal("()"))
-        __add_node_tuple(graph, aspect_node_uri, SammConcepts.EVENTS.uri, Literal("()"))
+        __add_node_tuple(graph, aspect_node_uri, SammConcepts.OPERATIONS.uri, add_list(graph, []))
+        __add_node_tuple(graph, aspect_node_uri, SammConcepts.EVENTS.uri, add_list(graph, []))
 
     # ELSE: do nothing since aspect node has already been created
 
@@ -209,13 +218,13 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 enum_values = None
                 if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
                     # Add allowed values to this node characteristic
-                    enum_values = get_enum_values(vss_node.data.allowed)
+                    enum_values = add_enum_values(graph, vss_node.data.allowed, data_type)
                 elif hasattr(vss_node.data, "enum") and vss_node.data.enum:
                     # NOTE: From VSS 3.0 the 'enum' attribute has been renamed to `allowed`
                     #       However, we will keep this for backwards compatibility.
 
                     # Add ENUM values, as usual, to this node characteristic
-                    enum_values = get_enum_values(vss_node.data.enum)  # type: ignore
+                    enum_values = add_enum_values(graph, vss_node.data.enum, data_type)  # type: ignore
 
                 if enum_values is not None:
                     __add_node_tuple(graph, node_char_uri, SammCConcepts.VALUES.uri, enum_values)
@@ -333,10 +342,7 @@ def add_node_leaf_constraint(graph: Graph, node_char_name: str, node_char_uri: U
     __add_node_tuple(graph, constraint_node_uri, RDF.type, SammCConcepts.RANGE_CONSTRAINT.uri)
     __add_node_tuple(graph, constraint_node_uri, SammConcepts.NAME.uri, Literal(constraint_name))
 
-    # Workaround since doubles are serialized as scientific numbers
     data_type = vss_helper.get_data_type(vss_node)
-    if data_type == XSD.double:
-        data_type = XSD.anyURI
 
     if vss_node.data.max is not None:  # type: ignore
         __add_node_tuple(
@@ -376,25 +382,23 @@ def add_node_leaf_constraint(graph: Graph, node_char_name: str, node_char_uri: U
 def add_node_properties(vss_nodes_uris: Sequence[URIRef | tuple], graph: Graph, vss_node_uri: URIRef):
     log.debug("Prepare properties from vss nodes URIs:\n%s\n", vss_nodes_uris)
 
-    node_props = ""
+    node_props: list[URIRef | BNode] = []
 
     for node_uri in vss_nodes_uris:
         if node_uri:
-            property_prefix = " " if node_props else ""
-
             if type(node_uri) is tuple:
                 # Handle node_uri with some additional parameters
                 # EXAMPLE tuple:
                 #   ( NodeURI, ( "optional", True ), ( "payloadName", "givenName" ) )
                 # will result in:
                 #   [ samm:property :prop1; samm:optional true; samm:payloadName "givenName"; ]
-                property_name = ""
-                is_optional = False  # type: ignore
+                property_uri = None
+                is_optional = False
                 payload_name = ""
 
                 for entry in node_uri:
                     if type(entry) is URIRef:
-                        property_name = get_property_uri_from_node_uri(entry)
+                        property_uri = entry
 
                     elif type(entry) is tuple:
                         if entry[0] == "optional":
@@ -417,39 +421,31 @@ def add_node_properties(vss_nodes_uris: Sequence[URIRef | tuple], graph: Graph,
                             entry,
                         )
 
-                if property_name:
-                    property_name = f"{SammConcepts.PROPERTY.samm_name} {property_name}"
-                    is_optional = f"; {SammConcepts.OPTIONAL.samm_name} true" if is_optional else ""  # type: ignore
+                if property_uri:
+                    if is_optional or payload_name:
+                        node_prop = BNode()
+                        graph.add((node_prop, SammConcepts.PROPERTY_RELATION.uri, property_uri))
 
-                    if payload_name:
-                        payload_name = f'; {SammConcepts.PAYLOAD_NAME.samm_name} "{payload_name}"'
-                    else:
-                        payload_name = ""
+                        if is_optional:
+                            graph.add((node_prop, SammConcepts.OPTIONAL.uri, Literal(True)))
 
-                    if is_optional or payload_name:
-                        property = f"[ {property_name}{is_optional}{payload_name} ]"
-                    else:
-                        property = property_name
+                        if payload_name:
+                            graph.add((node_prop, SammConcepts.PAYLOAD_NAME.uri, Literal(payload_name)))
 
-                    node_props += property_prefix + property
+                        node_props.append(node_prop)
+                    else:
+                        node_props.append(property_uri)
 
             elif type(node_uri) is URIRef:
-                node_props += property_prefix + get_property_uri_from_node_uri(node_uri)
+                node_props.append(node_uri)
 
             else:
                 log.warning("Not supported type: '%s' for Node URI: '%s'.", type(node_uri), node_uri)
 
-    # Remove trailing white space and set node_props in the form: ( ... )
-    node_props = "( {} )".format(node_props.strip())
-
     log.debug("Add properties URIs to vss node URI: '%s'\n  -- properties:\n%s\n", vss_node_uri, node_props)
 
     # Add properties to the specified vss_node_uri
-    __add_node_tuple(graph, vss_node_uri, SammConcepts.PROPERTIES.uri, Literal(node_props))
-
-
-def get_property_uri_from_node_uri(vss_node_uri: URIRef):
-    return f":{str_to_lc_first_camel_case(vss_node_uri.replace(VSSConcepts.EMPTY.uri, ''))}"
+    __add_node_tuple(graph, vss_node_uri, SammConcepts.PROPERTIES.uri, add_list(graph, node_props))
 
 
 def get_node_characteristic_name(node_uri: URIRef, has_limits: bool):
@@ -461,25 +457,12 @@ def get_node_characteristic_name(node_uri: URIRef, has_limits: bool):
     return str_to_uc_first_camel_case(node_name + characteristic_name_suffix)
 
 
-# Helper function to convert a list of strings into TTL formatted ENUM VALUES list
-# in the form: ( "value1" "value2" ... "value#" )
-# TODO-NOTE: the collection_to_process is provided from VSSNode.allowed, which is currently defined as str.
-#            However, ALL allowed definitions in VSS are set as list of strings.
-#            For example check VSS::FuelSystem::SupportedFuelTypes::allowed field.
-#
-#            We might need to further refactor the VssNote.allowed field so it has the correct type: list[str]
-#
-#            For the moment, we define the collection_to_process as: list[str] | str, so to pass the mypy check.
-def get_enum_values(collection_to_process: list[str] | str):
-    enum_values = ""
-
-    for value in collection_to_process:
-        if type(value) is str:
-            enum_values += '"' + value + '" '
-        else:
-            enum_values += value + " "
-
-    return Literal(f"( {enum_values.strip()} )")
+# Helper function to add the list of allowed values of a VSSNode to the graph,
+# which gets serialized as: ( "value1" "value2" ... "value#" )
+def add_enum_values(graph: Graph, allowed: list, data_type: URIRef) -> URIRef | BNode:
+    return add_list(
+        graph, [Literal(value) if type(value) is str else Literal(value, datatype=data_type) for value in allowed]
+    )
 
 
 def add_node_instances(graph: Graph, instances_dict_tree: dict, node_char_uri: URIRef):
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..f461096 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -16,7 +16,6 @@ from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
 from vss_tools.vspec.tree import VSSNode
 
-from ..config import config as cfg
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
 from .string_helper import str_to_lc_first_camel_case, str_to_uc_first_camel_case
@@ -232,10 +231,6 @@ def get_node_description(vss_node: VSSNode) -> str:
         and vss_node.data.description
         and len(vss_node.data.description.strip()) > 0
     ):
-        if '"' in vss_node.data.description:
-            # Escape double quotes within vss_node.description
-            vss_node.data.description = vss_node.data.description.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Set 3 spaces spacer, so to align 'VSS path:' with 'Description:'
         spacer = "    "
         description = f"\n\nDescription: {vss_node.data.description}"
@@ -243,9 +238,6 @@ def get_node_description(vss_node: VSSNode) -> str:
     # NOTE: there is also a vss_node.comment field which also holds some details
     #       Add the vss_node.comment to its description
     if hasattr(vss_node.data, "comment") and vss_node.data.comment and len(vss_node.data.comment.strip()) > 0:
-        if '"' in vss_node.data.comment:
-            vss_node.data.comment = vss_node.data.comment.replace('"', f'{cfg.CUSTOM_ESCAPE_CHAR}"')
-
         # Use the 3 empty spaces spacer, when there is description,
         # otherwise set it to align 'VSS path:' with 'Comment:'
         spacer = spacer if description else " "
-- 
2.43.0


From 9ad2b05dd1ce34db284d5fa57fd5d4b8ffa62000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 76/84] fix: SAMM export accepts 0 and 1 as numbers of the VSS
 version

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index d487c37..b83c749 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -75,7 +75,7 @@ def __get_version_vss(vss_tree: VSSNode) -> str:
                     v_child.name in ["Major", "Minor", "Patch"]
                     and hasattr(v_child.data, "default")
                     and type(v_child.data.default) is int
-                    and v_child.data.default > 1
+                    and v_child.data.default >= 0
                 ):
                     match v_child.name:
                         case "Major":
-- 
2.43.0


From 94c2c30efc0b8623867e77402aba3c3ca013cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 77/84] fix: SAMM export selects exactly the listed signals

---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py         | 4 ++--
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index f461096..838bc28 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -172,8 +172,8 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
+        node_is_selected = vss_node_path == selected_signal_path or vss_node_path.startswith(
+            f"{selected_signal_path}."
         )
 
         if node_is_selected:
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index b83c749..4952cc2 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -213,7 +213,7 @@ def cli(
         log.info("Using signals from:\n    '%s'\n", signals_file)
 
         with open(signals_file, "r") as f:
-            included_signals_input = f.read().splitlines()
+            included_signals_input = [line.strip() for line in f.read().splitlines() if line.strip()]
 
     else:
         log.info("No signals selected.\nCreating model for the whole VSS tree.\n")
-- 
2.43.0


From 61ab48686bff3893ae21db813c3f3415f121b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 78/84] fix: SAMM export expands instances like every other
 export

---
 .../vss2samm/helpers/ttl_builder_helper.py    | 144 ++++++------------
 .../vss2samm/helpers/vss_helper.py            | 122 ++++-----------
 2 files changed, 72 insertions(+), 194 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 2978f58..b043c13 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -475,87 +475,59 @@ def add_node_instances(graph: Graph, instances_dict_tree: dict, node_char_uri: U
         node_instance_name = str_to_uc_first_camel_case(instances_dict_tree["name"] + "Instance")
         instance_char_uri, instance_entity_uri = add_node_instance_characteristic_with_entity(graph, node_instance_name)
 
-        instance_entity_properties = []
-        skip_siblings_child_nodes = False
-
-        # Populate the node_instance tree graph
-        for instance in instances_dict_tree["children"]:
-            log.debug(
-                "Build ttl node for instance: '%s'\n  -- type: '%s'\n  -- path: '%s'",
-                instance["name"],
-                instance["type"],
-                instance["path"],
-            )
-
-            if type(instance) is dict and instance["type"] == "branch":
-                log.debug("Build instance path: '%s' as branch node", instance["path"])
-
-                # To make sure we have unique nodes, we use the instance path, similar to VSSNode ttl_name
-                ni_path_name = instance["path"].replace(".", "")
-                ni_char_name = str_to_uc_first_camel_case(ni_path_name)
-
-                ni_prop_uri = ""
-                ni_type_name = ""
-
-                if instance["instance_type"]:
-                    # This instance is from a specific type.
-                    # For example: instances Row1, Row2, ..., Row# will have an instance_type: Row
-                    #
-                    # Such instances should share a common characteristic,
-                    # i.e. if the instance is DoorRow1, then its characteristic should be: DoorRow,
-                    # which later will be shared with all other DoorRow# instances as their shared Characteristic
-
-                    # Instance Type should be prefixed by its parent name to make it more unique, similar to ttl_name
-                    ni_type_name = "{}{}".format(instance["parent"]["name"], instance["instance_type"])
-                    type_char_name = str_to_uc_first_camel_case(ni_type_name)
-                    type_char_uri, type_entity_uri = add_node_instance_characteristic_with_entity(graph, type_char_name)
-
-                    # In this case, the created type_entity will represent a common node for each instance of that type.
-                    # Idea is that we can share common type node like characteristic for instances of the same type.
-                    ni_entity_uri = type_entity_uri
+        add_instance_properties(
+            graph, instances_dict_tree["children"], instances_dict_tree["name"], node_char_uri, instance_entity_uri
+        )
 
-                    ni_prop_uri = add_node_instance_property(graph, ni_path_name, type_char_uri)
+    return instance_char_uri
 
-                else:
-                    # If the current instance does not have instance_type, just build it as usual
-                    ni_char_uri, ni_entity_uri = add_node_instance_characteristic_with_entity(graph, ni_char_name)
-                    ni_prop_uri = add_node_instance_property(graph, ni_path_name, ni_char_uri)
-
-                    # Make sure to turn of skip_siblings_child_nodes,
-                    # to handle properly children of the current instance
-                    skip_siblings_child_nodes = False
-
-                # Add created instance node uri to its entity properties.
-                # NOTE: All instance child nodes should be optional
-                instance_entity_properties.append((ni_prop_uri, ("optional", True), ("payloadName", instance["name"])))
-
-                if not skip_siblings_child_nodes:
-                    # Build instance - entity properties (children) nodes of current instance
-                    add_instance_entity_properties(
-                        graph, instance["children"], ni_type_name, node_char_uri, ni_entity_uri
-                    )
 
-                    if ni_type_name:
-                        # Set flag to skip adding properties for instance_typed nodes.
-                        # This is to avoid adding of duplicate properties
-                        # of instances of same type to their main - type node
-                        skip_siblings_child_nodes = True
+# Add the given instances as properties of the specified entity.
+#   name_prefix - name of the node and its instances above, which makes the names of the instances unique
+def add_instance_properties(
+    graph: Graph, instances: list[dict], name_prefix: str, node_char_uri: URIRef, entity_uri: URIRef
+):
+    instance_entity_properties = []
+    known_types = []
 
-            elif type(instance) is dict and instance["type"] == "attribute":
-                # Attribute instance is like a VSSNode leaf node
-                log.debug("Build instance path: '%s' as leaf node.", instance["path"])
+    for instance in instances:
+        log.debug(
+            "Build ttl node for instance: '%s'\n  -- type: '%s'\n  -- path: '%s'",
+            instance["name"],
+            instance["type"],
+            instance["path"],
+        )
 
-                leaf_path_name = instance["path"].replace(".", "")
-                leaf_uri = add_node_instance_property(graph, leaf_path_name, node_char_uri)
+        instance_name = "{}{}".format(name_prefix, instance["name"])
+
+        if instance["type"] == "branch":
+            # If this instance is from a specific type.
+            # For example: instances Row1, Row2, ..., Row# will have an instance_type: Row
+            #
+            # Such instances should share a common characteristic,
+            # i.e. if the instance is DoorRow1, then its characteristic should be: DoorRow,
+            # which later will be shared with all other DoorRow# instances as their shared Characteristic
+            type_name = "{}{}".format(name_prefix, instance["instance_type"] or instance["name"])
+            type_char_uri, type_entity_uri = add_node_instance_characteristic_with_entity(
+                graph, str_to_uc_first_camel_case(type_name)
+            )
+            instance_uri = add_node_instance_property(graph, instance_name, type_char_uri)
 
-                instance_entity_properties.append((leaf_uri, ("optional", True), ("payloadName", instance["name"])))
+            # Instances of same type have the same children, add them only once
+            if type_name not in known_types:
+                known_types.append(type_name)
+                add_instance_properties(graph, instance["children"], type_name, node_char_uri, type_entity_uri)
 
-            else:
-                log.warning("Instance: '%s' with type: '%s' cannot be processed yet.\n", instance, type(instance))
+        else:
+            # Attribute instance is like a VSSNode leaf node, linked to the VSS defined node (characteristic)
+            # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
+            instance_uri = add_node_instance_property(graph, instance_name, node_char_uri)
 
-        add_node_properties(instance_entity_properties, graph, instance_entity_uri)
+        # NOTE: All instance nodes should be optional and with payloadName without parent prefix.
+        # For more details check function: add_node_properties
+        instance_entity_properties.append((instance_uri, ("optional", True), ("payloadName", instance["name"])))
 
-    return instance_char_uri
+    add_node_properties(instance_entity_properties, graph, entity_uri)
 
 
 # Helper function to support handling of creation of instance nodes for a VSSNode
@@ -606,31 +578,3 @@ def add_node_instance_property(graph: Graph, instance_name: str, instance_char_u
     __add_node_tuple(graph, property_uri, SammConcepts.CHARACTERISTIC_RELATION.uri, instance_char_uri)
 
     return property_uri
-
-
-def add_instance_entity_properties(
-    graph: Graph, instance_children: list[dict], instance_type: str, characteristic_uri: URIRef, entity_uri: URIRef
-):
-    if instance_children and len(instance_children) > 0:
-        entity_properties = []
-
-        for child_instance in instance_children:
-            child_path_name = ""
-            if instance_type:
-                # Use parent instance type + name for a child name
-                child_path_name = "{}{}".format(instance_type, child_instance["name"])
-            else:
-                # Use usual child path for its name, similar to VSSNode ttl_name
-                child_path_name = child_instance["path"].replace(".", "")
-
-            # Add node instance as property node with characteristic of its main - parent VSSNode
-            # NOTE: at this point each instance property node will be linked to the VSS defined node (characteristic)
-            # FOR EXAMPLE: Door.Row1.DriverSide instance will have a DoorCharacteristic node as defined in VSS.
-            child_uri = add_node_instance_property(graph, child_path_name, characteristic_uri)
-
-            # Instance child properties should be optional and with payloadName without its parent prefix.
-            # For more details check function: add_node_properties
-            entity_properties.append((child_uri, ("optional", True), ("payloadName", child_instance["name"])))
-
-        # Add child properties nodes to this instance's entity node
-        add_node_properties(entity_properties, graph, entity_uri)
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 838bc28..ccafecc 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,14 +7,13 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
-from ast import literal_eval
 from typing import Any
 
 from rdflib import URIRef
 from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes
 from vss_tools.vspec.model import NodeType, VSSDataBranch
-from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.tree import InvalidExpansionEntryException, VSSNode, expand_string
 
 from .data_types_and_units import DataTypes, DataUnits
 from .samm_concepts import SammCConcepts, SammConcepts
@@ -267,20 +266,23 @@ def has_constraints(vss_node: VSSNode) -> bool:
 def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name: str) -> dict[str, Any]:
     log.debug("Create instances node tree for node instance name: '%s'.", node_instance_name)
 
-    parsed_instances = []
-
-    if type(vss_node_instances) is list and len(vss_node_instances) > 0:
-        for instance_key in range(len(vss_node_instances)):
-            instance = vss_node_instances[instance_key]
+    node_instance_dict: dict[str, Any] = get_instance_dict(node_instance_name, None, "")
 
-            parsed_instance = parse_instance(instance)
-            parsed_instances.append(parsed_instance)
+    # Same rules as for the expansion of the VSS tree:
+    # a range or a list of instances is a new level below the instances up to now, a plain name is added to them
+    parents = [node_instance_dict]
 
-    log.debug("  -- convert parsed_instances: \n%s\n     to a tree now...", parsed_instances)
+    for instance in vss_node_instances or []:
+        labels = instance if type(instance) is list else [instance]
+        names = [name for label in labels for name in expand_string(str(label))]
 
-    node_instance_dict: dict[str, Any] = get_instance_dict(node_instance_name, None, "")
+        # Get instance entries type. If these are in the form: Name1, Name2, Name3 etc
+        # then their type will be: Name, otherwise it will be empty
+        instance_type = get_instances_type_from_list(names)
+        instances = [add_instance_to_dict_tree(parent, name, instance_type) for parent in parents for name in names]
 
-    add_instance_to_dict_tree(node_instance_dict, parsed_instances, "")
+        if type(instance) is list or names != [str(instance)]:
+            parents = instances
 
     # TODO: maybe try to return a VSSNode(vss_node.name, vss_node_dict)
     #       IF so, this will require further rework on the whole instance node generation
@@ -288,42 +290,6 @@ def get_instances_dict_tree(vss_node_instances: list | None, node_instance_name:
     return node_instance_dict
 
 
-def parse_instance(instance_to_parse: str | Any) -> str | list[str] | Any:
-    parsed_instance = None
-
-    if type(instance_to_parse) is str and instance_to_parse.__contains__("[") and instance_to_parse.endswith("]"):
-        # More likely, current instance is in the form: "Row[1,2]" or Row[1,4] or "SomeOtherName[x,y]"
-        # Example: Row[1, 2] or Row[1, 4]
-        parsed_instance = []
-
-        # Take the name of this instance
-        instance_parts = instance_to_parse.split("[")
-        instance_name = instance_parts[0]
-        instance_entries = literal_eval("[" + instance_parts[1])
-
-        if (
-            len(instance_entries) == 2
-            and instance_entries[0] == 1
-            and sum(float(entry).is_integer() for entry in instance_entries) == 2
-        ):
-            # Here instances are set as a range, starting with 1 up to some other number
-            # EXAMPLE: Row[1,4] - i.e. rows from 1st to 4th or: Row1, Row2, Row3, Row4
-            start = instance_entries[0]
-            end = instance_entries[1]
-
-            while start <= end:
-                parsed_instance.append(f"{instance_name}{start}")
-                start += 1
-
-        else:
-            for instance_entry in instance_entries:
-                parsed_instance.append(f"{instance_name}{instance_entry}")
-    else:
-        parsed_instance = instance_to_parse  # type: ignore
-
-    return parsed_instance
-
-
 # Helper function, which builds an instance object dict for specified instance_name,
 # which then can be added to an instances_dict_tree
 def get_instance_dict(instance_name: str, parent_dict: dict | None, instance_type: str) -> dict[str, Any]:
@@ -343,58 +309,26 @@ def get_instance_dict(instance_name: str, parent_dict: dict | None, instance_typ
     return instance
 
 
-def add_instance_to_dict_tree(parent_dict_tree: dict[str, Any], instance_to_add, instance_type: str) -> None:
-    if type(instance_to_add) is str:
-        # ADD instance to the provided parent_tree
-
-        # Default type is: attribute for a string. Branch is for instance with children
-        instance_dict = get_instance_dict(instance_to_add, parent_dict_tree, instance_type)
-
-        if type(parent_dict_tree) is dict:
-            # Make sure to set parent type to: branch
-            parent_dict_tree["type"] = "branch"
-
-            if not parent_dict_tree["children"]:
-                # Make sure to initialize parent children
-                parent_dict_tree["children"] = []
-
-            # Add path up to this instance node
-            instance_dict["path"] = f"{parent_dict_tree['path']}.{instance_dict['name']}"
-
-            parent_dict_tree["children"].append(instance_dict)
-
-        elif type(parent_dict_tree) is list:
-            # TODO: can we ever get into this point!?!?!?!
-            # Add path up to this instance node
-            # instance["path"] = instance["name"]
-            parent_dict_tree.append(instance_dict)  # type: ignore
+def add_instance_to_dict_tree(parent_dict_tree: dict[str, Any], name: str, instance_type: str) -> dict[str, Any]:
+    # Default type is: attribute for a string. Branch is for instance with children
+    instance_dict = get_instance_dict(name, parent_dict_tree, instance_type)
 
-        else:
-            log.warning("Provided parent_tree: '%s' must be either a dict or list (array).\n", parent_dict_tree)
+    # Make sure to set parent type to: branch
+    parent_dict_tree["type"] = "branch"
 
-    elif type(instance_to_add) is list:
-        # Handle instance_to_add as list of instances to be added to the parent_tree
-        # Call this function recursively to add each instance entry to the provided parent_tree
+    if not parent_dict_tree["children"]:
+        # Make sure to initialize parent children
+        parent_dict_tree["children"] = []
 
-        # Get instance entries type. If these are in the form: Name1, Name2, Name3 etc
-        # then their type will be: Name, otherwise it will be None
-        instance_type = get_instances_type_from_list(instance_to_add)
+    if instance_dict["name"] in [child["name"] for child in parent_dict_tree["children"]]:
+        raise InvalidExpansionEntryException(f"'{parent_dict_tree['path']}': More than one node '{name}'")
 
-        if type(parent_dict_tree) is dict and parent_dict_tree["children"] and len(parent_dict_tree["children"]) > 0:
-            # Add each entry in instance_to_add as a child of the parent_tree["children"]
-            for inst_dict in parent_dict_tree["children"]:
-                for entry in instance_to_add:
-                    add_instance_to_dict_tree(inst_dict, entry, instance_type)
+    # Add path up to this instance node
+    instance_dict["path"] = f"{parent_dict_tree['path']}.{instance_dict['name']}"
 
-        else:
-            # Add each entry in instance_to_add as sibling in current parent_tree
-            for entry in instance_to_add:
-                add_instance_to_dict_tree(parent_dict_tree, entry, instance_type)
+    parent_dict_tree["children"].append(instance_dict)
 
-    else:
-        log.warning(
-            "Provided instance_to_add: '%s' type: '%s' is not supported.\n", instance_to_add, type(instance_to_add)
-        )
+    return instance_dict
 
 
 def get_instances_type_from_list(instances_list: list) -> str:
-- 
2.43.0


From fd6643320c0c10f85e7ece3574953871f27f1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 79/84] fix: SAMM export gives every node a name of its own

---
 .../vss2samm/helpers/vss_helper.py            | 57 +++++++++++++++++++
 .../vspec/vssexporters/vss2samm/vss2samm.py   | 18 +++---
 2 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index ccafecc..8733188 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -7,8 +7,10 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import re
+from itertools import chain, count
 from typing import Any
 
+from anytree import PreOrderIter
 from rdflib import URIRef
 from vss_tools import log
 from vss_tools.vspec.datatypes import Datatypes
@@ -45,6 +47,10 @@ def count_vss_tree_unique_node_names(vss_node: VSSNode) -> None:
         # i.e. when we parse the top level tree and we have not yet read all of its nodes
         populate_unique_node_names(top_vss_tree_unique_node_names, vss_node)
 
+        names_in_use: set[str] = set()
+        for node in PreOrderIter(vss_node):
+            set_unique_ttl_name(node, names_in_use)
+
 
 # Traverse through each node of provided vss_node tree and record unique node names,
 # their number of occurrences and vss_paths for their duplicates if there is any.
@@ -64,6 +70,57 @@ def populate_unique_node_names(node_names_dict: dict[str, Any], vss_node: VSSNod
             populate_unique_node_names(node_names_dict, vss_child_node)
 
 
+# Set the ttl_name of provided vss_node, so that the names which are built from it are not used by another node.
+# The usual ttl_name is only extended if there is such a node.
+def set_unique_ttl_name(vss_node: VSSNode, names_in_use: set[str]) -> None:
+    set_ttl_name(vss_node, should_use_parent_prefix(vss_node))
+
+    full_name = "".join(node.name for node in vss_node.path)
+    alternatives = chain([full_name], (f"{full_name}{number}" for number in count(2)))
+
+    while not names_in_use.isdisjoint(names := get_graph_node_names(vss_node)):
+        vss_node.ttl_name = next(alternatives)  # type: ignore
+
+    names_in_use.update(names)
+
+
+# Get the names of all graph nodes, which are built for provided vss_node
+def get_graph_node_names(vss_node: VSSNode) -> set[str]:
+    ttl_name = vss_node.ttl_name  # type: ignore
+    property_name = str_to_lc_first_camel_case(ttl_name)
+    suffixes = ["", "Characteristic", "Trait", "Constraint", "BaseCharacteristic", "Entity"]
+    names = {property_name}
+    names.update(str_to_uc_first_camel_case(name + suffix) for name in (ttl_name, property_name) for suffix in suffixes)
+
+    if isinstance(vss_node.data, VSSDataBranch) and vss_node.data.instances:
+        instances = get_instances_dict_tree(vss_node.data.instances, property_name)
+        names.update(str_to_uc_first_camel_case(instances["name"] + "Instance") + s for s in ("SingleEntity", "Entity"))
+        instance_names: dict[str, bool] = {}
+        type_names: set[str] = set()
+        collect_instance_names(instances["children"], instances["name"], instance_names, type_names)
+        names.update(str_to_lc_first_camel_case(name) for name in instance_names)
+        names.update(str_to_uc_first_camel_case(name) + s for name in type_names for s in ("SingleEntity", "Entity"))
+
+    return names
+
+
+# Collect the names of the properties and types, which are built for provided instances
+def collect_instance_names(
+    instances: list[dict], name_prefix: str, names: dict[str, bool], type_names: set[str]
+) -> None:
+    for instance in instances:
+        is_branch = instance["type"] == "branch"
+        name = name_prefix + instance["name"]
+
+        if names.setdefault(name, is_branch) is not is_branch:
+            raise InvalidExpansionEntryException(f"'{instance['path']}': More than one node '{name}'")
+
+        if is_branch:
+            type_name = name_prefix + (instance["instance_type"] or instance["name"])
+            type_names.add(type_name)
+            collect_instance_names(instance["children"], type_name, names, type_names)
+
+
 def get_parent_prefix_for_ttl_name(vss_node: VSSNode, ttl_name: str, use_vehicle_prefix=False) -> str:
     parent_prefix = ""
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 4952cc2..cf17c46 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -22,7 +22,7 @@ import vss_tools.vspec.cli_options as clo
 from anytree import findall
 from vss_tools import log
 from vss_tools.vspec.main import get_trees
-from vss_tools.vspec.tree import VSSNode
+from vss_tools.vspec.tree import InvalidExpansionEntryException, VSSNode
 
 from .config import config as cfg
 
@@ -259,17 +259,13 @@ def cli(
             # Remove nodes, which were marked as "not selected" i.e. to be deleted
             vss_tree.delete_nodes(findall(vss_tree, filter_=lambda n: n.get_vss_data().delete))
 
-            if vss_tree:
-                # Parse the filtered tree to AME TTL.
-                parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
+        try:
+            vss_helper.count_vss_tree_unique_node_names(vss_tree)
+        except InvalidExpansionEntryException as e:
+            log.critical(f"Invalid instances: {e}")
+            sys.exit(1)
 
-            else:
-                # Parse the whole tree as usual.
-                parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
-
-        else:
-            # Work with vss_tree as usual.
-            parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
+        parsed_tree_uri = ttl_helper.parse_vss_tree(target_folder, vss_tree, split)
 
         if parsed_tree_uri != "DEPRECATED":
             log.info(
-- 
2.43.0


From 292a86d9b0e4a5a89d9bbc1b45ed45827a3d3861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 80/84] fix: SAMM export keeps default values like 0 and false

---
 .../vssexporters/vss2samm/helpers/ttl_builder_helper.py     | 6 +++---
 .../vspec/vssexporters/vss2samm/helpers/ttl_helper.py       | 2 +-
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py       | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index b043c13..d250249 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -206,7 +206,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle ENUM type nodes
                 log.debug("  -- set node ENUM values")
 
-                if vss_node.data.default:  # type: ignore
+                if rdf_type == SammCConcepts.STATE:
                     __add_node_tuple(
                         graph,
                         node_char_uri,
@@ -254,7 +254,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
 
                     rdf_type = SammConcepts.CHARACTERISTIC
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     __add_node_tuple(
                         graph,
                         node_uri,
@@ -266,7 +266,7 @@ def add_node_leaf(graph: Graph, node_uri: URIRef, vss_node: VSSNode):
                 # Handle CHARACTERISTIC type nodes
                 log.debug(" -- set regular node values")
 
-                if hasattr(vss_node.data, "default") and vss_node.data.default:
+                if hasattr(vss_node.data, "default") and vss_node.data.default is not None:
                     if (
                         hasattr(vss_node.data, "unit")
                         and vss_node.data.unit
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 7d1791d..77888c9 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -114,7 +114,7 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
 
         handle_branch_node(path_to_ttl, graph, vss_node, split_vss, node_uri, node_char_uri)
 
-    if vss_node.is_leaf:
+    else:
         ttl_builder.add_node_leaf(graph, node_uri, vss_node)
 
     return node_uri
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 8733188..4706a0d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -413,7 +413,9 @@ def get_node_rdf_type(vss_node: VSSNode) -> SammConcepts | SammCConcepts:
     if hasattr(vss_node.data, "allowed") and vss_node.data.allowed and type(vss_node.data.allowed) is list:
         # NOTE: ENUM does not have defaultValue
         #       Instead defaultValue is part of STATE characteristic which inherits from ENUM
-        return SammCConcepts.ENUM if not vss_node.data.default else SammCConcepts.STATE  # type: ignore
+        #       (and is a single value)
+        default = vss_node.data.default  # type: ignore
+        return SammCConcepts.ENUM if default is None or type(default) is list else SammCConcepts.STATE
 
     elif hasattr(vss_node.data, "datatype") and vss_node.data.datatype and vss_node.data.datatype.endswith("[]"):
         return SammCConcepts.LIST
-- 
2.43.0


From 68d41edb5c961fc30eb02ace3ba5dcca156c8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 81/84] fix: SAMM export keeps branches of nodes that are not
 deprecated

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_helper.py     | 8 ++------
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py     | 6 ++++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index 77888c9..e1c74d0 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -36,7 +36,7 @@ def parse_vss_tree(path_to_ttl: Path, vss_node: VSSNode, split_vss: bool):
     # Skip parsing of VSSNode is branches, which have only deprecated children
     # NOTE: this is a special case for the OBD branch, which children are marked as deprecated from VSS 5.0,
     #       but the branch itself is not marked as deprecated.
-    deprecated_children = list(filter(lambda n: n.data.deprecation, vss_node.children))
+    deprecated_children = list(filter(vss_helper.is_deprecated, vss_node.children))
 
     if len(deprecated_children) == len(vss_node.children):
         log.warning(
@@ -73,11 +73,7 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
     )
 
     # Check if node is deprecated and return DEPRECATED so it will be skipped for further conversion to TTL
-    if (
-        hasattr(vss_node.data, "deprecation")
-        and vss_node.data.deprecation
-        and len(vss_node.data.deprecation.strip()) > 0
-    ):
+    if vss_helper.is_deprecated(vss_node):
         log.warning(
             "Skipping VSSNode: '%s' since it is deprecated.\nDeprecation: '%s'\n",
             vss_node.name,
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 4706a0d..90d8670 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -307,6 +307,12 @@ def get_node_description(vss_node: VSSNode) -> str:
     return f"\nVSS path{spacer}: {vss_node.get_fqn()}{description}"
 
 
+def is_deprecated(vss_node: VSSNode) -> bool:
+    deprecation = getattr(vss_node.data, "deprecation", None)
+
+    return bool(deprecation and deprecation.strip())
+
+
 def has_constraints(vss_node: VSSNode) -> bool:
     return (
         hasattr(vss_node.data, "type")
-- 
2.43.0


From 2bcc1062619ed772bf82e83ed02c4233a31a9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 82/84] fix: code of the repairs passes mypy and flake8

---
 src/vss_tools/vspec/tree.py                              | 6 +++---
 src/vss_tools/vspec/vssexporters/vss2apigear.py          | 7 +++++--
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py           | 9 +++++++--
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py       | 2 +-
 .../vspec/vssexporters/vss2samm/helpers/ttl_helper.py    | 2 +-
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 5afd6bc..7a42f34 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -495,9 +495,9 @@ def build_tree(data: dict[str, Any], connect_orphans: bool = False) -> tuple[VSS
 
     # Struct nodes are datatypes. All of them need to be known before any node is
     # built, otherwise datatypes would resolve depending on the definition order
-    for k, v in data.items():
-        if isinstance(v, dict) and v.get("type") == NodeType.STRUCT.value:
-            dynamic_datatypes.add(k)
+    for fqn, attributes in data.items():
+        if isinstance(attributes, dict) and attributes.get("type") == NodeType.STRUCT.value:
+            dynamic_datatypes.add(fqn)
 
     for k in sorted(data.keys(), key=count_seperator):
         v: Any = data.get(k)
diff --git a/src/vss_tools/vspec/vssexporters/vss2apigear.py b/src/vss_tools/vspec/vssexporters/vss2apigear.py
index 94e8aa3..b322d7b 100644
--- a/src/vss_tools/vspec/vssexporters/vss2apigear.py
+++ b/src/vss_tools/vspec/vssexporters/vss2apigear.py
@@ -194,7 +194,8 @@ def rename_deprecated_structs(root: VSSNode | None, module: ApiGearModule) -> No
     if root is None:
         return
     names = {node.get_fqn("_"): node_name(node) for node in PreOrderIter(root) if isinstance(node.data, VSSDataStruct)}
-    for element in [*module.interfaces, *module.structures]:
+    elements: list[typing.Any] = [*module.interfaces, *module.structures]
+    for element in elements:
         for property in element.properties.values():
             property.type.type = names.get(property.type.type, property.type.type)
 
@@ -204,7 +205,9 @@ def check_type_names(module: ApiGearModule) -> None:
     Interfaces, enums and structs are separated by their name only
     """
     names: set[str] = set()
-    for element in [*[i for i in module.interfaces if i.properties], *module.enumerations, *module.structures]:
+    interfaces = [i for i in module.interfaces if i.properties]
+    elements: list[typing.Any] = [*interfaces, *module.enumerations, *module.structures]
+    for element in elements:
         if element.name in names:
             raise ApiGearNameException(f"More than one interface, enum or struct '{element.name}'")
         names.add(element.name)
diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index b60d579..c9cd378 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -337,7 +337,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     )
 
         if unit is not None:
-            idl_file_buffer.append(("" if generate_all_idl_features else "//") + "const string unit=" + get_string_literal(unit) + ";")
+            idl_file_buffer.append(
+                ("" if generate_all_idl_features else "//") + "const string unit=" + get_string_literal(unit) + ";"
+            )
 
         data = node.get_vss_data()
         idl_file_buffer.append(
@@ -345,7 +347,10 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
         )
 
         idl_file_buffer.append(
-            ("" if generate_all_idl_features else "//") + "const string description=" + get_string_literal(data.description) + ";"
+            ("" if generate_all_idl_features else "//")
+            + "const string description="
+            + get_string_literal(data.description)
+            + ";"
         )
         idl_file_buffer.append("};")
 
diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index cf4a77e..ddf708c 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -72,7 +72,7 @@ def export_node(
 
     # the constraints of an array apply to its items
     constraints = json_dict[node.name]
-    if constraints.get("type") == "array":
+    if isinstance(data, VSSDataDatatype) and constraints.get("type") == "array":
         constraints = json_dict[node.name]["items"] = {"type": type_map[data.datatype.removesuffix("[]")]}
         if data.arraysize:
             json_dict[node.name]["minItems"] = data.arraysize
diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
index e1c74d0..e7a0494 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_helper.py
@@ -77,7 +77,7 @@ def handle_vss_node(path_to_ttl: Path, graph: Graph, vss_node: VSSNode, is_aspec
         log.warning(
             "Skipping VSSNode: '%s' since it is deprecated.\nDeprecation: '%s'\n",
             vss_node.name,
-            vss_node.data.deprecation,
+            vss_node.data.deprecation,  # type: ignore
         )
 
         return "DEPRECATED"
-- 
2.43.0


From 90bf82b5086183f6f5f3f4b56e52ba4e72dca9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 83/84] fix: YAML aliases do not tie nodes together when they
 are merged

---
 src/vss_tools/vspec/vspec.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..5dca230 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -65,6 +65,18 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
             base[key] = value
 
 
+def unshare(value: Any) -> Any:
+    """
+    Copies loaded yaml data, such that places that refer to the same
+    data (yaml aliases) can be updated independently
+    """
+    if isinstance(value, dict):
+        return {k: unshare(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [unshare(v) for v in value]
+    return value
+
+
 class VSpec:
     def __init__(
         self,
@@ -76,7 +88,7 @@ class VSpec:
 
         content = source.read_text()
 
-        self.data = yaml.safe_load(content)
+        self.data = unshare(yaml.safe_load(content))
         if self.data is None:
             self.data = {}
 
-- 
2.43.0


From 029cf11373a3ad0ddbacd058d77df3e8c4ec3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 84/84] fix: SAMM export declared the unit h (hour) as second

---
 .../vspec/vssexporters/vss2samm/helpers/data_types_and_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
index ea5db33..9fe3b0f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/data_types_and_units.py
@@ -72,7 +72,7 @@ DataUnits = {
     "rpm": get_unit_uri("revolutionsPerMinute"),
     "g/km": get_unit_uri("kilogramPerKilometre"),
     "s": get_unit_uri("secondUnitOfTime"),
-    "h": get_unit_uri("secondUnitOfTime"),
+    "h": get_unit_uri("hourUnitOfTime"),
     "W": get_unit_uri("watt"),
     "cpm": get_unit_uri("cycle"),
     "bpm": get_unit_uri("cycle"),
-- 
2.43.0

