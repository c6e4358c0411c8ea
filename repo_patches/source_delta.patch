From 94339d87bf628363f65a397b16d8b37577dd2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 01/75] fix: read JavaScript results longer than one pipe
 buffer that contain multi-byte characters

---
 src/cwl_utils/sandboxjs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..2a3f145 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -238,11 +238,11 @@ class NodeJSEngine(JSEngine):
         wselect: list[BytesIO] = [nodejs.stdin]
 
         def process_finished() -> bool:
-            return stdout_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            ) and stderr_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            )
+            # compare bytes: a read may end in the middle of a multi-byte character
+            finished = self.process_finished_str.encode("utf-8")
+            return stdout_buf.getvalue().endswith(
+                finished
+            ) and stderr_buf.getvalue().endswith(finished)
 
         while not process_finished() and timer.is_alive():
             rready, wready, _ = select.select(rselect, wselect, [])
-- 
2.43.0


From a9bb8edd7ad11afb29b9e89d36fc3b00b14bdb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 02/75] fix: wait for a timed out JavaScript engine to end
 before returning

---
 src/cwl_utils/sandboxjs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 2a3f145..e4020f6 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -264,6 +264,9 @@ class NodeJSEngine(JSEngine):
         stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
         stderrdata = stderr_buf.getvalue()[: -len(self.process_finished_str) - 1]
 
+        if killed:
+            # wait for the signal to arrive: a dying process must not be used again
+            nodejs.wait()
         nodejs.poll()
 
         if nodejs.poll() not in (None, 0):
-- 
2.43.0


From 3471398045b5275290ecdb401db6058c28def1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 03/75] fix: save references as relative URIs that load back to
 the same URI

References were cut or kept against the wrong scope (step 's' with a source
'step1/out' was saved as 'tep1/out'), references to a process of the same
document lost their '#', and the id of an embedded process got one more
'run/' on each save.
---
 src/cwl_utils/parser/cwl_v1_0.py      |  3 +-
 src/cwl_utils/parser/cwl_v1_1.py      | 11 +++++--
 src/cwl_utils/parser/cwl_v1_2.py      | 11 +++++--
 src/cwl_utils/parser/relative_uris.py | 42 +++++++++++++++++++++++++++
 4 files changed, 60 insertions(+), 7 deletions(-)
 create mode 100644 src/cwl_utils/parser/relative_uris.py

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index b59294b..eb78812 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -16,7 +16,6 @@ from schema_salad.runtime import (
     parse_errors,
     prefix_url,
     save,
-    save_relative_uri,
 )
 
 if sys.version_info >= (3, 11):
@@ -46,6 +45,8 @@ from schema_salad.runtime import (
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import yaml_no_ts  # requires schema-salad v8.2+
 
+from cwl_utils.parser.relative_uris import save_relative_uri
+
 _loaders: Final[dict[str, Loader | None]] = {}
 _vocab: Final[dict[str, str]] = {}
 _rvocab: Final[dict[str, str]] = {}
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 0057de1..7591f5f 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -16,7 +16,6 @@ from schema_salad.runtime import (
     parse_errors,
     prefix_url,
     save,
-    save_relative_uri,
 )
 
 if sys.version_info >= (3, 11):
@@ -46,6 +45,8 @@ from schema_salad.runtime import (
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import yaml_no_ts  # requires schema-salad v8.2+
 
+from cwl_utils.parser.relative_uris import save_relative_uri, subscope
+
 _loaders: Final[dict[str, Loader | None]] = {}
 _vocab: Final[dict[str, str]] = {}
 _rvocab: Final[dict[str, str]] = {}
@@ -21325,7 +21326,9 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = save_relative_uri(
+                self.run, subscope(self.id, "run"), False, None, relative_uris
+            )
             r["run"] = u
         if self.scatter is not None:
             u = save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
@@ -23331,7 +23334,9 @@ class ProcessGenerator(Process):
             u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = save_relative_uri(
+                self.run, subscope(self.id, "run"), False, None, relative_uris
+            )
             r["run"] = u
 
         # top refers to the directory level
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index b8fc528..59b77ad 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -16,7 +16,6 @@ from schema_salad.runtime import (
     parse_errors,
     prefix_url,
     save,
-    save_relative_uri,
 )
 
 if sys.version_info >= (3, 11):
@@ -46,6 +45,8 @@ from schema_salad.runtime import (
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import yaml_no_ts  # requires schema-salad v8.2+
 
+from cwl_utils.parser.relative_uris import save_relative_uri, subscope
+
 _loaders: Final[dict[str, Loader | None]] = {}
 _vocab: Final[dict[str, str]] = {}
 _rvocab: Final[dict[str, str]] = {}
@@ -21685,7 +21686,9 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = save_relative_uri(
+                self.run, subscope(self.id, "run"), False, None, relative_uris
+            )
             r["run"] = u
         if self.when is not None:
             r["when"] = save(
@@ -25674,7 +25677,9 @@ class ProcessGenerator(Process):
             u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = save_relative_uri(
+                self.run, subscope(self.id, "run"), False, None, relative_uris
+            )
             r["run"] = u
 
         # top refers to the directory level
diff --git a/src/cwl_utils/parser/relative_uris.py b/src/cwl_utils/parser/relative_uris.py
new file mode 100644
index 0000000..a076415
--- /dev/null
+++ b/src/cwl_utils/parser/relative_uris.py
@@ -0,0 +1,42 @@
+# SPDX-License-Identifier: Apache-2.0
+"""Relative forms of the URIs in a CWL object model."""
+
+from collections.abc import MutableSequence
+from typing import Any
+from urllib.parse import urlsplit
+
+from schema_salad.runtime import save_relative_uri as _save_relative_uri
+
+
+def subscope(base_url: str, name: str) -> str:
+    """Give the base URI of the identifiers inside of a field that has its own scope."""
+    return f"{base_url}/{name}" if urlsplit(base_url).fragment else f"{base_url}#{name}"
+
+
+def save_relative_uri(
+    uri: Any,
+    base_url: str,
+    scoped_id: bool,
+    ref_scope: int | None,
+    relative_uris: bool,
+) -> Any:
+    """Convert any URI to a relative one, which resolves to the same URI when it is loaded."""
+    if isinstance(uri, MutableSequence):
+        return [
+            save_relative_uri(u, base_url, scoped_id, ref_scope, relative_uris)
+            for u in uri
+        ]
+    if isinstance(uri, str) and relative_uris and uri != base_url:
+        split = urlsplit(uri)
+        base = urlsplit(base_url)
+        if split[:3] == base[:3] and split.fragment:
+            if not scoped_id and ref_scope is None:
+                return "#" + split.fragment
+            scope = base.fragment.split("/") if base.fragment else []
+            if not scoped_id and ref_scope:
+                scope = scope[:-ref_scope]
+            prefix = "/".join([*scope, ""])
+            if split.fragment.startswith(prefix):
+                return split.fragment[len(prefix) :]
+            return "#" + split.fragment
+    return _save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
-- 
2.43.0


From 933c947b2cf97fcbf01a4a1c80c052a698f87c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 04/75] fix: keep nested arrays in default values instead of
 flattening them

---
 src/cwl_utils/parser/cwl_v1_0.py | 7 ++++---
 src/cwl_utils/parser/cwl_v1_1.py | 7 ++++---
 src/cwl_utils/parser/cwl_v1_2.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index eb78812..2494dd7 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -87,8 +87,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, flatten: bool = True) -> None:
         self.items: Final = items
+        self.flatten: Final = flatten
 
     def load(
         self,
@@ -111,7 +112,7 @@ class _ArrayLoader(Loader):
                 lf = _load_field(
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
-                flatten = loadingOptions.container != "@list"
+                flatten = self.flatten and loadingOptions.container != "@list"
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -22435,7 +22436,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, flatten=False
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "CWLInputFile", "@list", True
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 7591f5f..72c5a34 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -87,8 +87,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, flatten: bool = True) -> None:
         self.items: Final = items
+        self.flatten: Final = flatten
 
     def load(
         self,
@@ -111,7 +112,7 @@ class _ArrayLoader(Loader):
                 lf = _load_field(
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
-                flatten = loadingOptions.container != "@list"
+                flatten = self.flatten and loadingOptions.container != "@list"
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -24431,7 +24432,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, flatten=False
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "None", None, None
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 59b77ad..35482ee 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -87,8 +87,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, flatten: bool = True) -> None:
         self.items: Final = items
+        self.flatten: Final = flatten
 
     def load(
         self,
@@ -111,7 +112,7 @@ class _ArrayLoader(Loader):
                 lf = _load_field(
                     doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
                 )
-                flatten = loadingOptions.container != "@list"
+                flatten = self.flatten and loadingOptions.container != "@list"
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -27545,7 +27546,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, flatten=False
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "None", None, None
-- 
2.43.0


From ee63e7be1a5f41680a440f8a5b4dfc18683a6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 05/75] fix: resolve a reference in the scope of a document
 without fragment

Secrets of a process without id were resolved to '#/name' instead of '#name'.
---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 2494dd7..d2797a2 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -794,7 +794,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 72c5a34..35f32d3 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -794,7 +794,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 35482ee..455b0b4 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -794,7 +794,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
-- 
2.43.0


From 45aa11ec2da4c2c16794b96c2d5104fda79b1f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 06/75] fix: keep generated blank identifiers when a saved
 document is loaded

They were taken for relative names: anonymous types of a saved document got
another name on each load and absolute save.
---
 src/cwl_utils/parser/cwl_v1_0.py | 3 +++
 src/cwl_utils/parser/cwl_v1_1.py | 3 +++
 src/cwl_utils/parser/cwl_v1_2.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index d2797a2..69707fa 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -770,6 +770,9 @@ def _expand_url(
     if vocab_term and url in vocab:
         return url
 
+    if url.startswith("_:"):
+        return url
+
     if bool(vocab) and ":" in url:
         prefix: Final = url.split(":")[0]
         if prefix in vocab:
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 35f32d3..640e055 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -770,6 +770,9 @@ def _expand_url(
     if vocab_term and url in vocab:
         return url
 
+    if url.startswith("_:"):
+        return url
+
     if bool(vocab) and ":" in url:
         prefix: Final = url.split(":")[0]
         if prefix in vocab:
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 455b0b4..0e94e2f 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -770,6 +770,9 @@ def _expand_url(
     if vocab_term and url in vocab:
         return url
 
+    if url.startswith("_:"):
+        return url
+
     if bool(vocab) and ":" in url:
         prefix: Final = url.split(":")[0]
         if prefix in vocab:
-- 
2.43.0


From 9ad49ca954db11de71affb52e828a82fb1e485ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 07/75] fix: save the namespaces and schemas of several
 processes once, next to $graph

Inside of each process of the graph they made the saved document unloadable.
---
 src/cwl_utils/parser/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..0a0bcef 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -435,7 +435,16 @@ def save(
                 latest = max(
                     (v for v in vers if v is not None), key=cast(Any, version_split)
                 )
-                return {"cwlVersion": latest, "$graph": lst}
+                graph: dict[str, Any] = {"cwlVersion": latest, "$graph": lst}
+                for e in lst:
+                    if "$namespaces" in e:
+                        graph.setdefault("$namespaces", {}).update(
+                            e.pop("$namespaces")
+                        )
+                    for schema in e.pop("$schemas", None) or []:
+                        if schema not in graph.setdefault("$schemas", []):
+                            graph["$schemas"].append(schema)
+                return graph
             return lst
         case MutableMapping():
             newdict = {}
-- 
2.43.0


From 92a11844755acef324ab5a3456b5fcfb7a6d9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 08/75] fix: refuse plain strings where CWL v1.1 and v1.2 only
 allow an expression

---
 src/cwl_utils/parser/cwl_v1_1.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 640e055..a99a3bd 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -332,6 +332,10 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
+        elif "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} is not a CWL Expression, it contains neither '$(' nor '${{'."
+            )
         else:
             return doc
 
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 0e94e2f..845532d 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -332,6 +332,10 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
+        elif "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} is not a CWL Expression, it contains neither '$(' nor '${{'."
+            )
         else:
             return doc
 
-- 
2.43.0


From 04dc3288ebb9821711becd303ac054f3f60786e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 09/75] fix: report an identifier that is not a string as a
 validation error

---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 69707fa..f01d235 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -391,7 +391,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index a99a3bd..e894d8d 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -395,7 +395,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 845532d..a014a6a 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -395,7 +395,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
-- 
2.43.0


From ae23b373919f1d3ae081c0cc1a73f51c0b32fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 10/75] fix: refuse a map entry that is not an object where the
 schema defines no shorthand for it

---
 src/cwl_utils/parser/cwl_v1_0.py | 8 ++++----
 src/cwl_utils/parser/cwl_v1_1.py | 8 ++++----
 src/cwl_utils/parser/cwl_v1_2.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index f01d235..4bd6bff 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -23090,7 +23090,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_LoadListingRequirementLoader_or_InplaceUpdateRequirementLoader_or_SecretsLoader_or_TimeLimitLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -23138,7 +23138,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_LoadListingRequirementLoader_or_InplaceUpdateRequirementLoader_or_SecretsLoader_or_TimeLimitLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -23543,7 +23543,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_ProcessGeneratorLoader: (
     Final
@@ -23592,7 +23592,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index e894d8d..b12a4f0 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -25162,7 +25162,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -25210,7 +25210,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -25676,7 +25676,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_ProcessGeneratorLoader: (
     Final
@@ -25725,7 +25725,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index a014a6a..070da49 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -28302,7 +28302,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_LoopLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -28351,7 +28351,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_LoopLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -28834,7 +28834,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_OperationLoader_or_ProcessGeneratorLoader: (
     Final
@@ -28884,7 +28884,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
-- 
2.43.0


From 77564077257139de3669143a60fb6e60bb25dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 11/75] fix: refuse plain strings where an extension of CWL
 v1.0 only allows an expression

---
 src/cwl_utils/parser/cwl_v1_0.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 4bd6bff..8c96f3e 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -332,6 +332,10 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
+        elif "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} is not a CWL Expression, it contains neither '$(' nor '${{'."
+            )
         else:
             return doc
 
-- 
2.43.0


From 980d763a070653972028e4de5fb6200b665e7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 12/75] fix: accept WorkReuse and Loop requirements that leave
 out a field with a default

---
 src/cwl_utils/parser/cwl_v1_1.py | 18 ++++++++--------
 src/cwl_utils/parser/cwl_v1_2.py | 36 ++++++++++++++++----------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index b12a4f0..fbbde4d 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -16660,15 +16660,15 @@ class WorkReuse(ProcessRequirement):
             raise e
         try:
             if _doc.get("enableReuse") is None:
-                raise ValidationException("missing required field `enableReuse`", None, [])
-
-            enableReuse = _load_field(
-                _doc.get("enableReuse"),
-                union_of_booltype_or_ExpressionLoader,
-                baseuri,
-                loadingOptions,
-                lc=_doc.get("enableReuse")
-            )
+                enableReuse = True  # the default of the CWL schema
+            else:
+                enableReuse = _load_field(
+                    _doc.get("enableReuse"),
+                    union_of_booltype_or_ExpressionLoader,
+                    baseuri,
+                    loadingOptions,
+                    lc=_doc.get("enableReuse")
+                )
 
         except ValidationException as e:
             error_message, to_print, verb_tensage = parse_errors(str(e))
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 070da49..db30386 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -16736,15 +16736,15 @@ class WorkReuse(ProcessRequirement):
             raise e
         try:
             if _doc.get("enableReuse") is None:
-                raise ValidationException("missing required field `enableReuse`", None, [])
-
-            enableReuse = _load_field(
-                _doc.get("enableReuse"),
-                union_of_booltype_or_ExpressionLoader,
-                baseuri,
-                loadingOptions,
-                lc=_doc.get("enableReuse")
-            )
+                enableReuse = True  # the default of the CWL schema
+            else:
+                enableReuse = _load_field(
+                    _doc.get("enableReuse"),
+                    union_of_booltype_or_ExpressionLoader,
+                    baseuri,
+                    loadingOptions,
+                    lc=_doc.get("enableReuse")
+                )
 
         except ValidationException as e:
             error_message, to_print, verb_tensage = parse_errors(str(e))
@@ -26892,15 +26892,15 @@ class Loop(ProcessRequirement):
                     )
         try:
             if _doc.get("outputMethod") is None:
-                raise ValidationException("missing required field `outputMethod`", None, [])
-
-            outputMethod = _load_field(
-                _doc.get("outputMethod"),
-                LoopOutputModesLoader,
-                baseuri,
-                loadingOptions,
-                lc=_doc.get("outputMethod")
-            )
+                outputMethod = "last"  # the default of the CWL schema
+            else:
+                outputMethod = _load_field(
+                    _doc.get("outputMethod"),
+                    LoopOutputModesLoader,
+                    baseuri,
+                    loadingOptions,
+                    lc=_doc.get("outputMethod")
+                )
 
         except ValidationException as e:
             error_message, to_print, verb_tensage = parse_errors(str(e))
-- 
2.43.0


From 68088a495c0cbe4b362ed8b0d30b893daebfc7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 13/75] fix: find a process of a graph by its absolute
 identifier

---
 src/cwl_utils/parser/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 0a0bcef..2ab8b0f 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -294,12 +294,13 @@ Loader: TypeAlias = schema_salad.runtime.Loader
 def _get_id_from_graph(yaml: MutableMapping[str, Any], id_: str | None) -> Any:
     if id_ is None:
         id_ = "main"
-    for el in yaml["$graph"]:
-        if el["id"].lstrip("#") == id_:
+    ids = [str(el.get("id", "")).rsplit("#", 1)[-1] for el in yaml["$graph"]]
+    for el, el_id in zip(yaml["$graph"], ids):
+        if el_id == id_:
             return el
     raise GraphTargetMissingException(
         "Tool file contains graph of multiple objects, must specify "
-        "one of #%s" % ", #".join(el["id"] for el in yaml["$graph"])
+        "one of #%s" % ", #".join(el_id for el_id in ids if el_id)
     )
 
 
-- 
2.43.0


From 43549c677b32889875402f0141e3b56f6ffdecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 14/75] fix: do not look up declared identifiers as if they
 were references to files

---
 src/cwl_utils/parser/cwl_v1_0.py | 3 ++-
 src/cwl_utils/parser/cwl_v1_1.py | 3 ++-
 src/cwl_utils/parser/cwl_v1_2.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 8c96f3e..f1c15c4 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -485,7 +485,8 @@ class _URILoader(Loader):
                     self.scoped_ref,
                 )
         if isinstance(doc, str):
-            if not loadingOptions.no_link_check:
+            # identifiers are declared here, only references are looked up
+            if not self.scoped_id and not loadingOptions.no_link_check:
                 errors: Final = []
                 try:
                     if not loadingOptions.fetcher.check_exists(doc):
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index fbbde4d..cbbf4bd 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -485,7 +485,8 @@ class _URILoader(Loader):
                     self.scoped_ref,
                 )
         if isinstance(doc, str):
-            if not loadingOptions.no_link_check:
+            # identifiers are declared here, only references are looked up
+            if not self.scoped_id and not loadingOptions.no_link_check:
                 errors: Final = []
                 try:
                     if not loadingOptions.fetcher.check_exists(doc):
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index db30386..d8a333c 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -485,7 +485,8 @@ class _URILoader(Loader):
                     self.scoped_ref,
                 )
         if isinstance(doc, str):
-            if not loadingOptions.no_link_check:
+            # identifiers are declared here, only references are looked up
+            if not self.scoped_id and not loadingOptions.no_link_check:
                 errors: Final = []
                 try:
                     if not loadingOptions.fetcher.check_exists(doc):
-- 
2.43.0


From 83bfcac3536beadbc7039e9180c643d2306ebdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 15/75] fix: keep namespaces and schemas of a graph when one of
 its processes is loaded

---
 src/cwl_utils/parser/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 2ab8b0f..3c16023 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -388,8 +388,16 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = _get_id_from_graph(yaml, id_)
-        yaml["cwlVersion"] = version
+        picked = _get_id_from_graph(yaml, id_).copy()
+        picked["cwlVersion"] = version
+        if "$namespaces" in yaml:
+            picked["$namespaces"] = {
+                **yaml["$namespaces"],
+                **picked.get("$namespaces", {}),
+            }
+        if "$schemas" in yaml:
+            picked["$schemas"] = yaml["$schemas"] + picked.get("$schemas", [])
+        yaml = picked
     match version:
         case "v1.0":
             result = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
-- 
2.43.0


From 29f4721209680d469a56665318e3e8c7177f7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 16/75] fix: load all processes when load_document is given a
 string and load_all

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 3c16023..672ece5 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -362,7 +362,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From 5920bb36d3edecd6062e38fbce98136492a250ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 17/75] fix: take the fragment off Path and http locations of
 documents before fetching them

---
 src/cwl_utils/parser/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 672ece5..5738af5 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -5,7 +5,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote_plus, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -332,12 +332,15 @@ def load_document_by_uri(
             real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
             base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
         else:
-            real_uri = path
-            base_uri = os.path.dirname(path)
+            real_uri = urldefrag(path).url
+            base_uri = os.path.dirname(real_uri)
     else:
-        real_uri = path.resolve().as_uri()
-        base_uri = path.resolve().parent.as_uri()
-        id_ = path.resolve().name.split("#")[1] if "#" in path.resolve().name else None
+        path, id_ = path.resolve(), None
+        if "#" in path.name and not path.exists():
+            name, id_ = path.name.split("#", 1)
+            path = path.with_name(name)
+        real_uri = path.as_uri()
+        base_uri = path.parent.as_uri()
 
     loadingOptions = LoadingOptions(
         fileuri=real_uri, baseuri=base_uri, copyfrom=loadingOptions
-- 
2.43.0


From 926aeca818b205f52224bb9f493c138e677f67d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 18/75] fix: load documents whose file name contains a plus
 sign

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 5738af5..1de224d 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -5,7 +5,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urldefrag, urlparse
+from urllib.parse import unquote, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -329,8 +329,8 @@ def load_document_by_uri(
         uri = urlparse(path)
         id_ = uri.fragment or None
         if not uri.scheme or uri.scheme == "file":
-            real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
-            base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
+            real_uri = Path(unquote(uri.path)).resolve().as_uri()
+            base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
             real_uri = urldefrag(path).url
             base_uri = os.path.dirname(real_uri)
-- 
2.43.0


From 0d35823a3f71160bed550c625095667256ee1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 19/75] fix: compare enum types by their symbols when checking
 links

Two enum types were compared as objects, so links between the same enum
declared in two places (with other symbol prefixes, names or schema
classes) were always reported as incompatible.
---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 8 +++++++-
 src/cwl_utils/parser/utils.py          | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..080a74a 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -9,7 +9,7 @@ from typing import IO, Any, cast
 from urllib.parse import urldefrag
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import shortname, LoadingOptions, file_uri, save
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import aslist, json_dumps, yaml_no_ts
@@ -158,6 +158,12 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        src_symbols = {shortname(symbol) for symbol in src.symbols}
+        sink_symbols = {shortname(symbol) for symbol in sink.symbols}
+        if strict:
+            return src_symbols <= sink_symbols
+        return not src_symbols.isdisjoint(sink_symbols)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..5c9f1f8 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -8,7 +8,7 @@ from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
 from schema_salad.utils import json_dumps, yaml_no_ts
@@ -93,6 +93,12 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        src_symbols = {shortname(symbol) for symbol in src.symbols}
+        sink_symbols = {shortname(symbol) for symbol in sink.symbols}
+        if strict:
+            return src_symbols <= sink_symbols
+        return not src_symbols.isdisjoint(sink_symbols)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-- 
2.43.0


From 24fb1e59adc200a1237d06484fbac59def2fd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 20/75] fix: keep the strict comparison inside union types

The members of a union were compared loosely even when the caller asked
for a strict comparison, so a link that can fail passed without a warning
when one of its ends was spelled as a union.
---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++--
 src/cwl_utils/parser/utils.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 080a74a..31f9d86 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -167,7 +167,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
@@ -176,7 +176,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 5c9f1f8..d92f707 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -102,7 +102,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
@@ -111,7 +111,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
-- 
2.43.0


From 792d75b706097e3e4956d9e047f769c060622420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 21/75] fix: a failed comparison of records without a name
 raised AttributeError

v1.0 record types of workflow outputs have no name.
---
 src/cwl_utils/parser/cwl_v1_1_utils.py |  4 ++--
 src/cwl_utils/parser/utils.py          | 12 ++----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 31f9d86..3a3b022 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -47,8 +47,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(cwl.InputRecordSchema | cwl.CommandOutputRecordSchema, src).name,
-                cast(cwl.InputRecordSchema | cwl.CommandOutputRecordSchema, sink).name,
+                getattr(src, "name", None),
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index d92f707..6cd2288 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -26,8 +26,6 @@ from cwl_utils.parser import (
     cwl_v1_1_utils,
     cwl_v1_2,
     cwl_v1_2_utils,
-    InputRecordSchema,
-    CommandOutputRecordSchema,
     CommandInputParameter,
     CommandOutputParameter,
     WorkflowInputParameter,
@@ -60,14 +58,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    src,
-                ).name,
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    sink,
-                ).name,
+                getattr(src, "name", None),
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
-- 
2.43.0


From fca63d9fa336dcf8eefd38be968a7e13ad928c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 22/75] fix: find the process input of a step input in any file
 and version

The ids were compared with their step and scope, which only match for an
anonymous v1.0 process embedded in the step, so the type of every other
step input was Any and static_checker did not check its links.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..d0c9471 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -269,7 +269,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 3a3b022..e35463a 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -357,7 +357,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..daee9f2 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -379,7 +379,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
-- 
2.43.0


From ac1673f326528a3f4d0fe3dd0761928d02b207f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 23/75] fix: static_checker ignored linkMerge on a single
 source

A single link with merge_nested is wrapped in a list, and with
merge_flattened a value that is not a list is, so a valid link was reported
as incompatible and the other way round.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index d0c9471..1bf82fe 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -142,7 +142,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index e35463a..37ca61d 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -214,7 +214,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index daee9f2..01f44ef 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -197,7 +197,9 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
+                if sink.pickValue in ("first_non_null", "the_only_non_null"):
+                    linkMerge = None
                 if sink.pickValue is not None:
                     validation["warning"].append(
                         SrcSink(
-- 
2.43.0


From e840abe6697bfebc7f439504a2479126e02deb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 24/75] fix: static_checker changed the type of a source when a
 sink used it

The null of a conditional step and the array of a loop were added to the
type of the source itself, so a later sink with pickValue was reported and
the second use of a loop output was an array of arrays: the outcome
depended on the order of the steps and outputs.
---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 34 ++++++++++++--------------
 src/cwl_utils/parser/utils.py          | 11 +++++++--
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 01f44ef..b8eac3d 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -24,7 +24,9 @@ CONTENT_LIMIT: int = 64 * 1024
 
 _logger = logging.getLogger("cwl_utils")
 
-SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
+SrcSink = namedtuple(
+    "SrcSink", ["src", "sink", "linkMerge", "message", "src_type"], defaults=[None]
+)
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
@@ -161,12 +163,12 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
-                    srcs_of_sink += [src_dict[parm_id]]
+                    src_typ = type_dict[src_dict[parm_id].id]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
                         and sink.pickValue is None
                     ):
-                        src_typ = aslist(type_dict[src_dict[parm_id].id])
+                        src_typ = aslist(src_typ)
                         if "null" not in src_typ:
                             src_typ = ["null"] + cast(list[Any], src_typ)
                         if (
@@ -179,14 +181,12 @@ def check_all_types(
                                     sink,
                                     linkMerge,
                                     message="Source is from conditional step, but pickValue is not used",
+                                    src_type=src_typ,
                                 )
                             )
-                        type_dict[src_dict[parm_id].id] = src_typ
                     if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
+                        src_typ = ArraySchema(items=src_typ, type_="array")
+                    srcs_of_sink.append((src_dict[parm_id], src_typ))
             else:
                 if isinstance(sourceField, MutableSequence):
                     parm_id = cast(str, sourceField[0])
@@ -196,7 +196,7 @@ def check_all_types(
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                srcs_of_sink = [src_dict[parm_id]]
+                src_typ = type_dict[src_dict[parm_id].id]
                 linkMerge = sink.linkMerge
                 if sink.pickValue in ("first_non_null", "the_only_non_null"):
                     linkMerge = None
@@ -210,7 +210,7 @@ def check_all_types(
                         )
                     )
                 if _is_conditional_step(param_to_step, parm_id):
-                    src_typ = aslist(type_dict[src_dict[parm_id].id])
+                    src_typ = aslist(src_typ)
                     snk_typ = type_dict[sink.id]
                     if "null" not in src_typ:
                         src_typ = ["null"] + cast(list[Any], src_typ)
@@ -224,24 +224,22 @@ def check_all_types(
                                 sink,
                                 linkMerge,
                                 message="Source is from conditional step and may produce `null`",
+                                src_type=src_typ,
                             )
                         )
-                    type_dict[src_dict[parm_id].id] = src_typ
                 if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
-            for src in srcs_of_sink:
+                    src_typ = ArraySchema(items=src_typ, type_="array")
+                srcs_of_sink = [(src_dict[parm_id], src_typ)]
+            for src, src_typ in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_typ,
                     sink_type,
                     linkMerge,
                     getattr(sink, "valueFrom", None),
                 )
                 if check_result in ("warning", "exception"):
                     validation[check_result].append(
-                        SrcSink(src, sink, linkMerge, extra_message)
+                        SrcSink(src, sink, linkMerge, extra_message, src_typ)
                     )
     return validation
 
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 6cd2288..a36fd1a 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -440,7 +440,9 @@ def static_checker(workflow: Workflow) -> None:
                 "Source '%s' of type %s may be incompatible"
                 % (
                     shortname(src.id),
-                    json_dumps(save(type_dict[src.id])),
+                    json_dumps(
+                        save(getattr(warning, "src_type", None) or type_dict[src.id])
+                    ),
                 )
             )
             + "\n"
@@ -472,7 +474,12 @@ def static_checker(workflow: Workflow) -> None:
         msg = (
             SourceLine(src, "type").makeError(
                 "Source '%s' of type %s is incompatible"
-                % (shortname(src.id), json_dumps(save(type_dict[src.id])))
+                % (
+                    shortname(src.id),
+                    json_dumps(
+                        save(getattr(exception, "src_type", None) or type_dict[src.id])
+                    ),
+                )
             )
             + "\n"
             + SourceLine(sink, "type").makeError(
-- 
2.43.0


From 15b9912439f5524d60dd64fb4cb7a97e266ed355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 25/75] fix: an unknown source in a list raised KeyError in
 static_checker

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 1bf82fe..a810875 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -134,6 +134,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 37ca61d..3e04b4e 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -206,6 +206,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index b8eac3d..5f2f91e 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -163,6 +163,10 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     src_typ = type_dict[src_dict[parm_id].id]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
-- 
2.43.0


From 6f886ff65ef100561f42cb657aa0ae0a50da1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 26/75] fix: static_checker did not report a lone missing
 required parameter

The message about a required step input without source, default or
valueFrom was only used when some link was incompatible too. A default of
the process input makes the step input optional.
---
 src/cwl_utils/parser/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index a36fd1a..39d1b25 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -509,6 +509,11 @@ def static_checker(workflow: Workflow) -> None:
             and getattr(sink, "source", None) is None
             and getattr(sink, "default", None) is None
             and getattr(sink, "valueFrom", None) is None
+            and not any(
+                shortname(cast(str, inp.id)) == shortname(sink.id)
+                and inp.default is not None
+                for inp in load_step(param_to_step[sink.id]).inputs
+            )
         ):
             msg = SourceLine(sink).makeError(
                 "Required parameter '%s' does not have source, default, or valueFrom expression"
@@ -521,7 +526,7 @@ def static_checker(workflow: Workflow) -> None:
 
     if all_warning_msg:
         _logger.warning("Workflow checker warning:\n%s", all_warning_msg)
-    if exceptions:
+    if exception_msgs:
         raise ValidationException(all_exception_msg)
 
 
-- 
2.43.0


From 8f7a0df1c386d584209d1144b720c3cd374907ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 27/75] fix: static_checker confused a source and a sink with
 the same id

An input and an output of a step (or of the workflow) often have the same
name and so the same id; the type of the input was replaced by that of the
output.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 12 ++++++++++--
 src/cwl_utils/parser/cwl_v1_1_utils.py | 12 ++++++++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py | 14 +++++++++++---
 src/cwl_utils/parser/utils.py          | 24 ++++++++++++++----------
 4 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index a810875..4c1d46c 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -114,8 +114,16 @@ def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
     type_dict: dict[str, Any],
+    src_types: dict[str, Any] | None = None,
 ) -> dict[str, list[SrcSink]]:
-    """Given a list of sinks, check if their types match with the types of their sources."""
+    """
+    Given a list of sinks, check if their types match with the types of their sources.
+
+    type_dict: types of the sinks, by id
+    src_types: types of the sources, by id (default: type_dict)
+    """
+    if src_types is None:
+        src_types = type_dict
     validation: dict[str, list[SrcSink]] = {"warning": [], "exception": []}
     for sink in sinks:
         match sink:
@@ -149,7 +157,7 @@ def check_all_types(
                 linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_types[cast(str, src.id)],
                     type_dict[sink.id],
                     linkMerge,
                     getattr(sink, "valueFrom", None),
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 3e04b4e..e6d2bb6 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -186,8 +186,16 @@ def check_all_types(
     src_dict: dict[str, Any],
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
     type_dict: dict[str, Any],
+    src_types: dict[str, Any] | None = None,
 ) -> dict[str, list[SrcSink]]:
-    """Given a list of sinks, check if their types match with the types of their sources."""
+    """
+    Given a list of sinks, check if their types match with the types of their sources.
+
+    type_dict: types of the sinks, by id
+    src_types: types of the sources, by id (default: type_dict)
+    """
+    if src_types is None:
+        src_types = type_dict
     validation: dict[str, list[SrcSink]] = {"warning": [], "exception": []}
     for sink in sinks:
         match sink:
@@ -221,7 +229,7 @@ def check_all_types(
                 linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_types[cast(str, src.id)],
                     type_dict[sink.id],
                     linkMerge,
                     getattr(sink, "valueFrom", None),
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 5f2f91e..baff3ee 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -137,8 +137,16 @@ def check_all_types(
     sinks: MutableSequence[cwl.WorkflowStepInput | cwl.WorkflowOutputParameter],
     param_to_step: dict[str, cwl.WorkflowStep],
     type_dict: dict[str, Any],
+    src_types: dict[str, Any] | None = None,
 ) -> dict[str, list[SrcSink]]:
-    """Given a list of sinks, check if their types match with the types of their sources."""
+    """
+    Given a list of sinks, check if their types match with the types of their sources.
+
+    type_dict: types of the sinks, by id
+    src_types: types of the sources, by id (default: type_dict)
+    """
+    if src_types is None:
+        src_types = type_dict
     validation: dict[str, list[SrcSink]] = {"warning": [], "exception": []}
     for sink in sinks:
         extra_message = (
@@ -167,7 +175,7 @@ def check_all_types(
                         raise SourceLine(
                             sink, sourceName, ValidationException
                         ).makeError(f"{sourceName} not found: {parm_id}")
-                    src_typ = type_dict[src_dict[parm_id].id]
+                    src_typ = src_types[src_dict[parm_id].id]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
                         and sink.pickValue is None
@@ -200,7 +208,7 @@ def check_all_types(
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                src_typ = type_dict[src_dict[parm_id].id]
+                src_typ = src_types[src_dict[parm_id].id]
                 linkMerge = sink.linkMerge
                 if sink.pickValue in ("first_non_null", "the_only_non_null"):
                     linkMerge = None
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 39d1b25..7d500cb 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -348,6 +348,7 @@ def static_checker(workflow: Workflow) -> None:
     step_inputs = []
     step_outputs = []
     type_dict = {}
+    src_types = {}
     param_to_step = {}
     for step in workflow.steps:
         if step.in_ is not None:
@@ -383,7 +384,7 @@ def static_checker(workflow: Workflow) -> None:
                     raise Exception(f"Unsupported CWL version {workflow.cwlVersion}")
             step_outputs.extend(step_outs)
             param_to_step.update({s.id: step for s in step_outs})
-            type_dict.update(
+            src_types.update(
                 {
                     s.id: type_for_step_output(step, s.id, workflow.cwlVersion)
                     for s in step_outs
@@ -395,33 +396,36 @@ def static_checker(workflow: Workflow) -> None:
     }
     type_dict = {
         **type_dict,
-        **{param.id: param.type_ for param in workflow.inputs},
         **{param.id: param.type_ for param in workflow.outputs},
     }
+    src_types = {
+        **src_types,
+        **{param.id: param.type_ for param in workflow.inputs},
+    }
 
     step_inputs_val: dict[str, Any]
     workflow_outputs_val: dict[str, Any]
     match workflow.cwlVersion:
         case "v1.0":
             step_inputs_val = cwl_v1_0_utils.check_all_types(
-                src_dict, step_inputs, type_dict
+                src_dict, step_inputs, type_dict, src_types
             )
             workflow_outputs_val = cwl_v1_0_utils.check_all_types(
-                src_dict, workflow.outputs, type_dict
+                src_dict, workflow.outputs, type_dict, src_types
             )
         case "v1.1":
             step_inputs_val = cwl_v1_1_utils.check_all_types(
-                src_dict, step_inputs, type_dict
+                src_dict, step_inputs, type_dict, src_types
             )
             workflow_outputs_val = cwl_v1_1_utils.check_all_types(
-                src_dict, workflow.outputs, type_dict
+                src_dict, workflow.outputs, type_dict, src_types
             )
         case "v1.2":
             step_inputs_val = cwl_v1_2_utils.check_all_types(
-                src_dict, step_inputs, param_to_step, type_dict
+                src_dict, step_inputs, param_to_step, type_dict, src_types
             )
             workflow_outputs_val = cwl_v1_2_utils.check_all_types(
-                src_dict, workflow.outputs, param_to_step, type_dict
+                src_dict, workflow.outputs, param_to_step, type_dict, src_types
             )
         case _ as cwlVersion:
             raise Exception(f"Unsupported CWL version {cwlVersion}")
@@ -441,7 +445,7 @@ def static_checker(workflow: Workflow) -> None:
                 % (
                     shortname(src.id),
                     json_dumps(
-                        save(getattr(warning, "src_type", None) or type_dict[src.id])
+                        save(getattr(warning, "src_type", None) or src_types[src.id])
                     ),
                 )
             )
@@ -477,7 +481,7 @@ def static_checker(workflow: Workflow) -> None:
                 % (
                     shortname(src.id),
                     json_dumps(
-                        save(getattr(exception, "src_type", None) or type_dict[src.id])
+                        save(getattr(exception, "src_type", None) or src_types[src.id])
                     ),
                 )
             )
-- 
2.43.0


From ffb2dddbd55799f1cfb212499d632b2fd284d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 28/75] fix: comparing types of different kinds raised
 AttributeError or TypeError

_compare_type looked at the kind of its first argument twice, so
type_for_source failed for sources of an array and a string, say.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 4c1d46c..a2dca29 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index e6d2bb6..39bd595 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index baff3ee..69ba67d 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -30,7 +30,7 @@ SrcSink = namedtuple(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
-- 
2.43.0


From 760cacf8dc39384aece3f87977f787dfbb225eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 29/75] fix: sources of one type were merged although only one
 is scattered

type_for_source compared the types before adding the array of a scattered
step, so the array was lost, or added to the other source.
---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_1_utils.py | 9 ++++-----
 src/cwl_utils/parser/cwl_v1_2_utils.py | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index a2dca29..3f9aa11 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -347,11 +347,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -362,7 +360,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 39bd595..cbcbfd2 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -435,11 +435,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -450,7 +448,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 69ba67d..a27a7bb 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -462,11 +462,9 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
             cur_type = None
@@ -477,7 +475,8 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            new_type.append(cur_type)
+            if not any(_compare_type(t, cur_type) for t in new_type):
+                new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
-- 
2.43.0


From 28e6b58c38636c238f16f104176eb96c64299825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 30/75] fix: unknown sources in a list were ignored

param_for_source_id and type_for_source gave the answer for the sources
that exist.
---
 src/cwl_utils/parser/utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 7d500cb..3e769b4 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -271,6 +271,7 @@ def param_for_source_id(
         CommandInputParameter | CommandOutputParameter | WorkflowInputParameter
     ] = []
     for sourcename in sourcenames:
+        found = len(params)
         if not isinstance(process, Workflow):
             for param in process.inputs:
                 if param.id.split("#")[-1] == sourcename.split("#")[-1]:
@@ -330,17 +331,19 @@ def param_for_source_id(
                                                         )
                                                     else:
                                                         scatter_context.append(None)
+        if len(params) == found:
+            raise WorkflowException(
+                "param {} not found in {}\n{}.".format(
+                    sourcename,
+                    yaml_dumps(save(process)),
+                    (f" or\n {yaml_dumps(save(parent))}" if parent is not None else ""),
+                )
+            )
+    if not params:
+        raise WorkflowException("No source to find a parameter for.")
     if len(params) == 1:
         return params[0]
-    elif len(params) > 1:
-        return params
-    raise WorkflowException(
-        "param {} not found in {}\n{}.".format(
-            sourcename,
-            yaml_dumps(save(process)),
-            (f" or\n {yaml_dumps(save(parent))}" if parent is not None else ""),
-        )
-    )
+    return params
 
 
 def static_checker(workflow: Workflow) -> None:
-- 
2.43.0


From 3d9088a1b8428337c96f6abb4bbe9620c68104ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 31/75] fix: a source was mistaken for one with the same name
 in another file

param_for_source_id compared the fragments of ids only, so an input of a
step's process (or of a nested workflow) with the name of a workflow input
was taken for it, and type_for_source gave a union of both.
---
 src/cwl_utils/parser/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 3e769b4..355ee56 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -251,6 +251,13 @@ def merge_flatten_type(src: Any) -> Any:
     return ArraySchema(type_="array", items=src)
 
 
+def _same_id(id1: str, id2: str) -> bool:
+    """Compare two ids: in full if both name their document, else the fragments."""
+    if "#" in id1 and "#" in id2:
+        return id1 == id2
+    return id1.split("#")[-1] == id2.split("#")[-1]
+
+
 def param_for_source_id(
     process: Process,
     sourcenames: str | list[str],
@@ -274,7 +281,7 @@ def param_for_source_id(
         found = len(params)
         if not isinstance(process, Workflow):
             for param in process.inputs:
-                if param.id.split("#")[-1] == sourcename.split("#")[-1]:
+                if _same_id(param.id, sourcename):
                     params.append(param)
                     if scatter_context is not None:
                         scatter_context.append(None)
@@ -284,14 +291,14 @@ def param_for_source_id(
         for target in targets:
             if isinstance(target, Workflow):
                 for inp in target.inputs:
-                    if inp.id.split("#")[-1] == sourcename.split("#")[-1]:
+                    if _same_id(inp.id, sourcename):
                         params.append(inp)
                         if scatter_context is not None:
                             scatter_context.append(None)
                 for step in target.steps:
                     if (
-                        "/".join(sourcename.split("#")[-1].split("/")[:-1])
-                        == step.id.split("#")[-1]
+                        "/" in sourcename.split("#")[-1]
+                        and _same_id(step.id, sourcename.rpartition("/")[0])
                         and step.out
                     ):
                         step_run = cwl_utils.parser.utils.load_step(step)
-- 
2.43.0


From 365570e2b3ccc404fc843e920df0953d4fceb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 32/75] fix: pickValue was not applied to a flattened union of
 arrays

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index a27a7bb..2154547 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -380,6 +380,13 @@ def load_inputfile_by_yaml(
     return result
 
 
+def _items_type(type_: Any) -> Any:
+    """Return the type of the items of an array, or of any array in a union of arrays."""
+    if isinstance(type_, MutableSequence):
+        return [item for t in type_ for item in aslist(_items_type(t))]
+    return type_.items
+
+
 def type_for_step_input(
     step: cwl.WorkflowStep,
     in_: cwl.WorkflowStepInput,
@@ -456,9 +463,9 @@ def type_for_source(
         elif linkMerge == "merge_flattened":
             new_type = cwl_utils.parser.utils.merge_flatten_type(new_type)
         if pickValue is not None:
-            if isinstance(new_type, ArraySchema):
+            if isinstance(new_type, ArraySchema) or linkMerge == "merge_flattened":
                 if pickValue in ("first_non_null", "the_only_non_null"):
-                    new_type = new_type.items
+                    new_type = _items_type(new_type)
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
@@ -486,7 +493,7 @@ def type_for_source(
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         new_type = ArraySchema(items=new_type, type_="array")
     if pickValue is not None:
-        if isinstance(new_type, ArraySchema):
+        if isinstance(new_type, ArraySchema) or linkMerge == "merge_flattened":
             if pickValue in ("first_non_null", "the_only_non_null"):
-                new_type = new_type.items
+                new_type = _items_type(new_type)
     return new_type
-- 
2.43.0


From c5e805ddeffc2304c55c3f32d587554f3c3c5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 33/75] fix: static_checker compared whole sources when
 flattened and picked from

With merge_flattened and first_non_null or the_only_non_null the sink gets
one item, not a source.
---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 2154547..8dd92b4 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -243,6 +243,13 @@ def check_all_types(
                     src_typ = ArraySchema(items=src_typ, type_="array")
                 srcs_of_sink = [(src_dict[parm_id], src_typ)]
             for src, src_typ in srcs_of_sink:
+                if sink.linkMerge == "merge_flattened" and sink.pickValue in (
+                    "first_non_null",
+                    "the_only_non_null",
+                ):
+                    src_typ = _items_type(
+                        cwl_utils.parser.utils.merge_flatten_type(src_typ)
+                    )
                 check_result = cwl_utils.parser.utils.check_types(
                     src_typ,
                     sink_type,
-- 
2.43.0


From af8acef57e6f3f7323240377f6f80415dcabba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 34/75] fix: generated stream names depended on random names of
 anonymous types

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 10 +++++++---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 10 +++++++---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 10 +++++++---
 src/cwl_utils/utils.py                 | 15 +++++++++++++++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 3f9aa11..6367dcb 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -17,7 +17,7 @@ from schema_salad.utils import aslist, json_dumps, yaml_no_ts
 import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.utils
-from cwl_utils.utils import yaml_dumps
+from cwl_utils.utils import without_blank_names, yaml_dumps
 
 CONTENT_LIMIT: int = 64 * 1024
 
@@ -195,7 +195,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stdout is None:
                 clt.stdout = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stdout)
@@ -206,7 +208,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stderr is None:
                 clt.stderr = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stderr)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index cbcbfd2..dd156c2 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -17,7 +17,7 @@ from schema_salad.utils import aslist, json_dumps, yaml_no_ts
 import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.utils
-from cwl_utils.utils import yaml_dumps
+from cwl_utils.utils import without_blank_names, yaml_dumps
 
 CONTENT_LIMIT: int = 64 * 1024
 
@@ -267,7 +267,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stdout is None:
                 clt.stdout = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stdout)
@@ -278,7 +280,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stderr is None:
                 clt.stderr = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stderr)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 8dd92b4..f359e4b 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -18,7 +18,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.utils
 from cwl_utils.errors import WorkflowException
-from cwl_utils.utils import yaml_dumps
+from cwl_utils.utils import without_blank_names, yaml_dumps
 
 CONTENT_LIMIT: int = 64 * 1024
 
@@ -296,7 +296,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stdout is None:
                 clt.stdout = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stdout)
@@ -307,7 +309,9 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                 )
             if clt.stderr is None:
                 clt.stderr = hashlib.sha1(  # nosec
-                    json_dumps(clt.save(), sort_keys=True).encode("utf-8")
+                    json_dumps(
+                        without_blank_names(clt.save()), sort_keys=True
+                    ).encode("utf-8")
                 ).hexdigest()
             out.type_ = "File"
             out.outputBinding = cwl.CommandOutputBinding(glob=clt.stderr)
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..c1d9aa4 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -466,3 +466,18 @@ def get_value_from_uri(uri: str) -> str:
     """
     url_obj = urlparse(uri)
     return url_obj.fragment.rsplit("/")[-1]
+
+
+def without_blank_names(doc: Any) -> Any:
+    """Copy a saved document without the random names of its anonymous types."""
+    if isinstance(doc, MutableMapping):
+        return {
+            key: without_blank_names(value)
+            for key, value in doc.items()
+            if not (
+                key == "name" and isinstance(value, str) and value.startswith("_:")
+            )
+        }
+    if isinstance(doc, MutableSequence):
+        return [without_blank_names(item) for item in doc]
+    return doc
-- 
2.43.0


From 9e6a93b7af770fdb3455615ca50c13a5d80ad9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 35/75] fix: stdin shortcut on an input whose name is not a
 plain symbol

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 7 +++----
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 +++----
 src/cwl_utils/utils.py                 | 8 ++++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index dd156c2..f6f1839 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -17,7 +17,7 @@ from schema_salad.utils import aslist, json_dumps, yaml_no_ts
 import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.utils
-from cwl_utils.utils import without_blank_names, yaml_dumps
+from cwl_utils.utils import parameter_segment, without_blank_names, yaml_dumps
 
 CONTENT_LIMIT: int = 64 * 1024
 
@@ -297,9 +297,8 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
-                clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                clt.stdin = "$(inputs%s.path)" % parameter_segment(
+                    cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 )
                 inp.type_ = "File"
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index f359e4b..f8c8611 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -18,7 +18,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.utils
 from cwl_utils.errors import WorkflowException
-from cwl_utils.utils import without_blank_names, yaml_dumps
+from cwl_utils.utils import parameter_segment, without_blank_names, yaml_dumps
 
 CONTENT_LIMIT: int = 64 * 1024
 
@@ -326,9 +326,8 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
-                clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                clt.stdin = "$(inputs%s.path)" % parameter_segment(
+                    cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 )
                 inp.type_ = "File"
 
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index c1d9aa4..ceca47e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -2,6 +2,7 @@
 """Miscellaneous utility functions."""
 
 import pathlib
+import re
 import subprocess  # nosec
 import sys
 import urllib.error
@@ -481,3 +482,10 @@ def without_blank_names(doc: Any) -> Any:
     if isinstance(doc, MutableSequence):
         return [without_blank_names(item) for item in doc]
     return doc
+
+
+def parameter_segment(name: str) -> str:
+    """Give the segment of a parameter reference that selects the named field."""
+    if re.fullmatch(r"\w+", name):
+        return f".{name}"
+    return '["%s"]' % name.replace("\\", "\\\\").replace('"', '\\"')
-- 
2.43.0


From b25c85acdd1c146b2dac32dac2b8b9fd3f54199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 36/75] fix: job file whose name contains a plus sign could not
 be loaded

---
 src/cwl_utils/parser/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 355ee56..967f70f 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -5,7 +5,7 @@ import logging
 from collections.abc import MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
@@ -162,7 +162,7 @@ def load_inputfile_by_uri(
     if isinstance(path, str):
         uri = urlparse(path)
         if not uri.scheme or uri.scheme == "file":
-            real_path = Path(unquote_plus(uri.path)).resolve().as_uri()
+            real_path = Path(unquote(uri.path)).resolve().as_uri()
         else:
             real_path = path
     else:
-- 
2.43.0


From 233126d8f4403171495ae5acb18342f0eb9dae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 37/75] fix: content limit within a character of a v1.0 or v1.1
 file

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 6 +++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 6367dcb..152dc15 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -182,7 +183,10 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    truncated = len(contents) == CONTENT_LIMIT and bool(f.read(1))
+    # the limit can fall within a character, which is then left out
+    return codecs.getincrementaldecoder("utf-8")().decode(contents, not truncated)
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index f6f1839..0af94f7 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -254,7 +255,10 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    truncated = len(contents) == CONTENT_LIMIT and bool(f.read(1))
+    # the limit can fall within a character, which is then left out
+    return codecs.getincrementaldecoder("utf-8")().decode(contents, not truncated)
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
-- 
2.43.0


From 11c048d89d6601cab5df55558abc11afb2428152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 38/75] fix: $include in a job file was resolved against the
 process document

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 1 +
 src/cwl_utils/parser/cwl_v1_1_utils.py | 1 +
 src/cwl_utils/parser/cwl_v1_2_utils.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 152dc15..7d67cd0 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -86,6 +86,7 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                fileuri=baseuri,
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 0af94f7..15b1044 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -117,6 +117,7 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                fileuri=baseuri,
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index f8c8611..6d8557b 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -107,6 +107,7 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                fileuri=baseuri,
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
-- 
2.43.0


From ef43d036cce772a9fc1996628f6368ccacc431c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 39/75] fix: job file whose list of records repeats an id could
 not be loaded

---
 src/cwl_utils/parser/cwl_v1_0.py | 3 ++-
 src/cwl_utils/parser/cwl_v1_1.py | 3 ++-
 src/cwl_utils/parser/cwl_v1_2.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index f1c15c4..7c2a3df 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -118,7 +118,8 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                # arrays of input values are not flattened, and may repeat an "id"
+                if self.flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index cbbf4bd..1890905 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -118,7 +118,8 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                # arrays of input values are not flattened, and may repeat an "id"
+                if self.flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index d8a333c..f6a4f75 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -118,7 +118,8 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                # arrays of input values are not flattened, and may repeat an "id"
+                if self.flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
-- 
2.43.0


From d0e47f7e2d119bdd0037ff0e9ad89327f19c8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 40/75] fix: pack mistook local files for remote ones and did
 not decode references

---
 src/cwl_utils/pack.py  |  7 +++++++
 src/cwl_utils/utils.py | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..34b376b 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -15,11 +15,13 @@ used to fetch data
 From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
 """
 
+import pathlib
 import urllib.parse
 from collections.abc import ItemsView
 from typing import TYPE_CHECKING, Any, Union, cast
 
 from packaging import version
+from schema_salad.runtime import file_uri
 
 from cwl_utils import schemadef, utils
 from cwl_utils.loghandler import _logger
@@ -261,6 +263,11 @@ def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
     file_path_url = urllib.parse.urlparse(cwl_path)
+    if file_path_url.scheme == "":
+        # references in the document are URIs, which can be percent-encoded
+        file_path_url = urllib.parse.urlparse(
+            file_uri(str(pathlib.Path(cwl_path).absolute()), split_frag=True)
+        )
 
     cwl, full_url = cast(
         tuple[dict[str, Any], urllib.parse.ParseResult],
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index ceca47e..1fb96db 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -43,7 +43,7 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
 
     https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
     """
-    if base_url.scheme in ("file://", ""):
+    if base_url.scheme in ("file", ""):
         return False
 
     idx = contents.find("\n")
@@ -91,8 +91,11 @@ def load_linked_file(
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     new_url = resolved_path(base_url, link)
 
-    if new_url.scheme in ("file://", ""):
-        contents = pathlib.Path(new_url.path).read_text()
+    if new_url.scheme == "file":
+        path = urllib.parse.unquote(new_url.path)
+        contents = pathlib.Path(path).read_text(encoding="utf-8")
+    elif new_url.scheme == "":
+        contents = pathlib.Path(new_url.path).read_text(encoding="utf-8")
     else:
         try:
             contents = (
@@ -185,13 +188,13 @@ def resolved_path(
     link_url = urllib.parse.urlparse(link)
     # The link will always Posix
 
-    if link_url.scheme == "file://":
+    if link_url.scheme == "file":
         # Absolute local path
         return link_url
 
     elif link_url.scheme == "":
         # Relative path, can be local or remote
-        if base_url.scheme in ("file://", ""):
+        if base_url.scheme in ("file", ""):
             # Local relative path
             if link == "":
                 return base_url
-- 
2.43.0


From 91c3c3f8edfb1cf466526634a6a2bc6d2a331bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 41/75] fix: pack resolved imports within imported parts
 against the wrong file

---
 src/cwl_utils/pack.py      | 58 +++++++++++++++++++++++++++-----------
 src/cwl_utils/schemadef.py | 14 ++++++++-
 2 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 34b376b..c1301d8 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -60,13 +60,14 @@ def pack_process(
     cwl = normalize_sources(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
-    cwl = resolve_imports(cwl, base_url)
+    # steps first, as what they import is relative to the file that they are in
     cwl = resolve_steps(
         cwl,
         base_url,
         cwl.get("cwlVersion", cwl_version),
         user_defined_types,
     )
+    cwl = resolve_imports(cwl, base_url)
     cwl = add_missing_requirements(cwl)
     return cwl
 
@@ -94,14 +95,19 @@ def listify_everything(cwl: dict[str, Any]) -> dict[str, Any]:
     )
 
     for _, v in enumerate(cwl["steps"]):
-        if isinstance(v, dict):
-            v["in"] = utils.normalize_to_list(
-                v.get("in", []), key_field="id", value_field="source"
-            )
+        if isinstance(v, dict) and "$import" not in v:
+            listify_step(v)
 
     return cwl
 
 
+def listify_step(step: dict[str, Any]) -> None:
+    """Convert the inputs of a step from their map to the list version."""
+    step["in"] = utils.normalize_to_list(
+        step.get("in", []), key_field="id", value_field="source"
+    )
+
+
 def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
     """Normalize the steps and output of a CWL Workflow."""
     if cwl.get("class") != "Workflow":
@@ -111,14 +117,7 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
         if not isinstance(_step, dict):
             continue
 
-        _inputs = _step.get("in", {})
-        for k, _input in enumerate(_inputs):
-            if isinstance(_input, str):
-                _inputs[k] = _normalize(_input)
-            elif isinstance(_input, dict):
-                _src = _input.get("source")
-                if isinstance(_src, str):
-                    _input["source"] = _normalize(_input["source"])
+        normalize_step_sources(_step)
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
@@ -132,6 +131,18 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
     return cwl
 
 
+def normalize_step_sources(step: dict[str, Any]) -> None:
+    """Normalize the sources of the inputs of a step."""
+    _inputs = step.get("in", {})
+    for k, _input in enumerate(_inputs):
+        if isinstance(_input, str):
+            _inputs[k] = _normalize(_input)
+        elif isinstance(_input, dict):
+            _src = _input.get("source")
+            if isinstance(_src, str):
+                _input["source"] = _normalize(_input["source"])
+
+
 def _normalize(s: str) -> str:
     if s.startswith("#"):
         return s[1:]
@@ -183,6 +194,8 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                     cwl[k], this_base_url = utils.load_linked_file(
                         base_url, v[_k], is_import=_k == "$import"
                     )
+                    cwl[k] = resolve_imports(cwl[k], this_base_url)
+                    continue
 
         cwl[k] = resolve_imports(cwl[k], base_url)
 
@@ -205,14 +218,24 @@ def resolve_steps(
     if cwl.get("class") != "Workflow":
         return cwl
 
-    for _, v in enumerate(cwl["steps"]):
+    for index, v in enumerate(cwl["steps"]):
         if isinstance(v, dict):
-            _logger.debug("Recursing into step %s:%s", base_url.geturl(), v["id"])
+            step_url = base_url
+            if "$import" in v:
+                v, step_url = utils.load_linked_file(
+                    base_url, v["$import"], is_import=True
+                )
+                listify_step(v)
+                normalize_step_sources(v)
+
+            _logger.debug("Recursing into step %s:%s", step_url.geturl(), v["id"])
 
             _run = v.get("run")
+            if isinstance(_run, dict) and "$import" in _run:
+                _run = _run["$import"]
             if isinstance(_run, str):
                 v["run"], new_base_url = utils.load_linked_file(
-                    base_url, _run, is_import=True
+                    step_url, _run, is_import=True
                 )
                 v["run"] = pack_process(
                     v["run"],
@@ -222,7 +245,7 @@ def resolve_steps(
             else:
                 v["run"] = pack_process(
                     v["run"],
-                    base_url,
+                    step_url,
                     cwl.get("cwlVersion", cwl_version),
                     parent_user_defined_types,
                 )
@@ -234,6 +257,7 @@ def resolve_steps(
                 if this_version > parent_version:
                     cwl["cwlVersion"] = v["run"]["cwlVersion"]
                     # not really enough, but hope for the best
+            cwl["steps"][index] = resolve_imports(v, step_url)
 
     return cwl
 
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..107c2f4 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -120,11 +120,12 @@ def inline_types(
     if (
         len(cwl[port]) == 1
         and isinstance(cwl[port][0], dict)
-        and cwl[port][0]["id"] == "$import"
+        and cwl[port][0].get("id") == "$import"
     ):
         defs, base_url = utils.load_linked_file(
             base_url, cwl[port][0]["type"], is_import=True
         )
+        defs = utils.normalize_to_list(defs, key_field="id", value_field="type")
     else:
         defs = cwl[port]
 
@@ -132,6 +133,13 @@ def inline_types(
     return cwl
 
 
+def _resolve_imports(value: Any, base_url: urllib.parse.ParseResult) -> Any:
+    """Load what a field of a parameter or type imports, relative to its own file."""
+    from cwl_utils import pack  # pylint: disable=cyclic-import
+
+    return pack.resolve_imports({"value": value}, base_url)["value"]
+
+
 _inline_type_name_uniq_id = 0
 _inline_type_names: set[str] = set()
 
@@ -196,6 +204,10 @@ def _inline_type(
             )
             return _inline_type(imported_type, import_base_url, user_defined_types)
 
+        for key, value in v.items():
+            if key not in ("type", "items", "fields"):
+                v[key] = _resolve_imports(value, base_url)
+
         _type = v.get("type")
         if _type is None:
             raise errors.MissingTypeName(
-- 
2.43.0


From 12f09216cb4e962a69e271d54fb8babb0a3012ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 42/75] fix: pack left '#' in lists of sources

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c1301d8..1054170 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -127,6 +127,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
             _src = _output.get("outputSource")
             if isinstance(_src, str):
                 _output["outputSource"] = _normalize(_output["outputSource"])
+            elif isinstance(_src, list):
+                _output["outputSource"] = [_normalize(_s) for _s in _src]
 
     return cwl
 
@@ -141,6 +143,8 @@ def normalize_step_sources(step: dict[str, Any]) -> None:
             _src = _input.get("source")
             if isinstance(_src, str):
                 _input["source"] = _normalize(_input["source"])
+            elif isinstance(_src, list):
+                _input["source"] = [_normalize(_s) for _s in _src]
 
 
 def _normalize(s: str) -> str:
-- 
2.43.0


From aa4dc81c99ac662ad9c2f8bc41ed8599f9223212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 43/75] fix: map entries that are one YAML node were given the
 same name

---
 src/cwl_utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 1fb96db..c7bbaeb 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -161,6 +161,8 @@ def normalize_to_list(
                 if value_field is None:
                     raise RuntimeError(f"Expecting a dict here, got {v}")
                 v = {value_field: v}
+            # a copy, as one YAML node can be the value of several keys
+            v = deepcopy(v)
             v.update({key_field: k})
             map_list += [v]
         return map_list
-- 
2.43.0


From 8b738608785a146e672db3fef874a153af13cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 44/75] fix: names of types in a packed document depended on
 what was packed before

---
 src/cwl_utils/pack.py      | 1 +
 src/cwl_utils/schemadef.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 1054170..c472136 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -304,6 +304,7 @@ def pack(cwl_path: str) -> dict[str, Any]:
     if "$graph" in cwl:
         # assume already packed
         return cwl
+    schemadef.reset_type_names()
     cwl = pack_process(cwl, full_url, cwl["cwlVersion"])
 
     return cwl
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 107c2f4..009a32b 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -144,6 +144,13 @@ _inline_type_name_uniq_id = 0
 _inline_type_names: set[str] = set()
 
 
+def reset_type_names() -> None:
+    """Forget the names given to inlined types: they are unique in one document."""
+    global _inline_type_name_uniq_id
+    _inline_type_name_uniq_id = 0
+    _inline_type_names.clear()
+
+
 def _inline_type(
     v: Any, base_url: urllib.parse.ParseResult, user_defined_types: dict[str, Any]
 ) -> Any:
-- 
2.43.0


From 20ae1b1ccb8e21fcc59122fdb6bb82e444aecc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 45/75] fix: pack left '#' in the sources of imported outputs

---
 src/cwl_utils/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c472136..740b931 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -57,9 +57,9 @@ def pack_process(
     parent_user_defined_types: dict[str, Any] | None = None,
 ) -> dict[str, Any]:
     cwl = listify_everything(cwl)
-    cwl = normalize_sources(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
+    cwl = normalize_sources(cwl)  # of imported outputs too
     # steps first, as what they import is relative to the file that they are in
     cwl = resolve_steps(
         cwl,
-- 
2.43.0


From 75b6f94205a722e0fc383e9036a832bed292af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 46/75] fix: pack looked up types by the spelling of their
 references

---
 src/cwl_utils/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index c7bbaeb..b2c8a55 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -201,9 +201,14 @@ def resolved_path(
             if link == "":
                 return base_url
             else:
-                return urllib.parse.urlparse(
+                url = urllib.parse.urlparse(
                     urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
                 )
+                if url.scheme == "file":
+                    # one spelling, as types are looked up by URL
+                    path = urllib.parse.quote(urllib.parse.unquote(url.path))
+                    url = url._replace(path=path)
+                return url
         else:
             # Remote relative path
             return urllib.parse.urlparse(
-- 
2.43.0


From 632cd8cccf3304548e6fbda1c02bdd0a4dc6d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 47/75] fix: packed v1.0 document had names on output records,
 which v1.0 does not allow

---
 src/cwl_utils/pack.py      |  5 +++++
 src/cwl_utils/schemadef.py | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 740b931..355b3c6 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -59,6 +59,11 @@ def pack_process(
     cwl = listify_everything(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
+    if cwl.get("cwlVersion", cwl_version) == "v1.0" and (
+        cwl.get("class") != "CommandLineTool"
+    ):
+        # these have no names in CWL v1.0
+        cwl["outputs"] = schemadef.without_record_names(cwl["outputs"])
     cwl = normalize_sources(cwl)  # of imported outputs too
     # steps first, as what they import is relative to the file that they are in
     cwl = resolve_steps(
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 009a32b..e0299f8 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -144,6 +144,21 @@ _inline_type_name_uniq_id = 0
 _inline_type_names: set[str] = set()
 
 
+def without_record_names(v: Any) -> Any:
+    """Remove the names of the record types of parameters."""
+    if isinstance(v, list):
+        return [without_record_names(_v) for _v in v]
+    if isinstance(v, dict):
+        return {
+            key: (
+                without_record_names(_v) if key in ("type", "items", "fields") else _v
+            )
+            for key, _v in v.items()
+            if not (key == "name" and v.get("type") == "record" and "fields" in v)
+        }
+    return v
+
+
 def reset_type_names() -> None:
     """Forget the names given to inlined types: they are unique in one document."""
     global _inline_type_name_uniq_id
-- 
2.43.0


From 0c8492fad412798c4bf3db417b900fc9b65b054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 48/75] fix: dates in packed documents were not kept as text

---
 src/cwl_utils/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index b2c8a55..c6e7373 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -15,6 +15,7 @@ from io import StringIO
 from typing import Any
 from urllib.parse import urlparse
 
+from ruamel.yaml.constructor import SafeConstructor
 from ruamel.yaml.main import YAML
 from ruamel.yaml.parser import ParserError
 from ruamel.yaml.scanner import ScannerError
@@ -29,7 +30,17 @@ from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
 from cwl_utils.parser.cwl_v1_2 import InputArraySchema as InputArraySchemaV1_2
 from cwl_utils.parser.cwl_v1_2 import InputEnumSchema as InputEnumSchemaV1_2
 
+
+class _NoTimestampConstructor(SafeConstructor):
+    """Load dates as strings, as CWL documents have no others."""
+
+
+_NoTimestampConstructor.add_constructor(
+    "tag:yaml.org,2002:timestamp", SafeConstructor.construct_yaml_str
+)
+
 fast_yaml = YAML(typ="safe")
+fast_yaml.Constructor = _NoTimestampConstructor
 
 _USERNS: bool | None = None
 
-- 
2.43.0


From 7d6a4099b0484f95c4018d4f6fbcf0458bd24dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 49/75] fix: pack refused requirements that are imported as a
 whole

---
 src/cwl_utils/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 355b3c6..d949de3 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -56,6 +56,9 @@ def pack_process(
     cwl_version: str,
     parent_user_defined_types: dict[str, Any] | None = None,
 ) -> dict[str, Any]:
+    requirements = cwl.get("requirements")
+    if isinstance(requirements, dict) and "$import" in requirements:
+        cwl["requirements"] = resolve_imports([requirements], base_url)[0]
     cwl = listify_everything(cwl)
     cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
     cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
-- 
2.43.0


From c19f720d0fc96362b50f663bc9b01eefda27c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 50/75] fix: splitting a graph confused ids and lost or broke
 type definitions

---
 src/cwl_utils/graph_split.py | 374 +++++++++++++++++++++++------------
 1 file changed, 243 insertions(+), 131 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..bf0cd9c 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -9,11 +9,13 @@ Only tested with a single v1.0 workflow.
 """
 
 import argparse
+import copy
 import json
 import logging
 import os
 import re
 import sys
+import urllib.parse
 from collections.abc import MutableMapping
 from io import TextIOWrapper
 from pathlib import Path
@@ -21,7 +23,7 @@ from typing import (
     IO,
     Any,
     Callable,
-    cast,
+    NamedTuple,
 )
 
 try:
@@ -31,7 +33,8 @@ except ImportError:
     stringify_dict = None
 from ruamel.yaml.main import YAML
 from ruamel.yaml.representer import RoundTripRepresenter
-from schema_salad.sourceline import SourceLine, add_lc_filename
+from schema_salad.sourceline import add_lc_filename
+from schema_salad.utils import yaml_no_ts
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 
@@ -106,7 +109,7 @@ def graph_split(
     pretty: bool,
 ) -> None:
     """Loop over the provided packed CWL document and split it up."""
-    yaml = YAML(typ="rt")
+    yaml = yaml_no_ts()
     yaml.preserve_quotes = True
     source = yaml.load(sourceIO)
     add_lc_filename(source, sourceIO.name)
@@ -132,152 +135,261 @@ def graph_split(
 
     RoundTripRepresenter.add_representer(type(None), my_represent_none)
 
+    outputs: dict[str, Any] = {}
+
+    def add_output(name: str, content: Any) -> None:
+        if name in outputs:
+            raise ValueError(f"Several parts of the graph would be written to {name}.")
+        outputs[name] = content
+
+    source["$graph"] = without_aliases(source["$graph"], set())
+    # the types that are to be defined in files of their own, by file and name
+    types: dict[str, dict[str, Any]] = {}
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
-        if imports:
-            for import_name in imports:
-                rewrite_types(entry, f"#{import_name}", False)
+        for directive in ("$namespaces", "$schemas"):
+            if directive in source:
+                entry.setdefault(directive, source[directive])
+        rewrite_process(entry, Scope(f"#{entry_id}", entry_id, version, types))
         if entry_id == "main":
             if mainfile is None:
                 entry_id = f"unpacked_{os.path.basename(sourceIO.name)}"
             else:
                 entry_id = mainfile
+        add_output(cwl_filename(entry_id), entry)
+    for name, definitions in types.items():
+        add_output(name, list(definitions.values()))
 
-        output_file = output_dir / (re.sub(".cwl$", "", entry_id) + ".cwl")
+    for name, content in outputs.items():
+        output_file = output_dir / name
         if output_format == "json":
-            json_dump(entry, output_file)
+            json_dump(content, output_file)
         elif output_format == "yaml":
             with output_file.open("w", encoding="utf-8") as output_handle:
-                yaml_dump(entry, output_handle, pretty)
-
-
-def rewrite_id(entry: Any, this_id: str | None) -> MutableMapping[Any, Any] | str:
-    if isinstance(entry, MutableMapping):
-        if entry["id"].startswith(this_id):
-            assert isinstance(this_id, str)  # nosec B101
-            entry["id"] = cast(str, entry["id"])[len(this_id) + 1 :]
-        return entry
-    elif isinstance(entry, str):
-        if this_id and entry.startswith(this_id):
-            return entry[len(this_id) + 1 :]
-        return entry
-    raise Exception(f"{entry} is neither a dictionary nor string.")
-
-
-def rewrite(
-    document: Any, doc_id: str, output_dir: Path, pretty: bool = False
-) -> set[str]:
-    """Rewrite the given element from the CWL $graph."""
-    imports = set()
-    if isinstance(document, list) and not isinstance(document, str):
-        for entry in document:
-            imports.update(rewrite(entry, doc_id, output_dir, pretty))
-    elif isinstance(document, dict):
-        this_id = document["id"] if "id" in document else None
-        for key, value in document.items():
-            with SourceLine(document, key, Exception):
-                match key:
-                    case "run" if isinstance(value, str) and value[0] == "#":
-                        document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
-                        document[key] = value[len(doc_id) + 2 :]
-                    case "out" if isinstance(value, list):
-                        document[key][:] = [
-                            rewrite_id(entry, this_id) for entry in value
-                        ]
-                    case "source" | "scatter" | "items" | "format":
-                        if (
-                            isinstance(value, str)
-                            and value.startswith("#")
-                            and "/" in value
-                        ):
-                            referrant_file, sub = value[1:].split("/", 1)
-                            if referrant_file == doc_id:
-                                document[key] = sub
-                            else:
-                                document[key] = f"{referrant_file}#{sub}"
-                        elif isinstance(value, list):
-                            new_sources = []
-                            for entry in value:
-                                if entry.startswith("#" + doc_id):
-                                    new_sources.append(entry[len(doc_id) + 2 :])
-                                else:
-                                    new_sources.append(entry)
-                            document[key] = new_sources
-                    case "$import":
-                        rewrite_import(document)
-                    case "class" if value == "SchemaDefRequirement":
-                        return rewrite_schemadef(document, output_dir, pretty)
-                    case _:
-                        imports.update(rewrite(value, doc_id, output_dir, pretty))
-    return imports
-
-
-def rewrite_import(document: MutableMapping[str, Any]) -> None:
+                yaml_dump(content, output_handle, pretty)
+
+
+def without_aliases(node: Any, seen: set[int]) -> Any:
+    """Copy what occurs repeatedly, as it means something else in each place."""
+    if isinstance(node, (dict, list)):
+        if id(node) in seen:
+            node = copy.copy(node)
+        seen.add(id(node))
+        keys = list(node) if isinstance(node, dict) else range(len(node))
+        for key in keys:
+            node[key] = without_aliases(node[key], seen)
+    return node
+
+
+def cwl_filename(process_id: str) -> str:
+    """Give the name of the file for a process."""
+    return re.sub(r"\.cwl$", "", process_id) + ".cwl"
+
+
+class Scope(NamedTuple):
+    """What the identifiers of a part of a process are relative to."""
+
+    id: str
+    """The absolute identifier of that part, with the leading '#'."""
+    doc_id: str
+    """The identifier of the entry of the graph."""
+    version: str
+    types: dict[str, dict[str, Any]]
+    embedded: bool = False
+
+    def enter(self, name: str) -> "Scope":
+        """Give the scope of a contained part, by its relative or absolute identifier."""
+        if name.startswith("#"):
+            return self._replace(id=name)
+        return self._replace(id=f"{self.id}/{name}")
+
+    def relative(self, identifier: str) -> str:
+        """Rewrite the identifier of a contained part."""
+        if identifier.startswith(f"{self.id}/"):
+            return identifier[len(self.id) + 1 :]
+        if identifier.startswith(f"#{self.doc_id}/"):
+            return f"#{identifier[len(self.doc_id) + 2 :]}"
+        return identifier
+
+    def reference(self, value: Any) -> Any:
+        """Rewrite references to parameters of the process."""
+        if isinstance(value, list):
+            for index, entry in enumerate(value):
+                value[index] = self.reference(entry)
+            return value
+        if isinstance(value, str) and value.startswith(f"#{self.doc_id}/"):
+            name = value[len(self.doc_id) + 2 :]
+            # within an embedded process that name could be of another thing
+            return f"#{name}" if self.embedded else name
+        return value
+
+    def type_reference(self, value: str) -> str:
+        """Rewrite the name of a type."""
+        if not value.startswith("#") or "/" not in value:
+            return value
+        file, name = value[1:].split("/", 1)
+        if file == self.doc_id:
+            return f"#{name}"
+        return f"{urllib.parse.quote(file)}#{name}"
+
+
+def rewrite_entries(
+    section: Any,
+    key: str,
+    scope: Scope,
+    rewrite: Callable[[Any, Scope], Any],
+) -> None:
+    """Rewrite the entries of a section, which are in a list or in a map by identifier."""
+    if isinstance(section, list):
+        for index, entry in enumerate(section):
+            inner = scope
+            if isinstance(entry, dict) and isinstance(entry.get(key), str):
+                inner = scope.enter(entry[key])
+                entry[key] = scope.relative(entry[key])
+            section[index] = rewrite(entry, inner)
+    elif isinstance(section, dict):
+        for name, entry in section.items():
+            section[name] = rewrite(entry, scope.enter(name))
+
+
+def rewrite_process(process: Any, scope: Scope) -> Any:
+    """Rewrite the identifiers and references in a process of the CWL $graph."""
+    for port in ("inputs", "outputs"):
+        rewrite_entries(process.get(port), "id", scope, rewrite_parameter)
+    rewrite_requirements(process, scope)
+    rewrite_entries(process.get("steps"), "id", scope, rewrite_step)
+    return process
+
+
+def rewrite_parameter(entry: Any, scope: Scope) -> Any:
+    """Rewrite an input or output of a process, or its abbreviation to a type."""
+    if not isinstance(entry, dict):
+        return rewrite_type(entry, scope)
+    if "$import" in entry:
+        return rewrite_import(entry)
+    if "type" in entry:
+        entry["type"] = rewrite_type(entry["type"], scope)
+    if "outputSource" in entry:
+        entry["outputSource"] = scope.reference(entry["outputSource"])
+    rewrite_format(entry, scope)
+    return entry
+
+
+def rewrite_format(entry: MutableMapping[str, Any], scope: Scope) -> None:
+    """Rewrite the formats that are relative to the graph."""
+    value = entry.get("format")
+    if isinstance(value, str):
+        entry["format"] = scope.type_reference(value)
+    elif isinstance(value, list):
+        entry["format"][:] = [
+            scope.type_reference(item) if isinstance(item, str) else item
+            for item in value
+        ]
+
+
+def rewrite_step(step: Any, scope: Scope) -> Any:
+    """Rewrite a step of a workflow."""
+    rewrite_entries(step.get("in"), "id", scope, rewrite_step_input)
+    for index, entry in enumerate(step.get("out", [])):
+        if isinstance(entry, dict):
+            entry["id"] = scope.relative(entry["id"])
+        else:
+            step["out"][index] = scope.relative(entry)
+    if "scatter" in step:
+        value = step["scatter"]
+        if isinstance(value, list):
+            value[:] = [scope.relative(entry) for entry in value]
+        else:
+            step["scatter"] = scope.relative(value)
+    rewrite_requirements(step, scope)
+    run = step.get("run")
+    if isinstance(run, str):
+        if run.startswith("#"):
+            step["run"] = urllib.parse.quote(cwl_filename(run[1:]))
+    elif isinstance(run, dict):
+        inner = scope if scope.version == "v1.0" else scope.enter("run")
+        if isinstance(run.get("id"), str):
+            run_id = run["id"]
+            run["id"] = inner.relative(run_id)
+            inner = inner.enter(run_id)
+        rewrite_process(run, inner._replace(embedded=True))
+    return step
+
+
+def rewrite_step_input(entry: Any, scope: Scope) -> Any:
+    """Rewrite an input of a step, or its abbreviation to a source."""
+    if not isinstance(entry, dict):
+        return scope.reference(entry)
+    if "source" in entry:
+        entry["source"] = scope.reference(entry["source"])
+    return entry
+
+
+def rewrite_requirements(document: Any, scope: Scope) -> None:
+    """Rewrite the type definitions of a process or step."""
+    for field in ("requirements", "hints"):
+        section = document.get(field)
+        if isinstance(section, dict):
+            if "SchemaDefRequirement" in section:
+                rewrite_schemadef(section["SchemaDefRequirement"], scope)
+        elif isinstance(section, list):
+            for entry in section:
+                if entry.get("class") == "SchemaDefRequirement":
+                    rewrite_schemadef(entry, scope)
+
+
+def rewrite_import(document: MutableMapping[str, Any]) -> MutableMapping[str, Any]:
     """Adjust the $import directive."""
     external_file = document["$import"].split("/")[0].lstrip("#")
-    document["$import"] = external_file
-
-
-def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
-    """Clean up the names of the types."""
-    if isinstance(field, list) and not isinstance(field, str):
-        for entry in field:
-            rewrite_types(entry, entry_file, sameself)
-        return
-    if isinstance(field, dict):
-        for key, value in field.items():
-            for name in ("type", "items"):
-                if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
-                            )
-            if isinstance(value, dict):
-                rewrite_types(value, entry_file, sameself)
-            if isinstance(value, list) and not isinstance(value, str):
-                for entry in value:
-                    rewrite_types(entry, entry_file, sameself)
-
-
-def rewrite_schemadef(
-    document: MutableMapping[str, Any], output_dir: Path, pretty: bool = False
-) -> set[str]:
-    """Dump the schemadefs to their own file."""
+    document["$import"] = urllib.parse.quote(external_file)
+    return document
+
+
+def rewrite_type(value: Any, scope: Scope) -> Any:
+    """Rewrite the names in a type."""
+    if isinstance(value, str):
+        return scope.type_reference(value)
+    if isinstance(value, list):
+        value[:] = [rewrite_type(entry, scope) for entry in value]
+    elif isinstance(value, dict):
+        if "$import" in value:
+            return rewrite_import(value)
+        if isinstance(value.get("name"), str):
+            name = value["name"]
+            value["name"] = scope.relative(name)
+            scope = scope.enter(name)
+        for key in ("type", "items"):
+            if key in value:
+                value[key] = rewrite_type(value[key], scope)
+        rewrite_entries(value.get("fields"), "name", scope, rewrite_parameter)
+        if "symbols" in value:
+            value["symbols"][:] = [scope.relative(entry) for entry in value["symbols"]]
+    return value
+
+
+def rewrite_schemadef(document: MutableMapping[str, Any], scope: Scope) -> None:
+    """Move the types that are defined in other files to those."""
+    types = []
+    seen_imports = set()
     for entry in document["types"]:
         if "$import" in entry:
             rewrite_import(entry)
-        elif "name" in entry and "/" in entry["name"]:
-            entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
-            for field in entry.get("fields", []):
-                field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
-            with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
-            entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
-    seen_imports = set()
-
-    def seen_import(entry: MutableMapping[str, Any]) -> bool:
+        elif entry["name"].startswith("#") and "/" in entry["name"]:
+            entry_file, name = entry["name"][1:].split("/", 1)
+            if entry_file != scope.doc_id:
+                definitions = scope.types.setdefault(entry_file, {})
+                file_scope = scope._replace(id=f"#{entry_file}", doc_id=entry_file)
+                definitions.setdefault(name, rewrite_type(entry, file_scope))
+                entry = {"$import": urllib.parse.quote(entry_file)}
         if "$import" in entry:
-            external_file = entry["$import"]
-            if external_file not in seen_imports:
-                seen_imports.add(external_file)
-                return True
-            return False
-        return True
-
-    types = document["types"]
-    document["types"][:] = [entry for entry in types if seen_import(entry)]
-    return seen_imports
+            if entry["$import"] in seen_imports:
+                continue
+            seen_imports.add(entry["$import"])
+        else:
+            rewrite_type(entry, scope)
+        types.append(entry)
+    document["types"][:] = types
 
 
 def json_dump(entry: Any, output_file: Path) -> None:
-- 
2.43.0


From 40a718d0fd155c47122bfc3b34ead4b0f0753ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 51/75] fix: input schemas refused valid jobs, accepted invalid
 ones or were not generated

Overlapping types in a union or an Any value were refused by oneOf, longs could
be fractional, inline records had no required fields and refused null, named
arrays and enums, types with similar names and documentation in several lines
were not supported, nor were relative paths on the command line.
---
 src/cwl_utils/inputs_schema_gen.py | 350 ++++++++++++++---------------
 1 file changed, 165 insertions(+), 185 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..10f4e9c 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -8,13 +8,16 @@
 import argparse
 import json
 import logging
+import re
 import sys
-from contextlib import suppress
+from collections.abc import Iterable, Iterator
 from copy import deepcopy
 from importlib.resources import files
+from itertools import chain
 from pathlib import Path
-from typing import Any, TypeGuard
-from urllib.parse import urlparse
+from typing import Any
+from urllib.parse import unquote, urlparse
+from urllib.request import url2pathname
 
 import requests
 
@@ -24,9 +27,12 @@ from cwl_utils.parser import (
     Directory,
     File,
     InputArraySchema,
+    InputArraySchemaTypes,
     InputEnumSchema,
+    InputEnumSchemaTypes,
     InputRecordSchema,
     InputRecordSchemaTypes,
+    InputSchema,
     Workflow,
     WorkflowInputParameter,
     cwl_v1_0,
@@ -38,7 +44,6 @@ from cwl_utils.utils import (
     get_value_from_uri,
     is_local_uri,
     is_uri,
-    sanitise_schema_field,
     to_pascal_case,
 )
 
@@ -56,7 +61,7 @@ PRIMITIVE_TYPES_MAPPING = {
     "string": "string",
     "int": "integer",
     "float": "number",
-    "long": "number",
+    "long": "integer",
     "double": "number",
     "null": "null",
 }
@@ -79,13 +84,20 @@ class JSONSchemaProperty:
         type_: InputType | list[InputType] | str | Any,
         description: str | None = "",
         required: bool | None = False,
+        definition_names: dict[str, str] | None = None,
     ):
-        """Initialise the JSONSchemaProperty object."""
+        """
+        Initialise the JSONSchemaProperty object.
+
+        :param definition_names: the names of the definitions of the named types,
+          by the unquoted URIs of the types; by default the names of the types in PascalCase.
+        """
         # Initialise values
         self.name: str = name
         self.type_: InputType | list[InputType] | str | Any = type_
         self.description = description
         self.required = required
+        self.definition_names = definition_names or {}
         self.type_dict = self.generate_type_dict()
 
     def generate_type_dict(self) -> dict[str, Any]:
@@ -93,7 +105,9 @@ class JSONSchemaProperty:
         # If the type is a list and contains null, then the property is not required
         if isinstance(self.type_, list) and "null" in self.type_:
             self.required = False
-            self.type_ = list(filter(lambda type_item: type_item != "null", self.type_))
+            self.type_ = list(
+                filter(lambda type_item: type_item != "null", self.type_)
+            ) or ["null"]
 
             # Check if we're down to one item, we can then squeeze
             if len(self.type_) == 1:
@@ -101,7 +115,7 @@ class JSONSchemaProperty:
 
         # type_ is still a list therefore we offer multiple input types for this parameter
         if isinstance(self.type_, list):
-            # We use the oneOf keyword to specify multiple types
+            # We use the anyOf keyword to specify multiple types
             type_dict = self.generate_type_dict_from_type_list(self.type_)
         # type_ is a single type
         else:
@@ -117,7 +131,7 @@ class JSONSchemaProperty:
         Generate the type dict for a property from a CWL input parameter type.
 
         We call this function for each type in the :py:attr:`type_` list
-        In the case there are multiple types, each dict is added to the oneOf list
+        In the case there are multiple types, each dict is added to the anyOf list
         """
         # Primitive types should have a 1-1 mapping
         # Between an CWL Input Parameter type and a JSON schema type
@@ -131,9 +145,7 @@ class JSONSchemaProperty:
                 return {"$ref": f"#/definitions/{type_item}"}
             # When item is a record schema type
             case str() if is_uri(type_item):
-                return {
-                    "$ref": f"#/definitions/{to_pascal_case(get_value_from_uri(type_item))}"
-                }
+                return self.reference(type_item)
             case str():
                 raise ValueError(f"Unknown type: {type_item}")
             case (
@@ -168,15 +180,7 @@ class JSONSchemaProperty:
                     case None:
                         return {"type": "object"}
                     case list(fields):
-                        return {
-                            "type": "object",
-                            "properties": {
-                                get_value_from_uri(
-                                    prop.name
-                                ): self.generate_type_dict_from_type(prop.type_)
-                                for prop in fields
-                            },
-                        }
+                        return self.generate_type_dict_from_fields(fields)
                     case _:
                         _cwlutilslogger.error(
                             "Expected fields of InputRecordSchemaType to be a list"
@@ -184,32 +188,23 @@ class JSONSchemaProperty:
                         raise TypeError
             case {"$import": uri}:
                 # This path is a relative path to import
-                return {
-                    "$ref": f"#/definitions/{to_pascal_case(get_value_from_uri(uri))}"
-                }
+                return self.reference(uri)
             # Nested import
             # {'$import': '../relative/path/to/schema'}
             case dict():
                 raise ValueError(f"Unknown type: {type_item}")
             case list():
                 # Nested schema
-                return {
-                    "oneOf": list(
-                        map(
-                            self.generate_type_dict_from_type,
-                            type_item,
-                        )
-                    )
-                }
+                return self.generate_type_dict_from_type_list(type_item)
             case _:
                 raise ValueError(f"Unknown type: {type_item}")
 
     def generate_type_dict_from_type_list(
         self, type_: list[InputType]
     ) -> dict[str, Any]:
-        """Given a list of types, generate a JSON schema property dict wrapped in oneOf list."""
+        """Given a list of types, generate a JSON schema property dict wrapped in anyOf list."""
         return {
-            "oneOf": list(
+            "anyOf": list(
                 map(
                     self.generate_type_dict_from_type,
                     type_,
@@ -217,32 +212,74 @@ class JSONSchemaProperty:
             )
         }
 
+    def generate_type_dict_from_fields(self, fields: list[Any]) -> dict[str, Any]:
+        """Given the fields of a record, generate the JSON schema dict of the record."""
+        properties = [
+            JSONSchemaProperty(
+                name=get_value_from_uri(field.name),
+                type_=field.type_,
+                description=get_description(field),
+                required=not is_optional(field.type_),
+                definition_names=self.definition_names,
+            )
+            for field in fields
+        ]
+        return {
+            "type": "object",
+            "properties": {prop.name: prop.to_schema() for prop in properties},
+            "required": [prop.name for prop in properties if prop.required],
+        }
+
+    def reference(self, uri: str) -> dict[str, Any]:
+        """Refer to the definition of the named type."""
+        name = self.definition_names.get(
+            unquote(uri), to_pascal_case(get_value_from_uri(uri))
+        )
+        return {"$ref": f"#/definitions/{name}"}
+
+    def to_schema(self) -> dict[str, Any]:
+        """Return the JSON schema of the values: null too when there need not be one."""
+        if self.required is False:
+            return {"anyOf": [{"type": "null"}, self.type_dict]}
+        return self.type_dict
+
     def to_dict(self) -> dict[str, Any]:
         """Return as a dictionary."""
         return {self.name: self.type_dict}
 
 
+def get_description(parameter: Any) -> str:
+    """Get the documentation of a parameter or field as a single text."""
+    match parameter.doc:
+        case None:
+            return ""
+        case str(doc):
+            return doc
+        case doc:
+            return "\n".join(doc)
+
+
+def is_optional(type_: Any) -> bool:
+    """Tell whether null is a value of the type."""
+    match type_:
+        case str():
+            return type_ == "null" or type_.endswith("?")
+        case list():
+            return any(map(is_optional, type_))
+        case _:
+            return False
+
+
 def get_is_required_from_input_parameter(
     input_parameter: WorkflowInputParameter,
 ) -> bool:
     """Given an input parameter, return if it is required."""
-    if isinstance(input_parameter.type_, str) and input_parameter.type_.endswith("?"):
-        return False
-    if input_parameter.default is not None:
-        return False
-    if isinstance(input_parameter.type_, list) and "null" in input_parameter.type_:
-        return False
-    if isinstance(input_parameter.type_, InputRecordSchemaTypes):
-        if input_parameter.type_ is not None:
-            if (isinstance(input_parameter.type_.type_, str)) and (
-                input_parameter.type_.type_.endswith("?")
-            ):
-                return False
-    return True
+    return input_parameter.default is None and not is_optional(input_parameter.type_)
 
 
 def generate_json_schema_property_from_input_parameter(
     input_parameter: WorkflowInputParameter,
+    definition_names: dict[str, str] | None = None,
 ) -> JSONSchemaProperty:
     """
     Given an input parameter, generate a JSON schema property.
@@ -252,76 +289,83 @@ def generate_json_schema_property_from_input_parameter(
     """
     # Get the input name and documentation for description
     input_name = get_value_from_uri(str(input_parameter.id))
-    doc = input_parameter.doc
     required = get_is_required_from_input_parameter(input_parameter)
 
     return JSONSchemaProperty(
         name=input_name,
         type_=input_parameter.type_,
-        description=doc if doc is not None else "",
+        description=get_description(input_parameter),
         required=required,
+        definition_names=definition_names,
     )
 
 
-def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]:
+def get_named_types(type_: Any) -> Iterator[InputSchema]:
+    """Find the named types among a type and those it is made of."""
+    match type_:
+        case list():
+            for item in type_:
+                yield from get_named_types(item)
+        case schema if isinstance(
+            schema,
+            InputArraySchemaTypes + InputEnumSchemaTypes + InputRecordSchemaTypes,
+        ):
+            if not (getattr(schema, "name", None) or "_:").startswith("_:"):
+                yield schema
+            if isinstance(schema, InputArraySchemaTypes):
+                yield from get_named_types(schema.items)
+            elif isinstance(schema, InputRecordSchemaTypes):
+                for field in schema.fields or []:
+                    yield from get_named_types(field.type_)
+
+
+def get_definition_names(
+    schemas: list[InputSchema], reserved: Iterable[str]
+) -> dict[str, str]:
+    """
+    Choose the names of the definitions: each type has one of its own.
+
+    :param schemas: the named types
+    :param reserved: the names that no type can have
+    :return: the names of the definitions by the URIs of the types, unquoted
+    """
+    names: dict[str, str] = {}
+    taken = set(reserved)
+    for schema in schemas:
+        uri = unquote(str(schema.name))
+        if uri in names:
+            continue
+        # The characters that have a meaning in a JSON pointer or URI are not used
+        name = base = re.sub(
+            r"[^\w.-]", "_", to_pascal_case(get_value_from_uri(uri)), flags=re.ASCII
+        )
+        suffix = 1
+        while name in taken:
+            suffix += 1
+            name = f"{base}{suffix}"
+        taken.add(name)
+        names[uri] = name
+    return names
+
+
+def generate_definition_from_schema(
+    schema: InputSchema, definition_names: dict[str, str] | None = None
+) -> dict[str, Any]:
     """
     Given a schema, generate a JSON schema definition.
 
     :param schema:
+    :param definition_names: see :py:class:`JSONSchemaProperty`
     :return:
     """
-    # Sanitise each field of the schema
-    sanitised_fields = {}
-
-    if schema.fields is None:
-        return {}
-
-    for field in schema.fields:
-        sanitised_fields.update(
-            {
-                get_value_from_uri(field.name): sanitise_schema_field(
-                    {"type": field.type_}
-                )
-            }
-        )
-
-    # Generate JSON properties
-    property_list = []
-
-    for prop_name, prop_obj in sanitised_fields.items():
-        # Simplify type first by removing nulls
-        required = True
-
-        # If the property object is a string, then it's a reference to another schema
-        if isinstance(prop_obj, str):
-            raise TypeError("Property Object should be a dictionary")
-
-        if isinstance(prop_obj.get("type", []), list):
-            if "null" in prop_obj.get("type", []):
-                required = False
-            prop_obj["type"] = list(
-                filter(lambda type_item: type_item != "null", prop_obj.get("type", []))
-            )
-
-            # Check if we're down to one item
-            if len(prop_obj["type"]) == 1:
-                prop_obj["type"] = prop_obj["type"][0]
-
-        # Generate JSONSchema Property
-        prop = JSONSchemaProperty(
-            name=prop_name,
-            type_=prop_obj.get("type"),
-            description=prop_obj.get("doc", ""),
-            required=required,
-        )
-        property_list.append(prop)
-
+    uri = str(schema.name)
+    name = (definition_names or {}).get(
+        unquote(uri), to_pascal_case(get_value_from_uri(uri))
+    )
     return {
-        to_pascal_case(get_value_from_uri(str(schema.name))): {
-            "type": "object",
-            "properties": {prop.name: prop.type_dict for prop in property_list},
-            "required": [prop.name for prop in property_list if prop.required],
-        }
+        name: JSONSchemaProperty(
+            name=name, type_=schema, definition_names=definition_names
+        ).type_dict
     }
 
 
@@ -346,79 +390,20 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     ):
         input_json_schema = json.load(template_h)
 
-    # Get the complex schema keys
-    def is_complex_record_schema_key(idx_iter: str) -> TypeGuard[bool]:
-        if cwl_obj.loadingOptions.idx is None:
-            return False
-
-        if cwl_obj.loadingOptions.idx.get(idx_iter) is None:
-            return False
-
-        if not isinstance(cwl_obj.loadingOptions.idx.get(idx_iter), tuple):
-            return False
-
-        # Get index as a tuple
-        input_schema_type, _ = cwl_obj.loadingOptions.idx.get(idx_iter, (None, None))
-
-        if isinstance(input_schema_type, InputRecordSchemaTypes):
-            return True
-        return False
-
-    complex_schema_keys: list[str] = list(
-        filter(
-            is_complex_record_schema_key,
-            cwl_obj.loadingOptions.idx.keys(),
-        )
-    )
-
-    # Complex schema values
-    def get_complex_schema_values(idx_iter: str) -> InputRecordSchema:
-        if not isinstance(cwl_obj.loadingOptions.idx.get(idx_iter), tuple):
-            raise TypeError(f"Expected tuple from idx loading options key {idx_iter}")
-
-        # Collect input record schema
-        input_record_schema, _ = cwl_obj.loadingOptions.idx.get(idx_iter, (None, None))
-
-        if not isinstance(input_record_schema, InputRecordSchemaTypes):
-            raise TypeError(
-                f"Expected InputRecordSchemaTypes from idx loading options key {idx_iter}"
-            )
-
-        return input_record_schema
-
-    complex_schema_values: list[InputRecordSchema] = list(
-        map(
-            get_complex_schema_values,
-            complex_schema_keys,
-        )
-    )
-
-    # Load in all $imports to be referred by complex input types
-    workflow_schema_definitions_list = list(
-        map(
-            generate_definition_from_schema,
-            complex_schema_values,
-        )
-    )
-
-    if cwl_obj.requirements is not None:
-        with suppress(StopIteration):
-            schema_def_requirement = next(
-                filter(
-                    lambda requirement_iter: requirement_iter.class_
-                    == "SchemaDefRequirement",
-                    cwl_obj.requirements,
-                )
-            )
-
-            workflow_schema_definitions_list.extend(
-                list(
-                    map(
-                        generate_definition_from_schema,
-                        schema_def_requirement.types,
-                    )
-                )
-            )
+    # Collect the named types to be referred by complex input types:
+    # those of the documents that were loaded, and those of the requirements
+    schemas: list[InputSchema] = []
+    for entry in (cwl_obj.loadingOptions.idx or {}).values():
+        if isinstance(entry, tuple):
+            schemas.extend(get_named_types(entry[0]))
+    for requirement in chain(cwl_obj.requirements or [], cwl_obj.hints or []):
+        if getattr(requirement, "class_", None) == "SchemaDefRequirement":
+            schemas.extend(get_named_types(requirement.types))
+
+    definition_names = get_definition_names(schemas, input_json_schema["definitions"])
+    workflow_schema_definitions_list = [
+        generate_definition_from_schema(schema, definition_names) for schema in schemas
+    ]
 
     # Convert schema definitions to dict
     workflow_schema_definitions_dict = {}
@@ -428,7 +413,9 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     # Generate JSON Schema Properties
     properties = list(
         map(
-            generate_json_schema_property_from_input_parameter,
+            lambda input_parameter: generate_json_schema_property_from_input_parameter(
+                input_parameter, definition_names
+            ),
             cwl_obj.inputs,
         )
     )
@@ -437,14 +424,7 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     input_json_schema.update(
         {
             "type": "object",
-            "properties": {
-                prop.name: (
-                    {"oneOf": [{"type": "null"}, prop.type_dict]}
-                    if prop.required is False
-                    else prop.type_dict
-                )
-                for prop in properties
-            },
+            "properties": {prop.name: prop.to_schema() for prop in properties},
             "required": [prop.name for prop in properties if prop.required],
         }
     )
@@ -576,9 +556,9 @@ def get_cwl_url(url: str) -> str:
         if not Path(url).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
-        return Path(url).as_uri()
+        return Path(url).resolve().as_uri()
     elif is_local_uri(url):
-        if not Path(urlparse(url).path).exists():
+        if not Path(url2pathname(urlparse(url).path)).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
         return url
-- 
2.43.0


From 075cf12069a35ff67bf6ee7dc7e50f988c47650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 52/75] fix: only the first file of a list had its format
 checked

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From a4fd33149f381e5f34ff5ce0868897c4358f0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 53/75] fix: container and software extraction missed step
 hints and mistook registry ports for tags

---
 src/cwl_utils/cite_extract.py   |  8 ++++++--
 src/cwl_utils/docker_extract.py | 21 ++++++++++++++++-----
 src/cwl_utils/parser/utils.py   | 13 ++++++++++++-
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/cwl_utils/cite_extract.py b/src/cwl_utils/cite_extract.py
index d35081d..a52ec98 100755
--- a/src/cwl_utils/cite_extract.py
+++ b/src/cwl_utils/cite_extract.py
@@ -2,10 +2,11 @@
 # SPDX-License-Identifier: Apache-2.0
 import argparse
 import sys
-from collections.abc import Iterator
+from collections.abc import Iterator, Mapping
 from typing import cast
 
 import cwl_utils.parser as cwl
+from cwl_utils.parser.utils import load_hint
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -33,7 +34,7 @@ def main() -> int:
 
 
 def extract_software_reqs(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.SoftwareRequirement]:
     """Return an iterator over any SoftwareRequirements found in the given process."""
     if process.requirements:
@@ -44,6 +45,9 @@ def extract_software_reqs(
         for req in process.hints:
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
+            elif isinstance(req, Mapping) and req.get("class") == "SoftwareRequirement":
+                # the hints of a step are not loaded into objects
+                yield load_hint(process, req)
 
 
 def process_software_requirement(req: cwl.SoftwareRequirement) -> None:
diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..2bc4926 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import argparse
 import sys
-from collections.abc import Iterator
+from collections.abc import Iterator, Mapping
 from pathlib import Path
 from typing import cast
 
@@ -14,6 +14,7 @@ from cwl_utils.image_puller import (
     ImagePuller,
     SingularityImagePuller,
 )
+from cwl_utils.parser.utils import load_hint
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -93,16 +94,23 @@ def run(args: argparse.Namespace) -> list[cwl.DockerRequirement]:
 
 
 def extract_docker_requirements(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        if isinstance(req.dockerPull, str) and not has_tag_or_digest(req.dockerPull):
             req.dockerPull += ":latest"
         yield req
 
 
-def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]:
+def has_tag_or_digest(image: str) -> bool:
+    """Tell whether the reference names one version: a registry may have a port too."""
+    return "@" in image or ":" in image.rpartition("/")[2]
+
+
+def extract_docker_reqs(
+    process: cwl.Process | cwl.WorkflowStep,
+) -> Iterator[cwl.DockerRequirement]:
     """For the given process, extract the DockerRequirement(s)."""
     if process.requirements:
         for req in process.requirements:
@@ -112,6 +120,9 @@ def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]
         for req in process.hints:
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
+            elif isinstance(req, Mapping) and req.get("class") == "DockerRequirement":
+                # the hints of a step are not loaded into objects
+                yield load_hint(process, req)
 
 
 def traverse(process: cwl.Process) -> Iterator[cwl.DockerRequirement]:
@@ -131,7 +142,7 @@ def get_process_from_step(step: cwl.WorkflowStep) -> cwl.Process:
 def traverse_workflow(workflow: cwl.Workflow) -> Iterator[cwl.DockerRequirement]:
     """Iterate over the steps of this workflow, yielding the docker reqs."""
     for step in workflow.steps:
-        yield from extract_docker_reqs(step)
+        yield from extract_docker_requirements(step)
         yield from traverse(get_process_from_step(step))
 
 
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 967f70f..f756fc3 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -2,7 +2,8 @@
 
 import copy
 import logging
-from collections.abc import MutableSequence
+import sys
+from collections.abc import Mapping, MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
 from urllib.parse import unquote, urlparse
@@ -227,6 +228,16 @@ def load_inputfile_by_yaml(
             )
 
 
+def load_hint(
+    owner: Process | WorkflowStep, hint: Mapping[str, Any]
+) -> Any:  # an object of the class that the hint names
+    """Load a hint that the parser leaves as plain data, as it does those of steps."""
+    parser = sys.modules[type(owner).__module__]
+    return getattr(parser, hint["class"]).fromDoc(
+        hint, owner.loadingOptions.fileuri or "", owner.loadingOptions
+    )
+
+
 def load_step(
     step: WorkflowStep,
 ) -> Process:
-- 
2.43.0


From 5501eba061f484b6361b341aaf4630eccac96603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 54/75] fix: forced docker downloads into a new directory
 failed, and saved images were pulled again

A docker image whose tar file is there is not pulled again, as the
Singularity puller does; a forced pull replaces the file if there is one;
a partial file of a failed save is removed. The Singularity puller works
without a directory.
---
 src/cwl_utils/image_puller.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..5c9a888 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -63,14 +63,18 @@ class DockerImagePuller(ImagePuller):
 
     def save_docker_image(self) -> None:
         """Download and save the software container image to disk as a docker tarball."""
+        if self.save_directory:
+            dest = Path(self.save_directory, self.get_image_name())
+            if dest.exists() and not self.force_pull:
+                _LOGGER.info(f"Already saved {self.req}: {dest!r}.")
+                return
         _LOGGER.info(f"Pulling {self.req} with {self.cmd}...")
         cmd_pull = [self.cmd, "pull", self.req]
         ImagePuller._run_command_pull(cmd_pull)
         _LOGGER.info(f"Image successfully pulled: {self.req}")
         if self.save_directory:
-            dest = Path(self.save_directory, self.get_image_name())
-            if self.save_directory and self.force_pull:
-                dest.unlink()
+            # the engine does not replace a file
+            dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
@@ -78,7 +82,11 @@ class DockerImagePuller(ImagePuller):
                 str(dest),
                 self.req,
             ]
-            subprocess.run(cmd_save, check=True)  # nosec
+            try:
+                subprocess.run(cmd_save, check=True)  # nosec
+            except subprocess.CalledProcessError:
+                dest.unlink(missing_ok=True)  # not to be taken for the image
+                raise
             _LOGGER.info(f"Image successfully saved: {dest!r}.")
             print(self.generate_udocker_loading_command())
 
@@ -106,9 +114,7 @@ class SingularityImagePuller(ImagePuller):
 
     def save_docker_image(self) -> None:
         """Pull down the Docker software container image and save it in the Singularity image format."""
-        save_directory: str | Path
-        if self.save_directory:
-            save_directory = self.save_directory
+        save_directory = self.save_directory or Path()
         target = Path(save_directory, self.get_image_name())
         if target.exists() and not self.force_pull:
             _LOGGER.info(f"Already cached {self.req} with Singularity.")
-- 
2.43.0


From b971d6916ae36ab050913cbcae4b17f373f0865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 55/75] fix: bytes2str_in_dicts converted only the first item
 of a list

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index c6e7373..76a0005 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -86,7 +86,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 300a134aeae0df7a5ef52baf80d60e2088663281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 56/75] fix: normalize_to_map removed the keys from the entries
 of the given list

---
 src/cwl_utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 76a0005..1b04f08 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -152,8 +152,9 @@ def normalize_to_map(obj: list[Any] | dict[str, Any], key_field: str) -> dict[st
             k = v.get(key_field)
             if k is None:
                 raise MissingKeyField(key_field)
-            v.pop(key_field, None)
-            map_obj[k] = v
+            map_obj[k] = {
+                field: deepcopy(value) for field, value in v.items() if field != key_field
+            }
         return map_obj
     else:
         raise RuntimeError("Expecting a dictionary or a list here")
-- 
2.43.0


From c458470ce9ffc5ad840c86354a0ae68f99c6f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 57/75] fix: relative links in a remote document lost their
 query and fragment

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 1b04f08..f6757eb 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -224,7 +224,7 @@ def resolved_path(
         else:
             # Remote relative path
             return urllib.parse.urlparse(
-                urllib.parse.urljoin(base_url.geturl(), link_url.path)
+                urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
             )
             # We need urljoin because we need to resolve relative links in a
             # platform independent manner
-- 
2.43.0


From 255a5cf6a36eba69f924cb1f3479dfbe35e31b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 58/75] fix: sanitise_schema_field left the shorthands in lists
 of types

---
 src/cwl_utils/utils.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index f6757eb..ff3c09d 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -12,7 +12,7 @@ from collections.abc import MutableMapping, MutableSequence
 from copy import deepcopy
 from importlib.resources import files
 from io import StringIO
-from typing import Any
+from typing import Any, cast
 from urllib.parse import urlparse
 
 from ruamel.yaml.constructor import SafeConstructor
@@ -402,21 +402,22 @@ def sanitise_schema_field(
         ):
             return schema_field_item
         case {"type": list(field_item_type)}:
-            if "null" in field_item_type:
+            types: list[Any] = []
+            for type_item in field_item_type:
+                if isinstance(type_item, str):
+                    # Expand the shorthands
+                    expanded = cast(
+                        dict[str, Any], sanitise_schema_field({"type": type_item})
+                    )["type"]
+                    types.extend(expanded if isinstance(expanded, list) else [expanded])
+                else:
+                    # Recursively get items
+                    types.append(sanitise_schema_field(type_item))
+            if "null" in types:
                 required = False
-            schema_field_item["type"] = list(
-                filter(lambda type_item: type_item != "null", field_item_type)
-            )
+            schema_field_item["type"] = [item for item in types if item != "null"]
             if len(schema_field_item["type"]) == 1:
                 schema_field_item["type"] = schema_field_item["type"][0]
-            else:
-                # Recursively get items
-                schema_field_item["type"] = list(
-                    map(
-                        sanitise_schema_field,
-                        schema_field_item.get("type", []),
-                    )
-                )
 
         case {"type": str(field_item_type)}:
             if field_item_type.endswith("?"):
-- 
2.43.0


From 340e5561a4abc79ab62f3f0137c18ff129635ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:52 +0000
Subject: [PATCH 59/75] fix: type_for_source nested the unions of several
 sources

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_1_utils.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 7d67cd0..51158ed 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -369,8 +369,11 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            if not any(_compare_type(t, cur_type) for t in new_type):
-                new_type.append(cur_type)
+            for member in (
+                cur_type if isinstance(cur_type, MutableSequence) else [cur_type]
+            ):
+                if not any(_compare_type(t, member) for t in new_type):
+                    new_type.append(member)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 15b1044..7808044 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -456,8 +456,11 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            if not any(_compare_type(t, cur_type) for t in new_type):
-                new_type.append(cur_type)
+            for member in (
+                cur_type if isinstance(cur_type, MutableSequence) else [cur_type]
+            ):
+                if not any(_compare_type(t, member) for t in new_type):
+                    new_type.append(member)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 6d8557b..b4c2f3c 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -493,8 +493,11 @@ def type_for_source(
                         cur_type = ArraySchema(items=cur_type, type_="array")
                 else:
                     cur_type = ArraySchema(items=cur_type, type_="array")
-            if not any(_compare_type(t, cur_type) for t in new_type):
-                new_type.append(cur_type)
+            for member in (
+                cur_type if isinstance(cur_type, MutableSequence) else [cur_type]
+            ):
+                if not any(_compare_type(t, member) for t in new_type):
+                    new_type.append(member)
     if len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
-- 
2.43.0


From 41912972a88cb46db4c51bccb071feb317641ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 60/75] fix: expressions with several parts, comments, or
 quotes were changed by refactoring

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 118 +++++++++-------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 126 ++++++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 129 +++++++++++-------
 src/cwl_utils/expression.py                   |  13 +-
 src/cwl_utils/expression_refactor.py          |  29 +++-
 5 files changed, 262 insertions(+), 153 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..10f4c45 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -21,7 +21,8 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, scanner
+from cwl_utils.types import is_file_or_directory
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -30,7 +31,6 @@ from cwl_utils.types import (
     CWLOutputType,
     CWLParameterContext,
     CWLRuntimeParameterContext,
-    is_file_or_directory,
 )
 
 _DEFAULT_CWL_VERSION: Final = "v1.0"
@@ -60,7 +60,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return contents.replace("\\", "\\\\").replace("$", "\\$")
 
 
 def clean_type_ids(
@@ -99,58 +99,67 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not isinstance(string, str) or ("$(" not in string and "${" not in string):
         return None
-    if string.strip().startswith("${"):
+    if strip_whitespace:
+        string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
+    resources: dict[str, float | int] = {
+        "cores": 0,
+        "ram": 0,
+        "outdirSize": 0,
+        "tmpdirSize": 0,
+    }
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
             outdir="/root",
             tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+            resources=resources,
+            strip_whitespace=strip_whitespace,
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return " + string[2:-1] + ";}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs,
+                    self=self,
+                    runtime=CWLRuntimeParameterContext(
+                        cores=0,
+                        ram=0,
+                        outdir="/root",
+                        tmpdir="/tmp",  # nosec
+                        outdirSize=0,
+                        tmpdirSize=0,
                     ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                ),
+                fullJS=True,
+                strip_whitespace=strip_whitespace,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
+        )
     return None
 
 
@@ -160,6 +169,14 @@ def get_inline_javascript_requirement(
     return cwl.InlineJavascriptRequirement(expression_lib)
 
 
+def load_options(inp: Any) -> dict[str, Any]:
+    """Give the fields about what is loaded for the given input."""
+    binding = getattr(inp, "inputBinding", None)
+    if binding and binding.loadContents:
+        return {"inputBinding": cwl.CommandLineBinding(loadContents=True)}
+    return {}
+
+
 def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
@@ -178,6 +195,7 @@ def etool_to_cltool(
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
+                **load_options(inp),
             )
         )
     outputs = yaml.comments.CommentedSeq()
@@ -199,7 +217,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
@@ -399,7 +417,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -499,13 +517,15 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(
+                param.type_
+            )
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1724,10 +1744,12 @@ def generate_etool_from_expr2(
     expression = "${"
     if self_name:
         expression += f"\n  var self=inputs.{self_name};"
+    else:
+        expression += "\n  var self=null;"
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..e88ce4c 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -21,7 +21,8 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, scanner
+from cwl_utils.types import is_file_or_directory
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -30,7 +31,6 @@ from cwl_utils.types import (
     CWLOutputType,
     CWLParameterContext,
     CWLRuntimeParameterContext,
-    is_file_or_directory,
 )
 
 _DEFAULT_CWL_VERSION: Final = "v1.1"
@@ -60,7 +60,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return contents.replace("\\", "\\\\").replace("$", "\\$")
 
 
 def clean_type_ids(
@@ -99,58 +99,67 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not isinstance(string, str) or ("$(" not in string and "${" not in string):
         return None
-    if string.strip().startswith("${"):
+    if strip_whitespace:
+        string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
+    resources: dict[str, float | int] = {
+        "cores": 0,
+        "ram": 0,
+        "outdirSize": 0,
+        "tmpdirSize": 0,
+    }
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
             outdir="/root",
             tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+            resources=resources,
+            strip_whitespace=strip_whitespace,
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return " + string[2:-1] + ";}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs,
+                    self=self,
+                    runtime=CWLRuntimeParameterContext(
+                        cores=0,
+                        ram=0,
+                        outdir="/root",
+                        tmpdir="/tmp",  # nosec
+                        outdirSize=0,
+                        tmpdirSize=0,
                     ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                ),
+                fullJS=True,
+                strip_whitespace=strip_whitespace,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
+        )
     return None
 
 
@@ -160,6 +169,22 @@ def get_inline_javascript_requirement(
     return cwl.InlineJavascriptRequirement(expression_lib)
 
 
+def load_options(
+    inp: Any, binding_class: type[cwl.CommandLineBinding] | type[cwl.InputBinding]
+) -> dict[str, Any]:
+    """Give the fields about what is loaded for the given input."""
+    binding = getattr(inp, "inputBinding", None)
+    return {
+        "loadContents": getattr(inp, "loadContents", None),
+        "loadListing": getattr(inp, "loadListing", None),
+        "inputBinding": (
+            binding_class(loadContents=True)
+            if binding and binding.loadContents
+            else None
+        ),
+    }
+
+
 def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
@@ -178,6 +203,7 @@ def etool_to_cltool(
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
+                **load_options(inp, cwl.CommandLineBinding),
             )
         )
     outputs = yaml.comments.CommentedSeq()
@@ -199,7 +225,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
@@ -397,7 +423,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -497,13 +523,15 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(
+                param.type_
+            )
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1730,10 +1758,12 @@ def generate_etool_from_expr2(
     expression = "${"
     if self_name:
         expression += f"\n  var self=inputs.{self_name};"
+    else:
+        expression += "\n  var self=null;"
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..c9d8cfc 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -6,7 +6,7 @@
 import copy
 import hashlib
 import uuid
-from collections.abc import Mapping, MutableSequence, Sequence
+from collections.abc import MutableSequence, Sequence
 from contextlib import suppress
 from typing import Any, cast, Final
 
@@ -21,7 +21,8 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, scanner
+from collections.abc import Mapping
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -59,7 +60,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return (
+        contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
+    )
 
 
 def clean_type_ids(
@@ -98,58 +101,67 @@ def get_command_line_binding(
 
 
 def get_expression(
-    string: str, inputs: CWLObjectType, self: CWLOutputType | None
+    string: str,
+    inputs: CWLObjectType,
+    self: CWLOutputType | None,
+    strip_whitespace: bool = True,
 ) -> str | None:
     """
     Find and return a normalized CWL expression, if any.
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not isinstance(string, str) or ("$(" not in string and "${" not in string):
         return None
-    if string.strip().startswith("${"):
+    if strip_whitespace:
+        string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
+    resources: dict[str, float | int] = {
+        "cores": 0,
+        "ram": 0,
+        "outdirSize": 0,
+        "tmpdirSize": 0,
+    }
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
             outdir="/root",
             tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+            resources=resources,
+            strip_whitespace=strip_whitespace,
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return " + string[2:-1] + ";}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(
+                    inputs=inputs,
+                    self=self,
+                    runtime=CWLRuntimeParameterContext(
+                        cores=0,
+                        ram=0,
+                        outdir="/root",
+                        tmpdir="/tmp",  # nosec
+                        outdirSize=0,
+                        tmpdirSize=0,
                     ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                ),
+                fullJS=True,
+                strip_whitespace=strip_whitespace,
+                escaping_behavior=2,
+                convert_to_expression=True,
+            ),
+        )
     return None
 
 
@@ -159,6 +171,22 @@ def get_inline_javascript_requirement(
     return cwl.InlineJavascriptRequirement(expression_lib)
 
 
+def load_options(
+    inp: Any, binding_class: type[cwl.CommandLineBinding] | type[cwl.InputBinding]
+) -> dict[str, Any]:
+    """Give the fields about what is loaded for the given input."""
+    binding = getattr(inp, "inputBinding", None)
+    return {
+        "loadContents": getattr(inp, "loadContents", None),
+        "loadListing": getattr(inp, "loadListing", None),
+        "inputBinding": (
+            binding_class(loadContents=True)
+            if binding and binding.loadContents
+            else None
+        ),
+    }
+
+
 def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
@@ -177,6 +205,7 @@ def etool_to_cltool(
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
+                **load_options(inp, cwl.CommandLineBinding),
             )
         )
     outputs = yaml.comments.CommentedSeq()
@@ -198,7 +227,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
@@ -398,7 +427,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -502,13 +531,15 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(
+                param.type_
+            )
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1843,10 +1874,12 @@ def generate_etool_from_expr2(
     expression = "${"
     if self_name:
         expression += f"\n  var self=inputs.{self_name};"
+    else:
+        expression += "\n  var self=null;"
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..ecaad68 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -217,7 +217,7 @@ def interpolate(
     w = scanner(scan)
     while w:
         if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
+            parts.append(dump(scan[0 : w[0]]))
         else:
             parts.append(scan[0 : w[0]])
 
@@ -235,9 +235,14 @@ def interpolate(
                     leaf = json.loads(leaf)
                 parts.append(leaf)
             else:
+                part = scan[w[0] : w[1]]
+                if part.startswith("${"):
+                    item = f"(function(){part[1:]})()"
+                else:
+                    item = part[1:]
                 parts.append(
-                    "function(){var item ="
-                    + scan[w[0] : w[1]][2:-1]
+                    "function(){var item = "
+                    + item
                     + '; if (typeof(item) === "string"){ return item; } '
                     "else { return JSON.stringify(item); }}() + "
                 )
@@ -266,7 +271,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json.dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index f4f4353..dd3a48c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -9,6 +9,7 @@ import logging
 import shutil
 import sys
 from collections.abc import MutableMapping, MutableSequence, Sequence
+from itertools import chain
 from pathlib import Path
 from typing import Any, Protocol, cast, Literal, overload
 
@@ -34,10 +35,12 @@ from cwl_utils.parser import (
     CommandInputParameter,
     Workflow,
     CommandOutputParameter,
+    EnvVarRequirement,
     ExpressionTool,
     InitialWorkDirRequirement,
     InlineJavascriptRequirement,
     ProcessRequirement,
+    ResourceRequirement,
     CommandLineTool,
     load_document_by_uri,
     CommandLineBinding,
@@ -49,6 +52,23 @@ _logger.addHandler(defaultStreamHandler)
 _logger.setLevel(logging.INFO)
 _cwlutilslogger.setLevel(100)
 
+# these are about the execution of a tool, and may have expressions about its inputs
+_TOOL_REQUIREMENTS = (
+    EnvVarRequirement,
+    InitialWorkDirRequirement,
+    InlineJavascriptRequirement,
+    ResourceRequirement,
+    cwl_v1_0.NetworkAccess,
+    cwl_v1_0.TimeLimit,
+    cwl_v1_0.WorkReuse,
+    cwl_v1_1.NetworkAccess,
+    cwl_v1_1.ToolTimeLimit,
+    cwl_v1_1.WorkReuse,
+    cwl_v1_2.NetworkAccess,
+    cwl_v1_2.ToolTimeLimit,
+    cwl_v1_2.WorkReuse,
+)
+
 save_type = (
     MutableMapping[str, Any] | MutableSequence[Any] | int | float | bool | str | None
 )
@@ -239,10 +259,9 @@ def find_expressionLib(
     (Workflow, WorkflowStep, ... CommandLineTool/ExpressionTool)
     """
     for process in reversed(copy.copy(processes)):
-        if process.requirements:
-            for req in process.requirements:
-                if isinstance(req, InlineJavascriptRequirement):
-                    return cast(list[str] | None, copy.deepcopy(req.expressionLib))
+        for req in chain(process.requirements or [], process.hints or []):
+            if isinstance(req, InlineJavascriptRequirement):
+                return cast(list[str] | None, copy.deepcopy(req.expressionLib))
     return None
 
 
@@ -274,7 +293,7 @@ def generate_etool_from_expr2(
             requirements = [
                 x
                 for x in process.requirements
-                if not isinstance(x, InitialWorkDirRequirement)
+                if not isinstance(x, _TOOL_REQUIREMENTS)
             ]
     cwlVersion = (
         process.cwlVersion if process and process.cwlVersion is not None else cwlVersion
-- 
2.43.0


From 12540818c8faf543128688ee0f8ce88b532d6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 61/75] fix: refactoring lost the standard output of tools
 without a file name for it

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 19 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 19 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 10f4c45..3f27ee7 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -37,22 +37,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.0"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite the "type: stdout" and "type: stderr" shortcuts to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index e88ce4c..2c6a213 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -37,22 +37,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.1"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite the "type: stdout" and "type: stderr" shortcuts to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
     if result:
         return result
     return process
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c9d8cfc..83c1100 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -37,22 +37,25 @@ _DEFAULT_CWL_VERSION: Final = "v1.2"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
+    """Rewrite the "type: stdout" and "type: stderr" shortcuts to use an explicit filename."""
     if not process.outputs:
         return process
     result = None
     for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
+        # TODO: add 'stdin' for CWL v1.1
+        if output.type_ in ("stdout", "stderr"):
             if not result:
                 result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+            stream_path = getattr(result, output.type_)
+            if not stream_path:
+                stream_path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
+                setattr(result, output.type_, stream_path)
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stream_path
+            )
     if result:
         return result
     return process
-- 
2.43.0


From 197560fae7c80f14e97bcbba37e496bc2fe28229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 62/75] fix: refactored expressions of a tool were left, or
 lost their context

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 809 +++++++-----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 809 +++++++-----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 807 +++++++----------
 3 files changed, 869 insertions(+), 1556 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 3f27ee7..9d400da 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -607,7 +607,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -615,13 +615,13 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     cwl.ExpressionToolOutputParameter,
                 ),
             ):
-                new_outp.type_ = cwl.OutputArraySchema(items="File", type_="array")
+                new_outp.type_ = cwl.OutputArraySchema(items=["File", "Directory"], type_="array")
             elif isinstance(new_outp, cwl.CommandOutputParameter):
                 if new_outp.outputBinding:
+                    # the contents are for the expression
                     new_outp.outputBinding.outputEval = None
-                    new_outp.outputBinding.loadContents = None
                 new_outp.type_ = cwl.CommandOutputArraySchema(
-                    items="File",
+                    items=["File", "Directory"],
                     type_="array",
                 )
             else:
@@ -983,7 +983,7 @@ def process_workflow_reqs_and_hints(
 
 
 def process_level_reqs(
-    process: cwl_utils.parser.Process,
+    process: cwl.CommandLineTool,
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
     replace_etool: bool,
@@ -991,76 +991,95 @@ def process_level_reqs(
     skip_command_line2: bool,
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
-    # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # This is for reqs inside a CommandLineTool
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
-    # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
     inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
-    generated_res_reqs: list[tuple[str, str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str, Any]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
     if not step.id:
         return False
-    step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    step_name = step.id.split("#", 1)[-1].split("/")[-1]
+
+    def replace(expression: str, name: str, inp_id: str, type_: Any) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_name}_{name}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.InputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        cwl_utils.expression_refactor.add_input_to_process(
+            target_process,
+            _DEFAULT_CWL_VERSION,
+            inp_id,
+            type_,
+            process.loadingOptions,
+        )
+        return f"$(inputs.{inp_id})"
+
+    simple_fields: list[tuple[type, str, Any]] = [
+        *(
+            (cwl.ResourceRequirement, attr, ["long", "float"])
+            for attr in sorted(cwl.ResourceRequirement.attrs)
+        ),
+        (cwl.TimeLimit, "timelimit", ["long", "float"]),
+        (cwl.NetworkAccess, "networkAccess", "boolean"),
+        (cwl.WorkReuse, "enableReuse", "boolean"),
+    ]
+    required = [type(req) for req in process.requirements or []]
+    overridden = [
+        hint
+        for hint in target_process.hints or []
+        if type(hint) in required and "$" in json_dumps(save(hint))
+    ]
+    if overridden:
+        modified = True
+        target_process.hints = [
+            hint for hint in target_process.hints if hint not in overridden
+        ] or None
+    pairs = [
+        *zip(process.requirements or [], target_process.requirements or []),
+        *zip(
+            [hint for hint in process.hints or [] if hint not in overridden],
+            target_process.hints or [],
+        ),
+    ]
+    for req, target_req in pairs:
+        for kind, attr, type_ in simple_fields:
+            if isinstance(req, kind):
+                expression = get_expression(getattr(req, attr, None), inputs, None)
+                if expression:
+                    setattr(
+                        target_req,
+                        attr,
+                        replace(
+                            expression,
+                            f"{kind.__name__}_{attr}",
+                            f"_{attr}",
+                            type_,
+                        ),
+                    )
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
-                if envDef.envValue:
-                    expression = get_expression(envDef.envValue, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.InputParameter(id=None, type_="string")
-                        etool_id = "_expression_{}_EnvVarRequirement_{}".format(
-                            step_name, env_index
-                        )
-                        replace_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index][
-                            env_index
-                        ].envValue = f"$(inputs._envDef{env_index})"
-                        generated_envVar_reqs.append((etool_id, env_index))
-        elif isinstance(req, cwl_utils.parser.ResourceRequirement):
-            for attr in cwl.ResourceRequirement.attrs:
-                this_attr = getattr(req, attr, None)
-                if this_attr:
-                    expression = get_expression(this_attr, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.InputParameter(id=None, type_="long")
-                        etool_id = "_expression_{}_ResourceRequirement_{}".format(
-                            step_name, attr
-                        )
-                        replace_clt_hintreq_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            step,
-                            replace_etool,
-                        )
-                        setattr(
-                            target_process.requirements[req_index],
-                            attr,
-                            f"$(inputs._{attr})",
-                        )
-                        generated_res_reqs.append((etool_id, attr))
-
+                expression = get_expression(envDef.envValue, inputs, None)
+                if expression:
+                    target_req.envDef[env_index].envValue = replace(
+                        expression,
+                        f"EnvVarRequirement_{env_index}",
+                        f"_envDef{env_index}",
+                        "string",
+                    )
         elif (
             isinstance(req, cwl_utils.parser.InitialWorkDirRequirement)
             and not skip_command_line2
@@ -1069,172 +1088,34 @@ def process_level_reqs(
             if isinstance(req.listing, str):
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
-                    modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
-                    target = cwl.InputParameter(id=None, type_=target_type)
-                    etool_id = "_expression_{}_InitialWorkDirRequirement".format(
-                        step_name
+                    target_req.listing = replace(
+                        expression, "InitialWorkDirRequirement", "_iwdr_listing", "Any"
                     )
-                    replace_expr_with_etool(
-                        expression,
-                        etool_id,
-                        parent,
-                        target,
-                        None,
-                        replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id="_iwdr_listing",
-                            source=f"{etool_id}/result",
-                        )
+                continue
+            for listing_index, entry in enumerate(req.listing):
+                name = f"InitialWorkDirRequirement_{listing_index}"
+                inp_id = f"_iwdr_listing_{listing_index}"
+                expression = get_expression(entry, inputs, None)
+                if expression:
+                    target_req.listing[listing_index] = replace(
+                        expression, name, inp_id, ["null", "Any"]
                     )
-                    cwl_utils.expression_refactor.add_input_to_process(
-                        target_process,
-                        _DEFAULT_CWL_VERSION,
-                        "_iwdr_listing",
-                        target_type,
-                        process.loadingOptions,
+                elif isinstance(entry, cwl_utils.parser.Dirent):
+                    expression = get_expression(
+                        entry.entry, inputs, None, strip_whitespace=False
                     )
-            else:
-                for listing_index, entry in enumerate(req.listing):
-                    expression = get_expression(entry, inputs, None)
                     if expression:
-                        modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
-                        target = cwl.InputParameter(
-                            id=None,
-                            type_=target_type,
-                        )
-                        etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                            step_name, listing_index
+                        target_req.listing[listing_index].entry = replace(
+                            expression, name, inp_id, ["null", "Any"]
                         )
-                        replace_expr_with_etool(
+                    expression = get_expression(entry.entryname, inputs, None)
+                    if expression:
+                        target_req.listing[listing_index].entryname = replace(
                             expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index].listing[
-                            listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
-                        generated_iwdr_reqs.append(
-                            (etool_id, listing_index, target_type)
+                            f"{name}_entryname",
+                            f"{inp_id}_entryname",
+                            "string",
                         )
-                    elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
-    for entry in generated_envVar_reqs:
-        name = f"_envDef{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "string", process.loadingOptions
-        )
-    for entry in generated_res_reqs:
-        name = f"_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "long", process.loadingOptions
-        )
-    for entry in generated_iwdr_reqs:
-        name = f"_iwdr_listing_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, entry[2], process.loadingOptions
-        )
     return modified
 
 
@@ -1267,138 +1148,95 @@ def traverse_CommandLineTool(
     inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
+
+    def replace(
+        expression: str, inp_id: str, type_: Any, self_name: str | None = None
+    ) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_id}{inp_id}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.InputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+            self_name,
+        )
+        target_clt.inputs.append(
+            cwl_utils.expression_refactor.get_command_input_parameter(
+                target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, type_
+            )
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        return f"$(inputs.{inp_id})"
+
     if clt.arguments and not skip_command_line1:
         for index, arg in enumerate(clt.arguments):
+            inp_id = f"_arguments_{index}"
             if isinstance(arg, str):
                 expression = get_expression(arg, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.InputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            valueFrom=f"$(inputs.{inp_id})",
+                            valueFrom=replace(expression, inp_id, ["null", "Any"]),
                         )
                     )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
-            elif isinstance(arg, cwl_utils.parser.CommandLineBinding) and arg.valueFrom:
+            elif isinstance(arg, cwl_utils.parser.CommandLineBinding):
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.InputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
-                    target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
-                        inp_id
-                    )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                    target_clt.arguments[index].valueFrom = replace(
+                        expression, inp_id, ["null", "Any"]
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
-        stream_value = getattr(clt, streamtype)
-        if stream_value:
-            expression = get_expression(stream_value, inputs, None)
-            if expression:
-                modified = True
-                inp_id = f"_{streamtype}"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                target_type = "string"
-                target = cwl.InputParameter(id=None, type_=target_type)
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
-                )
-                setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                        inp_id,
-                        target_type,
-                    )
-                )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                )
-    for inp in clt.inputs:
+        expression = get_expression(getattr(clt, streamtype), inputs, None)
+        if expression:
+            setattr(
+                target_clt, streamtype, replace(expression, f"_{streamtype}", "string")
+            )
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
             )
             if expression:
-                modified = True
-                self_id = inp.id.split("#")[-1]
-                inp_id = f"_{self_id}_valueFrom"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                self_id = inp.id.split("#")[-1].split("/")[-1]
+                # without a value the binding is not evaluated
+                expression = (
+                    "${if (self === null) { return null; }\n" + expression.strip()[2:]
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
-                    )
+                target_clt.inputs[index].inputBinding.valueFrom = replace(
+                    expression, f"_{self_id}_valueFrom", ["null", "Any"], self_id
                 )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                )
-    for outp in clt.outputs:
+    outputEvals: list[tuple[int, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
-            if outp.outputBinding.glob:
-                expression = get_expression(outp.outputBinding.glob, inputs, None)
+            outp_id = outp.id.split("#")[-1].split("/")[-1]
+            globs = outp.outputBinding.glob
+            if isinstance(globs, str):
+                expression = get_expression(globs, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
-                    target = cwl.InputParameter(id=None, type_=glob_target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                    target_clt.outputs[index].outputBinding.glob = replace(
+                        expression,
+                        f"_{outp_id}_glob",
+                        ["string", cwl.InputArraySchema(items="string", type_="array")],
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            glob_target_type,
+            elif globs:
+                for index2, glob in enumerate(globs):
+                    expression = get_expression(glob, inputs, None)
+                    if expression:
+                        target_clt.outputs[index].outputBinding.glob[index2] = replace(
+                            expression,
+                            f"_{outp_id}_glob_{index2}",
+                            [
+                                "string",
+                                cwl.InputArraySchema(items="string", type_="array"),
+                            ],
                         )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1414,204 +1252,138 @@ def traverse_CommandLineTool(
                     cast(dict[Any, Any], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
-                    modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.InputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    outputEvals.append((index, expression))
+    if outputEvals:
+        modified = True
+        replace_outputEvals_with_sub_workflow(
+            outputEvals, clt, parent, step, replace_etool
+        )
+    if modified and not skip_command_line1 and not skip_command_line2:
+        cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
-
-
-def replace_step_clt_expr_with_etool(
-    expr: str,
-    name: str,
-    workflow: cwl.Workflow,
-    target: cwl.InputParameter,
+def replace_outputEvals_with_sub_workflow(
+    outputEvals: list[tuple[int, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
     step: cwl.WorkflowStep,
     replace_etool: bool,
-    self_name: str | None = None,
 ) -> None:
-    """Convert a step level CWL Expression to a sibling expression step."""
-    etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+    """Replace the tool of a step by a workflow of the tool and a step per outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    processes = [parent, step, clt]
+    new_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        new_clt, _DEFAULT_CWL_VERSION
     )
-    temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
-        expr,
-        _DEFAULT_CWL_VERSION,
-        target,
-        etool_inputs,
-        self_name,
-        step.run,
-        [workflow],
-    )
-    etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
-    if replace_etool:
-        processes = [workflow]
-        etool = cwl_utils.expression_refactor.etool_to_cltool(
-            temp_etool,
-            _DEFAULT_CWL_VERSION,
-            cwl_utils.expression_refactor.find_expressionLib(processes),
+    for tool_inp in new_clt.inputs:
+        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+        if tool_inp.id.startswith("_"):
+            sub_wf_inputs.append(
+                cwl.InputParameter(id=tool_inp.id, type_=tool_inp.type_)
+            )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    etool_steps = []
+    without_glob = []
+    for index, expression in outputEvals:
+        outp = clt.outputs[index]
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"_expression_{outp_id}_outputEval"
+        has_self = bool(outp.outputBinding.glob)
+        if not has_self:
+            expression = "${var self = [];\n" + expression.strip()[2:]
+            without_glob.append(outp_id)
+        types = outp.type_ if isinstance(outp.type_, MutableSequence) else [outp.type_]
+        if "File" in types or "Directory" in types:
+            # a list with one file may be given for a file
+            expression = (
+                "${var result = (function() {"
+                + expression.strip()[2:-1]
+                + "})();\nreturn Array.isArray(result) && result.length < 2 "
+                + "? (result.length ? result[0] : null) : result;}"
+            )
+        etool = generate_etool_from_expr(
+            expression,
+            outp,
+            not has_self,
+            cwl.InputParameter(
+                id=None,
+                type_=cwl.InputArraySchema(
+                    items=["File", "Directory"], type_="array"
+                ),
+            ),
+            processes,
         )
-    else:
-        etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
-    for wf_step_input in wf_step_inputs:
-        wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
+        etool.inputs.extend(
+            cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+                clt, _DEFAULT_CWL_VERSION
+            )
         )
+        etool_step_inputs = [
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+            for inp in sub_wf_inputs
+            if not inp.id.startswith("_")
+        ]
+        if has_self:
+            etool_step_inputs.append(
+                cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+            )
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib(processes),
+            )
+        else:
+            final_etool = etool
+        etool_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=etool_step_inputs,
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            new_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    new_clt.id = None
+    for tool_out in new_clt.outputs:
+        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
+    new_clt.outputs = [out for out in new_clt.outputs if out.id not in without_glob]
+    new_clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs],
+        out=[out.id for out in new_clt.outputs],
+        run=new_clt,
     )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[new_clt_step, *etool_steps],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
+
+
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add the SubworkflowFeatureRequirement if it isn't there."""
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements or []
+    ):
+        workflow.requirements = [
+            *(workflow.requirements or []),
+            cwl.SubworkflowFeatureRequirement(),
+        ]
 
 
-def replace_clt_hintreq_expr_with_etool(
+def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
@@ -1620,11 +1392,11 @@ def replace_clt_hintreq_expr_with_etool(
     replace_etool: bool,
     self_name: str | None = None,
 ) -> None:
-    """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
-    # Same as replace_step_clt_expr_with_etool or different?
+    """Convert an expression inside a CommandLineTool to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
         step.run, _DEFAULT_CWL_VERSION
     )
+    processes = [workflow, step, step.run]
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -1632,11 +1404,10 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        processes,
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 2c6a213..13e69bd 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -613,7 +613,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -621,13 +621,13 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     cwl.ExpressionToolOutputParameter,
                 ),
             ):
-                new_outp.type_ = cwl.OutputArraySchema(items="File", type_="array")
+                new_outp.type_ = cwl.OutputArraySchema(items=["File", "Directory"], type_="array")
             elif isinstance(new_outp, cwl.CommandOutputParameter):
                 if new_outp.outputBinding:
+                    # the contents are for the expression
                     new_outp.outputBinding.outputEval = None
-                    new_outp.outputBinding.loadContents = None
                 new_outp.type_ = cwl.CommandOutputArraySchema(
-                    items="File",
+                    items=["File", "Directory"],
                     type_="array",
                 )
             else:
@@ -1001,76 +1001,95 @@ def process_level_reqs(
     skip_command_line2: bool,
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
-    # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # This is for reqs inside a CommandLineTool
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
-    # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
-    inputs = cwl_utils.expression_refactor.empty_inputs(process, "v1.1")
-    generated_res_reqs: list[tuple[str, str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str, Any]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
+    inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
     if not step.id:
         return False
-    step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    step_name = step.id.split("#", 1)[-1].split("/")[-1]
+
+    def replace(expression: str, name: str, inp_id: str, type_: Any) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_name}_{name}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.WorkflowInputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        cwl_utils.expression_refactor.add_input_to_process(
+            target_process,
+            _DEFAULT_CWL_VERSION,
+            inp_id,
+            type_,
+            process.loadingOptions,
+        )
+        return f"$(inputs.{inp_id})"
+
+    simple_fields: list[tuple[type, str, Any]] = [
+        *(
+            (cwl.ResourceRequirement, attr, ["long", "float"])
+            for attr in sorted(cwl.ResourceRequirement.attrs)
+        ),
+        (cwl.ToolTimeLimit, "timelimit", ["long", "float"]),
+        (cwl.NetworkAccess, "networkAccess", "boolean"),
+        (cwl.WorkReuse, "enableReuse", "boolean"),
+    ]
+    required = [type(req) for req in process.requirements or []]
+    overridden = [
+        hint
+        for hint in target_process.hints or []
+        if type(hint) in required and "$" in json_dumps(save(hint))
+    ]
+    if overridden:
+        modified = True
+        target_process.hints = [
+            hint for hint in target_process.hints if hint not in overridden
+        ] or None
+    pairs = [
+        *zip(process.requirements or [], target_process.requirements or []),
+        *zip(
+            [hint for hint in process.hints or [] if hint not in overridden],
+            target_process.hints or [],
+        ),
+    ]
+    for req, target_req in pairs:
+        for kind, attr, type_ in simple_fields:
+            if isinstance(req, kind):
+                expression = get_expression(getattr(req, attr, None), inputs, None)
+                if expression:
+                    setattr(
+                        target_req,
+                        attr,
+                        replace(
+                            expression,
+                            f"{kind.__name__}_{attr}",
+                            f"_{attr}",
+                            type_,
+                        ),
+                    )
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
-                if envDef.envValue:
-                    expression = get_expression(envDef.envValue, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.WorkflowInputParameter(id=None, type_="string")
-                        etool_id = "_expression_{}_EnvVarRequirement_{}".format(
-                            step_name, env_index
-                        )
-                        replace_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index][
-                            env_index
-                        ].envValue = f"$(inputs._envDef{env_index})"
-                        generated_envVar_reqs.append((etool_id, env_index))
-        elif isinstance(req, cwl_utils.parser.ResourceRequirement):
-            for attr in cwl.ResourceRequirement.attrs:
-                this_attr = getattr(req, attr, None)
-                if this_attr:
-                    expression = get_expression(this_attr, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.WorkflowInputParameter(id=None, type_="long")
-                        etool_id = "_expression_{}_ResourceRequirement_{}".format(
-                            step_name, attr
-                        )
-                        replace_clt_hintreq_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            step,
-                            replace_etool,
-                        )
-                        setattr(
-                            target_process.requirements[req_index],
-                            attr,
-                            f"$(inputs._{attr})",
-                        )
-                        generated_res_reqs.append((etool_id, attr))
-
+                expression = get_expression(envDef.envValue, inputs, None)
+                if expression:
+                    target_req.envDef[env_index].envValue = replace(
+                        expression,
+                        f"EnvVarRequirement_{env_index}",
+                        f"_envDef{env_index}",
+                        "string",
+                    )
         elif (
             isinstance(req, cwl_utils.parser.InitialWorkDirRequirement)
             and not skip_command_line2
@@ -1079,172 +1098,34 @@ def process_level_reqs(
             if isinstance(req.listing, str):
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
-                    modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    etool_id = "_expression_{}_InitialWorkDirRequirement".format(
-                        step_name
+                    target_req.listing = replace(
+                        expression, "InitialWorkDirRequirement", "_iwdr_listing", "Any"
                     )
-                    replace_expr_with_etool(
-                        expression,
-                        etool_id,
-                        parent,
-                        target,
-                        None,
-                        replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id="_iwdr_listing",
-                            source=f"{etool_id}/result",
-                        )
+                continue
+            for listing_index, entry in enumerate(req.listing):
+                name = f"InitialWorkDirRequirement_{listing_index}"
+                inp_id = f"_iwdr_listing_{listing_index}"
+                expression = get_expression(entry, inputs, None)
+                if expression:
+                    target_req.listing[listing_index] = replace(
+                        expression, name, inp_id, ["null", "Any"]
                     )
-                    cwl_utils.expression_refactor.add_input_to_process(
-                        target_process,
-                        "v1.1",
-                        "_iwdr_listing",
-                        target_type,
-                        process.loadingOptions,
+                elif isinstance(entry, cwl_utils.parser.Dirent):
+                    expression = get_expression(
+                        entry.entry, inputs, None, strip_whitespace=False
                     )
-            else:
-                for listing_index, entry in enumerate(req.listing):
-                    expression = get_expression(entry, inputs, None)
                     if expression:
-                        modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
-                        target = cwl.WorkflowInputParameter(
-                            id=None,
-                            type_=target_type,
-                        )
-                        etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                            step_name, listing_index
+                        target_req.listing[listing_index].entry = replace(
+                            expression, name, inp_id, ["null", "Any"]
                         )
-                        replace_expr_with_etool(
+                    expression = get_expression(entry.entryname, inputs, None)
+                    if expression:
+                        target_req.listing[listing_index].entryname = replace(
                             expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index].listing[
-                            listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
-                        generated_iwdr_reqs.append(
-                            (etool_id, listing_index, target_type)
+                            f"{name}_entryname",
+                            f"{inp_id}_entryname",
+                            "string",
                         )
-                    elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
-    for entry in generated_envVar_reqs:
-        name = f"_envDef{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "string", process.loadingOptions
-        )
-    for entry in generated_res_reqs:
-        name = f"_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "long", process.loadingOptions
-        )
-    for entry in generated_iwdr_reqs:
-        name = f"_iwdr_listing_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, entry[2], process.loadingOptions
-        )
     return modified
 
 
@@ -1277,138 +1158,95 @@ def traverse_CommandLineTool(
     inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
+
+    def replace(
+        expression: str, inp_id: str, type_: Any, self_name: str | None = None
+    ) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_id}{inp_id}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.WorkflowInputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+            self_name,
+        )
+        target_clt.inputs.append(
+            cwl_utils.expression_refactor.get_command_input_parameter(
+                target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, type_
+            )
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        return f"$(inputs.{inp_id})"
+
     if clt.arguments and not skip_command_line1:
         for index, arg in enumerate(clt.arguments):
+            inp_id = f"_arguments_{index}"
             if isinstance(arg, str):
                 expression = get_expression(arg, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            valueFrom=f"$(inputs.{inp_id})",
+                            valueFrom=replace(expression, inp_id, ["null", "Any"]),
                         )
                     )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
-            elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
+            elif isinstance(arg, cwl_utils.parser.CommandLineBinding):
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
-                    target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
-                        inp_id
-                    )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                    target_clt.arguments[index].valueFrom = replace(
+                        expression, inp_id, ["null", "Any"]
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
-        stream_value = getattr(clt, streamtype)
-        if stream_value:
-            expression = get_expression(stream_value, inputs, None)
-            if expression:
-                modified = True
-                inp_id = f"_{streamtype}"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                target_type = "string"
-                target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
-                )
-                setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                        inp_id,
-                        target_type,
-                    )
-                )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                )
-    for inp in clt.inputs:
+        expression = get_expression(getattr(clt, streamtype), inputs, None)
+        if expression:
+            setattr(
+                target_clt, streamtype, replace(expression, f"_{streamtype}", "string")
+            )
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
             )
             if expression:
-                modified = True
-                self_id = inp.id.split("#")[-1]
-                inp_id = f"_{self_id}_valueFrom"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                self_id = inp.id.split("#")[-1].split("/")[-1]
+                # without a value the binding is not evaluated
+                expression = (
+                    "${if (self === null) { return null; }\n" + expression.strip()[2:]
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
-                    )
+                target_clt.inputs[index].inputBinding.valueFrom = replace(
+                    expression, f"_{self_id}_valueFrom", ["null", "Any"], self_id
                 )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                )
-    for outp in clt.outputs:
+    outputEvals: list[tuple[int, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
-            if outp.outputBinding.glob:
-                expression = get_expression(outp.outputBinding.glob, inputs, None)
+            outp_id = outp.id.split("#")[-1].split("/")[-1]
+            globs = outp.outputBinding.glob
+            if isinstance(globs, str):
+                expression = get_expression(globs, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
-                    target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                    target_clt.outputs[index].outputBinding.glob = replace(
+                        expression,
+                        f"_{outp_id}_glob",
+                        ["string", cwl.InputArraySchema(items="string", type_="array")],
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            glob_target_type,
+            elif globs:
+                for index2, glob in enumerate(globs):
+                    expression = get_expression(glob, inputs, None)
+                    if expression:
+                        target_clt.outputs[index].outputBinding.glob[index2] = replace(
+                            expression,
+                            f"_{outp_id}_glob_{index2}",
+                            [
+                                "string",
+                                cwl.InputArraySchema(items="string", type_="array"),
+                            ],
                         )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1424,204 +1262,138 @@ def traverse_CommandLineTool(
                     cast(dict[Any, Any], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
-                    modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    outputEvals.append((index, expression))
+    if outputEvals:
+        modified = True
+        replace_outputEvals_with_sub_workflow(
+            outputEvals, clt, parent, step, replace_etool
+        )
+    if modified and not skip_command_line1 and not skip_command_line2:
+        cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
-
-
-def replace_step_clt_expr_with_etool(
-    expr: str,
-    name: str,
-    workflow: cwl.Workflow,
-    target: cwl.WorkflowInputParameter,
+def replace_outputEvals_with_sub_workflow(
+    outputEvals: list[tuple[int, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
     step: cwl.WorkflowStep,
     replace_etool: bool,
-    self_name: str | None = None,
 ) -> None:
-    """Convert a step level CWL Expression to a sibling expression step."""
-    etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+    """Replace the tool of a step by a workflow of the tool and a step per outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    processes = [parent, step, clt]
+    new_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        new_clt, _DEFAULT_CWL_VERSION
     )
-    temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
-        expr,
-        _DEFAULT_CWL_VERSION,
-        target,
-        etool_inputs,
-        self_name,
-        step.run,
-        [workflow],
-    )
-    etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
-    if replace_etool:
-        processes = [workflow]
-        etool = cwl_utils.expression_refactor.etool_to_cltool(
-            temp_etool,
-            _DEFAULT_CWL_VERSION,
-            cwl_utils.expression_refactor.find_expressionLib(processes),
+    for tool_inp in new_clt.inputs:
+        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+        if tool_inp.id.startswith("_"):
+            sub_wf_inputs.append(
+                cwl.WorkflowInputParameter(id=tool_inp.id, type_=tool_inp.type_)
+            )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    etool_steps = []
+    without_glob = []
+    for index, expression in outputEvals:
+        outp = clt.outputs[index]
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"_expression_{outp_id}_outputEval"
+        has_self = bool(outp.outputBinding.glob)
+        if not has_self:
+            expression = "${var self = [];\n" + expression.strip()[2:]
+            without_glob.append(outp_id)
+        types = outp.type_ if isinstance(outp.type_, MutableSequence) else [outp.type_]
+        if "File" in types or "Directory" in types:
+            # a list with one file may be given for a file
+            expression = (
+                "${var result = (function() {"
+                + expression.strip()[2:-1]
+                + "})();\nreturn Array.isArray(result) && result.length < 2 "
+                + "? (result.length ? result[0] : null) : result;}"
+            )
+        etool = generate_etool_from_expr(
+            expression,
+            outp,
+            not has_self,
+            cwl.WorkflowInputParameter(
+                id=None,
+                type_=cwl.InputArraySchema(
+                    items=["File", "Directory"], type_="array"
+                ),
+            ),
+            processes,
         )
-    else:
-        etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
-    for wf_step_input in wf_step_inputs:
-        wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
+        etool.inputs.extend(
+            cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+                clt, _DEFAULT_CWL_VERSION
+            )
         )
+        etool_step_inputs = [
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+            for inp in sub_wf_inputs
+            if not inp.id.startswith("_")
+        ]
+        if has_self:
+            etool_step_inputs.append(
+                cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+            )
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib(processes),
+            )
+        else:
+            final_etool = etool
+        etool_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=etool_step_inputs,
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            new_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    new_clt.id = None
+    for tool_out in new_clt.outputs:
+        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
+    new_clt.outputs = [out for out in new_clt.outputs if out.id not in without_glob]
+    new_clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs],
+        out=[out.id for out in new_clt.outputs],
+        run=new_clt,
     )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[new_clt_step, *etool_steps],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
+
+
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add the SubworkflowFeatureRequirement if it isn't there."""
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements or []
+    ):
+        workflow.requirements = [
+            *(workflow.requirements or []),
+            cwl.SubworkflowFeatureRequirement(),
+        ]
 
 
-def replace_clt_hintreq_expr_with_etool(
+def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
@@ -1630,11 +1402,11 @@ def replace_clt_hintreq_expr_with_etool(
     replace_etool: bool,
     self_name: str | None = None,
 ) -> None:
-    """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
-    # Same as replace_step_clt_expr_with_etool or different?
+    """Convert an expression inside a CommandLineTool to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
         step.run, _DEFAULT_CWL_VERSION
     )
+    processes = [workflow, step, step.run]
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -1642,11 +1414,10 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        processes,
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 83c1100..33023cb 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -665,7 +665,7 @@ PICKVALUE_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -673,13 +673,13 @@ def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) ->
                     cwl.ExpressionToolOutputParameter,
                 ),
             ):
-                new_outp.type_ = cwl.OutputArraySchema(items="File", type_="array")
+                new_outp.type_ = cwl.OutputArraySchema(items=["File", "Directory"], type_="array")
             elif isinstance(new_outp, cwl.CommandOutputParameter):
                 if new_outp.outputBinding:
+                    # the contents are for the expression
                     new_outp.outputBinding.outputEval = None
-                    new_outp.outputBinding.loadContents = None
                 new_outp.type_ = cwl.CommandOutputArraySchema(
-                    items="File",
+                    items=["File", "Directory"],
                     type_="array",
                 )
             else:
@@ -1113,76 +1113,95 @@ def process_level_reqs(
     skip_command_line2: bool,
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
-    # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # This is for reqs inside a CommandLineTool
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
-    # - the Process is passed to replace_expr_with_etool for later searching for JS expressionLibs
     # - in addition to adding the input to the step for the ETool/CTool result,
     #   add it to the Process.inputs as well
-    if not process.requirements:
-        return False
     modified = False
     target_process = step.run
     inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
-    generated_res_reqs: list[tuple[str, str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str, Any]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
     if not step.id:
         return False
-    step_name = step.id.split("#", 1)[-1]
-    for req_index, req in enumerate(process.requirements):
+    step_name = step.id.split("#", 1)[-1].split("/")[-1]
+
+    def replace(expression: str, name: str, inp_id: str, type_: Any) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_name}_{name}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.WorkflowInputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        cwl_utils.expression_refactor.add_input_to_process(
+            target_process,
+            _DEFAULT_CWL_VERSION,
+            inp_id,
+            type_,
+            process.loadingOptions,
+        )
+        return f"$(inputs.{inp_id})"
+
+    simple_fields: list[tuple[type, str, Any]] = [
+        *(
+            (cwl.ResourceRequirement, attr, ["long", "float"])
+            for attr in sorted(cwl.ResourceRequirement.attrs)
+        ),
+        (cwl.ToolTimeLimit, "timelimit", ["long", "float"]),
+        (cwl.NetworkAccess, "networkAccess", "boolean"),
+        (cwl.WorkReuse, "enableReuse", "boolean"),
+    ]
+    required = [type(req) for req in process.requirements or []]
+    overridden = [
+        hint
+        for hint in target_process.hints or []
+        if type(hint) in required and "$" in json_dumps(save(hint))
+    ]
+    if overridden:
+        modified = True
+        target_process.hints = [
+            hint for hint in target_process.hints if hint not in overridden
+        ] or None
+    pairs = [
+        *zip(process.requirements or [], target_process.requirements or []),
+        *zip(
+            [hint for hint in process.hints or [] if hint not in overridden],
+            target_process.hints or [],
+        ),
+    ]
+    for req, target_req in pairs:
+        for kind, attr, type_ in simple_fields:
+            if isinstance(req, kind):
+                expression = get_expression(getattr(req, attr, None), inputs, None)
+                if expression:
+                    setattr(
+                        target_req,
+                        attr,
+                        replace(
+                            expression,
+                            f"{kind.__name__}_{attr}",
+                            f"_{attr}",
+                            type_,
+                        ),
+                    )
         if isinstance(req, cwl_utils.parser.EnvVarRequirement) and req.envDef:
             for env_index, envDef in enumerate(req.envDef):
-                if envDef.envValue:
-                    expression = get_expression(envDef.envValue, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.WorkflowInputParameter(id=None, type_="string")
-                        etool_id = "_expression_{}_EnvVarRequirement_{}".format(
-                            step_name, env_index
-                        )
-                        replace_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index][
-                            env_index
-                        ].envValue = f"$(inputs._envDef{env_index})"
-                        generated_envVar_reqs.append((etool_id, env_index))
-        elif isinstance(req, cwl_utils.parser.ResourceRequirement):
-            for attr in cwl.ResourceRequirement.attrs:
-                this_attr = getattr(req, attr, None)
-                if this_attr:
-                    expression = get_expression(this_attr, inputs, None)
-                    if expression:
-                        modified = True
-                        target = cwl.WorkflowInputParameter(id=None, type_="long")
-                        etool_id = "_expression_{}_ResourceRequirement_{}".format(
-                            step_name, attr
-                        )
-                        replace_clt_hintreq_expr_with_etool(
-                            expression,
-                            etool_id,
-                            parent,
-                            target,
-                            step,
-                            replace_etool,
-                        )
-                        setattr(
-                            target_process.requirements[req_index],
-                            attr,
-                            f"$(inputs._{attr})",
-                        )
-                        generated_res_reqs.append((etool_id, attr))
-
+                expression = get_expression(envDef.envValue, inputs, None)
+                if expression:
+                    target_req.envDef[env_index].envValue = replace(
+                        expression,
+                        f"EnvVarRequirement_{env_index}",
+                        f"_envDef{env_index}",
+                        "string",
+                    )
         elif (
             isinstance(req, cwl_utils.parser.InitialWorkDirRequirement)
             and not skip_command_line2
@@ -1191,172 +1210,34 @@ def process_level_reqs(
             if isinstance(req.listing, str):
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
-                    modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    etool_id = "_expression_{}_InitialWorkDirRequirement".format(
-                        step_name
+                    target_req.listing = replace(
+                        expression, "InitialWorkDirRequirement", "_iwdr_listing", "Any"
                     )
-                    replace_expr_with_etool(
-                        expression,
-                        etool_id,
-                        parent,
-                        target,
-                        None,
-                        replace_etool,
-                        process,
-                    )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id="_iwdr_listing",
-                            source=f"{etool_id}/result",
-                        )
+                continue
+            for listing_index, entry in enumerate(req.listing):
+                name = f"InitialWorkDirRequirement_{listing_index}"
+                inp_id = f"_iwdr_listing_{listing_index}"
+                expression = get_expression(entry, inputs, None)
+                if expression:
+                    target_req.listing[listing_index] = replace(
+                        expression, name, inp_id, ["null", "Any"]
                     )
-                    cwl_utils.expression_refactor.add_input_to_process(
-                        target_process,
-                        _DEFAULT_CWL_VERSION,
-                        "_iwdr_listing",
-                        target_type,
-                        process.loadingOptions,
+                elif isinstance(entry, cwl_utils.parser.Dirent):
+                    expression = get_expression(
+                        entry.entry, inputs, None, strip_whitespace=False
                     )
-            else:
-                for listing_index, entry in enumerate(req.listing):
-                    expression = get_expression(entry, inputs, None)
                     if expression:
-                        modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
-                        target = cwl.WorkflowInputParameter(
-                            id=None,
-                            type_=target_type,
-                        )
-                        etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                            step_name, listing_index
+                        target_req.listing[listing_index].entry = replace(
+                            expression, name, inp_id, ["null", "Any"]
                         )
-                        replace_expr_with_etool(
+                    expression = get_expression(entry.entryname, inputs, None)
+                    if expression:
+                        target_req.listing[listing_index].entryname = replace(
                             expression,
-                            etool_id,
-                            parent,
-                            target,
-                            None,
-                            replace_etool,
-                            process,
-                        )
-                        target_process.requirements[req_index].listing[
-                            listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
-                        generated_iwdr_reqs.append(
-                            (etool_id, listing_index, target_type)
+                            f"{name}_entryname",
+                            f"{inp_id}_entryname",
+                            "string",
                         )
-                    elif isinstance(entry, cwl.Dirent):
-                        if entry.entry:
-                            expression = get_expression(entry.entry, inputs, None)
-                            if expression:
-                                modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=d_target_type,
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-
-                                replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    step,
-                                    replace_etool,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entry = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, d_target_type)
-                                )
-                        elif entry.entryname:
-                            expression = get_expression(entry.entryname, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
-                                    step_name, listing_index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    parent,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                    process,
-                                )
-                                target_process.requirements[req_index].listing[
-                                    listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
-                                    listing_index
-                                )
-                                generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
-                                )
-    for entry in generated_envVar_reqs:
-        name = f"_envDef{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "string", process.loadingOptions
-        )
-    for entry in generated_res_reqs:
-        name = f"_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, "long", process.loadingOptions
-        )
-    for entry in generated_iwdr_reqs:
-        name = f"_iwdr_listing_{entry[1]}"
-        step.in_.append(cwl.WorkflowStepInput(id=name, source=f"{entry[0]}/result"))
-        cwl_utils.expression_refactor.add_input_to_process(
-            target_process, _DEFAULT_CWL_VERSION, name, entry[2], process.loadingOptions
-        )
     return modified
 
 
@@ -1389,138 +1270,95 @@ def traverse_CommandLineTool(
     inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
+
+    def replace(
+        expression: str, inp_id: str, type_: Any, self_name: str | None = None
+    ) -> str:
+        """Compute the expression in an adjacent step, and refer to its result."""
+        nonlocal modified
+        modified = True
+        etool_id = f"_expression_{step_id}{inp_id}"
+        replace_step_clt_expr_with_etool(
+            expression,
+            etool_id,
+            parent,
+            cwl.WorkflowInputParameter(id=None, type_=type_),
+            step,
+            replace_etool,
+            self_name,
+        )
+        target_clt.inputs.append(
+            cwl_utils.expression_refactor.get_command_input_parameter(
+                target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, type_
+            )
+        )
+        step.in_.append(cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result"))
+        return f"$(inputs.{inp_id})"
+
     if clt.arguments and not skip_command_line1:
         for index, arg in enumerate(clt.arguments):
+            inp_id = f"_arguments_{index}"
             if isinstance(arg, str):
                 expression = get_expression(arg, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            valueFrom=f"$(inputs.{inp_id})",
+                            valueFrom=replace(expression, inp_id, ["null", "Any"]),
                         )
                     )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
-            elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
+            elif isinstance(arg, cwl_utils.parser.CommandLineBinding):
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = f"_arguments_{index}"
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
-                    target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
-                    )
-                    target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
-                        inp_id
-                    )
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            target_type,
-                        )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                    target_clt.arguments[index].valueFrom = replace(
+                        expression, inp_id, ["null", "Any"]
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
-        stream_value = getattr(clt, streamtype)
-        if stream_value:
-            expression = get_expression(stream_value, inputs, None)
-            if expression:
-                modified = True
-                inp_id = f"_{streamtype}"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                target_type = "string"
-                target = cwl.WorkflowInputParameter(id=None, type_=target_type)
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
-                )
-                setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                        inp_id,
-                        target_type,
-                    )
-                )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                )
-    for inp in clt.inputs:
+        expression = get_expression(getattr(clt, streamtype), inputs, None)
+        if expression:
+            setattr(
+                target_clt, streamtype, replace(expression, f"_{streamtype}", "string")
+            )
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
             )
             if expression:
-                modified = True
-                self_id = inp.id.split("#")[-1]
-                inp_id = f"_{self_id}_valueFrom"
-                etool_id = f"_expression_{step_id}{inp_id}"
-                replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
-                )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
-                target_clt.inputs.append(
-                    cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
-                    )
+                self_id = inp.id.split("#")[-1].split("/")[-1]
+                # without a value the binding is not evaluated
+                expression = (
+                    "${if (self === null) { return null; }\n" + expression.strip()[2:]
                 )
-                step.in_.append(
-                    cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
+                target_clt.inputs[index].inputBinding.valueFrom = replace(
+                    expression, f"_{self_id}_valueFrom", ["null", "Any"], self_id
                 )
-    for outp in clt.outputs:
+    outputEvals: list[tuple[int, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
-            if outp.outputBinding.glob:
-                expression = get_expression(outp.outputBinding.glob, inputs, None)
+            outp_id = outp.id.split("#")[-1].split("/")[-1]
+            globs = outp.outputBinding.glob
+            if isinstance(globs, str):
+                expression = get_expression(globs, inputs, None)
                 if expression:
-                    modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
-                    etool_id = f"_expression_{step_id}{inp_id}"
-                    glob_target_type = ["string", ArraySchema("string", "array")]
-                    target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
-                    replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                    target_clt.outputs[index].outputBinding.glob = replace(
+                        expression,
+                        f"_{outp_id}_glob",
+                        ["string", cwl.InputArraySchema(items="string", type_="array")],
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
-                    target_clt.inputs.append(
-                        cwl_utils.expression_refactor.get_command_input_parameter(
-                            target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-                            inp_id,
-                            glob_target_type,
+            elif globs:
+                for index2, glob in enumerate(globs):
+                    expression = get_expression(glob, inputs, None)
+                    if expression:
+                        target_clt.outputs[index].outputBinding.glob[index2] = replace(
+                            expression,
+                            f"_{outp_id}_glob_{index2}",
+                            [
+                                "string",
+                                cwl.InputArraySchema(items="string", type_="array"),
+                            ],
                         )
-                    )
-                    step.in_.append(
-                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
-                    )
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1536,204 +1374,138 @@ def traverse_CommandLineTool(
                     cast(dict[Any, Any], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
-                    modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    outputEvals.append((index, expression))
+    if outputEvals:
+        modified = True
+        replace_outputEvals_with_sub_workflow(
+            outputEvals, clt, parent, step, replace_etool
+        )
+    if modified and not skip_command_line1 and not skip_command_line2:
+        cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
-
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
-
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
-
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
-
-
-def replace_step_clt_expr_with_etool(
-    expr: str,
-    name: str,
-    workflow: cwl.Workflow,
-    target: cwl.WorkflowInputParameter,
+def replace_outputEvals_with_sub_workflow(
+    outputEvals: list[tuple[int, str]],
+    clt: cwl_utils.parser.CommandLineTool,
+    parent: cwl.Workflow,
     step: cwl.WorkflowStep,
     replace_etool: bool,
-    self_name: str | None = None,
 ) -> None:
-    """Convert a step level CWL Expression to a sibling expression step."""
-    etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
-    )
-    temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
-        expr,
-        _DEFAULT_CWL_VERSION,
-        target,
-        etool_inputs,
-        self_name,
-        step.run,
-        [workflow],
+    """Replace the tool of a step by a workflow of the tool and a step per outputEval."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    processes = [parent, step, clt]
+    new_clt = step.run
+    sub_wf_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+        new_clt, _DEFAULT_CWL_VERSION
     )
-    etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
-    if replace_etool:
-        processes = [workflow]
-        etool = cwl_utils.expression_refactor.etool_to_cltool(
-            temp_etool,
-            _DEFAULT_CWL_VERSION,
-            cwl_utils.expression_refactor.find_expressionLib(processes),
+    for tool_inp in new_clt.inputs:
+        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+        if tool_inp.id.startswith("_"):
+            sub_wf_inputs.append(
+                cwl.WorkflowInputParameter(id=tool_inp.id, type_=tool_inp.type_)
+            )
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    etool_steps = []
+    without_glob = []
+    for index, expression in outputEvals:
+        outp = clt.outputs[index]
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        etool_id = f"_expression_{outp_id}_outputEval"
+        has_self = bool(outp.outputBinding.glob)
+        if not has_self:
+            expression = "${var self = [];\n" + expression.strip()[2:]
+            without_glob.append(outp_id)
+        types = outp.type_ if isinstance(outp.type_, MutableSequence) else [outp.type_]
+        if "File" in types or "Directory" in types:
+            # a list with one file may be given for a file
+            expression = (
+                "${var result = (function() {"
+                + expression.strip()[2:-1]
+                + "})();\nreturn Array.isArray(result) && result.length < 2 "
+                + "? (result.length ? result[0] : null) : result;}"
+            )
+        etool = generate_etool_from_expr(
+            expression,
+            outp,
+            not has_self,
+            cwl.WorkflowInputParameter(
+                id=None,
+                type_=cwl.InputArraySchema(
+                    items=["File", "Directory"], type_="array"
+                ),
+            ),
+            processes,
         )
-    else:
-        etool = temp_etool
-    wf_step_inputs = copy.deepcopy(step.in_)
-    for wf_step_input in wf_step_inputs:
-        wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
-    workflow.steps.append(
-        cwl.WorkflowStep(
-            id=name,
-            in_=wf_step_inputs,
-            out=[cwl.WorkflowStepOutput("result")],
-            run=etool,
+        etool.inputs.extend(
+            cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
+                clt, _DEFAULT_CWL_VERSION
+            )
         )
+        etool_step_inputs = [
+            cwl.WorkflowStepInput(id=inp.id, source=inp.id)
+            for inp in sub_wf_inputs
+            if not inp.id.startswith("_")
+        ]
+        if has_self:
+            etool_step_inputs.append(
+                cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
+            )
+        final_etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
+        if replace_etool:
+            final_etool = cwl_utils.expression_refactor.etool_to_cltool(
+                etool,
+                _DEFAULT_CWL_VERSION,
+                cwl_utils.expression_refactor.find_expressionLib(processes),
+            )
+        else:
+            final_etool = etool
+        etool_steps.append(
+            cwl.WorkflowStep(
+                id=etool_id,
+                in_=etool_step_inputs,
+                out=[cwl.WorkflowStepOutput("result")],
+                run=final_etool,
+            )
+        )
+        for sub_wf_output in sub_wf_outputs:
+            if sub_wf_output.id == outp_id:
+                sub_wf_output.outputSource = f"{etool_id}/result"
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            new_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    new_clt.id = None
+    for tool_out in new_clt.outputs:
+        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
+    new_clt.outputs = [out for out in new_clt.outputs if out.id not in without_glob]
+    new_clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=[cwl.WorkflowStepInput(id=inp.id, source=inp.id) for inp in sub_wf_inputs],
+        out=[out.id for out in new_clt.outputs],
+        run=new_clt,
     )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[new_clt_step, *etool_steps],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
+
+
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add the SubworkflowFeatureRequirement if it isn't there."""
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements or []
+    ):
+        workflow.requirements = [
+            *(workflow.requirements or []),
+            cwl.SubworkflowFeatureRequirement(),
+        ]
 
 
-def replace_clt_hintreq_expr_with_etool(
+def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
@@ -1742,11 +1514,11 @@ def replace_clt_hintreq_expr_with_etool(
     replace_etool: bool,
     self_name: str | None = None,
 ) -> None:
-    """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
-    # Same as replace_step_clt_expr_with_etool or different?
+    """Convert an expression inside a CommandLineTool to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
         step.run, _DEFAULT_CWL_VERSION
     )
+    processes = [workflow, step, step.run]
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -1754,11 +1526,10 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        processes,
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
-- 
2.43.0


From 33d9d780f5f9e3b8d5db3e3a3ccec48424b0d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 63/75] fix: refactoring a tool on its own crashed, or lost
 inputs

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  57 ++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py |  57 ++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py |  57 ++++---
 src/cwl_utils/expression_refactor.py          | 159 ++++++++++++------
 4 files changed, 201 insertions(+), 129 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 9d400da..2b50b26 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -267,7 +267,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -292,7 +292,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -309,7 +309,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -319,6 +319,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -336,7 +337,13 @@ def traverse(
                 process2.expression = expression
             else:
                 process2 = process
-            return etool_to_cltool(process2), True
+            return (
+                etool_to_cltool(
+                    process2,
+                    cwl_utils.expression_refactor.find_expressionLib([process]),
+                ),
+                True,
+            )
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -1447,19 +1454,20 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_="File" if clt_inp.type_ == "stdin" else clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
+                        **load_options(clt_inp),
                     )
                 )
     return inputs
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep,
 ) -> list[cwl.OutputParameter]:
     """
-    Copy CommandLineTool outputs into the equivalent Workflow output parameters.
+    Copy the outputs of the process of a step into the equivalent Workflow output parameters.
 
     Connects the outputSources for each of the new output parameters to the step
     they came from.
@@ -1467,29 +1475,26 @@ def cltool_step_outputs_to_workflow_outputs(
     outputs = yaml.comments.CommentedSeq()
     if not cltool_step.id:
         raise WorkflowException(f"Missing step id from {cltool_step}.")
-    default_step_id = cltool_step.id.split("#")[-1]
+    default_step_id = cltool_step.id.split("#")[-1].split("/")[-1]
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
-            else:
-                outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=f"{default_step_id}/{clt_out_id}",
+                    type_=(
+                        "File" if clt_out.type_ in ("stdout", "stderr") else clt_out.type_
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 13e69bd..df68e65 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -275,7 +275,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -300,7 +300,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -317,7 +317,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -327,6 +327,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -344,7 +345,13 @@ def traverse(
                 process2.expression = expression
             else:
                 process2 = process
-            return etool_to_cltool(process2), True
+            return (
+                etool_to_cltool(
+                    process2,
+                    cwl_utils.expression_refactor.find_expressionLib([process]),
+                ),
+                True,
+            )
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -1457,19 +1464,20 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_="File" if clt_inp.type_ == "stdin" else clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
+                        **load_options(clt_inp, cwl.InputBinding),
                     )
                 )
     return inputs
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep,
 ) -> list[cwl.OutputParameter]:
     """
-    Copy CommandLineTool outputs into the equivalent Workflow output parameters.
+    Copy the outputs of the process of a step into the equivalent Workflow output parameters.
 
     Connects the outputSources for each of the new output parameters to the step
     they came from.
@@ -1477,29 +1485,26 @@ def cltool_step_outputs_to_workflow_outputs(
     outputs = yaml.comments.CommentedSeq()
     if not cltool_step.id:
         raise WorkflowException(f"Missing step id from {cltool_step}.")
-    default_step_id = cltool_step.id.split("#")[-1]
+    default_step_id = cltool_step.id.split("#")[-1].split("/")[-1]
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
-            else:
-                outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=f"{default_step_id}/{clt_out_id}",
+                    type_=(
+                        "File" if clt_out.type_ in ("stdout", "stderr") else clt_out.type_
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 33023cb..f47f9d8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -279,7 +279,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -304,7 +304,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -321,7 +321,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -331,6 +331,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -348,7 +349,13 @@ def traverse(
                 process2.expression = expression
             else:
                 process2 = process
-            return etool_to_cltool(process2), True
+            return (
+                etool_to_cltool(
+                    process2,
+                    cwl_utils.expression_refactor.find_expressionLib([process]),
+                ),
+                True,
+            )
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -1569,19 +1576,20 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_="File" if clt_inp.type_ == "stdin" else clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
+                        **load_options(clt_inp, cwl.InputBinding),
                     )
                 )
     return inputs
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep,
 ) -> list[cwl.OutputParameter]:
     """
-    Copy CommandLineTool outputs into the equivalent Workflow output parameters.
+    Copy the outputs of the process of a step into the equivalent Workflow output parameters.
 
     Connects the outputSources for each of the new output parameters to the step
     they came from.
@@ -1589,29 +1597,26 @@ def cltool_step_outputs_to_workflow_outputs(
     outputs = yaml.comments.CommentedSeq()
     if not cltool_step.id:
         raise WorkflowException(f"Missing step id from {cltool_step}.")
-    default_step_id = cltool_step.id.split("#")[-1]
+    default_step_id = cltool_step.id.split("#")[-1].split("/")[-1]
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
-            else:
-                outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=clt_out.type_,
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=f"{default_step_id}/{clt_out_id}",
+                    type_=(
+                        "File" if clt_out.type_ in ("stdout", "stderr") else clt_out.type_
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index dd3a48c..4ebbbac 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -512,64 +512,121 @@ def get_input_for_id(
     return None
 
 
+def resolve_step(step: WorkflowStep) -> None:
+    """If the step's Process is not inline, load it, and shorten the identifiers."""
+    if isinstance(step.run, str):
+        # FIXME: with strong typing, it won't be possible to directly assign to step.run
+        step.run = cast(
+            Process, load_document_by_uri(step.run, loadingOptions=step.loadingOptions)
+        )
+    shorten_ids(step.run)
+
+
+def short_id(uri: str) -> str:
+    """Get the last part of an identifier."""
+    return uri.split("#")[-1].split("/")[-1]
+
+
+def shorten_ids(process: Process) -> None:
+    """
+    Remove the path from the identifiers, and the references to them, of a Process.
+
+    The path is another one once the Process is a part of the result.
+    """
+    for param in chain(process.inputs, process.outputs):
+        param.id = short_id(param.id)
+    if not isinstance(process, Workflow):
+        return
+    input_ids = {param.id for param in process.inputs}
+    for step in process.steps:
+        step.id = short_id(step.id)
+    step_ids = {step.id for step in process.steps}
+
+    def short_source(source: str) -> str:
+        parts = source.split("#")[-1].split("/")
+        if len(parts) > 1 and parts[-2] in step_ids:
+            return "/".join(parts[-2:])
+        return parts[-1] if parts[-1] in input_ids else source
+
+    def short_sources(sources: Any) -> Any:
+        if isinstance(sources, str):
+            return short_source(sources)
+        return sources and [short_source(source) for source in sources]
+
+    for output in process.outputs:
+        output.outputSource = short_sources(output.outputSource)
+    for step in process.steps:
+        for inp in step.in_:
+            inp.id = short_id(inp.id)
+            inp.source = short_sources(inp.source)
+        if isinstance(step.scatter, str):
+            step.scatter = short_id(step.scatter)
+        elif step.scatter:
+            step.scatter = [short_id(target) for target in step.scatter]
+        step.out = [
+            (
+                short_id(out)
+                if isinstance(out, str)
+                else type(out)(id=short_id(out.id), loadingOptions=out.loadingOptions)
+            )
+            for out in step.out
+        ]
+
+
 def load_step(
     step: WorkflowStep,
     replace_etool: bool,
     skip_command_line1: bool,
     skip_command_line2: bool,
 ) -> bool:
-    """If the step's Process is not inline, load and process it."""
+    """If the step's Process is not inline, load it, and process it."""
+    resolve_step(step)
     modified = False
-    if isinstance(step.run, str):
-        process = cast(
-            Process, load_document_by_uri(step.run, loadingOptions=step.loadingOptions)
-        )
-        # FIXME: with strong typing, it won't be possible to directly assign to step.run
-        match process.cwlVersion:
-            case "v1.0":
-                step.run, modified = cwl_v1_0_expression_refactor.traverse(
-                    cast(
-                        cwl_v1_0.CommandLineTool
-                        | cwl_v1_0.ExpressionTool
-                        | cwl_v1_0.Workflow,
-                        process,
-                    ),
-                    replace_etool,
-                    True,
-                    skip_command_line1,
-                    skip_command_line2,
-                )
-            case "v1.1":
-                step.run, modified = cwl_v1_1_expression_refactor.traverse(
-                    cast(
-                        cwl_v1_1.CommandLineTool
-                        | cwl_v1_1.ExpressionTool
-                        | cwl_v1_1.Workflow,
-                        process,
-                    ),
-                    replace_etool,
-                    True,
-                    skip_command_line1,
-                    skip_command_line2,
-                )
-            case "v1.2":
-                step.run, modified = cwl_v1_2_expression_refactor.traverse(
-                    cast(
-                        cwl_v1_2.CommandLineTool
-                        | cwl_v1_2.ExpressionTool
-                        | cwl_v1_2.Workflow
-                        | cwl_v1_2.Operation,
-                        process,
-                    ),
-                    replace_etool,
-                    True,
-                    skip_command_line1,
-                    skip_command_line2,
-                )
-            case _:
-                raise WorkflowException(
-                    f"Sorry, {process.cwlVersion} is not a supported CWL version by this tool.",
-                )
+    match step.run:
+        case cwl_v1_0.Process():
+            step.run, modified = cwl_v1_0_expression_refactor.traverse(
+                cast(
+                    cwl_v1_0.CommandLineTool
+                    | cwl_v1_0.ExpressionTool
+                    | cwl_v1_0.Workflow,
+                    step.run,
+                ),
+                replace_etool,
+                True,
+                skip_command_line1,
+                skip_command_line2,
+            )
+        case cwl_v1_1.Process():
+            step.run, modified = cwl_v1_1_expression_refactor.traverse(
+                cast(
+                    cwl_v1_1.CommandLineTool
+                    | cwl_v1_1.ExpressionTool
+                    | cwl_v1_1.Workflow,
+                    step.run,
+                ),
+                replace_etool,
+                True,
+                skip_command_line1,
+                skip_command_line2,
+            )
+        case cwl_v1_2.Process():
+            step.run, modified = cwl_v1_2_expression_refactor.traverse(
+                cast(
+                    cwl_v1_2.CommandLineTool
+                    | cwl_v1_2.ExpressionTool
+                    | cwl_v1_2.Workflow
+                    | cwl_v1_2.Operation,
+                    step.run,
+                ),
+                replace_etool,
+                True,
+                skip_command_line1,
+                skip_command_line2,
+            )
+        case _:
+            raise WorkflowException(
+                f"Sorry, {step.run.cwlVersion} is not a supported CWL version by this tool.",
+            )
     return modified
 
 
-- 
2.43.0


From 98f3e3264a1544c71e3bfd5110a03ae6562aa4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:17 +0000
Subject: [PATCH 64/75] fix: refactored requirements of a workflow were lost or
 evaluated without inputs

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 447 +++++------------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 453 +++++------------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 468 +++++-------------
 src/cwl_utils/expression_refactor.py          |  36 ++
 4 files changed, 388 insertions(+), 1016 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 2b50b26..ba46d1e 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from cwl_utils.types import is_file_or_directory
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -674,319 +673,52 @@ def process_workflow_inputs_and_outputs(
 
 
 def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
+    workflow: cwl.Workflow,
 ) -> bool:
     """
-    Convert any expressions in a workflow's reqs and hints.
+    Move a workflow's and its steps' requirements that have expressions.
 
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
+    The expressions are about the inputs of the individual processes, thus each of the
+    requirements is copied to the processes that don't have that requirement type.
+    Gives True if some of them have no effect at all, and are gone.
     """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(id=None, type_="long")
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.InputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if is_file_or_directory(expr_result):
-                                            target = cwl.InputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.InputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.InputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
+    dropped = False
+
+    def movable(req: cwl.ProcessRequirement) -> bool:
+        text = json_dumps(save(req))
+        return isinstance(
+            req,
+            (
+                cwl_utils.parser.EnvVarRequirement,
+                cwl_utils.parser.ResourceRequirement,
+                cwl_utils.parser.InitialWorkDirRequirement,
+            ),
+        ) and ("$(" in text or "${" in text)
 
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
+    for holder in [*workflow.steps, workflow]:
+        moving = [req for req in holder.requirements or [] if movable(req)]
+        if not moving:
+            continue
+        moved: set[int] = set()
+        for step in workflow.steps if holder is workflow else [holder]:
+            if not isinstance(
+                step.run, (cwl_utils.parser.CommandLineTool, cwl_utils.parser.Workflow)
+            ):
                 continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
+            present = {type(req).__name__ for req in step.run.requirements or []}
+            if holder is workflow:
+                present |= {type(req).__name__ for req in step.requirements or []}
+            missing = [req for req in moving if type(req).__name__ not in present]
+            moved.update(id(req) for req in missing)
+            step.run.requirements = [
+                *(step.run.requirements or []),
+                *copy.deepcopy(missing),
+            ] or None
+        holder.requirements = [
+            req for req in holder.requirements or [] if req not in moving
+        ] or None
+        dropped |= len(moved) < len(moving)
+    return dropped
 
 
 def process_level_reqs(
@@ -1390,6 +1122,42 @@ def require_sub_workflows(workflow: cwl.Workflow) -> None:
         ]
 
 
+def wrap_scattered_step(step: cwl.WorkflowStep, parent: cwl.Workflow) -> None:
+    """Scatter over a sub-workflow that has the step, as its expressions are evaluated for each item."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    sub_wf_inputs = []
+    sub_step_inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        sub_wf_inputs.append(
+            cwl.InputParameter(id=inp_id, type_=["null", "Any"])
+        )
+        sub_step_input = cwl.WorkflowStepInput(
+            id=inp_id, source=inp_id, valueFrom=inp.valueFrom
+        )
+        inp.valueFrom = None
+        sub_step_inputs.append(sub_step_input)
+    # there may be no more than the expression
+    step.in_ = [
+        inp for inp in step.in_ if inp.source is not None or inp.default is not None
+    ]
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    sub_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=sub_step_inputs,
+        out=[outp.id for outp in sub_wf_outputs],
+        run=step.run,
+    )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[sub_step],
+        cwlVersion=parent.cwlVersion,
+    )
+    cwl_utils.expression_refactor.inherit_JSReq(step, parent)
+    require_sub_workflows(parent)
+
+
 def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
@@ -1820,35 +1588,44 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
-    for index, step in enumerate(workflow.steps):
-        if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
-            modified = True
-        else:
-            step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
-                modified = True
     for step in workflow.steps:
-        if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
+        cwl_utils.expression_refactor.resolve_step(step)
+        cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
+    if process_workflow_reqs_and_hints(workflow):
+        modified = True
+    for step in workflow.steps:
+        if cwl_utils.expression_refactor.load_step(
+            step, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
+    for step in list(workflow.steps):
+        if step.scatter:
+            # are there expressions, which are evaluated for each item?
+            trial_step = copy.deepcopy(step)
+            trial_workflow = copy.copy(workflow)
+            trial_workflow.steps = list(workflow.steps)
+            if traverse_step(
+                trial_step,
+                trial_workflow,
+                replace_etool,
+                skip_command_line1,
+                skip_command_line2,
+            ):
                 modified = True
+                wrap_scattered_step(step, workflow)
+                traverse_workflow(
+                    step.run, replace_etool, skip_command_line1, skip_command_line2
+                )
+        elif traverse_step(
+            step, workflow, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x
-            for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
-        ]
-    else:
-        workflow.requirements = None
+    removable: tuple[type, ...] = (cwl.InlineJavascriptRequirement,)
+    if not cwl_utils.expression_refactor.uses_valueFrom(workflow):
+        removable += (cwl.StepInputExpressionRequirement,)
+    workflow.requirements = [
+        x for x in workflow.requirements or [] if not isinstance(x, removable)
+    ] or None
     return workflow, modified
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index df68e65..b504de4 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from cwl_utils.types import is_file_or_directory
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -682,321 +681,52 @@ def process_workflow_inputs_and_outputs(
 
 
 def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
+    workflow: cwl.Workflow,
 ) -> bool:
     """
-    Convert any expressions in a workflow's reqs and hints.
+    Move a workflow's and its steps' requirements that have expressions.
 
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
+    The expressions are about the inputs of the individual processes, thus each of the
+    requirements is copied to the processes that don't have that requirement type.
+    Gives True if some of them have no effect at all, and are gone.
     """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None, type_="long"
-                                )
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.WorkflowInputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if is_file_or_directory(expr_result):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.WorkflowInputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
+    dropped = False
+
+    def movable(req: cwl.ProcessRequirement) -> bool:
+        text = json_dumps(save(req))
+        return isinstance(
+            req,
+            (
+                cwl_utils.parser.EnvVarRequirement,
+                cwl_utils.parser.ResourceRequirement,
+                cwl_utils.parser.InitialWorkDirRequirement,
+            ),
+        ) and ("$(" in text or "${" in text)
 
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
+    for holder in [*workflow.steps, workflow]:
+        moving = [req for req in holder.requirements or [] if movable(req)]
+        if not moving:
+            continue
+        moved: set[int] = set()
+        for step in workflow.steps if holder is workflow else [holder]:
+            if not isinstance(
+                step.run, (cwl_utils.parser.CommandLineTool, cwl_utils.parser.Workflow)
+            ):
                 continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
+            present = {type(req).__name__ for req in step.run.requirements or []}
+            if holder is workflow:
+                present |= {type(req).__name__ for req in step.requirements or []}
+            missing = [req for req in moving if type(req).__name__ not in present]
+            moved.update(id(req) for req in missing)
+            step.run.requirements = [
+                *(step.run.requirements or []),
+                *copy.deepcopy(missing),
+            ] or None
+        holder.requirements = [
+            req for req in holder.requirements or [] if req not in moving
+        ] or None
+        dropped |= len(moved) < len(moving)
+    return dropped
 
 
 def process_level_reqs(
@@ -1400,6 +1130,46 @@ def require_sub_workflows(workflow: cwl.Workflow) -> None:
         ]
 
 
+def wrap_scattered_step(step: cwl.WorkflowStep, parent: cwl.Workflow) -> None:
+    """Scatter over a sub-workflow that has the step, as its expressions are evaluated for each item."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    sub_wf_inputs = []
+    sub_step_inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        sub_wf_inputs.append(
+            cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"])
+        )
+        sub_step_input = cwl.WorkflowStepInput(
+            id=inp_id, source=inp_id, valueFrom=inp.valueFrom
+        )
+        inp.valueFrom = None
+        sub_step_input.loadContents = inp.loadContents
+        sub_step_input.loadListing = inp.loadListing
+        inp.loadContents = None
+        inp.loadListing = None
+        sub_step_inputs.append(sub_step_input)
+    # there may be no more than the expression
+    step.in_ = [
+        inp for inp in step.in_ if inp.source is not None or inp.default is not None
+    ]
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    sub_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=sub_step_inputs,
+        out=[outp.id for outp in sub_wf_outputs],
+        run=step.run,
+    )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[sub_step],
+        cwlVersion=parent.cwlVersion,
+    )
+    cwl_utils.expression_refactor.inherit_JSReq(step, parent)
+    require_sub_workflows(parent)
+
+
 def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
@@ -1832,35 +1602,44 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
-    for index, step in enumerate(workflow.steps):
-        if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
-            modified = True
-        else:
-            step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
-                modified = True
     for step in workflow.steps:
-        if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
+        cwl_utils.expression_refactor.resolve_step(step)
+        cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
+    if process_workflow_reqs_and_hints(workflow):
+        modified = True
+    for step in workflow.steps:
+        if cwl_utils.expression_refactor.load_step(
+            step, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
+    for step in list(workflow.steps):
+        if step.scatter:
+            # are there expressions, which are evaluated for each item?
+            trial_step = copy.deepcopy(step)
+            trial_workflow = copy.copy(workflow)
+            trial_workflow.steps = list(workflow.steps)
+            if traverse_step(
+                trial_step,
+                trial_workflow,
+                replace_etool,
+                skip_command_line1,
+                skip_command_line2,
+            ):
                 modified = True
+                wrap_scattered_step(step, workflow)
+                traverse_workflow(
+                    step.run, replace_etool, skip_command_line1, skip_command_line2
+                )
+        elif traverse_step(
+            step, workflow, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x
-            for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
-        ]
-    else:
-        workflow.requirements = None
+    removable: tuple[type, ...] = (cwl.InlineJavascriptRequirement,)
+    if not cwl_utils.expression_refactor.uses_valueFrom(workflow):
+        removable += (cwl.StepInputExpressionRequirement,)
+    workflow.requirements = [
+        x for x in workflow.requirements or [] if not isinstance(x, removable)
+    ] or None
     return workflow, modified
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index f47f9d8..c7ff8a2 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from collections.abc import Mapping
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -787,328 +786,52 @@ def process_workflow_inputs_and_outputs(
 
 
 def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
+    workflow: cwl.Workflow,
 ) -> bool:
     """
-    Convert any expressions in a workflow's reqs and hints.
+    Move a workflow's and its steps' requirements that have expressions.
 
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
+    The expressions are about the inputs of the individual processes, thus each of the
+    requirements is copied to the processes that don't have that requirement type.
+    Gives True if some of them have no effect at all, and are gone.
     """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None, type_="long"
-                                )
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.WorkflowInputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if (
-                                            isinstance(expr_result, Mapping)
-                                            and "class" in expr_result
-                                            and (
-                                                expr_result["class"]
-                                                in ("File", "Directory")
-                                            )
-                                        ):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.WorkflowInputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
+    dropped = False
+
+    def movable(req: cwl.ProcessRequirement) -> bool:
+        text = json_dumps(save(req))
+        return isinstance(
+            req,
+            (
+                cwl_utils.parser.EnvVarRequirement,
+                cwl_utils.parser.ResourceRequirement,
+                cwl_utils.parser.InitialWorkDirRequirement,
+            ),
+        ) and ("$(" in text or "${" in text)
 
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
+    for holder in [*workflow.steps, workflow]:
+        moving = [req for req in holder.requirements or [] if movable(req)]
+        if not moving:
+            continue
+        moved: set[int] = set()
+        for step in workflow.steps if holder is workflow else [holder]:
+            if not isinstance(
+                step.run, (cwl_utils.parser.CommandLineTool, cwl_utils.parser.Workflow)
+            ):
                 continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
+            present = {type(req).__name__ for req in step.run.requirements or []}
+            if holder is workflow:
+                present |= {type(req).__name__ for req in step.requirements or []}
+            missing = [req for req in moving if type(req).__name__ not in present]
+            moved.update(id(req) for req in missing)
+            step.run.requirements = [
+                *(step.run.requirements or []),
+                *copy.deepcopy(missing),
+            ] or None
+        holder.requirements = [
+            req for req in holder.requirements or [] if req not in moving
+        ] or None
+        dropped |= len(moved) < len(moving)
+    return dropped
 
 
 def process_level_reqs(
@@ -1512,6 +1235,54 @@ def require_sub_workflows(workflow: cwl.Workflow) -> None:
         ]
 
 
+def wrap_scattered_step(step: cwl.WorkflowStep, parent: cwl.Workflow) -> None:
+    """Scatter over a sub-workflow that has the step, as its expressions are evaluated for each item."""
+    step_id = step.id.split("#")[-1].split("/")[-1]
+    sub_wf_inputs = []
+    sub_step_inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        sub_wf_inputs.append(
+            cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"])
+        )
+        sub_step_input = cwl.WorkflowStepInput(
+            id=inp_id, source=inp_id, valueFrom=inp.valueFrom
+        )
+        inp.valueFrom = None
+        sub_step_input.loadContents = inp.loadContents
+        sub_step_input.loadListing = inp.loadListing
+        inp.loadContents = None
+        inp.loadListing = None
+        sub_step_inputs.append(sub_step_input)
+    # there may be no more than the expression
+    step.in_ = [
+        inp for inp in step.in_ if inp.source is not None or inp.default is not None
+    ]
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(step)
+    if step.when:
+        for outp in sub_wf_outputs:
+            types = (
+                outp.type_ if isinstance(outp.type_, MutableSequence) else [outp.type_]
+            )
+            outp.type_ = [*types] if "null" in types else ["null", *types]
+    sub_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=sub_step_inputs,
+        out=[outp.id for outp in sub_wf_outputs],
+        run=step.run,
+        when=step.when,
+    )
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=[sub_step],
+        cwlVersion=parent.cwlVersion,
+    )
+    step.when = None
+    cwl_utils.expression_refactor.inherit_JSReq(step, parent)
+    require_sub_workflows(parent)
+
+
 def replace_step_clt_expr_with_etool(
     expr: str,
     name: str,
@@ -2027,35 +1798,44 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
-    for index, step in enumerate(workflow.steps):
-        if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
-            modified = True
-        else:
-            step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
-                modified = True
     for step in workflow.steps:
-        if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
-            if step_modified:
+        cwl_utils.expression_refactor.resolve_step(step)
+        cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
+    if process_workflow_reqs_and_hints(workflow):
+        modified = True
+    for step in workflow.steps:
+        if cwl_utils.expression_refactor.load_step(
+            step, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
+    for step in list(workflow.steps):
+        if step.scatter:
+            # are there expressions, which are evaluated for each item?
+            trial_step = copy.deepcopy(step)
+            trial_workflow = copy.copy(workflow)
+            trial_workflow.steps = list(workflow.steps)
+            if traverse_step(
+                trial_step,
+                trial_workflow,
+                replace_etool,
+                skip_command_line1,
+                skip_command_line2,
+            ):
                 modified = True
+                wrap_scattered_step(step, workflow)
+                traverse_workflow(
+                    step.run, replace_etool, skip_command_line1, skip_command_line2
+                )
+        elif traverse_step(
+            step, workflow, replace_etool, skip_command_line1, skip_command_line2
+        ):
+            modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x
-            for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
-            )
-        ]
-    else:
-        workflow.requirements = None
+    removable: tuple[type, ...] = (cwl.InlineJavascriptRequirement,)
+    if not cwl_utils.expression_refactor.uses_valueFrom(workflow):
+        removable += (cwl.StepInputExpressionRequirement,)
+    workflow.requirements = [
+        x for x in workflow.requirements or [] if not isinstance(x, removable)
+    ] or None
     return workflow, modified
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 4ebbbac..3a4b96d 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -573,6 +573,42 @@ def shorten_ids(process: Process) -> None:
         ]
 
 
+def inherit_JSReq(step: WorkflowStep, parent: Workflow) -> None:
+    """Give the step's Process the requirements for expressions, which are removed from the parent."""
+    for requirement, uses in (
+        (InlineJavascriptRequirement, (CommandLineTool, ExpressionTool, Workflow)),
+        (
+            cwl_v1_0.StepInputExpressionRequirement
+            | cwl_v1_1.StepInputExpressionRequirement
+            | cwl_v1_2.StepInputExpressionRequirement,
+            (Workflow,),
+        ),
+    ):
+        if not isinstance(step.run, uses) or any(
+            isinstance(req, requirement) for req in step.run.requirements or []
+        ):
+            continue
+        for holder in (step, parent):
+            inherited = [
+                req for req in holder.requirements or [] if isinstance(req, requirement)
+            ]
+            if inherited:
+                step.run.requirements = [
+                    *(step.run.requirements or []),
+                    copy.deepcopy(inherited[-1]),
+                ]
+                break
+
+
+def uses_valueFrom(workflow: Workflow) -> bool:
+    """Check for a valueFrom in a step's input, here or in a nested Workflow."""
+    return any(
+        any(inp.valueFrom for inp in step.in_)
+        or (isinstance(step.run, Workflow) and uses_valueFrom(step.run))
+        for step in workflow.steps
+    )
+
+
 def load_step(
     step: WorkflowStep,
     replace_etool: bool,
-- 
2.43.0


From 50e921b7138417c40fb61fcf734d7fdf22c451f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:22 +0000
Subject: [PATCH 65/75] fix: refactored valueFrom and when were evaluated with
 other inputs, or the wrong self

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 219 +++++----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 212 ++++-----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 249 +++++-------------
 3 files changed, 183 insertions(+), 497 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index ba46d1e..06466f5 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -1323,168 +1322,86 @@ def traverse_step(
     inputs = empty_inputs(step, parent)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
+            self: Any = inp.default
+            with suppress(WorkflowException):
                 if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                    self = [
+                        example_input(utils.type_for_source(parent, source))
+                        for source in inp.source
+                    ]
+                elif inp.source:
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.InputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
-    # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
+                inp.default = None
+                inp.linkMerge = None
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
-        clt_modified = traverse_CommandLineTool(
+        if process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        ):
+            modified = True
+        if traverse_CommandLineTool(
             original_process,
             parent,
             step,
             replace_etool,
             skip_command_line1,
             skip_command_line2,
-        )
-        if clt_modified:
+        ):
             modified = True
     return modified
 
 
 def workflow_step_to_InputParameters(
     step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> list[
+) -> MutableSequence[
     cwl_utils.parser.CommandInputParameter
     | cwl_utils.parser.CommandOutputParameter
     | cwl_utils.parser.WorkflowInputParameter
 ]:
-    """Create InputParameters to match the given WorkflowStep inputs."""
+    """Create WorkflowInputParameters to match the given WorkflowStep inputs."""
     params = []
     for inp in step_ins:
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    if not p.type_:
-                        raise WorkflowException(
-                            f"Don't know how to get type id for {p!r}."
-                        )
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(p.type_)
-                    params.append(p)
-            else:
-                if not param.type_:
-                    raise WorkflowException(
-                        f"Don't know how to get type id for {param!r}."
+        if inp_id == except_in_id or inp_id.startswith("_"):
+            continue
+        param = cwl.InputParameter(id=inp_id, type_=["null", "Any"])
+        if isinstance(inp.source, str) and not inp.linkMerge:
+            # the type is only known for inputs of the workflow
+            for wf_input in parent.inputs:
+                if wf_input.id == inp.source and not inp.valueFrom:
+                    param = copy.deepcopy(wf_input)
+                    param.id = inp_id
+                    param.type_ = clean_type_ids(
+                        cast(ArraySchema | cwl.InputRecordSchema, param.type_)
                     )
-                param.id = inp_id
-                param.type_ = clean_type_ids(param.type_)
-                params.append(param)
+        params.append(param)
     return params
 
 
@@ -1492,35 +1409,36 @@ def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
+    target = cwl_utils.expression_refactor.get_input_for_id(
+        step_inp.id, original_process
+    )
+    # an input that the process doesn't have is for other expressions,
+    # and null is replaced by the default of the process
+    if not target or target.default is not None:
+        target = cwl.InputParameter(id=None, type_=["null", "Any"])
     etool_inputs = workflow_step_to_InputParameters(
         original_step_ins, workflow, step_inp_id
     )
-    if source:
-        source_param = cwl.InputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
+    etool_inputs.append(
+        cwl.InputParameter(id="self", type_=["null", "Any"])
+    )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        "self",
         original_process,
         [workflow, step],
     )
@@ -1539,43 +1457,24 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
-    for wf_step_input in wf_step_inputs:
+    wf_step_inputs = []
+    for wf_step_input in copy.deepcopy(original_step_ins):
+        if not wf_step_input.id:
+            continue
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-        if wf_step_input.valueFrom:
-            wf_step_input.valueFrom = None
-        if wf_step_input.source:
-            if isinstance(wf_step_input.source, MutableSequence):
-                for index, inp_source in enumerate(wf_step_input.source):
-                    wf_step_input.source[index] = inp_source.split("#")[-1]
-            else:
-                wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
+        wf_step_input.valueFrom = None
+        if wf_step_input.id == step_inp_id:
+            wf_step_input.id = "self"
+        if not wf_step_input.id.startswith("_") and (
+            wf_step_input.source or wf_step_input.default is not None
+        ):
+            wf_step_inputs.append(wf_step_input)
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index b504de4..aee0076 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -1339,132 +1338,57 @@ def traverse_step(
     inputs = empty_inputs(step, parent)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
+            self: Any = inp.default
+            with suppress(WorkflowException):
                 if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                    self = [
+                        example_input(utils.type_for_source(parent, source))
+                        for source in inp.source
+                    ]
+                elif inp.source:
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl_utils.parser.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
-    # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
+                inp.default = None
+                inp.linkMerge = None
+                inp.loadContents = None
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
-        clt_modified = traverse_CommandLineTool(
+        if process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        ):
+            modified = True
+        if traverse_CommandLineTool(
             original_process,
             parent,
             step,
             replace_etool,
             skip_command_line1,
             skip_command_line2,
-        )
-        if clt_modified:
+        ):
             modified = True
     return modified
 
@@ -1482,21 +1406,19 @@ def workflow_step_to_WorkflowInputParameters(
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
+        if inp_id == except_in_id or inp_id.startswith("_"):
+            continue
+        param = cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"])
+        if isinstance(inp.source, str) and not inp.linkMerge:
+            # the type is only known for inputs of the workflow
+            for wf_input in parent.inputs:
+                if wf_input.id == inp.source and not inp.valueFrom:
+                    param = copy.deepcopy(wf_input)
+                    param.id = inp_id
+                    param.type_ = clean_type_ids(
+                        cast(ArraySchema | cwl.InputRecordSchema, param.type_)
                     )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
+        params.append(param)
     return params
 
 
@@ -1504,35 +1426,38 @@ def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
+    target = cwl_utils.expression_refactor.get_input_for_id(
+        step_inp.id, original_process
+    )
+    # an input that the process doesn't have is for other expressions,
+    # and null is replaced by the default of the process
+    if not target or target.default is not None:
+        target = cwl.WorkflowInputParameter(id=None, type_=["null", "Any"])
     etool_inputs = workflow_step_to_WorkflowInputParameters(
         original_step_ins, workflow, step_inp_id
     )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
+    etool_inputs.append(
+        cwl.WorkflowInputParameter(
+            id="self", type_=["null", "Any"], loadContents=step_inp.loadContents
+        )
+    )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        "self",
         original_process,
         [workflow, step],
     )
@@ -1551,45 +1476,24 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
-    for wf_step_input in wf_step_inputs:
+    wf_step_inputs = []
+    for wf_step_input in copy.deepcopy(original_step_ins):
         if not wf_step_input.id:
             continue
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-        if wf_step_input.valueFrom:
-            wf_step_input.valueFrom = None
-        if wf_step_input.source:
-            if isinstance(wf_step_input.source, MutableSequence):
-                for index, inp_source in enumerate(wf_step_input.source):
-                    wf_step_input.source[index] = inp_source.split("#")[-1]
-            else:
-                wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
+        wf_step_input.valueFrom = None
+        if wf_step_input.id == step_inp_id:
+            wf_step_input.id = "self"
+        if not wf_step_input.id.startswith("_") and (
+            wf_step_input.source or wf_step_input.default is not None
+        ):
+            wf_step_inputs.append(wf_step_input)
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c7ff8a2..970e1be 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -22,7 +22,6 @@ import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import do_eval, interpolate, scanner
-from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -748,7 +747,7 @@ def process_workflow_inputs_and_outputs(
                 )
                 target_type = copy.deepcopy(param2.type_)
                 if isinstance(target_type, cwl.OutputArraySchema):
-                    target_type.name = ""
+                    target_type.name = None
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 if not isinstance(param2.outputSource, list):
                     sources = param2.outputSource.split("#")[-1]
@@ -1456,140 +1455,63 @@ def traverse_step(
     inputs = empty_inputs(step, parent)
     if not step.id:
         return False
-    step_id = step.id.split("#")[-1]
+    step_id = step.id.split("#")[-1].split("/")[-1]
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
+            self: Any = inp.default
+            with suppress(WorkflowException):
                 if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+                    self = [
+                        example_input(utils.type_for_source(parent, source))
+                        for source in inp.source
+                    ]
+                elif inp.source:
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
                 etool_id = "_expression_{}_{}".format(step_id, inp.id.split("/")[-1])
-                target = cwl_utils.expression_refactor.get_input_for_id(
-                    inp.id, original_process
-                )
-                if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
-                # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
                     parent,
-                    target,
                     step,
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
+                inp.default = None
+                inp.linkMerge = None
+                inp.loadContents = None
+                inp.pickValue = None
     if step.when:
         expression = get_expression(string=step.when, inputs=inputs, self=None)
         if expression:
             modified = True
-            replace_step_when_expr_with_etool(
-                expression, parent, step, original_step_ins, replace_etool
-            )
-
-    # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
+            replace_step_when_expr_with_etool(expression, parent, step, replace_etool)
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
-        clt_modified = traverse_CommandLineTool(
+        if process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        ):
+            modified = True
+        if traverse_CommandLineTool(
             original_process,
             parent,
             step,
             replace_etool,
             skip_command_line1,
             skip_command_line2,
-        )
-        if clt_modified:
+        ):
             modified = True
     return modified
 
@@ -1607,21 +1529,19 @@ def workflow_step_to_WorkflowInputParameters(
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
+        if inp_id == except_in_id or inp_id.startswith("_"):
+            continue
+        param = cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"])
+        if isinstance(inp.source, str) and not inp.linkMerge and not inp.pickValue:
+            # the type is only known for inputs of the workflow
+            for wf_input in parent.inputs:
+                if wf_input.id == inp.source and not inp.valueFrom:
+                    param = copy.deepcopy(wf_input)
+                    param.id = inp_id
+                    param.type_ = clean_type_ids(
+                        cast(ArraySchema | cwl.InputRecordSchema, param.type_)
                     )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
+        params.append(param)
     return params
 
 
@@ -1629,35 +1549,38 @@ def replace_step_valueFrom_expr_with_etool(
     expr: str,
     name: str,
     workflow: cwl.Workflow,
-    target: (
-        cwl_utils.parser.CommandInputParameter
-        | cwl_utils.parser.WorkflowInputParameter
-        | cwl_utils.parser.OperationInputParameter
-    ),
     step: cwl.WorkflowStep,
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
+    target = cwl_utils.expression_refactor.get_input_for_id(
+        step_inp.id, original_process
+    )
+    # an input that the process doesn't have is for other expressions,
+    # and null is replaced by the default of the process
+    if not target or target.default is not None:
+        target = cwl.WorkflowInputParameter(id=None, type_=["null", "Any"])
     etool_inputs = workflow_step_to_WorkflowInputParameters(
         original_step_ins, workflow, step_inp_id
     )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
+    etool_inputs.append(
+        cwl.WorkflowInputParameter(
+            id="self", type_=["null", "Any"], loadContents=step_inp.loadContents
+        )
+    )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        "self",
         original_process,
         [workflow, step],
     )
@@ -1676,45 +1599,24 @@ def replace_step_valueFrom_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
-    for wf_step_input in wf_step_inputs:
+    wf_step_inputs = []
+    for wf_step_input in copy.deepcopy(original_step_ins):
         if not wf_step_input.id:
             continue
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-        if wf_step_input.valueFrom:
-            wf_step_input.valueFrom = None
-        if wf_step_input.source:
-            if isinstance(wf_step_input.source, MutableSequence):
-                for index, inp_source in enumerate(wf_step_input.source):
-                    wf_step_input.source[index] = inp_source.split("#")[-1]
-            else:
-                wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
+        wf_step_input.valueFrom = None
+        if wf_step_input.id == step_inp_id:
+            wf_step_input.id = "self"
+        if not wf_step_input.id.startswith("_") and (
+            wf_step_input.source or wf_step_input.default is not None
+        ):
+            wf_step_inputs.append(wf_step_input)
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
@@ -1723,16 +1625,13 @@ def replace_step_when_expr_with_etool(
     expr: str,
     workflow: cwl.Workflow,
     step: cwl.WorkflowStep,
-    original_step_ins: list[cwl.WorkflowStepInput],
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'when' expression with a sibling ExpressionTool step."""
     if not step.id:
         raise WorkflowException(f"Missing id from {step}.")
-    etool_id = "_when_expression_{}".format(step.id.split("#")[-1])
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, ""
-    )
+    etool_id = "_when_expression_{}".format(step.id.split("#")[-1].split("/")[-1])
+    etool_inputs = workflow_step_to_WorkflowInputParameters(step.in_, workflow, "")
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -1757,33 +1656,17 @@ def replace_step_when_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
-        if not wf_step_input.id:
-            continue
-        wf_step_input.id = wf_step_input.id.split("/")[-1]
-        if wf_step_input.source:
-            if isinstance(wf_step_input.source, MutableSequence):
-                for index, inp_source in enumerate(wf_step_input.source):
-                    wf_step_input.source[index] = inp_source.split("#")[-1]
-            else:
-                wf_step_input.source = wf_step_input.source.split("#")[-1]
+        if wf_step_input.id:
+            wf_step_input.id = wf_step_input.id.split("/")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if x.id and not x.id.startswith("_")]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    scatter = step.scatter
     workflow.steps.append(
         cwl.WorkflowStep(
             id=etool_id,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
     step.when = "$(inputs._when)"
-- 
2.43.0


From 8055046f5c248544d4194d1be3cd9a0232dea461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 66/75] fix: a refactored workflow kept a copy of the absolute
 URIs in its sources

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 1 +
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 1 +
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 06466f5..8dbd8b4 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1487,6 +1487,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.shorten_ids(workflow)
     for step in workflow.steps:
         cwl_utils.expression_refactor.resolve_step(step)
         cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index aee0076..2690904 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1506,6 +1506,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.shorten_ids(workflow)
     for step in workflow.steps:
         cwl_utils.expression_refactor.resolve_step(step)
         cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 970e1be..a9f9213 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1681,6 +1681,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.shorten_ids(workflow)
     for step in workflow.steps:
         cwl_utils.expression_refactor.resolve_step(step)
         cwl_utils.expression_refactor.inherit_JSReq(step, workflow)
-- 
2.43.0


From a3ca2ff65b1675a8d057dd1e308a6637b51cdf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 67/75] fix: normalizing lost referenced files, requirements in
 lists, and expressions of the upgraded document

---
 src/cwl_utils/normalizer.py | 133 ++++++++++++++++++++++++++----------
 1 file changed, 96 insertions(+), 37 deletions(-)

diff --git a/src/cwl_utils/normalizer.py b/src/cwl_utils/normalizer.py
index 100095d..3f8302f 100644
--- a/src/cwl_utils/normalizer.py
+++ b/src/cwl_utils/normalizer.py
@@ -8,18 +8,19 @@ import json
 import logging
 import sys
 import tempfile
-from collections.abc import MutableSequence
+from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
+from typing import Any
 
 from cwlupgrader import main as cwlupgrader
 from ruamel.yaml import YAML
 from schema_salad.runtime import save
-from schema_salad.sourceline import add_lc_filename
+from schema_salad.sourceline import add_lc_filename, cmap
 
 from cwl_utils import cwl_v1_2_expression_refactor
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.pack import pack
-from cwl_utils.parser.cwl_v1_2 import load_document_by_yaml
+from cwl_utils.parser import load_document_by_uri
 
 _logger = logging.getLogger("cwl-normalizer")  # pylint: disable=invalid-name
 defaultStreamHandler = logging.StreamHandler()  # pylint: disable=invalid-name
@@ -74,9 +75,81 @@ def main() -> None:
     sys.exit(run(parse_args(sys.argv[1:])))
 
 
+def requirements_to_maps(item: Any) -> Any:
+    """
+    Turn all of the lists of requirements and hints into maps.
+
+    cwlupgrader finds what is in them only there.
+    """
+    if isinstance(item, MutableSequence):
+        return [requirements_to_maps(entry) for entry in item]
+    if not isinstance(item, MutableMapping):
+        return item
+    result = {}
+    for key, value in item.items():
+        value = requirements_to_maps(value)
+        if key in ("requirements", "hints") and isinstance(value, MutableSequence):
+            classes = [
+                entry.get("class") if isinstance(entry, MutableMapping) else None
+                for entry in value
+            ]
+            if None not in classes and len(set(classes)) == len(classes):
+                value = {entry.pop("class"): entry for entry in value}
+        result[key] = value
+    return result
+
+
+def without_temporary_ids(item: Any, uri: str) -> Any:
+    """Remove the identifiers that are random, or those of the temporary file."""
+    if isinstance(item, MutableSequence):
+        return [without_temporary_ids(entry, uri) for entry in item]
+    if not isinstance(item, MutableMapping):
+        return item
+    result = {}
+    for key, value in item.items():
+        if (
+            key in ("id", "name")
+            and isinstance(value, str)
+            and value.startswith(("_:", uri))
+        ):
+            if key == "id" or item.get("type") in ("array", "enum", "record"):
+                continue
+            value = value.rsplit("#")[-1].rsplit("/")[-1]  # the name of a field
+        result[key] = without_temporary_ids(value, uri)
+    return result
+
+
+def refactor(document: Any, path: Path, args: argparse.Namespace) -> Any:
+    """Refactor the expressions of a CWL v1.2 document, which is written to the path."""
+    with open(path, "w", encoding="utf-8") as handle:
+        json.dump(document, handle)
+    loaded = load_document_by_uri(path, load_all=True)
+    processes = loaded if isinstance(loaded, MutableSequence) else [loaded]
+    results = []
+    for process in processes:
+        name = process.id.rsplit("#")[-1]
+        refactored, _ = cwl_v1_2_expression_refactor.traverse(
+            process,
+            not args.etools,
+            False,
+            args.skip_some1,
+            args.skip_some2,
+        )
+        saved = save(refactored, base_url=(refactored.loadingOptions.fileuri or ""))
+        #   ^^ Setting the base_url and keeping the default value
+        #      for relative_uris=True means that the IDs in the generated
+        #      JSON/YAML are kept clean of the path to the input document
+        result = without_temporary_ids(saved, path.resolve().as_uri())
+        if isinstance(loaded, MutableSequence):
+            result["id"] = name  # a tool in a workflow of its own lost it
+        results.append(result)
+    if isinstance(loaded, MutableSequence):
+        return {"cwlVersion": "v1.2", "$graph": results}
+    return results[0]
+
+
 def run(args: argparse.Namespace) -> int:
     """Primary processing loop."""
-    imports: set[str] = set()
     yaml = YAML(typ="rt")
     yaml.preserve_quotes = True
     for document in args.inputs:
@@ -85,47 +158,33 @@ def run(args: argparse.Namespace) -> int:
             result = yaml.load(doc_handle)
         add_lc_filename(result, document)
         version = result.get("cwlVersion", None)
-        if version in ("draft-3", "cwl:draft-3", "v1.0", "v1.1"):
-            result = cwlupgrader.upgrade_document(result, args.dir, imports=imports)
-        elif version == "v1.2":
-            pass  # already at target version; no upgrade needed
-        else:
+        if version not in ("draft-3", "cwl:draft-3", "v1.0", "v1.1", "v1.2"):
             _logger.error(
                 "Sorry, %s in %s is not a supported CWL version by this tool.",
                 version,
                 document,
             )
             return -1
-        uri = Path(document).resolve().as_uri()
-        if not args.no_expression_refactoring:
-            refactored, _ = cwl_v1_2_expression_refactor.traverse(
-                load_document_by_yaml(result, uri),
-                not args.etools,
-                False,
-                args.skip_some1,
-                args.skip_some2,
-            )
-            if not isinstance(refactored, MutableSequence):
-                result = save(
-                    refactored,
-                    base_url=(refactored.loadingOptions.fileuri or ""),
-                )
-            #   ^^ Setting the base_url and keeping the default value
-            #      for relative_uris=True means that the IDs in the generated
-            #      JSON/YAML are kept clean of the path to the input document
-            else:
-                result = [
-                    save(result_item, base_url=result_item.loadingOptions.fileuri)
-                    for result_item in refactored
-                ]
-        if "$graph" in result:
-            packed = result
-        else:
-            with tempfile.TemporaryDirectory() as tmpdirname:
-                path = Path(tmpdirname) / Path(document).name
+        with tempfile.TemporaryDirectory() as tmpdirname:
+            path = Path(tmpdirname) / Path(document).name
+            source = document
+            if version in ("draft-3", "cwl:draft-3"):
+                result = cwlupgrader.upgrade_document(result, tmpdirname)
                 with open(path, "w") as handle:
                     yaml.dump(result, handle)
-                packed = pack(str(path))
+                source = str(path)
+            # The referenced files have the same version, thus they come first.
+            if "$graph" not in result:
+                result = pack(source)
+            if version in ("v1.0", "v1.1"):
+                result = cwlupgrader.upgrade_document(
+                    cmap(requirements_to_maps(result)), tmpdirname
+                )
+            if not args.no_expression_refactoring:
+                result = refactor(result, path, args)
+            with open(path, "w", encoding="utf-8") as handle:
+                json.dump(result, handle)
+            packed = pack(str(path))
         output = Path(args.dir) / Path(document).name
         with output.open("w", encoding="utf-8") as output_filehandle:
             json.dump(packed, output_filehandle, indent=4)
-- 
2.43.0


From 455c68c90e683eb96d56b32401a302ffb06257cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 68/75] fix: accept the version of a pre-release of Node.js

---
 src/cwl_utils/sandboxjs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index e4020f6..9e3b64d 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -147,8 +147,10 @@ class NodeJSEngine(JSEngine):
         current_version_str = subprocess.check_output(  # nosec
             [working_alias, "-v"], text=True
         )
+        # a pre-release has a suffix: 'v23.0.0-nightly2024\n' -> [23, 0, 0]
         current_version = [
-            int(v) for v in current_version_str.strip().strip("v").split(".")
+            int(v)
+            for v in current_version_str.strip().strip("v").split("-")[0].split(".")
         ]
         minimum_node_version = [
             int(v) for v in self.minimum_node_version_str.split(".")
-- 
2.43.0


From 0ace9657c0b1dd0b395930f7ee755c4238c87443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 69/75] fix: use a recent node command when the nodejs command
 is too old

---
 src/cwl_utils/sandboxjs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 9e3b64d..983c6c6 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -311,7 +311,8 @@ class NodeJSEngine(JSEngine):
                     )
                     self.processes_to_kill.append(nodejs)
                     required_node_version = self.check_js_threshold_version(n)
-                    break
+                    if required_node_version:
+                        break
             except (subprocess.CalledProcessError, OSError):
                 pass
 
-- 
2.43.0


From 014c1fa7a6202aba348dee3dad8dc57eb64cb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 70/75] fix: only singularity has a --force option for pulling
 the Node.js image

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 983c6c6..557cb72 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -370,7 +370,7 @@ class NodeJSEngine(JSEngine):
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
                         nodejs_pull_commands = [container_engine, "pull"]
-                        if force_docker_pull:
+                        if force_docker_pull and container_engine == "singularity":
                             nodejs_pull_commands.append("--force")
                         nodejs_pull_commands.append(nodeimg)
                         cwd = (
-- 
2.43.0


From eb2b918ee479db5e955b8d20f8a0c35f464f2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 71/75] fix: do not pull the Node.js image that udocker already
 has

---
 src/cwl_utils/sandboxjs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 557cb72..6a129e3 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -364,8 +364,8 @@ class NodeJSEngine(JSEngine):
                     need_singularity = (
                         container_engine == "singularity" and not singularityimgs
                     )
-                    need_docker = container_engine != "singularity" and (
-                        len(dockerimgs.split("\n")) <= 1
+                    need_docker = (
+                        container_engine != "singularity" and not dockerimgs.strip()
                     )
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
-- 
2.43.0


From 91454ccc0afa42d6bd0f69259f077d48e621384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 72/75] fix: pull the Node.js image from the registry, and run
 the pulled file, in every singularity process

---
 src/cwl_utils/sandboxjs.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 6a129e3..01cce93 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -324,8 +324,10 @@ class NodeJSEngine(JSEngine):
                 elif container_engine in ("podman", "udocker"):
                     nodeimg = f"docker.io/library/{nodeimg}"
 
+                singularity_cache: str | None = None
+                if container_engine == "singularity":
+                    singularity_cache = os.environ.get("CWL_SINGULARITY_CACHE")
                 if not self.have_node_slim:
-                    singularity_cache: str | None = None
                     match container_engine:
                         case "docker" | "podman":
                             dockerimgs = subprocess.check_output(  # nosec
@@ -333,7 +335,6 @@ class NodeJSEngine(JSEngine):
                                 text=True,
                             )
                         case "singularity":
-                            singularity_cache = os.environ.get("CWL_SINGULARITY_CACHE")
                             if singularity_cache:
                                 singularityimgs = glob.glob(
                                     singularity_cache + "/node_alpine.sif"
@@ -342,8 +343,6 @@ class NodeJSEngine(JSEngine):
                                 singularityimgs = glob.glob(
                                     str(Path.cwd() / "node_alpine.sif")
                                 )
-                            if singularityimgs:
-                                nodeimg = singularityimgs[0]
                         case "udocker":
                             matches = re.search(
                                 re.escape(nodeimg),
@@ -393,6 +392,10 @@ class NodeJSEngine(JSEngine):
                             ):
                                 raise err
                     self.have_node_slim = True
+                if container_engine == "singularity":
+                    image_dir = Path(singularity_cache) if singularity_cache else Path.cwd()
+                    if (image_dir / "node_alpine.sif").exists():
+                        nodeimg = str(image_dir / "node_alpine.sif")
                 nodejs_commands = [container_engine]
                 if (
                     container_engine != "singularity"
-- 
2.43.0


From 1c6b9a7616299445d2e1d1befa8680e87bd5f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:53 +0000
Subject: [PATCH 73/75] fix: close the pipes of an ended Node.js process when
 it is replaced

---
 src/cwl_utils/sandboxjs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 01cce93..d490de0 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -197,7 +197,16 @@ class NodeJSEngine(JSEngine):
         else:
             nodejs = self.localdata.procs.get(js_engine)
 
-        if nodejs is None or nodejs.poll() is not None:
+        if nodejs is not None and nodejs.poll() is not None:
+            # close the pipes of the ended process now, this engine lives on
+            for pipe in (nodejs.stdin, nodejs.stdout, nodejs.stderr):
+                with suppress(OSError):
+                    pipe.close()
+            with suppress(ValueError):
+                self.processes_to_kill.remove(nodejs)
+            nodejs = None
+
+        if nodejs is None:
             js_engine_code = files("cwl_utils").joinpath(js_engine).read_text("utf-8")
 
             created_new_process = True
-- 
2.43.0


From a2db125a268fe214c6f8103faa6333824ccc7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:15 +0000
Subject: [PATCH 74/75] fix: keep relative references as they are when saving
 objects that were not loaded

---
 src/cwl_utils/parser/relative_uris.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/parser/relative_uris.py b/src/cwl_utils/parser/relative_uris.py
index a076415..c1722ac 100644
--- a/src/cwl_utils/parser/relative_uris.py
+++ b/src/cwl_utils/parser/relative_uris.py
@@ -39,4 +39,6 @@ def save_relative_uri(
             if split.fragment.startswith(prefix):
                 return split.fragment[len(prefix) :]
             return "#" + split.fragment
+        if not split.scheme:  # already relative, in an object that was not loaded
+            return uri
     return _save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
-- 
2.43.0


From 5807fa00c2409b2b3b8bb9f652a7e1c9b9f47c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:01 +0000
Subject: [PATCH 75/75] fix: pickValue selects from the array of a
 single-member union

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index b4c2f3c..e4bcaf5 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -474,6 +474,8 @@ def type_for_source(
         elif linkMerge == "merge_flattened":
             new_type = cwl_utils.parser.utils.merge_flatten_type(new_type)
         if pickValue is not None:
+            if isinstance(new_type, MutableSequence) and len(new_type) == 1:
+                new_type = new_type[0]
             if isinstance(new_type, ArraySchema) or linkMerge == "merge_flattened":
                 if pickValue in ("first_non_null", "the_only_non_null"):
                     new_type = _items_type(new_type)
-- 
2.43.0

