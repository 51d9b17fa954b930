From 6b030815e44853715ba97dab273171714915fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 01/65] fix: do not convert the output directory when it lies
 inside the input directory

---
 paconvert/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..ba7a887 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -104,6 +104,7 @@ class Converter:
             out_dir = os.path.abspath(out_dir)
 
         assert out_dir != in_dir, "--out_dir must be different from --in_dir"
+        self.out_root = out_dir
 
         if exclude:
             exclude = exclude.split(",")
@@ -350,6 +351,10 @@ class Converter:
                 if is_exclude:
                     continue
 
+                # the output directory may be inside the input directory
+                if old_path == self.out_root:
+                    continue
+
                 if os.path.isdir(old_path):
                     if not os.path.exists(new_path):
                         os.makedirs(new_path)
-- 
2.43.0


From c02dcd304547fde55227f8a0e05edf7f372407c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 02/65] fix: keep the names after a project-local module in a
 multi-name import

---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..328395a 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From af6cbf3faa2e658fd4ed8d93824325f77012c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 03/65] fix: 'import torch.nn' binds the top-level name 'torch'

---
 paconvert/transformer/import_transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 328395a..462e012 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -97,6 +97,9 @@ class ImportTransformer(BaseTransformer):
                             )
                     else:
                         self.imports_map[self.file][alias_node.name] = alias_node.name
+                        # 'import torch.nn' binds the name 'torch'
+                        root_name = alias_node.name.split(".")[0]
+                        self.imports_map[self.file][root_name] = root_name
                         if self.mode == "min":
                             new_node_names.append(alias_node)
                         else:
-- 
2.43.0


From d0cfc98cd633f531e354e364d78fa4596e21d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 04/65] fix: make the output independent of hash seed and
 directory listing order

---
 paconvert/converter.py                      | 2 +-
 paconvert/transformer/import_transformer.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index ba7a887..9648829 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -41,7 +41,7 @@ from paconvert.global_var import GlobalManager
 
 
 def listdir_nohidden(path):
-    for f in os.listdir(path):
+    for f in sorted(os.listdir(path)):
         if not f.startswith("."):
             yield f
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 462e012..e8f76d1 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -510,12 +510,14 @@ class ImportTransformer(BaseTransformer):
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-        for torch_package in self.imports_map[self.file]["torch_packages"]:
+        for torch_package in sorted(self.imports_map[self.file]["torch_packages"]):
             paddle_package_list.append(
                 GlobalManager.TORCH_PACKAGE_MAPPING[torch_package]
             )
 
-        for may_torch_package in self.imports_map[self.file]["may_torch_packages"]:
+        for may_torch_package in sorted(
+            self.imports_map[self.file]["may_torch_packages"]
+        ):
             paddle_package_list.append(may_torch_package)
 
         for paddle_package in paddle_package_list:
-- 
2.43.0


From 949c2bc58920a5633d29f2887e180016d62044a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 05/65] fix: search all enclosing scopes instead of recursing
 forever on the second one

---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..845ac7b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -95,7 +95,7 @@ class BaseTransformer(ast.NodeTransformer):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "finalbody", index
 
-        return self.scope_body_index(-2)
+        return self.scope_body_index(level - 1)
 
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
-- 
2.43.0


From dbfbe182fe0eda4f3b0c922cc8da2f364854e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 06/65] fix: treat async function, for and with as scopes when
 inserting statements

---
 paconvert/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 845ac7b..29e6e67 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -312,6 +312,10 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_AsyncFor = visit_For
+    visit_AsyncWith = visit_With
+
     def visit_ExceptHandler(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
-- 
2.43.0


From 3ed167858a1892f9deb74fbdfaa7d3c4adec4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:41 +0000
Subject: [PATCH 07/65] fix: a misidentified call no longer drops the other
 uses of that API from the API list

---
 paconvert/transformer/basic_transformer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..581fada 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -169,7 +169,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.discount_api(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -344,7 +344,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.discount_api(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -492,7 +492,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.discount_api(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -693,7 +693,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.discount_api(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
@@ -766,6 +766,12 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def discount_api(self, torch_api):
+        # take back one occurrence only, the API may be used correctly elsewhere
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From 939c92ba049fc49ce43d89b4bb630405ab2ba317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 08/65] fix: put 'pass' into any block that is left empty when
 its imports are removed

---
 paconvert/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 29e6e67..74b215b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -55,6 +55,17 @@ class BaseTransformer(ast.NodeTransformer):
     def transform(self):
         self.visit(self.root)
         self.insert_scope()
+        self.fill_empty_block()
+
+    def fill_empty_block(self):
+        # a block whose statements were all removed must not become empty
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.Module):
+                continue
+            if getattr(node, "body", None) == []:
+                node.body.append(ast.Pass())
+            if isinstance(node, ast.Try) and not node.handlers and not node.finalbody:
+                node.finalbody.append(ast.Pass())
 
     def visit(self, node):
         self.node_stack.append(node)
-- 
2.43.0


From 68bfab9dcf800eddf3a786006b4a2b6c9714e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 09/65] fix: insert imports after the module docstring and
 __future__ imports

---
 paconvert/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 74b215b..d98bcf3 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -117,6 +117,8 @@ class BaseTransformer(ast.NodeTransformer):
                     insert_lines.items(), key=lambda x: x[0], reverse=True
                 )
                 for index, lines in insert_lines:
+                    if index == 0 and isinstance(scope_node, ast.Module):
+                        index = self.module_header_size(scope_node)
                     log_debug(
                         self.logger,
                         "insert extra {} lines finally".format(len(lines)),
@@ -128,6 +130,15 @@ class BaseTransformer(ast.NodeTransformer):
                         except:
                             getattr(scope_node, body).insert(0, line)
 
+    def module_header_size(self, module):
+        # module docstring and 'from __future__ import' must stay at the beginning
+        size = 1 if ast.get_docstring(module, clean=False) is not None else 0
+        for node in module.body[size:]:
+            if not (isinstance(node, ast.ImportFrom) and node.module == "__future__"):
+                break
+            size += 1
+        return size
+
     def record_scope(self, scope_body_index, node_list):
         if not isinstance(node_list, list):
             node_list = [node_list]
-- 
2.43.0


From d7f705ed5386b09e2b87b57819d3d2b887a973ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 10/65] fix: helper code of a conversion goes to its own
 output, not to that of the first one in the process

---
 paconvert/converter.py | 8 ++++----
 paconvert/utils.py     | 9 +++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 9648829..b05add4 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -118,11 +118,11 @@ class Converter:
                 if os.path.isdir(out_dir)
                 else out_dir
             )
-            utils_file_helper = UtilsFileHelper(
-                out_file, is_dir_mode=False, logger=self.logger
-            )
+            utils_file_helper = UtilsFileHelper()
+            utils_file_helper.reset(out_file, is_dir_mode=False, logger=self.logger)
         elif os.path.isdir(in_dir):
-            utils_file_helper = UtilsFileHelper(
+            utils_file_helper = UtilsFileHelper()
+            utils_file_helper.reset(
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
 
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..4a2d5b4 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -66,6 +66,15 @@ class UtilsFileHelper(object):
                 cls._instance = super().__new__(cls)
         return cls._instance
 
+    def reset(self, fileName, is_dir_mode, logger):
+        """
+        Start a new conversion: forget the destination and the code of the last one
+        """
+        self.fileName = fileName
+        self.is_dir_mode = is_dir_mode
+        self.logger = logger
+        self.code_map.clear()
+
     def _get_code_hash(self, code: str) -> int:
         base_hash = hash(code)
         while base_hash in self.code_map and self.code_map[base_hash] != code:
-- 
2.43.0


From dad48eed65785bb000f399d42a0f7cfa64fb5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 11/65] fix: forget the C++ extensions of the previous
 conversion in the process

---
 paconvert/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index b05add4..024a33f 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -28,6 +28,8 @@ import astor
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
 from paconvert.transformer.custom_op_transformer import (
+    AUTOGRAD_FUNC_NODES,
+    CPP_EXTENSION_LIST,
     PreCustomOpTransformer,
     CustomOpTransformer,
 )
@@ -105,6 +107,9 @@ class Converter:
 
         assert out_dir != in_dir, "--out_dir must be different from --in_dir"
         self.out_root = out_dir
+        # C++ extensions found in another project do not concern this one
+        CPP_EXTENSION_LIST.clear()
+        AUTOGRAD_FUNC_NODES.clear()
 
         if exclude:
             exclude = exclude.split(",")
-- 
2.43.0


From 8205a34d193d382068d3335e950dc411b770e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:04 +0000
Subject: [PATCH 12/65] fix: insert helper code after the module docstring, and
 keep the characters of the file

---
 paconvert/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 4a2d5b4..967787a 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -14,6 +14,7 @@
 
 import collections
 import os
+import re
 import threading
 
 import isort
@@ -99,6 +100,18 @@ class UtilsFileHelper(object):
         i = 0
         n = len(lines)
 
+        # the module docstring stays in front of the helper code
+        while i < n and not lines[i].strip():
+            i += 1
+        if i < n and lines[i].lstrip("rRuU").startswith('"""'):
+            text = "\n".join(lines[i:])
+            start = text.index('"""') + 3
+            closing = re.compile(r'(?:[^"\\]|\\.|"(?!""))*"""', re.DOTALL)
+            match = closing.match(text, start)
+            if match:
+                i += text[: match.end()].count("\n") + 1
+                insert_idx = i
+
         while i < n:
             line = lines[i]
             stripped = line.strip()
@@ -161,11 +174,11 @@ class UtilsFileHelper(object):
 
         # insert the new code into the existing file
         if not self.is_dir_mode:
-            with open(self.fileName, "r") as f:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
             # find a position to insert the new code
-            lines = existing_content.splitlines()
+            lines = existing_content.split("\n")
             insert_idx = self._find_import_insert_idx(lines)
 
             # insert the new code after all imports
-- 
2.43.0


From 9a9467e2d96ea12e8e49821b8e0a290e065ea5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:38 +0000
Subject: [PATCH 13/65] fix: find string literals with the tokenizer when
 looking for unconverted APIs

---
 paconvert/converter.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 024a33f..3fb2287 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -17,10 +17,12 @@
 
 import ast
 import collections
+import io
 import logging
 import os
 import re
 import shutil
+import tokenize
 import black
 import isort
 import astor
@@ -491,10 +493,31 @@ class Converter:
             text = pattern.sub(_mask_match, text)
         return text
 
+    def mask_string_literals(self, text):
+        """
+        Blank out the string literals, but not the expressions inside f-strings
+        """
+        lines = text.split("\n")
+        try:
+            for tok in tokenize.generate_tokens(io.StringIO(text).readline):
+                # STRING, FSTRING_START, FSTRING_MIDDLE, FSTRING_END
+                if "STRING" not in tokenize.tok_name[tok.type]:
+                    continue
+                (row, col), (end_row, end_col) = tok.start, tok.end
+                while row < end_row:
+                    lines[row - 1] = lines[row - 1][:col] + " "
+                    row, col = row + 1, 0
+                line = lines[row - 1]
+                lines[row - 1] = line[:col] + " " * (end_col - col) + line[end_col:]
+        except (tokenize.TokenError, SyntaxError):
+            return text
+        return "\n".join(lines)
+
     def mark_unsupport(self, code, file):
         scan_code = code
         if self.mode == "min":
             scan_code = self.mask_change_prefix_apis(code, file)
+        scan_code = self.mask_string_literals(scan_code)
 
         lines = code.split("\n")
         scan_lines = scan_code.split("\n")
-- 
2.43.0


From e86c7c01b0af2d698170bca53ecbb0e1eaf8d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:38 +0000
Subject: [PATCH 14/65] fix: mark the unsupported statement, not the blank line
 that formatting put before it

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 3fb2287..ede911b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -530,7 +530,7 @@ class Converter:
                 continue
             else:
                 # func decorator_list: @
-                if mark_next_line and line != "@":
+                if mark_next_line and line != "@" and line.strip():
                     lines[i] = ">>>>>>" + line
                     mark_next_line = False
                     continue
-- 
2.43.0


From 6ac462cbe62b80d7df37f175c5859eb59e3072f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 15/65] fix: a class body is a scope of its own for inserted
 statements and annotations

---
 paconvert/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index d98bcf3..c6b17fd 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -335,6 +335,7 @@ class BaseTransformer(ast.NodeTransformer):
         return node
 
     visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
     visit_AsyncFor = visit_For
     visit_AsyncWith = visit_With
 
-- 
2.43.0


From bde7fc85f9a7c1c08654e2edcd2bca07c5d3a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 16/65] fix: refuse an output path that overwrites the input

---
 paconvert/converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index ede911b..aaa3d8b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -108,6 +108,14 @@ class Converter:
             out_dir = os.path.abspath(out_dir)
 
         assert out_dir != in_dir, "--out_dir must be different from --in_dir"
+        # the file itself, written through its directory, a link or a path below it
+        out_path = out_dir
+        if os.path.isfile(in_dir) and os.path.isdir(out_dir):
+            out_path = os.path.join(out_dir, os.path.basename(in_dir))
+        real_in, real_out = os.path.realpath(in_dir), os.path.realpath(out_path)
+        assert real_out != real_in and not (
+            os.path.isfile(in_dir) and real_out.startswith(real_in + os.sep)
+        ), "--out_dir must not overwrite --in_dir"
         self.out_root = out_dir
         # C++ extensions found in another project do not concern this one
         CPP_EXTENSION_LIST.clear()
-- 
2.43.0


From 7ae8c6b1de68c67cc29155c6ddbedc6296bbdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 17/65] fix: recognize the output directory inside the input
 directory through links

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index aaa3d8b..7eed33c 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -367,7 +367,7 @@ class Converter:
                     continue
 
                 # the output directory may be inside the input directory
-                if old_path == self.out_root:
+                if os.path.realpath(old_path) == os.path.realpath(self.out_root):
                     continue
 
                 if os.path.isdir(old_path):
-- 
2.43.0


From 92dc83998e7f161349ec0119c6827655bc9c6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:40 +0000
Subject: [PATCH 18/65] fix: read a Python file in the encoding it declares

---
 paconvert/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 7eed33c..f61d985 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -386,7 +386,8 @@ class Converter:
             log_info(
                 self.logger, "Start convert file: {} --> {}".format(old_path, new_path)
             )
-            with open(old_path, "r", encoding="UTF-8") as f:
+            # honour the byte order mark and the coding declaration, UTF-8 by default
+            with tokenize.open(old_path) as f:
                 code = f.read()
                 if self.calculate_speed:
                     self.line_count += len(code.splitlines())
-- 
2.43.0


From 77f96bc5a5ace9b540ade47eb4885b49ebe258f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:55 +0000
Subject: [PATCH 19/65] fix: recognize the wrapper class of a C++ extension by
 the base class it is converted to

---
 paconvert/transformer/custom_op_transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..1905d7c 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -19,6 +19,8 @@ from paconvert.utils import log_debug, log_info
 
 CPP_EXTENSION_LIST = []
 AUTOGRAD_FUNC_NODES = {}
+# what torch.autograd.Function is converted to
+AUTOGRAD_FUNC_BASES = ("paddle.autograd.Function", "paddle.autograd.PyLayer")
 
 
 class PreCustomOpTransformer(BaseTransformer):
@@ -89,7 +91,7 @@ class PreCustomOpTransformer(BaseTransformer):
                 for i in range(-1, lower, -1):
                     if isinstance(self.node_stack[i], ast.ClassDef):
                         for base in self.node_stack[i].bases:
-                            if "paddle.autograd.PyLayer" == self.get_full_attr(base):
+                            if self.get_full_attr(base) in AUTOGRAD_FUNC_BASES:
                                 self.torch_api_count += 1
                                 self.success_api_count += 1
                                 log_debug(
@@ -116,7 +118,7 @@ class PreCustomOpTransformer(BaseTransformer):
                 for i in range(-1, lower, -1):
                     if isinstance(self.node_stack[i], ast.ClassDef):
                         for base in self.node_stack[i].bases:
-                            if "paddle.autograd.PyLayer" == self.get_full_attr(base):
+                            if self.get_full_attr(base) in AUTOGRAD_FUNC_BASES:
                                 self.torch_api_count += 1
                                 self.success_api_count += 1
                                 log_debug(
-- 
2.43.0


From e9eb832bf362bab6d6998c017b5048f519b5b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:55 +0000
Subject: [PATCH 20/65] fix: replace the use of a C++ extension wrapper by an
 expression, not by a statement

---
 paconvert/transformer/custom_op_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 1905d7c..a75c32f 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -235,9 +235,9 @@ class CustomOpTransformer(BaseTransformer):
                     node.lineno,
                 )
                 if cpp_ext.startswith("load_"):
-                    new_node = ast.parse(f"{cpp_ext.lstrip('load_')}").body[0]
+                    new_node = ast.parse(cpp_ext[len("load_") :]).body[0].value
                 else:
-                    new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0]
+                    new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0].value
 
                 self.unsupport_api_map[f"{autograd_func_asname}.apply"] += 1
                 log_debug(
-- 
2.43.0


From d5d08e8233eec275889f100fbd2b664c57765352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:55 +0000
Subject: [PATCH 21/65] fix: remove the prefix of a loaded C++ extension, not
 every leading character of it

---
 paconvert/transformer/custom_op_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index a75c32f..67f532d 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -181,11 +181,11 @@ class CustomOpTransformer(BaseTransformer):
                     if cpp_ext.startswith("load_"):
                         log_info(
                             self.logger,
-                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext.lstrip('load_')}' ",
+                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext[len('load_'):]}' ",
                             self.file_name,
                             node.lineno,
                         )
-                        alias_node.name = cpp_ext.lstrip("load_")
+                        alias_node.name = cpp_ext[len("load_") :]
                     else:
                         log_info(
                             self.logger,
-- 
2.43.0


From d50d2186ba268e43661f51a6aafcbdf31bb7f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:32 +0000
Subject: [PATCH 22/65] fix: a loaded C++ extension is imported under the name
 its uses refer to

---
 paconvert/transformer/custom_op_transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 67f532d..7c0cc45 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -186,6 +186,7 @@ class CustomOpTransformer(BaseTransformer):
                             node.lineno,
                         )
                         alias_node.name = cpp_ext[len("load_") :]
+                        alias_node.asname = None
                     else:
                         log_info(
                             self.logger,
-- 
2.43.0


From e1e28e302edc3ab4a546e4a450fc174513ea41d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 23/65] fix: replace the uses of a C++ extension wrapper in its
 own file, and annotate the right statement

---
 .../transformer/custom_op_transformer.py      | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 7c0cc45..6b8371f 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -165,6 +165,25 @@ class CustomOpTransformer(BaseTransformer):
             unsupport_api_map,
         )
         self.autograd_func_import_names = {}
+        self.removed_nodes = []
+
+    def transform(self):
+        self.visit(self.root)
+        self.insert_scope()
+        # the places to insert at count the removed nodes, so remove them last
+        for node in ast.walk(self.root):
+            for body in ("body", "orelse", "finalbody"):
+                if isinstance(getattr(node, body, None), list):
+                    setattr(
+                        node,
+                        body,
+                        [x for x in getattr(node, body) if x not in self.removed_nodes],
+                    )
+        self.fill_empty_block()
+
+    def remove_node(self, node):
+        self.removed_nodes.append(node)
+        return node
 
     def visit_ImportFrom(self, node):
         new_node_names = []
@@ -208,7 +227,7 @@ class CustomOpTransformer(BaseTransformer):
             node.names = new_node_names
             return node
         else:
-            return None
+            return self.remove_node(node)
 
     def visit_ClassDef(self, node):
         super(CustomOpTransformer, self).generic_visit(node)
@@ -220,7 +239,9 @@ class CustomOpTransformer(BaseTransformer):
                     self.file_name,
                     node.lineno,
                 )
-                return None
+                # the wrapper may be used in the file that defined it
+                self.autograd_func_import_names[node.name] = cpp_ext
+                return self.remove_node(node)
         return node
 
     def visit_Attribute(self, node):
@@ -239,6 +260,9 @@ class CustomOpTransformer(BaseTransformer):
                     new_node = ast.parse(cpp_ext[len("load_") :]).body[0].value
                 else:
                     new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0].value
+                    self.record_scope(
+                        (self.root, "body", 0), ast.parse(f"import {cpp_ext}").body
+                    )
 
                 self.unsupport_api_map[f"{autograd_func_asname}.apply"] += 1
                 log_debug(
-- 
2.43.0


From 6429ef5cc1e22a394a390eab5aad2880450d9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:25 +0000
Subject: [PATCH 24/65] fix: keep the import of a C++ extension that is used
 outside its wrapper class

---
 .../transformer/custom_op_transformer.py      | 70 ++++++++++++-------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 6b8371f..f1bb559 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -46,36 +46,54 @@ class PreCustomOpTransformer(BaseTransformer):
         self.cpp_ext_import_names = {}
         self.cpp_ext_load_names = []
 
+    def transform(self):
+        super(PreCustomOpTransformer, self).transform()
+        self.remove_cpp_ext_import()
+
     def visit_Import(self, node):
-        new_node_names = []
         for alias_node in node.names:
             if alias_node.name in CPP_EXTENSION_LIST:
-                if alias_node.asname:
-                    log_info(
-                        self.logger,
-                        "remove 'import {} as {}' ".format(
-                            alias_node.name, alias_node.asname
-                        ),
-                        self.file_name,
-                        node.lineno,
-                    )
-                    self.cpp_ext_import_names[alias_node.asname] = alias_node.name
-                else:
-                    log_info(
-                        self.logger,
-                        "remove 'import {}' ".format(alias_node.name),
-                        self.file_name,
-                        node.lineno,
-                    )
-                    self.cpp_ext_import_names[alias_node.name] = alias_node.name
-            else:
-                new_node_names.append(alias_node)
+                name = alias_node.asname or alias_node.name
+                self.cpp_ext_import_names[name] = alias_node.name
+        return node
 
-        if len(new_node_names) > 0:
-            node.names = new_node_names
-            return node
-        else:
-            return None
+    def remove_cpp_ext_import(self):
+        """
+        remove the import of a C++ extension which only the wrapper classes use
+        """
+        used_names = set()
+        nodes = [self.root]
+        while nodes:
+            node = nodes.pop()
+            if node in AUTOGRAD_FUNC_NODES:
+                continue
+            if isinstance(node, ast.Name):
+                used_names.add(node.id)
+            nodes.extend(ast.iter_child_nodes(node))
+
+        for node in ast.walk(self.root):
+            for body in ("body", "orelse", "finalbody"):
+                if not isinstance(getattr(node, body, None), list):
+                    continue
+                for child in getattr(node, body)[:]:
+                    if not isinstance(child, ast.Import):
+                        continue
+                    for alias_node in child.names[:]:
+                        name = alias_node.asname or alias_node.name
+                        if (
+                            alias_node.name in CPP_EXTENSION_LIST
+                            and name.split(".")[0] not in used_names
+                        ):
+                            log_info(
+                                self.logger,
+                                "remove 'import {}' ".format(alias_node.name),
+                                self.file_name,
+                                child.lineno,
+                            )
+                            child.names.remove(alias_node)
+                    if not child.names:
+                        getattr(node, body).remove(child)
+        self.fill_empty_block()
 
     def visit_Assign(self, node):
         super(PreCustomOpTransformer, self).generic_visit(node)
-- 
2.43.0


From b4c83c432ba768d97e00ececa714b726b01e85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:13 +0000
Subject: [PATCH 25/65] fix: annotate a decorated definition before its first
 decorator instead of adding a string to the decorators

---
 paconvert/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index c6b17fd..3441ceb 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -94,12 +94,6 @@ class BaseTransformer(ast.NodeTransformer):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "orelse", index
 
-                # decorator in (function scope)
-                if getattr(scope_node, "decorator_list", None):
-                    for index, node in enumerate(scope_node.decorator_list):
-                        if node == self.node_stack[i + 1]:
-                            return scope_node, "decorator_list", index
-
                 # finnally in (try scope)
                 if getattr(scope_node, "finalbody", None):
                     for index, node in enumerate(scope_node.finalbody):
-- 
2.43.0


From ae760b0ea2e1085da6767cc5c9c7b9fb234fe5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:18 +0000
Subject: [PATCH 26/65] fix: keep the backslashes of the receiver when a method
 call is converted

---
 paconvert/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 3441ceb..28ee961 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -453,14 +453,12 @@ class BaseMatcher(object):
         self.paddleClass = func_str[0 : func_str.rfind(".")]
         class_str = "paddle.Tensor|paddle.nn.Module|paddle.optimizer.Optimizer|paddle.optim.Optimizer|paddle.distribution.Distribution|paddle.distributions.distribution.Distribution|paddle.autograd.function.FunctionCtx|paddle.profiler.Profiler"
         if self.get_paddle_api():
-            new_paddle_api = re.sub(
+            # the receiver is inserted literally, it may contain backslashes
+            self.paddle_api = re.sub(
                 class_str,
-                re.escape(self.paddleClass),
+                lambda match: self.paddleClass,
                 self.get_paddle_api(),
             )
-            # reverse escape
-            new_paddle_api = re.sub(r"\\(.)", r"\1", new_paddle_api)
-            self.paddle_api = new_paddle_api
 
     def args_to_str(self, args):
         str_list = []
-- 
2.43.0


From 345d64ec35f0c0376d93a63e168b4e9c8cad38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:15 +0000
Subject: [PATCH 27/65] fix: check every keyword of a call, also the one after
 an unsupported keyword that is None

---
 paconvert/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 28ee961..01a4d2c 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -374,7 +374,9 @@ class BaseMatcher(object):
             # not support 'torch.rot90(tensor, *config)'
             if isinstance(node, ast.Starred) and not allow_starred:
                 return None
-        for node in kwargs:
+        # the call itself stays as it is, it may turn out not to be convertible
+        kwargs = list(kwargs)
+        for node in kwargs.copy():
             k = node.arg
             # not support 'torch.rot90(tensor, **config)'
             if k is None and not allow_none:
-- 
2.43.0


From cfa37a59be9f0b32201a29dc5118102a0176ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:32 +0000
Subject: [PATCH 28/65] fix: keep the parentheses of an argument that is
 negated

---
 paconvert/api_matcher.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..96b3e48 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -122,7 +122,7 @@ class GenericMatcher(BaseMatcher):
 
         stop_gradient_v = "None"
         if "requires_grad" in kwargs and "requires_grad" not in kwargs_change_value:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         out_v = "None"
         if "out" in kwargs and "out" not in kwargs_change_value:
@@ -1826,7 +1826,7 @@ class TensorNew_Matcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1870,7 +1870,7 @@ class TensorNewFullMatcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1909,7 +1909,7 @@ class TensorNewTensorMatcher(BaseMatcher):
             kwargs.pop("device")
 
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -1929,7 +1929,7 @@ class TorchTensorMatcher(BaseMatcher):
             if "cuda" in kwargs["place"]:
                 kwargs["place"] = kwargs["place"].replace("cuda", "gpu")
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -2563,7 +2563,7 @@ class TensorToMatcher(BaseMatcher):
         if "memory_format" in new_kwargs:
             new_kwargs.pop("memory_format")
         if "non_blocking" in new_kwargs:
-            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking").strip("()")
+            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking")
         if "device" in new_kwargs:
             if "cuda" in new_kwargs["device"]:
                 new_kwargs["device"] = new_kwargs["device"].replace("cuda", "gpu")
@@ -4359,7 +4359,7 @@ class SvdMatcher(BaseMatcher):
             kwargs["x"] = self.paddleClass
 
         if "some" in kwargs:
-            kwargs["full_matrices"] = "not " + kwargs.pop("some").strip("()")
+            kwargs["full_matrices"] = "not " + kwargs.pop("some")
 
         if "out" in kwargs and kwargs["out"] != "None":
             out_v = kwargs.pop("out")
-- 
2.43.0


From 696520eea7f59876487d5f2befc79535347de647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:14 +0000
Subject: [PATCH 29/65] fix: name the counterpart of
 torch.autograd.Function.backward

---
 paconvert/api_mapping.json | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 135abe6..0dbab39 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -2985,15 +2985,8 @@
     "Matcher": "ChangePrefixMatcher"
   },
   "torch.autograd.Function.backward": {
-    "Matcher": "GenericMatcher",
-    "args_list": [
-      "ctx",
-      "*grad_outputs"
-    ],
-    "kwargs_change": {
-      "grad_outputs": "args"
-    },
-    "abstract": true,
+    "Matcher": "ChangeAPIMatcher",
+    "paddle_api": "paddle.autograd.PyLayer.backward",
     "min_input_args": 1
   },
   "torch.autograd.Function.forward": {
-- 
2.43.0


From 438c6c02ca486c1e30aabd17e3ac468f83fa17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:48 +0000
Subject: [PATCH 30/65] fix: report a call that its matcher cannot handle as
 not supported instead of ending the conversion

---
 paconvert/transformer/basic_transformer.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 581fada..ee7ae95 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -478,7 +478,9 @@ class BasicTransformer(BaseTransformer):
                 self.all_api_map[torch_api]["paddle_api"] = (
                     matcher.get_paddle_api() if matcher.get_paddle_api() else ""
                 )
-                node_list = matcher.get_paddle_nodes(node.args, node.keywords)
+                node_list = self.apply_matcher(
+                    matcher.get_paddle_nodes, node.args, node.keywords
+                )
                 if node_list == "delete":
                     if isinstance(self.parent_node, ast.Expr):
                         self.success_api_count += 1
@@ -667,8 +669,8 @@ class BasicTransformer(BaseTransformer):
             self.all_api_map[torch_api]["paddle_api"] = (
                 matcher.get_paddle_api() if matcher.get_paddle_api() else ""
             )
-            node_list = matcher.get_paddle_class_nodes(
-                node.func, node_args, node.keywords
+            node_list = self.apply_matcher(
+                matcher.get_paddle_class_nodes, node.func, node_args, node.keywords
             )
             if node_list == "delete":
                 if isinstance(self.parent_node, ast.Expr):
@@ -766,6 +768,18 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def apply_matcher(self, get_nodes, *args):
+        try:
+            return get_nodes(*args)
+        except Exception as e:
+            # arguments that the matcher is not prepared for: not supported
+            log_debug(
+                self.logger,
+                "Fail to convert: {}".format(repr(e)),
+                self.file_name,
+            )
+            return None
+
     def discount_api(self, torch_api):
         # take back one occurrence only, the API may be used correctly elsewhere
         self.all_api_map[torch_api]["count"] -= 1
-- 
2.43.0


From f752fc069d21c9604312279c5369084ec2f26fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:20 +0000
Subject: [PATCH 31/65] fix: convert the APIs inside any expression whose
 attribute is taken

---
 paconvert/transformer/basic_transformer.py  | 14 ++------------
 paconvert/transformer/import_transformer.py | 13 +------------
 2 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index ee7ae95..10fbbbe 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -74,18 +74,8 @@ class BasicTransformer(BaseTransformer):
         # 4. (-x).transpose(1, 0)
         # 5. x[0].transpose(1, 0)
         # 6. (x if flag else y).transpose(1, 0)
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        # any other expression may contain APIs as well
+        if not isinstance(node.value, (ast.Name, ast.Attribute)):
             super(BasicTransformer, self).generic_visit(node)
 
         # 6. torch.tensor(features_A).T.cuda()
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index e8f76d1..5e0a220 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -345,18 +345,7 @@ class ImportTransformer(BaseTransformer):
         eg.
             nn.Module -> torch.nn.Module
         """
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        if not isinstance(node.value, (ast.Name, ast.Attribute)):
             super(ImportTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Attribute):
             if node.value.attr in [
-- 
2.43.0


From a2f287516be7586851e8eaf7c8fa13a99b077842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:29 +0000
Subject: [PATCH 32/65] fix: convert the APIs inside an expression of which
 several attributes are taken

---
 paconvert/base.py                           | 7 +++++++
 paconvert/transformer/basic_transformer.py  | 3 +++
 paconvert/transformer/import_transformer.py | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 01a4d2c..cf59121 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -73,6 +73,13 @@ class BaseTransformer(ast.NodeTransformer):
         self.node_stack.pop()
         return node
 
+    def visit_attribute_base(self, node):
+        # f(torch.abs(x)).a.b: only what the attributes are taken of
+        while isinstance(node.value, ast.Attribute):
+            node = node.value
+        if not isinstance(node.value, ast.Name):
+            super(BaseTransformer, self).generic_visit(node)
+
     @property
     def parent_node(self):
         return self.node_stack[-2]
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 10fbbbe..1563b9a 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -93,6 +93,9 @@ class BasicTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(BasicTransformer, self).generic_visit(node)
+            # 8.  model(torch.abs(x)).logits.argmax(-1)
+            else:
+                self.visit_attribute_base(node.value)
 
         # should be handled by visit_Call
         if isinstance(self.parent_node, ast.Call):
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 5e0a220..4a4b4d0 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -361,6 +361,9 @@ class ImportTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(ImportTransformer, self).generic_visit(node)
+            # 8.  model(torch.abs(x)).logits.argmax(-1)
+            else:
+                self.visit_attribute_base(node.value)
 
         torch_api = self.get_torch_api_from_node(node)
         if torch_api:
-- 
2.43.0


From c078a27ebb49c890c03b21b5e143f56677b6acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:13 +0000
Subject: [PATCH 33/65] fix: keep every keyword unpacking of a call

---
 paconvert/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index cf59121..7087462 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -453,6 +453,9 @@ class BaseMatcher(object):
             if k in unsupport_args:
                 return None
             v = astor.to_source(node.value).strip("\n")
+            if k is None and k in new_kwargs:
+                # 'torch.rot90(tensor, **config1, **config2)'
+                v = "{}, **{}".format(new_kwargs[k], v)
             new_kwargs[k] = v
 
         return new_kwargs
-- 
2.43.0


From eca515e1091f1ac89ed9ecec00a57795845852c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:54 +0000
Subject: [PATCH 34/65] fix: do not repeat the attribute of a class that keeps
 its name in minimal mode

---
 paconvert/transformer/basic_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 1563b9a..77fe13b 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -198,7 +198,9 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
-                matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
+                matcher = self.get_api_matcher(
+                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                )
                 if matcher:
                     torch_api = ".".join(attr_list[:-1])
                     paddle_api = matcher.get_paddle_api()
-- 
2.43.0


From a75f3a78690162a65882add5e219d3a818989726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 35/65] fix: convert an imported name wherever it stands when
 its import is removed

---
 paconvert/transformer/import_transformer.py | 29 +++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 4a4b4d0..eed3f16 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -45,6 +45,7 @@ class ImportTransformer(BaseTransformer):
         self.imports_map[self.file]["may_torch_packages"] = set()
         self.imports_map[self.file]["api_alias_name_map"] = {}
         self.insert_pass_node = set()
+        self.bound_names = None
         self.change_prefix_api_map = defaultdict(set)
 
     def visit_Import(self, node):
@@ -477,6 +478,11 @@ class ImportTransformer(BaseTransformer):
         elif isinstance(self.parent_node, ast.Index) and self.parent_node.value == node:
             maybe_torch = True  # 13. Union[List[str], List[AddedToken]]
 
+        # 19. [Linear, ReLU] / return relu / func(act=relu): the import is removed,
+        # so anything that can only be the imported name must be changed
+        if isinstance(node.ctx, ast.Load) and node.id not in self.get_bound_names():
+            maybe_torch = True
+
         if maybe_torch:
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
@@ -495,6 +501,29 @@ class ImportTransformer(BaseTransformer):
                 return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
         return node
 
+    def get_bound_names(self):
+        """
+        names that are bound by something else than an import
+        """
+        if self.bound_names is None:
+            self.bound_names = set()
+            for node in ast.walk(self.root):
+                if isinstance(node, ast.Name) and not isinstance(node.ctx, ast.Load):
+                    self.bound_names.add(node.id)
+                elif isinstance(node, ast.arg):
+                    self.bound_names.add(node.arg)
+                elif isinstance(
+                    node,
+                    (
+                        ast.FunctionDef,
+                        ast.AsyncFunctionDef,
+                        ast.ClassDef,
+                        ast.ExceptHandler,
+                    ),
+                ):
+                    self.bound_names.add(node.name)
+        return self.bound_names
+
     def visit_Module(self, node):
         """
         'import torch_package' has been removed already, add 'import paddle_package'
-- 
2.43.0


From 903bb4ed3e534d01d3506eb6da95b03d710cfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:06 +0000
Subject: [PATCH 36/65] fix: importing a submodule of another library binds the
 name of the library

---
 paconvert/transformer/import_transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index eed3f16..daa48c0 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -338,7 +338,11 @@ class ImportTransformer(BaseTransformer):
             if node.asname:
                 self.imports_map[self.file]["other_packages"].add(node.asname)
             else:
+                # 'import scipy.ndimage' binds the name 'scipy'
                 self.imports_map[self.file]["other_packages"].add(node.name)
+                self.imports_map[self.file]["other_packages"].add(
+                    node.name.split(".")[0]
+                )
 
     def visit_Attribute(self, node):
         """
-- 
2.43.0


From 249f51f85238e3519ba100126c0e780854909970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:29 +0000
Subject: [PATCH 37/65] fix: replace an import by package name, not by a part
 of the module name

---
 paconvert/transformer/import_transformer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index daa48c0..3ec1c56 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -117,13 +117,16 @@ class ImportTransformer(BaseTransformer):
 
             # 3. import form IMPORT_PACKAGE_MAPPING (which means replace api by all)
             for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-                if f"{pkg_name}." in alias_node.name or pkg_name == alias_node.name:
+                if (
+                    alias_node.name.startswith(f"{pkg_name}.")
+                    or pkg_name == alias_node.name
+                ):
                     replace_pkg_name = GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
                     if alias_node.asname:
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
                         # case 2: 'import audiotools.ml as ml' -> 'import paddlespeech.audiotools.ml as ml'
                         replace_pkg_name = alias_node.name.replace(
-                            pkg_name, replace_pkg_name
+                            pkg_name, replace_pkg_name, 1
                         )
                         log_info(
                             self.logger,
@@ -301,13 +304,13 @@ class ImportTransformer(BaseTransformer):
 
         # 3. import form GlobalManager.IMPORT_PACKAGE_MAPPING (which means replace api by all)
         for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-            if f"{pkg_name}." in node.module or pkg_name == node.module:
+            if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 # case 1: 'from audiotools import AudioSignal' -> 'from paddlespeech.audiotools import AudioSignal'
                 # case 2: 'from audiotools.ml import BaseModel' -> 'from paddlespeech.audiotools.ml import BaseModel'
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
                 origin_module = node.module
                 node.module = origin_module.replace(
-                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
+                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1
                 )
                 log_info(
                     self.logger,
-- 
2.43.0


From 694975ce5d0f98017e51a760a01c1600dabebf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:42 +0000
Subject: [PATCH 38/65] fix: names imported from other libraries do not hide
 the PyTorch APIs of the same name

---
 paconvert/base.py                           | 20 ++++++++++++++++++++
 paconvert/transformer/import_transformer.py |  3 +++
 2 files changed, 23 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 7087462..cb08a10 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -215,6 +215,10 @@ class BaseTransformer(ast.NodeTransformer):
             return "NonTorchClass"
         # x.abs() -> 'abs'
         if isinstance(node, ast.Attribute):
+            # torch.sqrt is what it is, also after 'from math import sqrt'
+            full_attr = self.get_full_attr(node)
+            if self.is_torch_package_name(full_attr.split(".")[0]):
+                return full_attr
             for item in self.black_list:
                 if item == node.attr:
                     return "NonTorchClass"
@@ -237,6 +241,12 @@ class BaseTransformer(ast.NodeTransformer):
             node,
             (ast.Call, ast.Compare, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Assert),
         ):
+            # torch.abs(sqrt(2)).transpose(1, 0), after 'from math import sqrt'
+            if isinstance(node, ast.Call):
+                root_name = self.get_full_attr(node.func).split(".")[0]
+                if root_name == "paddle" or self.is_torch_package_name(root_name):
+                    return "TorchClass"
+
             node_str = astor.to_source(node).strip("\n")
             for item in self.black_list:
                 # (array(1.) + array(2.)).abs() ...
@@ -254,6 +264,16 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "NonTorchClass"
 
+    def is_torch_package_name(self, name):
+        if name in self.black_list:
+            return False
+        imports = self.imports_map[self.file]
+        return (
+            name in imports["torch_packages"]
+            or name in imports["may_torch_packages"]
+            or isinstance(imports.get(name), str)
+        )
+
     def replace_torch_module(self, origin_attr):
         full_attr = origin_attr
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 3ec1c56..b385dcb 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -140,6 +140,7 @@ class ImportTransformer(BaseTransformer):
                             node.lineno,
                         )
                         new_alias_node = ast.alias(replace_pkg_name, alias_node.asname)
+                        self.insert_other_packages(self.imports_map, new_alias_node)
                         new_node_names.append(new_alias_node)
                     else:
                         # case 1: 'import audiotools' -> 'import paddlespeech.audiotools as audiotools'
@@ -153,6 +154,7 @@ class ImportTransformer(BaseTransformer):
                             node.lineno,
                         )
                         new_alias_node = ast.alias(replace_pkg_name, pkg_name)
+                        self.insert_other_packages(self.imports_map, new_alias_node)
                         new_node_names.append(new_alias_node)
                     has_done = True
                     break
@@ -320,6 +322,7 @@ class ImportTransformer(BaseTransformer):
                     self.file_name,
                     node.lineno,
                 )
+                self.insert_other_packages(self.imports_map, node)
                 return node
 
         # 4. other_packages
-- 
2.43.0


From 258a6dc131d2946ad3420ae61bf79b88a9b8a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:34 +0000
Subject: [PATCH 39/65] fix: helper code for get_enum imports warnings

---
 paconvert/api_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 96b3e48..b8bd650 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3974,6 +3974,8 @@ class Get_EnumMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
+            import warnings
+
             def get_enum(reduction: str) -> int:
                 if reduction == "none":
                     ret = 0
-- 
2.43.0


From 0ae681b12e08a430664ea5f81c1dc8c6604474b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 40/65] fix: import the packages that the code of converted
 APIs needs

---
 paconvert/transformer/basic_transformer.py | 31 ++++++++++++++++++++++
 paconvert/utils.py                         |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 77fe13b..5c9b5d8 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -64,6 +64,37 @@ class BasicTransformer(BaseTransformer):
             "arg",
         ]
 
+    def transform(self):
+        super(BasicTransformer, self).transform()
+        self.import_used_packages()
+
+    def import_used_packages(self):
+        """
+        the code of a converted api may need a package that the file does not import
+        """
+        if len(self.imports_map[self.file]["torch_packages"]) == 0:
+            return
+
+        used_names, bound_names = set(), set()
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.Name):
+                if isinstance(node.ctx, ast.Load):
+                    used_names.add(node.id)
+                else:
+                    bound_names.add(node.id)
+            elif isinstance(node, ast.alias):
+                bound_names.add(node.asname or node.name.split(".")[0])
+            elif isinstance(node, ast.arg):
+                bound_names.add(node.arg)
+
+        for package in ["re", "paddle"]:
+            if package in used_names and package not in bound_names:
+                log_info(self.logger, f"add 'import {package}'", self.file_name)
+                self.root.body.insert(
+                    self.module_header_size(self.root),
+                    ast.parse(f"import {package}").body[0],
+                )
+
     def visit_Attribute(self, node):
         """
         torch api is not used by function call, so only match api name and not need to handle params.
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 967787a..0c951e9 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -180,6 +180,8 @@ class UtilsFileHelper(object):
             # find a position to insert the new code
             lines = existing_content.split("\n")
             insert_idx = self._find_import_insert_idx(lines)
+            if "import paddle" not in lines:
+                insert_code = "\nimport paddle\n" + insert_code
 
             # insert the new code after all imports
             new_content = "".join(
-- 
2.43.0


From c2f0d9e677c155be9f2c805ae0cbcf9688c4a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:41 +0000
Subject: [PATCH 41/65] fix: arguments after a leading * are keyword-only

torch.Tensor.cov and torch.profiler.schedule take keyword arguments only;
a call with positional arguments does not fit them.
---
 paconvert/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index cb08a10..57478f0 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -17,7 +17,6 @@ import collections
 import os
 import re
 import textwrap
-from itertools import groupby
 
 import astor
 
@@ -391,11 +390,10 @@ class BaseMatcher(object):
         min_input_args_num = self.api_mapping_dict.get("min_input_args") or 0
         unsupport_args = self.api_mapping_dict.get("unsupport_args") or []
 
-        group_list = [
-            list(v) for k, v in groupby(args_list, lambda x: x == "*") if not k
-        ]
-        posion_args_list = group_list[0] if len(group_list) > 0 else []
-        force_kwargs_list = group_list[1] if len(group_list) > 1 else []
+        # all arguments can be keyword-only: [ "*", "correction" ]
+        star_index = args_list.index("*") if "*" in args_list else len(args_list)
+        posion_args_list = args_list[:star_index]
+        force_kwargs_list = args_list[star_index + 1 :]
         force_kwargs_num = 0
         for node in args:
             # not support 'torch.rot90(tensor, *config)'
-- 
2.43.0


From 21168e50088980983cc76351a91c22cadc5dd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:26 +0000
Subject: [PATCH 42/65] fix: torch.distributed.Backend has no Paddle
 counterpart as a plain reference

---
 paconvert/api_mapping.json | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 0dbab39..93526d9 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -3755,7 +3755,6 @@
   },
   "torch.distributed.Backend": {
     "Matcher": "DistributedBackendMatcher",
-    "paddle_api": "torch.distributed.Backend",
     "min_input_args": 1,
     "args_list": [
       "name"
-- 
2.43.0


From ee8613aac8469b25251ca26c778606ddb4742ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:39 +0000
Subject: [PATCH 43/65] fix: variables of generated statements get names of
 their own

The statements inserted for torch.svd, torch.slogdet, x.eq_ and others bound fixed
names (res, out1, tmp_u, P, dtype, ...): two such APIs in one statement overwrote each
other's values, and variables of the user with these names were overwritten.
torch.index_copy also rebound its input and referred to an undefined 'index'.
---
 paconvert/api_matcher.py | 83 ++++++++++++++++++++++++++++++----------
 paconvert/utils.py       |  9 +++++
 2 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b8bd650..2097fc3 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -22,7 +22,7 @@ import textwrap
 
 from paconvert.base import BaseMatcher
 from paconvert.transformer.custom_op_transformer import CPP_EXTENSION_LIST  # noqa: F401
-from paconvert.utils import get_unique_name
+from paconvert.utils import get_unique_name, set_unique_names
 from paconvert.global_var import GlobalManager
 
 TypePromoteFunc = textwrap.dedent(
@@ -987,6 +987,7 @@ class MakeTMatcher(BaseMatcher):
                 out
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out")
             code = API_TEMPLATE.format(
                 kwargs["shape"],
                 kwargs["dtype"],
@@ -2455,12 +2456,21 @@ class IndexCopyMatcher(BaseMatcher):
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                temp_input, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
                 for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.assign(paddle.scatter({}, temp_index, new_t).reshape(temp_shape), {})
+                    temp_index= paddle.concat([temp_index, {}+len({})*i])
+                paddle.assign(paddle.scatter(temp_input, temp_index, new_t).reshape(temp_shape), {})
                 """
             )
+            API_TEMPLATE = set_unique_names(
+                API_TEMPLATE,
+                "times",
+                "temp_shape",
+                "temp_index",
+                "new_t",
+                "temp_input",
+                "i",
+            )
 
             code = API_TEMPLATE.format(
                 kwargs["input"],
@@ -2468,23 +2478,32 @@ class IndexCopyMatcher(BaseMatcher):
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
+                kwargs["index"],
+                kwargs["index"],
                 out_v,
             )
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
                 times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
+                temp_input, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
                 for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.scatter({}, temp_index, new_t).reshape(temp_shape)
+                    temp_index= paddle.concat([temp_index, {}+len({})*i])
+                paddle.scatter(temp_input, temp_index, new_t).reshape(temp_shape)
                 """
             )
+            API_TEMPLATE = set_unique_names(
+                API_TEMPLATE,
+                "times",
+                "temp_shape",
+                "temp_index",
+                "new_t",
+                "temp_input",
+                "i",
+            )
 
             code = API_TEMPLATE.format(
                 kwargs["input"],
@@ -2492,11 +2511,11 @@ class IndexCopyMatcher(BaseMatcher):
                 kwargs["input"],
                 kwargs["index"],
                 kwargs["input"],
-                kwargs["input"],
                 kwargs["dim"],
                 kwargs["source"],
                 kwargs["dim"],
-                kwargs["input"],
+                kwargs["index"],
+                kwargs["index"],
             )
 
         return code
@@ -3424,6 +3443,7 @@ class SLogDetMatcher(BaseMatcher):
                 paddle.assign(res[0], {}[0]), paddle.assign(res[1], {}[1])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "res")
             code = API_TEMPLATE.format(x_v, out_v, out_v)
         else:
             API_TEMPLATE = textwrap.dedent(
@@ -3432,6 +3452,7 @@ class SLogDetMatcher(BaseMatcher):
                 res[0], res[1].astype("float32")
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "res")
             code = API_TEMPLATE.format(x_v)
 
         return code
@@ -3499,6 +3520,7 @@ class LinalgInvExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(kwargs["A"], kwargs["A"], out_v, out_v)
             return code
         else:
@@ -3524,6 +3546,7 @@ class LinalgCholeskyExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 kwargs["input"], kwargs["upper"], kwargs["input"], out_v, out_v
             )
@@ -3631,6 +3654,7 @@ class DoubleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -3651,6 +3675,7 @@ class TripleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1]), paddle.assign(out3, {}[2])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2", "out3")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v, out_v
             )
@@ -3912,6 +3937,7 @@ class SortMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(kwargs), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -4133,6 +4159,7 @@ class LRSchedulerMatcher(BaseMatcher):
             tmp_lr
             """
         )
+        API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_lr")
         code = API_TEMPLATE.format(
             self.get_paddle_api(), self.kwargs_to_str(kwargs), optimizer
         )
@@ -4259,6 +4286,9 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1]), paddle.assign(tmp_info, {}[2])
                     """
                 )
+                API_TEMPLATE = set_unique_names(
+                    API_TEMPLATE, "tmp_lu", "tmp_p", "tmp_info"
+                )
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(),
                     self.kwargs_to_str(new_kwargs),
@@ -4273,6 +4303,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1])
                     """
                 )
+                API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_lu", "tmp_p")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(new_kwargs), out_v, out_v
                 )
@@ -4297,6 +4328,9 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.assign(P, {}[0]), paddle.assign(L, {}[1]), paddle.assign(U, {}[2])
                 """
             )
+            API_TEMPLATE = set_unique_names(
+                API_TEMPLATE, "tmp_lu", "tmp_p", "P", "L", "U"
+            )
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
                 out_v,
@@ -4310,6 +4344,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.linalg.lu_unpack(tmp_lu, tmp_p)
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_lu", "tmp_p")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
             )
@@ -4371,6 +4406,7 @@ class SvdMatcher(BaseMatcher):
                 paddle.assign(tmp_u, {}[0]), paddle.assign(tmp_s, {}[1]), paddle.assign(tmp_v.conj().t(), {}[2])
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4385,6 +4421,7 @@ class SvdMatcher(BaseMatcher):
                 tmp_u, tmp_s, tmp_v.conj().t()
                 """
             )
+            API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4690,6 +4727,7 @@ class TensorInplaceReserveTypeMatcher(BaseMatcher):
             {}({}).cast_(_x_dtype_)
             """
         )
+        API_TEMPLATE = set_unique_names(API_TEMPLATE, "_x_dtype_")
 
         convert_tensor = self.api_mapping_dict.get("convert_tensor", {})
 
@@ -5004,9 +5042,8 @@ class Lu_unpackMatcher(BaseMatcher):
 
         out_v = kwargs.pop("out", "None")
         if out_v != "None":
-            out1 = "out1"
-            out2 = "out2"
-            out3 = "out3"
+            outs = [get_unique_name(name) for name in ["out1", "out2", "out3"]]
+            out1, out2, out3 = outs
             if "unpack_ludata" in kwargs and kwargs["unpack_ludata"] == "(False)":
                 out2 = "paddle.paddle.to_tensor([])"
                 out3 = "paddle.paddle.to_tensor([])"
@@ -5014,11 +5051,12 @@ class Lu_unpackMatcher(BaseMatcher):
                 out1 = "paddle.paddle.to_tensor([])"
             API_TEMPLATE = textwrap.dedent(
                 """
-                out1, out2, out3 = {}({})
+                {}, {}, {} = {}({})
                 paddle.assign({}, {}[0]), paddle.assign({}, {}[1]), paddle.assign({}, {}[2])
                 """
             )
             code = API_TEMPLATE.format(
+                *outs,
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
                 out1,
@@ -5048,6 +5086,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5064,6 +5103,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5100,6 +5140,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     paddleclass=self.paddleClass,
                     kwargs=self.kwargs_to_str(kwargs),
@@ -5113,6 +5154,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = set_unique_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     kwargs=self.kwargs_to_str(kwargs),
                     kwargs_bin_edges=self.kwargs_to_str(kwargs_bin_edges),
@@ -5139,13 +5181,14 @@ class FromBufferMatcher(BaseMatcher):
         API_TEMPLATE = textwrap.dedent(
             """
             import numpy as np
-            buffer = {0}
-            dtype = {1}
-            if isinstance(dtype, paddle.base.core.DataType):
-                dtype = dtype.name.lower()
-            paddle.to_tensor(np.frombuffer(np.array(buffer), dtype=dtype))
+            tmp_buffer = {0}
+            tmp_dtype = {1}
+            if isinstance(tmp_dtype, paddle.base.core.DataType):
+                tmp_dtype = tmp_dtype.name.lower()
+            paddle.to_tensor(np.frombuffer(np.array(tmp_buffer), dtype=tmp_dtype))
             """
         )
+        API_TEMPLATE = set_unique_names(API_TEMPLATE, "tmp_buffer", "tmp_dtype")
         code = API_TEMPLATE.format(kwargs["buffer"], kwargs["dtype"])
 
         return code
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 0c951e9..947ef86 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -37,6 +37,15 @@ def get_unique_name(key):
     return Generator(key)
 
 
+def set_unique_names(template, *names):
+    # variables of the generated code must not overwrite those of the user or of
+    # another API in the same statement
+    for name in names:
+        unique_name = get_unique_name(name)
+        template = re.sub(r"(?<![\w.])%s(?!\w)" % name, unique_name, template)
+    return template
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From a220d471e8a628ff7647ebaa417e61075bde74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 44/65] fix: an annotation stands directly before the statement
 it belongs to

With statements inserted after it, the first of those was marked instead of the
statement with the unsupported use.
---
 paconvert/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 57478f0..ea46448 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -117,6 +117,8 @@ class BaseTransformer(ast.NodeTransformer):
                     insert_lines.items(), key=lambda x: x[0], reverse=True
                 )
                 for index, lines in insert_lines:
+                    # the line after an annotation is marked, it must be the statement
+                    lines = sorted(lines, key=self.is_annotation)
                     if index == 0 and isinstance(scope_node, ast.Module):
                         index = self.module_header_size(scope_node)
                     log_debug(
@@ -130,6 +132,13 @@ class BaseTransformer(ast.NodeTransformer):
                         except:
                             getattr(scope_node, body).insert(0, line)
 
+    def is_annotation(self, node):
+        return (
+            isinstance(node, ast.Expr)
+            and isinstance(node.value, ast.Constant)
+            and "Not Support auto convert" in str(node.value.value)
+        )
+
     def module_header_size(self, module):
         # module docstring and 'from __future__ import' must stay at the beginning
         size = 1 if ast.get_docstring(module, clean=False) is not None else 0
-- 
2.43.0


From 064bdc63bce38dfefa02c76268c4dd725594121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:26 +0000
Subject: [PATCH 45/65] fix: statements that use names of a lambda or
 comprehension cannot be moved out of it

---
 paconvert/base.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index ea46448..d29c8c7 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -194,10 +194,38 @@ class BaseTransformer(ast.NodeTransformer):
         if len(other_nodes) > 0:
             if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
                 return False
+            # x is not known outside of 'lambda x: f(x)' and '[f(x) for x in y]'
+            if self.use_names(other_nodes, self.local_names()):
+                return False
             self.record_scope(self.scope_body_index(), other_nodes)
 
         return True
 
+    def local_names(self):
+        # names bound inside the current statement by lambda or comprehension
+        names = set()
+        for node in reversed(self.node_stack):
+            if isinstance(node, ast.stmt):
+                break
+            if isinstance(node, ast.Lambda):
+                names.update(
+                    arg.arg for arg in ast.walk(node.args) if isinstance(arg, ast.arg)
+                )
+            for generator in getattr(node, "generators", []):
+                names.update(
+                    name.id
+                    for name in ast.walk(generator.target)
+                    if isinstance(name, ast.Name)
+                )
+        return names
+
+    def use_names(self, nodes, names):
+        return any(
+            isinstance(name, ast.Name) and name.id in names
+            for node in nodes
+            for name in ast.walk(node)
+        )
+
     def get_full_attr(self, node):
         if isinstance(node, ast.Attribute):
             return self.get_full_attr(node.value) + "." + node.attr
-- 
2.43.0


From 23c4f0866604f52929413e4321943e798b3c590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 46/65] fix: files with carriage return line ends keep their
 coding declaration

---
 paconvert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index f61d985..6d9312b 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -386,8 +386,8 @@ class Converter:
             log_info(
                 self.logger, "Start convert file: {} --> {}".format(old_path, new_path)
             )
-            # honour the byte order mark and the coding declaration, UTF-8 by default
-            with tokenize.open(old_path) as f:
+            # the parser honours byte order mark and coding declaration of bytes
+            with open(old_path, "rb") as f:
                 code = f.read()
                 if self.calculate_speed:
                     self.line_count += len(code.splitlines())
-- 
2.43.0


From d45757cb19256651db77cfa4f20c10bac1dfc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 47/65] fix: code that astor cannot write exactly is written by
 ast.unparse

---
 paconvert/base.py      | 12 ++++++------
 paconvert/converter.py |  4 ++--
 paconvert/utils.py     | 22 ++++++++++++++++++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index d29c8c7..a52065c 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -21,7 +21,7 @@ import textwrap
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, log_debug
+from paconvert.utils import UtilsFileHelper, log_debug, to_source
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -467,7 +467,7 @@ class BaseMatcher(object):
             # not support some API args
             if k in unsupport_args:
                 return None
-            v = astor.to_source(node).strip("\n")
+            v = to_source(node).strip("\n")
             # v = ast.unparse(node)
             new_kwargs[k] = v
 
@@ -479,7 +479,7 @@ class BaseMatcher(object):
                     f"Parameter '{k}' specified multiple times - cannot be both positional and keyword argument",
                     self.transformer.file_name,
                 )
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
             # v = ast.unparse(node.value)
             new_kwargs[k] = v
 
@@ -490,7 +490,7 @@ class BaseMatcher(object):
         for node in args:
             # if isinstance(node, ast.Starred) and not allow_starred:
             #    return None
-            ele = astor.to_source(node).strip("\n")
+            ele = to_source(node).strip("\n")
             new_args.append(ele)
 
         return new_args
@@ -507,7 +507,7 @@ class BaseMatcher(object):
             # not support some API args
             if k in unsupport_args:
                 return None
-            v = astor.to_source(node.value).strip("\n")
+            v = to_source(node.value).strip("\n")
             if k is None and k in new_kwargs:
                 # 'torch.rot90(tensor, **config1, **config2)'
                 v = "{}, **{}".format(new_kwargs[k], v)
@@ -516,7 +516,7 @@ class BaseMatcher(object):
         return new_kwargs
 
     def parse_func(self, func):
-        func_str = astor.to_source(func).strip("\n")
+        func_str = to_source(func).strip("\n")
         self.paddleClass = func_str[0 : func_str.rfind(".")]
         class_str = "paddle.Tensor|paddle.nn.Module|paddle.optimizer.Optimizer|paddle.optim.Optimizer|paddle.distribution.Distribution|paddle.distributions.distribution.Distribution|paddle.autograd.function.FunctionCtx|paddle.profiler.Profiler"
         if self.get_paddle_api():
diff --git a/paconvert/converter.py b/paconvert/converter.py
index 6d9312b..742cac5 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -25,7 +25,6 @@ import shutil
 import tokenize
 import black
 import isort
-import astor
 
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
@@ -40,6 +39,7 @@ from paconvert.utils import (
     get_unique_name,
     log_info,
     log_warning,
+    to_source,
 )
 from paconvert.global_var import GlobalManager
 
@@ -394,7 +394,7 @@ class Converter:
                 root = ast.parse(code)
 
             self.transfer_node(root, old_path)
-            code = astor.to_source(root)
+            code = to_source(root)
 
             # format code
             if not self.no_format:
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 947ef86..9c08934 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -12,11 +12,13 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import ast
 import collections
 import os
 import re
 import threading
 
+import astor
 import isort
 
 
@@ -46,6 +48,26 @@ def set_unique_names(template, *names):
     return template
 
 
+def to_source(node):
+    # astor does not know the newest syntax (match, except*, type) and misprints a few
+    # expressions, such trees are written by ast.unparse
+    try:
+        code = astor.to_source(node)
+    except AttributeError:
+        code = None
+    try:
+        exact_code = ast.unparse(node) + "\n"
+        exact_tree = ast.dump(ast.parse(exact_code))
+    except Exception:
+        return astor.to_source(node)
+    try:
+        if code is not None and ast.dump(ast.parse(code)) == exact_tree:
+            return code
+    except (SyntaxError, ValueError):
+        pass
+    return exact_code
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From 8175a2eed259259d003781536d9b3f336c7670ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 48/65] fix: statements generated in except* and case blocks
 stay in them

---
 paconvert/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index a52065c..acdb747 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -395,6 +395,7 @@ class BaseTransformer(ast.NodeTransformer):
     visit_ClassDef = visit_FunctionDef
     visit_AsyncFor = visit_For
     visit_AsyncWith = visit_With
+    visit_TryStar = visit_Try
 
     def visit_ExceptHandler(self, node):
         self.scope_stack.append(node)
@@ -402,6 +403,8 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    visit_match_case = visit_ExceptHandler
+
     def visit_Module(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
-- 
2.43.0


From 3f0347a7f96f5f78a4b746ee3dee94d7d467ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 49/65] fix: methods of values of other libraries are no tensor
 methods

---
 paconvert/base.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index acdb747..04dae05 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -283,6 +283,10 @@ class BaseTransformer(ast.NodeTransformer):
                 if root_name == "paddle" or self.is_torch_package_name(root_name):
                     return "TorchClass"
 
+            # (np.array(1.) + np.array(2.)).abs(), 'a,b'.strip().split(',')
+            if self.is_non_torch_value(node):
+                return "NonTorchClass"
+
             node_str = astor.to_source(node).strip("\n")
             for item in self.black_list:
                 # (array(1.) + array(2.)).abs() ...
@@ -300,6 +304,24 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "NonTorchClass"
 
+    def is_non_torch_value(self, node):
+        # whether an expression is made of values of other libraries and constants only
+        if isinstance(node, (ast.Constant, ast.JoinedStr)):
+            return True
+        if isinstance(node, ast.BinOp):
+            operands = [node.left, node.right]
+        elif isinstance(node, ast.Compare):
+            operands = [node.left] + node.comparators
+        elif isinstance(node, ast.UnaryOp):
+            operands = [node.operand]
+        elif isinstance(node, (ast.Subscript, ast.Attribute)):
+            operands = [node.value]
+        elif isinstance(node, ast.Call):
+            operands = [node.func]
+        else:
+            return isinstance(node, ast.Name) and node.id in self.black_list
+        return all(self.is_non_torch_value(operand) for operand in operands)
+
     def is_torch_package_name(self, name):
         if name in self.black_list:
             return False
-- 
2.43.0


From a902b0a049a2bf44cb7a1d67281b67b4bbe7e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 50/65] fix: an attribute that is assigned to is replaced by an
 assignable one only

---
 paconvert/transformer/basic_transformer.py  | 18 ++++++++++++++----
 paconvert/transformer/import_transformer.py |  4 +++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 5c9b5d8..0b75ed4 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -210,7 +210,9 @@ class BasicTransformer(BaseTransformer):
                         node.lineno,
                     )
                     return node
-                elif paddle_api:
+                elif paddle_api and self.can_replace(
+                    node, ast.parse(paddle_api).body[0].value
+                ):
                     self.all_api_map[torch_api]["paddle_api"] = (
                         paddle_api if paddle_api else ""
                     )
@@ -232,9 +234,9 @@ class BasicTransformer(BaseTransformer):
                 matcher = self.get_api_matcher(
                     ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
                 )
-                if matcher:
+                paddle_api = matcher.get_paddle_api() if matcher else None
+                if paddle_api and paddle_api not in ["delete", "misidentify"]:
                     torch_api = ".".join(attr_list[:-1])
-                    paddle_api = matcher.get_paddle_api()
                     if paddle_api == "unchange":
                         self.success_api_count += 1
                         log_info(
@@ -339,6 +341,12 @@ class BasicTransformer(BaseTransformer):
         # 3) Others
         return node
 
+    def can_replace(self, node, new_node):
+        # x.real = y: x.real() can not be assigned to
+        return isinstance(node.ctx, ast.Load) or isinstance(
+            new_node, (ast.Attribute, ast.Name, ast.Subscript)
+        )
+
     def trans_class_attribute(self, node, torch_api, origin_attr):
         matcher = self.get_attribute_matcher(torch_api, origin_attr)
         if matcher:
@@ -397,7 +405,9 @@ class BasicTransformer(BaseTransformer):
                         ast.Assert,
                     ),
                 ):
-                    if self.insert_multi_node(node_list[0:-1]):
+                    if self.can_replace(node, new_node) and self.insert_multi_node(
+                        node_list[0:-1]
+                    ):
                         self.success_api_count += 1
                         log_info(
                             self.logger,
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index b385dcb..fbc70cb 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -382,7 +382,9 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            new_node = ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            new_node.ctx = node.ctx
+            return new_node
         return node
 
     def visit_Name(self, node):
-- 
2.43.0


From d708547ec5412b0104fa6ea68ecd5d1b09ace6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:01 +0000
Subject: [PATCH 51/65] fix: torch.utils.data.dataloader.DataLoader is an
 alias, not an API of its own

---
 paconvert/api_mapping.json | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 93526d9..6eb156b 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -10154,9 +10154,6 @@
   "torch.utils.data._utils.collate.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-  "torch.utils.data.dataloader.DataLoader": {
-    "Matcher": "ChangePrefixMatcher"
-  },
   "torch.utils.data.dataloader.default_collate": {
     "Matcher": "ChangePrefixMatcher"
   },
-- 
2.43.0


From 0f8d04067a8c19b1ee44b3c246d1dd8fc7420d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:53 +0000
Subject: [PATCH 52/65] fix: members of PyTorch's classes are left alone when
 torch is excluded

---
 paconvert/transformer/basic_transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 0b75ed4..487f31c 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -273,7 +273,10 @@ class BasicTransformer(BaseTransformer):
 
         # 2) Torch Class attribute
         #   such as x.device...
-        if "NonTorchClass" not in full_attr:
+        if (
+            "NonTorchClass" not in full_attr
+            and "torch" in GlobalManager.TORCH_PACKAGE_MAPPING
+        ):
             is_tensor_api = False
             is_func_ctx_api = False
             is_distribution_api = False
@@ -592,7 +595,10 @@ class BasicTransformer(BaseTransformer):
 
         # 2) Torch Class call
         #   such as : x.add(y) / x.abs().add / sgd.step() / model.to(torch.device('cuda'))
-        if "NonTorchClass" not in full_attr:
+        if (
+            "NonTorchClass" not in full_attr
+            and "torch" in GlobalManager.TORCH_PACKAGE_MAPPING
+        ):
             is_tensor_api = False
             is_module_api = False
             is_optim_api = False
-- 
2.43.0


From f0e16b89ac46be309a9a14ef259f1ead1a737fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 53/65] fix: mark the statement of an unconverted name that is
 printed over two lines

---
 paconvert/converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 742cac5..30462ae 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -528,6 +528,14 @@ class Converter:
             scan_code = self.mask_change_prefix_apis(code, file)
         scan_code = self.mask_string_literals(scan_code)
 
+        # a name broken into several lines is scanned on its first line:
+        # torch
+        #     .abs(x)
+        broken_name = r"(?<=\w)([ \t]*\n[ \t]*)(\.\w+)|(?<=\w\.)([ \t]*\n[ \t]*)(\w+)"
+        count = 1
+        while count:
+            scan_code, count = re.subn(broken_name, r"\2\4\1\3", scan_code)
+
         lines = code.split("\n")
         scan_lines = scan_code.split("\n")
         mark_next_line = False
-- 
2.43.0


From e1f2bfca5e57c5efe46262908699a07d44126687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 54/65] fix: a set-up call without a name raised KeyError and
 was neither converted nor marked

---
 paconvert/api_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 2097fc3..c6d48ca 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4762,7 +4762,8 @@ class SetUpMatcher(BaseMatcher):
 
         kwargs.pop("cmdclass")
         global CPP_EXTENSION_LIST
-        CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
+        if "name" in kwargs:
+            CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
         return ast.parse(
             "paddle.utils.cpp_extension.setup({})".format(self.kwargs_to_str(kwargs))
         )
-- 
2.43.0


From a5a941982ab237fb7dc7339ab70b01d3373600b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 55/65] fix: a from-imported name kept in min mode was not
 counted

---
 paconvert/transformer/basic_transformer.py  | 19 +++++++++++++++++++
 paconvert/transformer/import_transformer.py |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 487f31c..ce5962c 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -939,4 +939,23 @@ class BasicTransformer(BaseTransformer):
                     .body[0]
                     .value
                 )
+
+        # from torch import float32; x = float32, the name is kept in min mode.
+        # should be handled by visit_Call: from torch import abs; abs(x)
+        if getattr(node, "torch_api", None) and not (
+            isinstance(self.parent_node, ast.Call) and node == self.parent_node.func
+        ):
+            torch_api = self.get_canonical_torch_api(node.torch_api)
+            self.torch_api_count += 1
+            self.success_api_count += 1
+            if torch_api not in self.all_api_map:
+                self.all_api_map[torch_api]["paddle_api"] = ""
+                self.all_api_map[torch_api]["count"] = 0
+            self.all_api_map[torch_api]["count"] += 1
+            log_info(
+                self.logger,
+                "[Success] Unchange {}".format(torch_api),
+                self.file_name,
+                node.lineno,
+            )
         return node
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index fbc70cb..cc847da 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -508,6 +508,8 @@ class ImportTransformer(BaseTransformer):
 
                 if self.in_min_mode(torch_api):
                     self.change_prefix_api_map[self.file].add(torch_api)
+                    # the name stays, but is a use of the api
+                    node.torch_api = torch_api
                     return node
 
                 return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-- 
2.43.0


From 780243e534293791eeae926a8c1c29fa5115761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 56/65] fix: a C++ extension loaded into an attribute or a
 tuple crashed the conversion of the file

---
 paconvert/transformer/custom_op_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index f1bb559..44a1f7d 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -98,7 +98,11 @@ class PreCustomOpTransformer(BaseTransformer):
     def visit_Assign(self, node):
         super(PreCustomOpTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Call):
-            if "paddle.utils.cpp_extension.load" == self.get_full_attr(node.value.func):
+            if (
+                "paddle.utils.cpp_extension.load" == self.get_full_attr(node.value.func)
+                and len(node.targets) == 1
+                and isinstance(node.targets[0], ast.Name)
+            ):
                 self.cpp_ext_load_names.append(node.targets[0].id)
         return node
 
-- 
2.43.0


From 2c6449a5243a13e62ca53c57549f1641e2bf7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 57/65] fix: uses of a C++ extension wrapper before its
 definition were not replaced

---
 .../transformer/custom_op_transformer.py      | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 44a1f7d..a407450 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -190,6 +190,10 @@ class CustomOpTransformer(BaseTransformer):
         self.removed_nodes = []
 
     def transform(self):
+        # the wrapper may be used in the file that defines it, also before its definition
+        for node in ast.walk(self.root):
+            if node in AUTOGRAD_FUNC_NODES:
+                self.autograd_func_import_names[node.name] = AUTOGRAD_FUNC_NODES[node]
         self.visit(self.root)
         self.insert_scope()
         # the places to insert at count the removed nodes, so remove them last
@@ -252,18 +256,15 @@ class CustomOpTransformer(BaseTransformer):
             return self.remove_node(node)
 
     def visit_ClassDef(self, node):
+        if node in AUTOGRAD_FUNC_NODES:
+            log_debug(
+                self.logger,
+                "Just remove Class Definition {} ".format(node.name),
+                self.file_name,
+                node.lineno,
+            )
+            return self.remove_node(node)
         super(CustomOpTransformer, self).generic_visit(node)
-        for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
-            if autograd_func_node == node:
-                log_debug(
-                    self.logger,
-                    "Just remove Class Definition {} ".format(autograd_func_node.name),
-                    self.file_name,
-                    node.lineno,
-                )
-                # the wrapper may be used in the file that defined it
-                self.autograd_func_import_names[node.name] = cpp_ext
-                return self.remove_node(node)
         return node
 
     def visit_Attribute(self, node):
-- 
2.43.0


From fa512645c71a174850ecaf3afc6eb4d86288d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:39 +0000
Subject: [PATCH 58/65] fix: methods of converted values were left alone in a
 file that already imports paddle

---
 paconvert/transformer/basic_transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index ce5962c..6344035 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -58,7 +58,10 @@ class BasicTransformer(BaseTransformer):
             unsupport_api_map,
         )
         # use to identify tensor method/attribute
-        self.black_list = list(self.imports_map[self.file]["other_packages"]) + [
+        # paddle.abs(x) is a tensor, also in a file that imports paddle already
+        self.black_list = list(
+            self.imports_map[self.file]["other_packages"] - {"paddle"}
+        ) + [
             "ndarray",
             "args",
             "arg",
-- 
2.43.0


From 0681efa8a8998cab73610dfda191d07376e5ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 59/65] fix: methods of lists and strings built by operators
 are no tensor methods

---
 paconvert/base.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 04dae05..e2639f0 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -24,6 +24,20 @@ from paconvert.global_var import GlobalManager
 from paconvert.utils import UtilsFileHelper, log_debug, to_source
 
 
+DISPLAY_NODES = (
+    ast.List,
+    ast.Tuple,
+    ast.Set,
+    ast.Dict,
+    ast.ListComp,
+    ast.SetComp,
+    ast.DictComp,
+    ast.GeneratorExp,
+    ast.JoinedStr,
+    ast.Lambda,
+)
+
+
 class BaseTransformer(ast.NodeTransformer):
     def __init__(
         self,
@@ -308,6 +322,9 @@ class BaseTransformer(ast.NodeTransformer):
         # whether an expression is made of values of other libraries and constants only
         if isinstance(node, (ast.Constant, ast.JoinedStr)):
             return True
+        # ([0] * n).sort(), ('%s' % x).split()
+        if isinstance(node, (ast.BinOp, ast.Compare)) and self.is_display(node):
+            return True
         if isinstance(node, ast.BinOp):
             operands = [node.left, node.right]
         elif isinstance(node, ast.Compare):
@@ -322,6 +339,16 @@ class BaseTransformer(ast.NodeTransformer):
             return isinstance(node, ast.Name) and node.id in self.black_list
         return all(self.is_non_torch_value(operand) for operand in operands)
 
+    def is_display(self, node):
+        # whether an expression is a list, string, function ..., or combined with one
+        if isinstance(node, ast.BinOp):
+            return self.is_display(node.left) or self.is_display(node.right)
+        if isinstance(node, ast.Compare):
+            return any(map(self.is_display, [node.left] + node.comparators))
+        if isinstance(node, ast.Constant):
+            return isinstance(node.value, (str, bytes))
+        return isinstance(node, DISPLAY_NODES)
+
     def is_torch_package_name(self, name):
         if name in self.black_list:
             return False
-- 
2.43.0


From c119e475f5ab5f0b07a37883b1f5247c7e7fb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 60/65] fix: a directory at the output path of a file swallowed
 the file

---
 paconvert/converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 30462ae..60d13cc 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -342,7 +342,9 @@ class Converter:
                     if re.search(pattern, old_path):
                         return
 
-            if os.path.isdir(out_dir):
+            # a single file is put into the output directory, the files of a
+            # directory have their own place
+            if os.path.isdir(out_dir) and out_dir == self.out_root:
                 new_path = os.path.join(out_dir, os.path.basename(old_path))
             else:
                 new_path = out_dir
-- 
2.43.0


From 56e5649108621df1b1f5d999b7cac94bded76313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 61/65] fix: Base.method(self) lost its receiver when it
 becomes something else than a method call

---
 paconvert/transformer/basic_transformer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 6344035..0429ac5 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -699,6 +699,13 @@ class BasicTransformer(BaseTransformer):
         # 3) Others
         return node
 
+    def is_method_of(self, node, value):
+        return (
+            isinstance(node, ast.Call)
+            and isinstance(node.func, ast.Attribute)
+            and ast.dump(node.func.value) == ast.dump(value)
+        )
+
     def trans_class_method(self, node, torch_api, origin_attr):
         matcher = self.get_api_matcher(torch_api, origin_attr)
         if matcher:
@@ -779,11 +786,14 @@ class BasicTransformer(BaseTransformer):
                         ast.Compare,
                     ),
                 ):
+                    support = True
                     if self_in_args:
-                        if isinstance(new_node, ast.Call):
+                        # only Base.method(self, ...) has a place for self
+                        support = self.is_method_of(new_node, node.func.value)
+                        if support:
                             new_node.args.insert(0, ast.Name(id="self", ctx=ast.Load()))
 
-                    if self.insert_multi_node(node_list[0:-1]):
+                    if support and self.insert_multi_node(node_list[0:-1]):
                         self.success_api_count += 1
                         log_info(
                             self.logger,
-- 
2.43.0


From 9d65d2f1af3626551bda81c22bf0b8e8b8cf912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 62/65] fix: an API of another package that stands for a
 PyTorch one was left unconverted and unmarked

---
 paconvert/transformer/import_transformer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index cc847da..7dfc33d 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -382,7 +382,7 @@ class ImportTransformer(BaseTransformer):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
-            new_node = ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            new_node = self.get_canonical_node(torch_api)
             new_node.ctx = node.ctx
             return new_node
         return node
@@ -444,9 +444,7 @@ class ImportTransformer(BaseTransformer):
                     if self.in_min_mode(torch_api):
                         self.change_prefix_api_map[self.file].add(torch_api)
                         return node
-                    return (
-                        ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-                    )
+                    return self.get_canonical_node(torch_api)
 
                 elif self.parent_node.func.id in [
                     "isinstance",
@@ -512,9 +510,17 @@ class ImportTransformer(BaseTransformer):
                     node.torch_api = torch_api
                     return node
 
-                return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+                return self.get_canonical_node(torch_api)
         return node
 
+    def get_canonical_node(self, torch_api):
+        torch_api = self.get_canonical_torch_api(torch_api)
+        # timm.models.layers.trunc_normal_ -> torch.nn.init.trunc_normal_
+        torch_package = torch_api.split(".")[0]
+        if torch_package in GlobalManager.TORCH_PACKAGE_MAPPING:
+            self.imports_map[self.file]["torch_packages"].add(torch_package)
+        return ast.parse(torch_api).body[0].value
+
     def get_bound_names(self):
         """
         names that are bound by something else than an import
-- 
2.43.0


From 14ba694373d12d521421f4019697aa10d57b2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 63/65] fix: excluding torch crashed on other packages' names
 for its APIs

---
 paconvert/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paconvert/main.py b/paconvert/main.py
index e9e066a..46afe25 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -138,6 +138,10 @@ def main():
         exclude_packages = args.exclude_packages.split(",")
         for package in exclude_packages:
             GlobalManager.TORCH_PACKAGE_MAPPING.pop(package)
+        # other names for the APIs of those packages
+        for alias, api in list(GlobalManager.ALIAS_MAPPING.items()):
+            if api.split(".")[0] in exclude_packages:
+                GlobalManager.ALIAS_MAPPING.pop(alias)
 
     if args.separate_convert:
         project_num_100 = 0
-- 
2.43.0


From f5723abe51a8d75a67525ff93291d5b1fc264e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 64/65] fix: a C++ extension named load_... was taken for a
 loaded one

---
 paconvert/transformer/custom_op_transformer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index a407450..2d20392 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -19,6 +19,8 @@ from paconvert.utils import log_debug, log_info
 
 CPP_EXTENSION_LIST = []
 AUTOGRAD_FUNC_NODES = {}
+# marks the name of a loaded extension, no module name begins like this
+LOADED = "load "
 # what torch.autograd.Function is converted to
 AUTOGRAD_FUNC_BASES = ("paddle.autograd.Function", "paddle.autograd.PyLayer")
 
@@ -160,7 +162,7 @@ class PreCustomOpTransformer(BaseTransformer):
                                     node.lineno,
                                 )
                                 AUTOGRAD_FUNC_NODES[self.node_stack[i]] = (
-                                    "load_" + cpp_ext_load
+                                    LOADED + cpp_ext_load
                                 )
 
         return node
@@ -223,14 +225,14 @@ class CustomOpTransformer(BaseTransformer):
                     else:
                         self.autograd_func_import_names[alias_node.name] = cpp_ext
 
-                    if cpp_ext.startswith("load_"):
+                    if cpp_ext.startswith(LOADED):
                         log_info(
                             self.logger,
-                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext[len('load_'):]}' ",
+                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext[len(LOADED):]}' ",
                             self.file_name,
                             node.lineno,
                         )
-                        alias_node.name = cpp_ext[len("load_") :]
+                        alias_node.name = cpp_ext[len(LOADED) :]
                         alias_node.asname = None
                     else:
                         log_info(
@@ -279,8 +281,8 @@ class CustomOpTransformer(BaseTransformer):
                     self.file_name,
                     node.lineno,
                 )
-                if cpp_ext.startswith("load_"):
-                    new_node = ast.parse(cpp_ext[len("load_") :]).body[0].value
+                if cpp_ext.startswith(LOADED):
+                    new_node = ast.parse(cpp_ext[len(LOADED) :]).body[0].value
                 else:
                     new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0].value
                     self.record_scope(
-- 
2.43.0


From 9c7cf78c6e1264d62846551d1044ea8f8781225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 65/65] fix: a variable that once held an imported API was
 taken for it everywhere

---
 paconvert/transformer/import_transformer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 7dfc33d..6f63870 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -15,7 +15,7 @@
 
 import ast
 import os
-from collections import defaultdict
+from collections import Counter, defaultdict
 
 from paconvert.base import BaseTransformer
 from paconvert.global_var import GlobalManager
@@ -497,8 +497,11 @@ class ImportTransformer(BaseTransformer):
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
                 if maybe_alias_name:
-                    if len(self.parent_node.targets) == 1 and isinstance(
-                        self.parent_node.targets[0], ast.Name
+                    # a variable that is bound anywhere else may be another one
+                    if (
+                        len(self.parent_node.targets) == 1
+                        and isinstance(self.parent_node.targets[0], ast.Name)
+                        and self.get_bound_names()[self.parent_node.targets[0].id] == 1
                     ):
                         self.imports_map[self.file]["api_alias_name_map"][
                             self.parent_node.targets[0].id
@@ -523,15 +526,15 @@ class ImportTransformer(BaseTransformer):
 
     def get_bound_names(self):
         """
-        names that are bound by something else than an import
+        names that are bound by something else than an import, and how often
         """
         if self.bound_names is None:
-            self.bound_names = set()
+            self.bound_names = Counter()
             for node in ast.walk(self.root):
                 if isinstance(node, ast.Name) and not isinstance(node.ctx, ast.Load):
-                    self.bound_names.add(node.id)
+                    self.bound_names[node.id] += 1
                 elif isinstance(node, ast.arg):
-                    self.bound_names.add(node.arg)
+                    self.bound_names[node.arg] += 1
                 elif isinstance(
                     node,
                     (
@@ -541,7 +544,7 @@ class ImportTransformer(BaseTransformer):
                         ast.ExceptHandler,
                     ),
                 ):
-                    self.bound_names.add(node.name)
+                    self.bound_names[node.name] += 1
         return self.bound_names
 
     def visit_Module(self, node):
-- 
2.43.0

