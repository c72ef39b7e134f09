From 43b3d577816f6aba89da9bae6ca9df880f645e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 01/54] fix: return a str hash from the puregit prefix lookup,
 without debug output

---
 .../noworkflow/now/persistence/content/puregit_engine.py  | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index d11b414..e637ca0 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -47,13 +47,9 @@ class PureGitEngine(GitContentDatabaseEngine):
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
-        print(bytes_content_hash)
-        objects = git_system.all_objects(self.content_path)
-        print(objects)
-        for obj in objects:
-            print(obj)
+        for obj in git_system.all_objects(self.content_path):
             if obj.startswith(bytes_content_hash):
-                return obj
+                return obj.decode("utf-8")
         return None
 
     def create_initial_commit(self):
-- 
2.43.0


From ed121759df5d52487cee551f10e24080a260a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 02/54] fix: make the dulwich engine return bytes and find
 content by hash prefix

---
 capture/noworkflow/now/persistence/content/dulwich_engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index fe13a10..6c6c977 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -60,14 +60,14 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             return_data = self.repo.__getitem__(
                 content_hash.encode()
-            ).as_pretty_string()
+            ).as_raw_string()
             return return_data
 
     def find_subhash(self, content_hash):
         """Find hash in git"""
         try:
             content_hash = content_hash.encode("utf-8")
-            result = scan_for_short_id(self.repo.object_store, content_hash)
+            result = scan_for_short_id(self.repo.object_store, content_hash, Blob)
             if result:
                 return result.id.decode("utf-8")
         except KeyError:
-- 
2.43.0


From f0c940029bf3c702d167115a641a5a8643fca7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 03/54] fix: store content with dulwich when its loose object
 is locked

---
 .../noworkflow/now/persistence/content/dulwich_engine.py   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 6c6c977..65f0afc 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -40,7 +40,12 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                object_store.add_object(blob)
+                try:
+                    object_store.add_object(blob)
+                except file.FileLocked:
+                    # Another process is storing the same content, or died
+                    # while it was: store it in a pack, which needs no lock
+                    object_store.add_objects([(blob, None)])
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
-- 
2.43.0


From 8c63e254860cbcd8a17fdb459bf3642151d4c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 04/54] fix: store plain content atomically and accept
 concurrent writers

---
 .../now/persistence/content/plain_engine.py   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index a7e0143..41135fc 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -1,5 +1,6 @@
 import hashlib
 import os
+import threading
 from os.path import join, isdir, isfile
 
 from .base import ContentDatabaseEngine
@@ -16,7 +17,7 @@ class PlainEngine(ContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            os.makedirs(self.content_path)
+            os.makedirs(self.content_path, exist_ok=True)
 
     def set_path(self, config):
         """Set content path"""
@@ -28,11 +29,21 @@ class PlainEngine(ContentDatabaseEngine):
         content_hash = hashlib.sha1(content).hexdigest()
         content_dirname = join(content_path, content_hash[:2])
         if not isdir(content_dirname):
-            os.makedirs(content_dirname)
+            os.makedirs(content_dirname, exist_ok=True)
         content_filename = join(content_dirname, content_hash[2:])
         if not isfile(content_filename):
-            with safeopen.std_open(content_filename, "wb") as content_file:
-                content_file.write(content)
+            # Write the whole content before giving it its final name: an
+            # interrupted put must not leave part of it as if it were stored
+            temp_filename = join(os.path.dirname(content_path), "{}.{}.{}.tmp".format(
+                content_hash, os.getpid(), threading.get_ident()))
+            try:
+                with safeopen.std_open(temp_filename, "wb") as content_file:
+                    content_file.write(content)
+                os.replace(temp_filename, content_filename)
+            except OSError:
+                if isfile(temp_filename):
+                    os.remove(temp_filename)
+                raise
         return content_hash
 
     def put_attr(self, content, filename):
-- 
2.43.0


From 036b557aecac4dda33ebbaaf9bc9aa8d4a5bb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 05/54] fix: list every stored object with puregit, not only
 committed ones

---
 capture/noworkflow/now/persistence/content/git_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 3d93ed7..f73482f 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -97,7 +97,7 @@ def count_loose_objects(git_path):
 
 
 def all_objects(git_path):
-    cmd = ["git", "rev-list", "--objects", "--all"]
+    cmd = ["git", "cat-file", "--batch-check=%(objectname)", "--batch-all-objects"]
     out = execute(cmd, cwd=git_path)
     if out:
         return [x.strip() for x in out.split() if x.strip()]
-- 
2.43.0


From a84d1064206a4855c7d19814b254ea892ce8ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:57 +0000
Subject: [PATCH 06/54] fix: report background storage errors instead of
 hanging or dropping content

---
 .../now/persistence/content/parallel.py       | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 61b1579..62416ef 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -4,6 +4,12 @@
 # Please, consult the license terms in the LICENSE file.
 """Content database engine parallel generics"""
 
+def check_errors(errors):
+    """Report content that could not be stored in background"""
+    if errors:
+        raise RuntimeError("could not store content: {}".format("; ".join(errors)))
+
+
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
     from . import safeopen
@@ -24,8 +30,12 @@ def create_distributed(cls, name=None):
                     self.task_queue.task_done()
                     break
 
-                self.engine.do_put(*queue_content)
-                self.task_queue.task_done()
+                try:
+                    self.engine.do_put(*queue_content)
+                except Exception as exc:  # pylint: disable=broad-except
+                    self.engine.errors.append(repr(exc))
+                finally:
+                    self.task_queue.task_done()
 
 
     class Distributed(cls):
@@ -38,6 +48,7 @@ def create_distributed(cls, name=None):
             self.processes_started = False
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
+            self.errors = self.manager.list()
             self.lock = self.manager.RLock()
 
         def start_processes(self):
@@ -72,6 +83,8 @@ def create_distributed(cls, name=None):
                 # Wait for all of the tasks to finish
                 self.tasks.join()
                 self.processes_started = False
+                errors, self.errors = self.errors[:], self.manager.list()
+                check_errors(errors)
         
     Distributed.__name__ = name or ("Distributed" + cls.__name__)
     return Distributed
@@ -89,6 +102,7 @@ def create_pool(cls, name=None):
             self.manager = Manager()
             self.object_hashes = self.manager.dict()
             self.processes_started = False
+            self.results = []
             self.lock = self.manager.RLock()
 
         def start_processes(self):
@@ -103,7 +117,8 @@ def create_pool(cls, name=None):
             if not self.processes_started:
                 self.start_processes()
 
-            self.pool.apply_async(self.do_put, self.put_attr(content, filename))
+            self.results.append(
+                self.pool.apply_async(self.do_put, self.put_attr(content, filename)))
             content_hash = self._get_hash_from_content(content)
             return content_hash
 
@@ -113,6 +128,14 @@ def create_pool(cls, name=None):
                 self.pool.close()
                 self.pool.join()
                 self.processes_started = False
+                errors = []
+                for result in self.results:
+                    try:
+                        result.get()
+                    except Exception as exc:  # pylint: disable=broad-except
+                        errors.append(repr(exc))
+                self.results = []
+                check_errors(errors)
         
     ProcessingPool.__name__ = name or ("Pool" + cls.__name__)
     return ProcessingPool
@@ -126,11 +149,19 @@ def create_threading(cls, name=None):
         def __init__(self, config):
             super(Threading, self).__init__(config)
             self.persistence_threads = []
+            self.errors = []
             self.lock = threading.Lock()
 
+        def _thread_put(self, *args):
+            """Perform put operation in a thread, keeping its error"""
+            try:
+                self.do_put(*args)
+            except Exception as exc:  # pylint: disable=broad-except
+                self.errors.append(repr(exc))
+
         def put(self, content, filename="generic"):  # pylint: disable=method-hidden
             """Put content in the content database"""
-            t = threading.Thread(target=self.do_put, args=self.put_attr(content, filename))
+            t = threading.Thread(target=self._thread_put, args=self.put_attr(content, filename))
             self.persistence_threads.append(t)
             t.start()
             content_hash = self._get_hash_from_content(content)
@@ -142,6 +173,8 @@ def create_threading(cls, name=None):
                 t.join()
             
             self.persistence_threads = []
+            errors, self.errors = self.errors, []
+            check_errors(errors)
 
     Threading.__name__ = name or ("Threading" + cls.__name__)
     return Threading
-- 
2.43.0


From ccf3933fdbf8ad0723f08e592dc1acc9bb4fd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 07/54] fix: record each successful open once, with its mode
 and the content when its function ends

Special files are no longer read, failed opens leave no record, and wrapped
calls accept the same arguments as the functions they replace.
---
 .../collection/prov_execution/collector.py    | 95 ++++++++++++-------
 .../persistence/lightweight/file_access.py    |  3 +-
 2 files changed, 65 insertions(+), 33 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index d5553bb..4e62b4e 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -140,49 +140,79 @@ class Collector(object):
 
     def new_open(self, old_open, osopen=False):
         """Wrap the open builtin function to register file access"""
-        def open(name, *args, **kwargs):  # pylint: disable=redefined-builtin
+        def open(*args, **kwargs):  # pylint: disable=redefined-builtin
             """Open file and add it to file_accesses"""
             if content.should_use_safe_open():
-                return old_open(name, *args, **kwargs)
-            if isinstance(name, int):
+                return old_open(*args, **kwargs)
+            name = args[0] if args else kwargs.get(
+                "file", kwargs.get("filename", kwargs.get("path")))
+            if isinstance(name, int) or kwargs.get("dir_fd") is not None:
                 # ToDo: support file descriptor
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
             activation = self.last_activation
             while activation and not activation.active:
                 activation = activation.parent
 
             if not activation:
-                return old_open(name, *args, **kwargs)
+                return old_open(*args, **kwargs)
+            try:
+                name = os.fsdecode(name)
+            except TypeError:
+                # Let the original function refuse it
+                return old_open(*args, **kwargs)
+            path = os.path.abspath(name)
+            checkpoint = self.get_time()
+            # Read previous content if file exists
+            hash_before = self.file_content(path)
+            with content.use_safe_open():
+                # Functions such as codecs.open invoke the builtin open
+                result = old_open(*args, **kwargs)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
-                self.trial_id, name, self.get_time()
+                self.trial_id, name, checkpoint
             )
-            if os.path.exists(name):
-                # Read previous content if file exists
-                with content.std_open(name, "rb") as fil:
-                    file_access.content_hash_before = content.put(fil.read(), name)
+            file_access.path = path
+            file_access.content_hash_before = hash_before
             file_access.activation_id = activation.id
-            # Update with the informed keyword arguments (mode / buffering)
-            file_access.update(kwargs)
-            # Update with the informed positional arguments
-            if len(args) > 1:
-                file_access.buffering = args[1]
-            elif args:
-                mode = args[0]
-                if osopen:
-                    mode = ""
-                    for key, value in viewitems(OPEN_MODES):
-                        flag = getattr(os, key, 0)
-                        if args[0] & flag:
-                            value = value or "({})".format(key)
-                            mode += value
-
+            if osopen:
+                flags = args[1] if len(args) > 1 else kwargs["flags"]
+                mode = "" if flags & (os.O_WRONLY | os.O_RDWR) else "r"
+                for key, value in viewitems(OPEN_MODES):
+                    flag = getattr(os, key, 0)
+                    if flags & flag:
+                        value = value or "({})".format(key)
+                        mode += value
                 file_access.mode = mode
+            else:
+                # Update with the informed arguments (mode / buffering)
+                if len(args) > 1:
+                    file_access.mode = args[1]
+                elif "mode" in kwargs:
+                    file_access.mode = kwargs["mode"]
+                if len(args) > 2:
+                    file_access.buffering = args[2]
+                elif "buffering" in kwargs:
+                    file_access.buffering = kwargs["buffering"]
+            if activation.func is open and activation.parent:
+                # The call to open ends before the file is used
+                activation = activation.parent
             activation.file_accesses.append(file_access)
-            return old_open(name, *args, **kwargs)
+            return result
 
         return open
 
+    def file_content(self, path):
+        """Store content of regular file. Return its hash"""
+        # pylint: disable=no-self-use
+        if not os.path.isfile(path):
+            return None
+        try:
+            with content.std_open(path, "rb") as fil:
+                data = fil.read()
+        except (IOError, OSError):
+            return None
+        return content.put(data, path)
+
     def augaccess(self, activation, access):
         """Repeat access depa.
         Propagate this dependency"""
@@ -219,7 +249,7 @@ class Collector(object):
                 if hasattr(accessor, '__get__'):
                     # ToDo: accessor provenance
                     return False
-            if vindex in vcontainer.__dict__:
+            if vindex in getattr(vcontainer, '__dict__', ()):
                 # In instance
                 if isinstance(vcontainer, type):
                     accessor = vcontainer.__dict__[vindex]
@@ -420,9 +450,8 @@ class Collector(object):
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
         for file_access in activation.file_accesses:
-            if os.path.exists(file_access.name):
-                with content.std_open(file_access.name, "rb") as fil:
-                    file_access.content_hash_after = content.put(fil.read(), file_access.name)
+            file_access.content_hash_after = self.file_content(
+                file_access.path)
             file_access.done = True
 
     def start_script(self, module_name, code_component_id, iscell):
@@ -1184,8 +1213,10 @@ class Collector(object):
         activation.dependencies.append(depa)
         return self._call
 
-    def _call(self, *args, **kwargs):
-        """Capture call activation"""        
+    def _call(*args, **kwargs):  # pylint: disable=no-method-argument
+        """Capture call activation"""
+        # The call may have a keyword argument named self
+        self, args = args[0], args[1:]
         future = self.future_activation.pop()
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
diff --git a/capture/noworkflow/now/persistence/lightweight/file_access.py b/capture/noworkflow/now/persistence/lightweight/file_access.py
index 36d2d3d..87173f7 100644
--- a/capture/noworkflow/now/persistence/lightweight/file_access.py
+++ b/capture/noworkflow/now/persistence/lightweight/file_access.py
@@ -21,7 +21,7 @@ class FileAccessLW(BaseLW):
         ["trial_id", "id", "name", "mode", "buffering",
          "content_hash_before", "content_hash_after",
          "checkpoint", "activation_id"],
-        ["done"]
+        ["done", "path"]
     )
     nullable = {"activation_id"}
     model = FileAccess
@@ -40,6 +40,7 @@ class FileAccessLW(BaseLW):
         self.checkpoint = checkpoint
         self.activation_id = activation_id
         self.done = False
+        self.path = self.name
 
     def update(self, variables):
         """Update file access with dict"""
-- 
2.43.0


From 8bed9d435c5f2da5bbc10748ae26e4489c171d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 08/54] fix: keep the behaviour of scripts that use docstrings,
 defaults, decorators, unpacking or repr

Decorators and default values were evaluated twice, docstrings were lost,
dict unpacking, positional-only parameters and generator unpacking broke the
transformation, and an object whose repr fails ended the script.
---
 capture/noworkflow/now/collection/metadata.py |  1 +
 .../prov_definition/ast_elements.py           | 23 +++++++++++
 .../collection/prov_definition/ast_helpers.py | 10 +++++
 .../prov_definition/transformer_expr.py       | 18 ++++-----
 .../prov_definition/transformer_stmt.py       | 40 ++++++++++++-------
 .../collection/prov_execution/collector.py    | 28 +++++++++++--
 6 files changed, 91 insertions(+), 29 deletions(-)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index c53e67c..58c2c71 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -148,6 +148,7 @@ class Metascript(object):
         self.namespace.update({
             "__name__": "__main__",
             "__file__": self.path,
+            "__doc__": None,
             "__builtins__": __builtins__,
         })
 
diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 251cda7..5966a63 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -154,6 +154,29 @@ def param(value, annotation=None):
     return ast.Name(value, P())
 
 
+def add_now_parameters(args):
+    """Add collector parameters to arguments.
+    The collector sets the default values that it has already evaluated"""
+    names = [
+        '__now_activation__', '__now_function_def__',
+        '__now_args__', '__now_kwargs__',
+        '__now_default_values__', '__now_default_dependencies__',
+    ]
+    params = [param(name) for name in names]
+    if getattr(args, 'posonlyargs', []):
+        args.posonlyargs = params + args.posonlyargs
+    else:
+        args.args = params + args.args
+    args.defaults = [
+        ast.copy_location(none(), arg) for arg in args.defaults
+    ]
+    if PY3:
+        args.kw_defaults = [
+            ast.copy_location(none(), arg) if arg else arg
+            for arg in args.kw_defaults
+        ]
+
+
 def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):     # pylint: disable=too-many-arguments
     """Create function definition"""
     constructor = [name, args, body, decs]
diff --git a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
index a63b827..c5ca74b 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_helpers.py
@@ -196,3 +196,13 @@ def select_future_imports(body):
         if isinstance(stmt, ast.ImportFrom) and stmt.module == "__future__":
             index = i
     return body[:index + 1]
+
+
+def original_docstring(node):
+    """Return list with the docstring statement of the node, if it has one.
+    A docstring must be the first statement of the transformed body"""
+    docstring = ast.get_docstring(node, clean=False)
+    if docstring is None:
+        return []
+    return [ast_copy(ast.Expr(ast_copy(
+        ast.Str(docstring), node.body[0].value)), node.body[0])]
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 0a6cc99..9780429 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -17,6 +17,7 @@ from .ast_helpers import ast_copy
 from .ast_elements import L, S, context, none, call, param, true
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import nlambda, activation, act_attribute
+from .ast_elements import add_now_parameters
 
 from . import dependency_constants as Dependency
 from . import component_constants as Component
@@ -262,15 +263,7 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
-        new_node.args.args = [
-            param('__now_activation__'),
-            param('__now_function_def__'),
-            param('__now_args__'),
-            param('__now_kwargs__'),
-            param('__now_default_values__'),
-            param('__now_default_dependencies__'),
-        ] + new_node.args.args
-        new_node.args.defaults = [none() for _ in new_node.args.defaults]
+        add_now_parameters(new_node.args)
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
         new_node.body = ast_copy(double_noworkflow('match_arguments', [
@@ -363,7 +356,12 @@ class RewriteDependencies(ast.NodeTransformer):
         new_keys, new_values = [], []
         for index, (key, value) in enumerate(zip(node.keys, node.values)):
             self.composition_edge = (dict_code_component, Component.S_KEY_VALUE, index)
-            new_key, new_value = self._dict_itemize(key, value)
+            if key is None:
+                # Unpacking: {**value}
+                new_key = None
+                new_value = self.rewriter.capture(value, mode=Dependency.VALUE)
+            else:
+                new_key, new_value = self._dict_itemize(key, value)
             new_keys.append(new_key)
             new_values.append(new_value)
 
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9688db8..9897368 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -13,12 +13,13 @@ from contextlib import contextmanager
 import pyposast
 
 from .ast_helpers import ReplaceContextWithLoad, ast_copy, temporary
-from .ast_helpers import select_future_imports
+from .ast_helpers import select_future_imports, original_docstring
 
 from .ast_elements import maybe, context, raise_, now_attribute
 from .ast_elements import L, S, none, call, param, true_false, true, false
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
+from .ast_elements import add_now_parameters
 
 from .transformer_expr import RewriteDependencies
 from . import dependency_constants as Dependency
@@ -192,7 +193,10 @@ class RewriteAST(ast.NodeTransformer):
             iscell = none()
             if self.cell is not None:
                 iscell = name = ast.Str(self.cell)
-            body = future_imports + [
+            docstring = []
+            if self.cell is None and not future_imports:
+                docstring = original_docstring(node)
+            body = docstring + future_imports + [
                 ast_copy(ast.Assign(
                     [ast.Name('__now_result__', S())],
                     none()
@@ -239,6 +243,21 @@ class RewriteAST(ast.NodeTransformer):
             elif isinstance(stmt, ast.FunctionDef) or (PY36 and isinstance(stmt, ast.AsyncFunctionDef)):
                 old_fd = deepcopy(stmt)
                 old_fd.name = "__now_original_" + stmt.name
+                # The definition below evaluates decorators, defaults and
+                # annotations
+                old_fd.decorator_list = []
+                old_fd.args.defaults = [
+                    ast_copy(none(), default) for default in old_fd.args.defaults
+                ]
+                if PY3:
+                    old_fd.args.kw_defaults = [
+                        ast_copy(none(), default) if default else default
+                        for default in old_fd.args.kw_defaults
+                    ]
+                    old_fd.returns = None
+                    for arg in ast.walk(old_fd.args):
+                        if isinstance(arg, ast.arg):
+                            arg.annotation = None
                 new_body.append(old_fd) 
                 new_body.append(self.visit(stmt))
             elif isinstance(stmt, ast.Break):
@@ -340,7 +359,8 @@ class RewriteAST(ast.NodeTransformer):
         self.create_composition(arguments_id, *self.composition_edge)
 
         arg_list = []
-        for index, arg in enumerate(arguments.args):
+        all_args = getattr(arguments, "posonlyargs", []) + arguments.args
+        for index, arg in enumerate(all_args):
             self.composition_edge = (arguments_id, Component.M_ARGS, index)
             arg_list.append(self.process_arg(arg, arguments))
         args = ast.List(arg_list, L())
@@ -437,7 +457,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
-            body = [
+            body = original_docstring(node) + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
                     ast.Name('__now_function_def__', L()),
@@ -449,17 +469,7 @@ class RewriteAST(ast.NodeTransformer):
                 ])), new_node)
             ] + self.process_body(new_node.body, func_id)
 
-            new_node.args.args = [
-                param('__now_activation__'),
-                param('__now_function_def__'),
-                param('__now_args__'),
-                param('__now_kwargs__'),
-                param('__now_default_values__'),
-                param('__now_default_dependencies__'),
-            ] + new_node.args.args
-            new_node.args.defaults = [
-                ast_copy(none(), arg) for arg in new_node.args.defaults
-            ]
+            add_now_parameters(new_node.args)
             return ast_copy(function_def(
                 new_node.name, new_node.args, body, decorators,
                 returns=maybe(new_node, 'returns'), cls=cls
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4e62b4e..c06fe67 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -132,7 +132,11 @@ class Collector(object):
                 repr_fn = original_def
             except AttributeError:
                 pass
-        return repr_fn(value)
+        try:
+            return repr_fn(value)
+        except Exception:  # pylint: disable=broad-except
+            # The object may not be ready yet, as self inside __init__
+            return object.__repr__(value)
 
     def as_is(self, value):
         """Return value without any processing"""
@@ -1078,11 +1082,13 @@ class Collector(object):
                 gens = assign.generators[id(value)]
                 def custom_dependency(index):
                     """Propagate dependencies"""
+                    if index >= len(gens):
+                        return clone_depa, None
                     _, _, _, idep = gens[index]
                     new_depa = clone_depa.clone(extra_only=True)
                     new_depa.add(idep)
                     self.create_dependencies_id(
-                        activation, dep.evaluation.id, new_depa
+                        activation.id, dep.evaluation.id, new_depa
                     )
                     return new_depa.clone(mode="assign"), idep.evaluation
                     #return self.sub_dependency(dep, value, index, clone_depa)
@@ -1350,7 +1356,8 @@ class Collector(object):
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
                         activation.dependencies.insert(-1, assign.dependency)
-                    elif function_def.__name__ in activation.dependencies[-2].maybe_activation:
+                    elif (len(activation.dependencies) > 1 and
+                          function_def.__name__ in activation.dependencies[-2].maybe_activation):
                         future.dependencies[0].replace(activation.dependencies[-2].clone(mode="argument", kind="argument"))
                     elif len(activation.dependencies) > 1:
                         future.dependencies[0].replace(activation.dependencies[1])
@@ -1420,6 +1427,15 @@ class Collector(object):
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
+            if getattr(function_def, '__kwdefaults__', None):
+                code = function_def.__code__
+                kwonly = code.co_varnames[
+                    code.co_argcount:code.co_argcount + code.co_kwonlyargcount]
+                kw_defaults = dict(zip(kwonly, default_values[1]))
+                function_def.__kwdefaults__ = {
+                    key: kw_defaults[key]
+                    for key in function_def.__kwdefaults__
+                }
             closure_activation.dependencies.append(DependencyAware(
                 exc_handler=defaults.exc_handler,
                 code_id=block_id,
@@ -1440,7 +1456,11 @@ class Collector(object):
             if activation.active:
                 dependency = dependency_aware.dependencies.pop()
                 activation.context[function_name] = dependency.evaluation
-            function_def.original_def = original_def
+            try:
+                function_def.original_def = original_def
+            except AttributeError:
+                # Result of a decorator such as property
+                pass
             return function_def
         return dec
 
-- 
2.43.0


From 3e3ea67891348c8f2482c39e940ea2b1c04a5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 09/54] fix: record how the script ended and exit with its
 status

A run of a script that ended by sys.exit() or sys.exit(message) failed with a
TypeError, one that ended by KeyboardInterrupt stayed ongoing, and every run
exited with status 0.
---
 capture/noworkflow/now/cmd/cmd_run.py         |  3 +++
 .../collection/prov_execution/execution.py    | 27 +++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_run.py b/capture/noworkflow/now/cmd/cmd_run.py
index ed01e83..5297789 100644
--- a/capture/noworkflow/now/cmd/cmd_run.py
+++ b/capture/noworkflow/now/cmd/cmd_run.py
@@ -171,3 +171,6 @@ class Run(Command):
 
         # Run script
         run(metascript, args)
+
+        if metascript.execution.exit_code:
+            sys.exit(metascript.execution.exit_code)
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index e6172fd..5a1fe04 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -30,6 +30,8 @@ class Execution(object):
         self.partial = False
         self.force_msg = False
         self.msg = ""
+        # Exit status of the executed script : int
+        self.exit_code = 0
 
     def configure(self):
         """Configure execution provenance collection"""
@@ -56,30 +58,39 @@ class Execution(object):
         self.configure()
 
         print_msg("  executing the script")
+        finder = metascript.definition.finder
+        self.exit_code = 0
+        self.force_msg = self.partial = False
+        self.msg = ("the execution of trial {} finished successfully"
+                    "".format(metascript.trial_id))
         try:
             compiled = metascript.definition.compile(
                 metascript.code, metascript.path, "exec"
             )
-            sys.meta_path.insert(0, metascript.definition.finder)
+            sys.meta_path.insert(0, finder)
             exec(compiled, metascript.namespace)  # pylint: disable=exec-used
-            sys.meta_path.remove(metascript.definition.finder)
         except SystemExit as ex:
-            self.force_msg = self.partial = ex.code > 0
+            if ex.code is None or isinstance(ex.code, int):
+                self.exit_code = int(ex.code or 0)
+            else:
+                print(ex.code, file=sys.stderr)
+                self.exit_code = 1
+            self.force_msg = self.partial = self.exit_code != 0
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
                         "".format(ex.code))
 
-        except Exception as exc:  # pylint: disable=broad-except
+        except BaseException as exc:  # pylint: disable=broad-except
             # ToDo #77: exceptions should be registered as return from the
             # activation and stored in the database. We are currently ignoring
             # all the activation tree when exceptions are raised.
+            self.exit_code = 130 if isinstance(exc, KeyboardInterrupt) else 1
             self.force_msg = self.partial = True
             self.msg = ("{}\n"
                         "the execution finished with an uncaught exception. {}"
                         "".format(repr(exc), traceback.format_exc()))
-        else:
-            self.force_msg = self.partial = False
-            self.msg = ("the execution of trial {} finished successfully"
-                        "".format(metascript.trial_id))
+        finally:
+            if finder in sys.meta_path:
+                sys.meta_path.remove(finder)
 
     @meta_profiler("storage")
     def store_provenance(self):
-- 
2.43.0


From e59fb1ab076fdbd6229796265d2d840b0ca4cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 10/54] fix: finish a trial only after its content is committed
 and tagged

A run killed in between left a trial marked as finished without its commit or
its tag, and one killed while creating the trial lost the head of the script.
Concurrent runs could get the same tag.
---
 capture/noworkflow/now/cmd/cmd_restore.py     |  6 +++--
 capture/noworkflow/now/cmd/cmd_run.py         |  7 ++++--
 .../collection/prov_execution/collector.py    | 18 ++++++++++----
 .../collection/prov_execution/execution.py    | 18 ++++++++++----
 .../noworkflow/now/persistence/models/tag.py  |  3 +++
 .../now/persistence/models/trial.py           | 24 ++++++++++++++++++-
 6 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index a1b1e47..27b0d88 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -114,7 +114,6 @@ class Restore(Command):
 
 
         partial = True
-        Trial.fast_update(tid, metascript.main_id, datetime.now(), "backup")
         CodeComponent.store(metascript.code_components_store, partial)
         CodeBlock.store(metascript.code_blocks_store, partial)
         Module.store(modules, partial)
@@ -122,11 +121,14 @@ class Restore(Command):
         Argument.store(arguments, partial)
         metascript.definition.store_provenance()
 
+        Trial.set_main(tid, metascript.main_id)
+        content.commit_content(metascript.message or "Backup Trial {}".format(metascript.trial_id))
         Tag.create_automatic_tag(tid, None, None, None, metascript.trial.experiment_id, True) # Adds a X.0.0 tag to the backup trial
+        # The trial is a backup only after everything it needs is stored
+        Trial.fast_update(tid, metascript.main_id, datetime.now(), "backup")
 
         print_msg("Backup Trial {} created".format(metascript.trial_id),
                   self.print_msg)
-        content.commit_content(metascript.message or "Backup Trial {}".format(metascript.trial_id))
 
     def restore(self, path, code_hash, trial_id, mode="normal"):
         """Restore file with <code_hash> from <trial_id>"""
diff --git a/capture/noworkflow/now/cmd/cmd_run.py b/capture/noworkflow/now/cmd/cmd_run.py
index 5297789..65e8254 100644
--- a/capture/noworkflow/now/cmd/cmd_run.py
+++ b/capture/noworkflow/now/cmd/cmd_run.py
@@ -64,12 +64,15 @@ def run(metascript, args=None):
         metascript.execution.collect_provenance()
         metascript.deployment.store_provenance()
         metascript.definition.store_provenance()
-        metascript.execution.store_provenance()
+        metascript.execution.store_items()
+        Trial.set_main(metascript.trial_id, metascript.main_id)
 
+        content.commit_content(metascript.message or "Trial {}".format(metascript.trial_id))
         Tag.create_automatic_tag(*metascript.create_automatic_tag_args())
         Trial.set_user_based_on_env(metascript.trial_id)
+        # The trial is finished only after everything it needs is stored
+        metascript.execution.finish()
         metaprofiler.meta_profiler.save()
-        content.commit_content(metascript.message or "Trial {}".format(metascript.trial_id))
     finally:
         metascript.create_last()
 
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index c06fe67..c8760ae 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -2004,11 +2004,9 @@ class Collector(object):
         self.add_type(evaluation, value)
         return evaluation
 
-    def store(self, partial, status="running"):
-        """Store execution provenance"""
+    def store_items(self, partial):
+        """Store collected items"""
         metascript = self.metascript
-        tid = metascript.trial_id
-
         metascript.code_components_store.do_store(partial)
         metascript.evaluations_store.do_store(partial)
         metascript.activations_store.do_store(partial)
@@ -2016,8 +2014,18 @@ class Collector(object):
         metascript.members_store.do_store(partial)
         metascript.file_accesses_store.do_store(partial)
 
+    def finish(self, status):
+        """Set the finish time and the status of the trial"""
+        metascript = self.metascript
+        Trial.fast_update(metascript.trial_id, metascript.main_id,
+                          datetime.now(), status)
+
+    def store(self, partial, status="running"):
+        """Store execution provenance"""
+        self.store_items(partial)
+
         now = self.get_time()
         if not partial:
-            Trial.fast_update(tid, metascript.main_id, datetime.now(), status)
+            self.finish(status)
 
         self.last_partial_save = now
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index 5a1fe04..a953936 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -93,11 +93,19 @@ class Execution(object):
                 sys.meta_path.remove(finder)
 
     @meta_profiler("storage")
-    def store_provenance(self):
-        """Disable provider and store provenance"""
-        self.collector.store(
-            partial=False,
-            status="finished" if not self.force_msg else "unfinished"
+    def store_items(self):
+        """Store everything that was collected"""
+        self.collector.store_items(partial=False)
+
+    def finish(self):
+        """Set the finish time and the status of the trial"""
+        self.collector.finish(
+            "finished" if not self.force_msg else "unfinished"
         )
         if self.msg:
             print_msg(self.msg, self.force_msg)
+
+    def store_provenance(self):
+        """Disable provider and store provenance"""
+        self.store_items()
+        self.finish()
diff --git a/capture/noworkflow/now/persistence/models/tag.py b/capture/noworkflow/now/persistence/models/tag.py
index 3c40675..124b163 100644
--- a/capture/noworkflow/now/persistence/models/tag.py
+++ b/capture/noworkflow/now/persistence/models/tag.py
@@ -202,6 +202,9 @@ class Tag(AlchemyProxy):
         2.1.1
         """
         session = session or relational.session
+        # Other trials must not get the same tag between query and insertion
+        session.commit()
+        session.execute("BEGIN IMMEDIATE")
         tag_type, tag = cls.fast_load_auto_tag(
             trial_id, code_hash, command, session=session,experiment_id= experiment_id)
         new_tag = ""
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index f90df9c..8087aa8 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -1154,6 +1154,26 @@ class Trial(AlchemyProxy):
             .where(ttrial.c.id == trial_id)
         )
         session.commit()
+
+    @classmethod  # query
+    def set_main(cls, trial_id, main_id, session=None):
+        """Update main_id of trial that is still ongoing
+
+        Arguments:
+        trial_id -- trial id
+        main_id -- id of main code_block
+
+        Keyword arguments:
+        session -- specify session for loading (default=relational.session)
+        """
+        session = session or relational.session
+        ttrial = cls.t
+        session.execute(
+            ttrial.update().values(main_id=main_id)
+            .where(ttrial.c.id == trial_id)
+        )
+        session.commit()
+
     @classmethod  # query
     def create(cls, script, start, command, path, bypass_modules, session=None):
         """Create trial and assign a new id to it
@@ -1224,7 +1244,7 @@ class Trial(AlchemyProxy):
         session = session or relational.session
 
         # ToDo: use core query
-        parent = cls.load_parent(script, check=True)
+        parent = cls.load_parent(script, remove=False, check=True)
         parent_id = parent.id if parent else None
 
         inherited_id = None
@@ -1238,6 +1258,8 @@ class Trial(AlchemyProxy):
              "path": path,
              "status": "ongoing", "parent_id": parent_id,
              "modules_inherited_from_trial_id": inherited_id})
+        # The head is used only by a trial that exists
+        session.execute(Head.t.delete().where(Head.t.c.script == script))
 
         session.commit()
         return tid
-- 
2.43.0


From a927b8ccfc3e704788b591039b9f942515ed20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:22 +0000
Subject: [PATCH 11/54] fix: inherit modules from a trial that stored them

-b chose the last trial even if it was interrupted before its modules were stored.
---
 capture/noworkflow/now/persistence/models/trial.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index 8087aa8..2befa6c 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -1093,11 +1093,10 @@ class Trial(AlchemyProxy):
         if not hasattr(cls, "_last_trial_id"):
             ttrial = cls.t
             _query = (
-                select([ttrial.c.id]).where(ttrial.c.start.in_(
-                    select([func.max(ttrial.c.start)])
-                    .select_from(ttrial)
-                    .where(is_none(ttrial.c.modules_inherited_from_trial_id))
-                ))
+                select([ttrial.c.id])
+                .where(is_none(ttrial.c.modules_inherited_from_trial_id))
+                # modules of interrupted trials may not have been stored
+                .order_by(is_none(ttrial.c.finish), ttrial.c.start.desc())
             )
             cls.last_trial_id = str(_query)
         an_id = session.execute(
-- 
2.43.0


From f78ebebb57cdbc2bd0570f7f8f6c328483ca7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 12/54] fix: create the provenance store at once

A first command that was interrupted left an empty database or a repository
without its initial commit, and every later command failed.
---
 .../now/persistence/content/dulwich_engine.py | 13 +++++-----
 .../now/persistence/content/gitbase.py        | 25 +++++++++++++++++++
 .../now/persistence/content/puregit_engine.py |  7 ++++--
 .../now/persistence/content/pygit_engine.py   | 14 ++++++-----
 .../now/persistence/relational_database.py    | 17 +++++++++++--
 5 files changed, 60 insertions(+), 16 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 65f0afc..50ae515 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -26,12 +26,13 @@ class DulwichEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not os.path.isdir(self.content_path):
-            os.makedirs(self.content_path)
-            Repo.init_bare(self.content_path)
-            self.repo = Repo(self.content_path)
-            self.create_initial_commit()
-        else:
-            self.repo = Repo(self.content_path)
+            self.create_repository()
+        self.repo = Repo(self.content_path)
+
+    def init_repository(self):
+        """Initialize the git repository in content_path"""
+        os.makedirs(self.content_path)
+        self.repo = Repo.init_bare(self.content_path)
 
     @staticmethod
     def do_put(content_path, object_hashes, lock, content, filename):
diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index eb224d0..91d0c17 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,5 +1,6 @@
 import os
 import hashlib
+import shutil
 
 from collections import Counter
 
@@ -29,6 +30,26 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self.content_path = os.path.join(config.provenance_path, GIT_DATABASE_DIR)
         self.base_path = os.path.abspath(config.base_path)
 
+    def create_repository(self):
+        """Create the git repository with its initial commit
+
+        It only gets its final name when it is ready, since this process may
+        be interrupted, or others may be creating it too"""
+        path = self.content_path
+        self.content_path = "{}.{}.tmp".format(path, os.getpid())
+        try:
+            shutil.rmtree(self.content_path, ignore_errors=True)
+            self.init_repository()
+            self.create_initial_commit()
+            try:
+                os.rename(self.content_path, path)
+            except OSError:
+                if not os.path.isdir(path):
+                    raise
+        finally:
+            shutil.rmtree(self.content_path, ignore_errors=True)
+            self.content_path = path
+
     def gc(self, aggressive=False):
         git_system.garbage_collection(self.content_path, aggressive)
 
@@ -96,6 +117,10 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             dirname = os.path.dirname(dirname)
         return trees[original]
 
+    def init_repository(self):
+        """Initialize the git repository in content_path"""
+        raise NotImplementedError("Implement in subclass")
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index e637ca0..fd0739c 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -15,8 +15,11 @@ class PureGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            git_system.init(self.content_path)
-            self.create_initial_commit()
+            self.create_repository()
+
+    def init_repository(self):
+        """Initialize the git repository in content_path"""
+        git_system.init(self.content_path)
 
     @staticmethod
     def do_put(content_path, object_hashes, content, filename):
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index e2a0671..5dd2c65 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -26,12 +26,14 @@ class PyGitEngine(GitContentDatabaseEngine):
     def connect(self, config):
         """Create content directory"""
         if not config.should_mock and not isdir(self.content_path):
-            init_repository(self.content_path, bare=True)
-            self.repo = Repository(self.content_path)
-            self.create_initial_commit()
-        else:
-            self.repo = Repository(self.content_path)
-        
+            self.create_repository()
+        self.repo = Repository(self.content_path)
+
+    def init_repository(self):
+        """Initialize the git repository in content_path"""
+        init_repository(self.content_path, bare=True)
+        self.repo = Repository(self.content_path)
+
     @staticmethod
     def do_put(content_path, object_hashes, content, filename):
         """Perform put operation. This is used in the distributed wrapper"""
diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index 5be2d34..ba76fa2 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -10,7 +10,7 @@ import threading
 
 from os.path import join, exists
 
-from sqlalchemy import create_engine
+from sqlalchemy import create_engine, inspect
 from sqlalchemy.ext.declarative import declarative_base
 from sqlalchemy.orm import scoped_session, sessionmaker
 
@@ -59,7 +59,20 @@ class RelationalDatabase(object):
 
         if new_db:
             print_msg("creating provenance database")
-            self.base.metadata.create_all(self.engine)
+        self.create_tables()
+
+    def create_tables(self):
+        """Create missing tables, all at once
+
+        Another process may be creating them, or may have been interrupted
+        before it created them"""
+        tables = set(self.base.metadata.tables)
+        if tables <= set(inspect(self.engine).get_table_names()):
+            return
+        with self.engine.connect() as conn:
+            conn.execute("BEGIN IMMEDIATE")
+            with conn.begin():
+                self.base.metadata.create_all(conn)
 
     def make_session(self):
         """Create thread safe session"""
-- 
2.43.0


From 55ffef1df9a6c3300241f182ca7be63d58a235eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 13/54] fix: keep the content of every file and every run in
 the snapshot commits

Files whose names collide with a generated name, with a directory or with
names that git refuses were lost or failed the commit; concurrent runs dropped
each other's commits; the lock left by a killed run failed all later ones; the
pure git engine shared its index between runs and now gc failed on the plain
engine and ignored its option.
---
 capture/noworkflow/now/cmd/cmd_gc.py          |  2 +-
 .../now/persistence/content/base.py           |  2 +-
 .../now/persistence/content/git_system.py     | 21 +++--
 .../now/persistence/content/gitbase.py        | 93 +++++++++++++++++--
 .../now/persistence/content/plain_engine.py   |  2 +-
 .../now/persistence/content/puregit_engine.py | 23 +++--
 6 files changed, 116 insertions(+), 27 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_gc.py b/capture/noworkflow/now/cmd/cmd_gc.py
index ec4b037..0d587fc 100644
--- a/capture/noworkflow/now/cmd/cmd_gc.py
+++ b/capture/noworkflow/now/cmd/cmd_gc.py
@@ -32,4 +32,4 @@ class GC(Command):
     def execute(self, args):
         persistence_config.content_engine = args.content_engine
         persistence_config.connect_existing(args.dir or os.getcwd())
-        content.gc()
+        content.gc(args.aggressive)
diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index a14a8ce..5a2d1c8 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,7 +56,7 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
 
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index f73482f..a39fa97 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -44,14 +44,23 @@ def get(content_hash, git_path):
     return execute(cmd, cwd=git_path)    
 
 
-def update_index(mode, content_hash, filename, git_path):
+def index_env(index_path):
+    """Environment that makes git use another index"""
+    if index_path is None:
+        return None
+    env = os.environ.copy()
+    env["GIT_INDEX_FILE"] = index_path
+    return env
+
+
+def update_index(mode, content_hash, filename, git_path, index_path=None):
     cmd = ["git", "update-index", "--add", "--cacheinfo", mode, content_hash, filename]
-    return execute(cmd, cwd=git_path)
+    return execute(cmd, cwd=git_path, env=index_env(index_path))
 
 
-def write_tree(git_path):
+def write_tree(git_path, index_path=None):
     cmd = ["git", "write-tree"]
-    return execute(cmd, cwd=git_path).decode().replace("\n", "")
+    return execute(cmd, cwd=git_path, env=index_env(index_path)).decode().replace("\n", "")
 
 
 def read_tree(filename, content_hash, git_path):
@@ -85,10 +94,10 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git gc", "--quiet"]
+    cmd = ["git", "gc", "--quiet"]
     if aggressive:
         cmd.append("--aggressive")
-    execute(cmd, cwd=git_path, shell=True)
+    execute(cmd, cwd=git_path)
 
 
 def count_loose_objects(git_path):
diff --git a/capture/noworkflow/now/persistence/content/gitbase.py b/capture/noworkflow/now/persistence/content/gitbase.py
index 91d0c17..1df2786 100644
--- a/capture/noworkflow/now/persistence/content/gitbase.py
+++ b/capture/noworkflow/now/persistence/content/gitbase.py
@@ -1,8 +1,15 @@
 import os
 import hashlib
 import shutil
+import time
+
+try:
+    import fcntl
+except ImportError:  # not available on Windows
+    fcntl = None
 
 from collections import Counter
+from contextlib import contextmanager
 
 from ...utils.cross_version import bytes_string
 from . import git_system
@@ -20,6 +27,7 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
         self._commit_ref = 'refs/heads/master'
         self._initial_message = "Initial Commit"
         self.name_counter = Counter()
+        self.used_names = set()
         self.base_path = None
         self.user_path = os.path.expanduser("~")
         self._max_filename_size = 4096
@@ -51,14 +59,15 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             self.content_path = path
 
     def gc(self, aggressive=False):
-        git_system.garbage_collection(self.content_path, aggressive)
+        with self.commit_lock():
+            git_system.garbage_collection(self.content_path, aggressive)
 
     def commit_content(self, message):
         """Commit the current files of content database"""
         self.close()
         trees = {'': self.new_tree('')}
 
-        for key, value in self.object_hashes.items():
+        for key, value in self._tree_entries():
             basename = os.path.basename(key)
             self.insert_blob(self._get_tree(trees, key), basename, value)
 
@@ -71,23 +80,87 @@ class GitContentDatabaseEngine(ContentDatabaseEngine):
             if basename != '':
                 self.insert_tree(trees[dirname], basename, value)
 
-        return self.create_commit_object(message, tree_hashes[''])
+        return self.create_commit(message, tree_hashes[''])
+
+    def _tree_entries(self):
+        """Return list of (path, hash) that can be in the same git tree
+
+        A path cannot have names that git refuses, nor be both a file and the
+        directory of other files"""
+        entries = []
+        for key, value in sorted(self.object_hashes.items()):
+            parts = [
+                "_" + part if part.lower() in (".git", "git~1", ".", "..") else part
+                for part in key.split("/") if part
+            ]
+            entries.append(("/".join(parts), value))
+        used = set()
+        for key, _ in entries:
+            dirname = os.path.dirname(key)
+            while dirname:
+                used.add(dirname)
+                dirname = os.path.dirname(dirname)
+        result = []
+        for key, value in entries:
+            name, count = key, 1
+            while name in used:
+                count += 1
+                name = "{} - v{}".format(key, count)
+            used.add(name)
+            result.append((name, value))
+        return result
+
+    @contextmanager
+    def commit_lock(self):
+        """Let one process commit at a time
+
+        The lock of the system is released even if its process is killed, so
+        whoever has it can remove the lock of the reference that a killed
+        process may have left"""
+        if fcntl is None:
+            yield
+            return
+        with self.std_open(self.content_path + ".lock", "ab") as lock:
+            while True:
+                try:
+                    fcntl.lockf(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                    break
+                except (BlockingIOError, PermissionError):
+                    time.sleep(0.01)
+            ref_lock = os.path.join(self.content_path, self._commit_ref) + ".lock"
+            if os.path.exists(ref_lock):
+                os.remove(ref_lock)
+            yield
+
+    def create_commit(self, message, tree):
+        """Create a commit of tree on top of the last one"""
+        with self.commit_lock():
+            return self.create_commit_object(message, tree)
 
     def _increment(self, filename):
         """Increment filename to avoid collisions"""
         filename = filename.strip()
-        self.name_counter[filename] += 1
-        count = self.name_counter[filename] 
-        if count == 1:
-            return filename
-        return "{} - v{}".format(filename, count)
+        result = filename
+        while True:
+            self.name_counter[filename] += 1
+            count = self.name_counter[filename]
+            if count > 1:
+                result = "{} - v{}".format(filename, count)
+            if result not in self.used_names:
+                self.used_names.add(result)
+                return result
+
+    @staticmethod
+    def _is_inside(filename, directory):
+        """Check if filename is in directory"""
+        return filename.startswith(os.path.join(directory, ""))
 
     def _inc_name(self, filename):
         """Define name for file in repository"""
         filename = os.path.abspath(filename)
-        if filename.startswith(self.base_path):
+        if self._is_inside(filename, self.base_path):
             filename = os.path.relpath(filename, self.base_path)
-        elif filename.startswith(self.user_path):
+        elif self._is_inside(filename, self.user_path):
             filename = os.path.join("noworkflow_home", os.path.relpath(filename, self.user_path))
         else:
             drive, rest = os.path.splitdrive(filename)
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index 41135fc..f0fb228 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -75,7 +75,7 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
-    def gc(self, content_hash):
+    def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
 
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index fd0739c..8ff253c 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -44,9 +44,6 @@ class PureGitEngine(GitContentDatabaseEngine):
         """Get content from the content database"""
         return git_system.get(content_hash, self.content_path)
  
-    def gc(self):
-        git_system.garbage_collection(self.content_path)
-
     def find_subhash(self, content_hash):
         """Find hash in database"""
         bytes_content_hash = content_hash.encode("utf-8")
@@ -72,8 +69,6 @@ class PureGitEngine(GitContentDatabaseEngine):
         return result
 
     def new_tree(self, parent):
-        if parent == '':
-            git_system.rm_all(self.content_path)
         return Tree(parent, self.content_path)
 
     def insert_blob(self, tree, basename, value):
@@ -94,11 +89,23 @@ class Tree(object):
         self.operations = []
         self.dirname = dirname
         self.content_path = os.path.join(content_path)
+        # Each commit has its own index: it must hold only its own files
+        self.index_path = "{}.{}.index".format(
+            os.path.abspath(content_path), os.getpid())
+        if dirname == '':
+            self.remove_index()
+
+    def remove_index(self):
+        """Remove index files"""
+        for path in (self.index_path, self.index_path + ".lock"):
+            if os.path.exists(path):
+                os.remove(path)
 
     def insert_blob(self, basename, value):
         self.operations.append((
             git_system.update_index,
-            ("100644", value, os.path.join(self.dirname, basename), self.content_path)
+            ("100644", value, os.path.join(self.dirname, basename),
+             self.content_path, self.index_path)
         ))
 
     def write(self):
@@ -106,6 +113,6 @@ class Tree(object):
             op(*args)
         result = "auto"
         if self.dirname == '':
-            result = git_system.write_tree(self.content_path)
-            git_system.rm_all(self.content_path)
+            result = git_system.write_tree(self.content_path, self.index_path)
+            self.remove_index()
         return result
-- 
2.43.0


From 943d161bc682d376a9599c8c4ac3344b493f63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:31 +0000
Subject: [PATCH 14/54] fix: keep the behaviour of scripts with conditions,
 handled exceptions, lambdas or calls beyond the depth

---
 .../prov_definition/transformer_expr.py       |  22 ++--
 .../prov_definition/transformer_stmt.py       | 101 +++++++-----------
 .../collection/prov_execution/collector.py    |  99 +++++++++++------
 .../now/persistence/lightweight/activation.py |   4 +-
 4 files changed, 119 insertions(+), 107 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index 9780429..bd61da4 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -230,10 +230,12 @@ class RewriteDependencies(ast.NodeTransformer):
         Transform:
             lambda x: x
         Into:
-            <now>.function_def(<act>)(<act>, <block_id>, <parameters>)(
-                lambda __now_activation__, x: <now>.match_arguments(
+            <now>.collect_lambda_def(<act>)(
+                <now>.function_def(<act>)(<act>, <block_id>, <parameters>)(
+                    lambda __now_activation__, x: <now>.match_arguments(
 
-                )(<now>.return_(<act>)(<act>, |x|))
+                    )(<now>.return_(<act>)(<act>, |x|))
+                )
             )
         """
         rewriter = self.rewriter
@@ -263,6 +265,9 @@ class RewriteDependencies(ast.NodeTransformer):
             ), new_node),
             [new_node]
         ), new_node)
+        result = ast_copy(double_noworkflow(
+            'collect_lambda_def', [activation()], [result]
+        ), new_node)
         add_now_parameters(new_node.args)
 
         self.composition_edge = (rewriter.container_id, Component.S_BODY)
@@ -1164,11 +1169,12 @@ class RewriteDependencies(ast.NodeTransformer):
 
         new_node = copy(node)
         new_node.value = self.visit(node.value)
-        new_node.target_expr = ast.Tuple([
-            new_node.value.target_expr,
-            ast.Str('starred')
-        ], L())
-        node.target_expr = new_node.target_expr
+        if hasattr(new_node.value, 'target_expr'):
+            new_node.target_expr = ast.Tuple([
+                new_node.value.target_expr,
+                ast.Str('starred')
+            ], L())
+            node.target_expr = new_node.target_expr
         return new_node
 
     def visit_Name(self, node):
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 9897368..024c137 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -63,6 +63,8 @@ class RewriteAST(ast.NodeTransformer):
             return ast.Num(citem.code_component_id)
         elif fallback:
             name = pyposast.extract_code(self.lcode, node)
+            if not hasattr(node, 'name'):
+                node.name = name
             id_ = self.create_code_component(
                 node, name, mode
             )
@@ -894,7 +896,7 @@ class RewriteAST(ast.NodeTransformer):
                 <now>.collect_exception(<act>, <exc>)
                 raise
             finally:
-                <now>.remove_condition(<act>)
+                <now>.restore_conditions(<act>)
         """
         # pylint: disable=invalid-name
         while_id = self.create_ast_component(node, Component.WHILE)
@@ -936,7 +938,7 @@ class RewriteAST(ast.NodeTransformer):
                 ]), new_node)
             ], [], [
                 ast_copy(ast.Expr(noworkflow(
-                    'remove_condition', [activation()]
+                    'restore_conditions', [activation()]
                 )), new_node)
             ], new_node), new_node)
 
@@ -949,82 +951,55 @@ class RewriteAST(ast.NodeTransformer):
                 ...2
             else:
                 ...3
-        Into: # Replaces If to avoid creating unnecessary nested blocks
+        Into:
             try:
-                raise (
-                    <now>.condition_exceptions[0]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[1]()
-                    if <now>.condition(<act>, <exc>)(<act>, |x|)
-                    else <now>.condition_exceptions[2]()
-                )
-            except <now>.condition_exceptions[0]:
-                ...1
-            except <now>.condition_exceptions[1]:
-                ...2
-            except <now>.condition_exceptions[2]:
-                ...3
+                <now>.mark_conditions(<act>)
+                if <now>.condition(<act>, <exc>)(<act>, |x|):
+                    ...1
+                elif <now>.condition(<act>, <exc>)(<act>, |y|):
+                    ...2
+                else:
+                    ...3
             finally:
-                <now>.remove_condition(__now_activation__)
+                <now>.restore_conditions(<act>)
         """
         # pylint: disable=invalid-name
-        handlers = []
-        def access_if(ifnod, exc_id):
-            """Create ifexp considering elif"""
+        def capture_if(ifnod):
+            """Create if considering elif"""
             if_id = self.create_ast_component(ifnod, Component.IF)
             self.create_composition(if_id, *self.composition_edge)
-            subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id)), L()
-            )
-            else_subscript = ast.Subscript(
-                now_attribute('condition_exceptions'),
-                ast.Index(ast.Num(exc_id + 1)), L()
-            )
-            handlers.append(ast_copy(ast.ExceptHandler(
-                subscript, None,
-                self.process_body(ifnod.body, if_id)
-            ), ifnod))
-            if_result = call(subscript, [])
-
-            else_block = None
-            if not ifnod.orelse:
-                else_block = [ast.Pass()]
-            elif len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
+            new_node = copy(ifnod)
+            new_node.body = self.process_body(ifnod.body, if_id)
+
+            if len(ifnod.orelse) == 1 and isinstance(ifnod.orelse[0], ast.If):
                 self.composition_edge = (if_id, Component.M_ORELSE, 0)
-                else_result = access_if(ifnod.orelse[0], exc_id + 1)
+                new_node.orelse = [capture_if(ifnod.orelse[0])]
             else:
-                else_block = self.process_body(
+                new_node.orelse = self.process_body(
                     ifnod.orelse, if_id, attr=Component.M_ORELSE
                 )
 
-            if else_block is not None:
-                handlers.append(ast_copy(ast.ExceptHandler(
-                    else_subscript, None, else_block
-                ), ifnod))
-                else_result = call(else_subscript, [])
-
             self.composition_edge = (if_id, Component.S_TEST)
-            return ast_copy(ast.IfExp(
-                double_noworkflow(
-                    'condition',
-                    [
-                        activation(),
-                        ast.Num(self.current_exc_handler)
-                    ], [
-                        activation(),
-                        self.capture(ifnod.test, mode=Dependency.CONDITION)
-                    ]
-                ),
-                if_result,
-                else_result
+            new_node.test = ast_copy(double_noworkflow(
+                'condition',
+                [
+                    activation(),
+                    ast.Num(self.current_exc_handler)
+                ], [
+                    activation(),
+                    self.capture(ifnod.test, mode=Dependency.CONDITION)
+                ]
             ), ifnod)
+            return new_node
 
         return ast_copy(try_def([
-            ast_copy(raise_(access_if(node, 0)), node)
-        ], handlers, [], [
             ast_copy(ast.Expr(noworkflow(
-                'remove_condition', [activation()]
+                'mark_conditions', [activation()]
+            )), node),
+            capture_if(node)
+        ], [], [], [
+            ast_copy(ast.Expr(noworkflow(
+                'restore_conditions', [activation()]
             )), node)
         ], node), node)
 
@@ -1226,7 +1201,7 @@ class RewriteAST(ast.NodeTransformer):
         """
         new_node = copy(node)
         if new_node.type is None:
-            new_node.type = ast.Name('Exception', L())
+            new_node.type = ast.Name('BaseException', L())
         name = '__now_exception__'
         if new_node.name is None:
             new_node.name = name if PY3 else ast.Name(name, S())
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index c8760ae..7cee275 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -14,7 +14,7 @@ import inspect
 from collections import OrderedDict
 from copy import copy
 from datetime import datetime, timedelta
-from functools import wraps
+from functools import partial, wraps
 from types import GeneratorType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
@@ -99,7 +99,7 @@ class Collector(object):
         )
         self.first_activation.depth = 0
         self.last_activation = self.first_activation
-        self.future_activation = []
+        self.future_activation = None
         self.shared_types = {}
 
         # Original globals
@@ -299,6 +299,7 @@ class Collector(object):
                 addr = "[{}]".format(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     collection = value_dep.evaluation
@@ -308,6 +309,7 @@ class Collector(object):
                 addr = ".{}".format(vindex)
                 value = getattr(vcontainer, vindex)
                 if not activation.active:
+                    activation.dependencies.pop()
                     return value
                 if value_dep is not None:
                     self.full_member_lookup(
@@ -425,6 +427,7 @@ class Collector(object):
             exc_handler=float('inf'), # do not delete
         ))
         activation.parent = act
+        activation.last_activation = self.last_activation
         self.last_activation = activation
         return activation
 
@@ -813,27 +816,26 @@ class Collector(object):
     def genexp(self, activation, code_id, exc_handler, lvalue, mode):
         """Capture genexp"""
         # pylint: disable=too-many-arguments
+        activation.dependencies.append(CollectionDependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id,
+        ))
+        gen = Generator()
         try:
-            activation.dependencies.append(CollectionDependencyAware(
-                exc_handler=exc_handler,
-                code_id=code_id,
-            ))
-            gen = Generator()
             value = lvalue(gen)
-            return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
-        finally:
-            depa = activation.dependencies.pop()
-            gen.value = value
-            if activation.active:
-                eva = self.evaluate_depa(activation, code_id, value, None, depa)
-                dependency = Dependency(eva, value, mode)
-                dependency.sub_dependencies.extend(depa.dependencies)
-                activation.dependencies[-1].add(dependency)
-                gen.evaluation = eva
-                gen.dependency = dependency
+        depa = activation.dependencies.pop()
+        gen.value = value
+        if activation.active:
+            eva = self.evaluate_depa(activation, code_id, value, None, depa)
+            dependency = Dependency(eva, value, mode)
+            dependency.sub_dependencies.extend(depa.dependencies)
+            activation.dependencies[-1].add(dependency)
+            gen.evaluation = eva
+            gen.dependency = dependency
+        return value
 
     def genitem(self, activation, code_id, exc_handler):
         """Capture genitem before"""
@@ -1144,7 +1146,8 @@ class Collector(object):
     def assign(self, activation, assign, target_expr, back=1):
         """Create dependencies"""
         if not activation.active:
-            return 0
+            # Comprehensions use the result as a condition
+            return 1
         ldepa = []
         _, _, depa = assign
         if isinstance(depa, list):
@@ -1194,7 +1197,7 @@ class Collector(object):
         result = self.call(activation, code_id, depa.exc_handler, func, mode)
 
         if activation.active:
-            future = self.future_activation[-1]
+            future = self.future_activation
             future.dependencies[-1].add(dependency)
             if hasattr(func, '__self__'):
                 future.bound_dependency = self.current_attr or True
@@ -1214,16 +1217,15 @@ class Collector(object):
             code_id=code_id,
         )
         future.dependencies.append(depa)
-        self.future_activation.append(future)
+        self.future_activation = future
 
         activation.dependencies.append(depa)
-        return self._call
+        return partial(self._call, future)
 
     def _call(*args, **kwargs):  # pylint: disable=no-method-argument
         """Capture call activation"""
         # The call may have a keyword argument named self
-        self, args = args[0], args[1:]
-        future = self.future_activation.pop()
+        self, future, args = args[0], args[1], args[2:]
         parent_activation = future.activation
         parent_depa = parent_activation.dependencies.pop()
         if future.activation.active:
@@ -1351,7 +1353,7 @@ class Collector(object):
                     _call = self.call(
                         activation, block_id, defaults.exc_handler, new_function_def, 'internal'
                     )
-                    future = self.future_activation[-1]
+                    future = self.future_activation
                     if is_augassign:
                         assign = activation.assignments[-1]
                         future.dependencies[0].replace(assign.dependency.clone(mode="argument", kind="argument"))
@@ -1410,7 +1412,8 @@ class Collector(object):
                     activation, function_def, args, kwargs, default_values, defaults, *args, **kwargs
                 )
                 bound_dependency = activation.bound_dependency
-                if function_def.__name__ == "__init__" and bound_dependency:
+                if (function_def.__name__ == "__init__" and
+                        isinstance(bound_dependency, Dependency)):
                     old_mode = bound_dependency.mode
                     depa = DependencyAware()
                     value = args[0]
@@ -1464,6 +1467,18 @@ class Collector(object):
             return function_def
         return dec
 
+    def collect_lambda_def(self, activation):
+        """Collect lambda definition. Add its dependency to the expression"""
+        # pylint: disable=no-self-use
+        def dec(function_def):
+            """Return function definition"""
+            dependency_aware = activation.dependencies.pop()
+            if activation.dependencies:
+                for dependency in dependency_aware.dependencies:
+                    activation.dependencies[-1].add(dependency)
+            return function_def
+        return dec
+
     def start_class(self, last_activation, class_name, code_component_id):
         """Start script collection. Create new activation"""
         activation = self.start_activation(
@@ -1821,11 +1836,22 @@ class Collector(object):
         """Capture rcondition after. Remove conditions if false"""
         # pylint: disable=no-self-use
         self._condition(activation, value)
+        value = bool(value)
         if not value:
             self.remove_conditions(activation, count)
 
         return value
 
+    def mark_conditions(self, activation):
+        """Mark the conditions that precede a statement"""
+        # pylint: disable=no-self-use
+        activation.condition_marks.append(len(activation.conditions))
+
+    def restore_conditions(self, activation):
+        """Remove the conditions added since the last mark"""
+        # pylint: disable=no-self-use
+        del activation.conditions[activation.condition_marks.pop():]
+
     def remove_condition(self, activation):
         """Just remove the condition dependencies"""
         activation.conditions.pop()
@@ -1845,6 +1871,7 @@ class Collector(object):
     def prepare_while(self, activation, exc_handler):
         """Prepare while, by adding empty condition"""
         # pylint: disable=no-self-use
+        self.mark_conditions(activation)
         activation.conditions.append(DependencyAware(
             exc_handler=exc_handler
         ))
@@ -1852,22 +1879,24 @@ class Collector(object):
     def ifexp(self, activation, code_id, exc_handler, if_lambda, mode):
         """Collect ifexp"""
         # pylint: disable=too-many-arguments
-        value = "<<<noWorkflow>>>"
+        activation.dependencies.append(DependencyAware(
+            exc_handler=exc_handler,
+            code_id=code_id
+        ))
+        condition_count = len(activation.conditions)
         try:
-            activation.dependencies.append(DependencyAware(
-                exc_handler=exc_handler,
-                code_id=code_id
-            ))
             value = if_lambda()
-            return value
         except:
             self.collect_exception(activation, exc_handler)
             raise
-        finally:
+        else:
             depa = activation.dependencies.pop()
-            if activation.active and value != "<<<noWorkflow>>>":
+            if activation.active:
                 self.eval_dep(activation, code_id, value, mode, depa)
-            self.remove_condition(activation)
+            return value
+        finally:
+            # The test may fail before it adds its condition
+            del activation.conditions[condition_count:]
 
     def py2_repr(self, activation, code_id, exc_handler, mode):
         """Collect py2 `repr`"""
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index 8fe6c61..fea6fda 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -46,7 +46,8 @@ class ActivationLW(BaseLW):
     __slots__, attributes = define_attrs(
         ["trial_id", "id", "name", "start_checkpoint", "code_block_trial_id",
          "code_block_id"],
-        ["file_accesses", "context", "conditions", "permanent_conditions",
+        ["file_accesses", "context", "conditions", "condition_marks",
+         "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
          "bound_dependency", "func_evaluation", "iscell"]
@@ -86,6 +87,7 @@ class ActivationLW(BaseLW):
 
         # Track conditional dependencies
         self.conditions = []
+        self.condition_marks = []
         self.permanent_conditions = []
 
         # Active collection
-- 
2.43.0


From feb2bc7afcf8a93911a2b774ab740d7682e36121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:29 +0000
Subject: [PATCH 15/54] fix: index objects that are not sequences with negative
 numbers

---
 .../collection/prov_execution/collector.py    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 7cee275..ad2870a 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -276,6 +276,15 @@ class Collector(object):
         else:
             return self.simple_member_lookup(collection, addr, value, depa)
 
+    def member_index(self, vcontainer, vindex):
+        """Return index of member. Negative indexes only count from the end of
+        sequences"""
+        # pylint: disable=no-self-use
+        if (isinstance(vindex, int) and vindex < 0 and
+                isinstance(vcontainer, (list, tuple, str, bytes, bytearray))):
+            return len(vcontainer) + vindex
+        return vindex
+
     def __getitem__(self, index):
         # pylint: disable=too-many-locals
         operation, subindex = index
@@ -293,9 +302,7 @@ class Collector(object):
             if value_dep is not None:
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = self.member_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 value = vcontainer[vindex]
                 if not activation.active:
@@ -384,9 +391,7 @@ class Collector(object):
                 self.current_attr = Dependency(value_dep.evaluation, vcontainer, "bound")
 
             if access == "[]":
-                nvindex = vindex
-                if isinstance(vindex, int) and vindex < 0:
-                    nvindex = len(vcontainer) + vindex
+                nvindex = self.member_index(vcontainer, vindex)
                 addr = "[{}]".format(nvindex)
                 vcontainer[vindex] = value
             elif access == ".":
@@ -796,7 +801,7 @@ class Collector(object):
         value_depa = activation.dependencies.pop()
         if key is None:
             key = value
-        if key == -1:
+        elif type(key) is int and key == -1:
             key = len(activation.dependencies[-1].items)
         if activation.active:
             if len(value_depa.dependencies) == 1:
-- 
2.43.0


From 3c0ea882acca8e3c3345cd1c1972921135df7c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 16/54] fix: match the arguments of unpacked iterators and of
 calls made by black boxes

---
 .../collection/prov_execution/collector.py    | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index ad2870a..4d81efe 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -29,6 +29,12 @@ from .structures import DependencyAware, Dependency, Parameter
 from .structures import MemberDependencyAware, CollectionDependencyAware
 from .structures import ConditionExceptions, WithContext
 
+try:
+    from types import AsyncGeneratorType
+    GENERATOR_TYPES = (GeneratorType, AsyncGeneratorType)
+except ImportError:  # Python < 3.6
+    GENERATOR_TYPES = (GeneratorType,)
+
 NOW_UNSET = "<now_unset>"
 
 OPEN_MODES = {
@@ -1275,7 +1281,8 @@ class Collector(object):
 
                 # Just add dependency if it is expecting one
                 dependency = Dependency(eva, result, future.dependency_type)
-                self.last_activation.dependencies[-1].add(dependency)
+                if self.last_activation.dependencies:
+                    self.last_activation.dependencies[-1].add(dependency)
                 if activation.generator is not None:
                     activation.generator.evaluation = eva
                     activation.generator.dependency = dependency
@@ -1429,7 +1436,7 @@ class Collector(object):
                     self.make_dependencies(activation, evaluation, depa)
                     bound_dependency.mode = old_mode
                     
-                if isinstance(result, GeneratorType):
+                if isinstance(result, GENERATOR_TYPES):
                     activation.generator = Generator()
                     activation.generator.value = result
                 return result
@@ -1579,9 +1586,6 @@ class Collector(object):
         arguments = []
         keywords = []
 
-        new_args = []
-        new_kwargs = {}
-        
         for dependency in activation.dependencies[1].dependencies:
             if dependency.mode.startswith("argument"):
                 kind = dependency.kind
@@ -1657,21 +1661,26 @@ class Collector(object):
 
         # Match args
         for arg in arguments:
+            if last_unfilled >= len(parameter_order):
+                # Calls made by black boxes do not have the dependencies of
+                # their own arguments
+                break
             if arg is None:
                 param = parameter_order[last_unfilled]
                 param.filled = True
                 last_unfilled += 1
             elif arg.arg == "*":
-                new_args.extend(arg.value)
-                for _ in range(len(arg.value)):
-                    param = parameter_order[last_unfilled]
+                # The call already consumed the value if it was an iterator
+                is_sized = isinstance(arg.value, (
+                    list, tuple, set, frozenset, dict, str, range))
+                size = len(arg.value if is_sized else original_args)
+                for param in parameter_order[last_unfilled:][:size]:
                     match(arg, param)
                     if param.is_vararg:
                         break
                     param.filled = True
                     last_unfilled += 1
             else:
-                new_args.append(arg.value)
                 param = parameter_order[last_unfilled]
                 match(arg, param)
                 if not param.is_vararg:
@@ -1696,21 +1705,18 @@ class Collector(object):
                 param = parameters[key]
             if param is not None:
                 match(keyword, param)
-                new_kwargs[key] = keyword.value
                 param.filled = True
             elif keyword.arg == "**":
                 for key in viewkeys(keyword.value):
                     if key in parameters:
                         param = parameters[key]
                         match(keyword, param)
-                        new_kwargs[key] = keyword.value
                         param.filled = True
 
         # Default parameters
         for param in viewvalues(parameters):
             if not param.filled and param.default is not None:
                 match(param.default, param)
-                new_kwargs[param.name] = param.default.value
 
         # Missing arguments
         for param in viewvalues(parameters):
-- 
2.43.0


From 873909846abbb51d3bf868c68a9fc2f068a5bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 17/54] fix: do not compare the elements of generators

---
 capture/noworkflow/now/collection/prov_execution/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 4d81efe..a57dca9 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1806,7 +1806,7 @@ class Collector(object):
                 bind = False
                 if len(depa.dependencies) == 1:
                     gen_dep = depa.dependencies[0]
-                    bind = gen_dep.value == element
+                    bind = gen_dep.value is element
                 clone_depa, found = self.sub_dependency(
                     dep, value, index, clone_depa
                 )
-- 
2.43.0


From 884ac97fdcf4fe07324fb40bc8861e3be18c54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 18/54] fix: unpack iterators and sets, and enter contexts
 without a target

---
 .../collection/prov_execution/collector.py    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a57dca9..89a6956 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1056,7 +1056,8 @@ class Collector(object):
         else:
             addr = "[{}]".format(index)
             same = dep.evaluation.same()
-            new_eva = same.members.get(addr)
+            if isinstance(value, (list, tuple)):
+                new_eva = same.members.get(addr)
         if not new_eva:
             return clone_depa, None
         if val is NOW_UNSET:
@@ -1135,21 +1136,21 @@ class Collector(object):
             return delta
 
         star = subcomps[starred][0]
+        # The value may be an iterator that was consumed by the targets
+        new_value = self.value_from_target_expr(activation, assign, star, back + 1)
+        size = len(subcomps) - 1 + len(new_value)
         rdelta = -1
         for index in range(len(subcomps) - 1, starred, -1):
             subcomp = subcomps[index]
             val = self.value_from_target_expr(activation, assign, subcomp, back + 1)
-            new_index = len(assign_value) + rdelta
-            adepa, _ = custom(new_index)
-            rdelta -= self.assign(
-                activation, assign.sub(val, adepa), subcomp, back + 1)
+            adepa, _ = custom(size + rdelta)
+            self.assign(activation, assign.sub(val, adepa), subcomp, back + 1)
+            rdelta -= 1
 
         # ToDo: treat it as a plain slice
-        new_value = assign_value[delta:rdelta + 1]
-
         depas = [
             custom(index)[0]
-            for index in range(delta, len(assign_value) + rdelta + 1)
+            for index in range(starred, size + rdelta + 1)
         ]
 
         return self.assign(activation, assign.sub(new_value, depas), star, back + 1)
@@ -1377,7 +1378,7 @@ class Collector(object):
                         future.dependencies[0].replace(activation.dependencies[1])
                     
                     find_bound_self = None
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         find_bound_self = activation.assignments[-1].dependency
                     if function_def.__name__ == "__init__":
@@ -1402,7 +1403,7 @@ class Collector(object):
                         future.bound_dependency = self.current_attr or True
 
                     result = _call(*args, **kwargs)
-                    if function_def.__name__ == "__enter__":
+                    if function_def.__name__ == "__enter__" and activation.assignments:
                         # ToDo: check the proper __enter__ assignment
                         try:
                             activation.assignments[-1].dependency.dependencies.extend(
-- 
2.43.0


From e3df52bf3bab3f242ccd0ada2f5bca1c870c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:33 +0000
Subject: [PATCH 19/54] fix: define classes once, in any scope, with super()
 and type parameters

---
 .../prov_definition/ast_elements.py           | 14 ++++++
 .../prov_definition/transformer_expr.py       |  9 ++++
 .../prov_definition/transformer_stmt.py       | 32 ++++++++----
 .../collection/prov_execution/collector.py    | 50 ++++++++++++-------
 4 files changed, 78 insertions(+), 27 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/ast_elements.py b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
index 5966a63..d554230 100644
--- a/capture/noworkflow/now/collection/prov_definition/ast_elements.py
+++ b/capture/noworkflow/now/collection/prov_definition/ast_elements.py
@@ -186,6 +186,20 @@ def function_def(name, args, body, decs, returns=None, cls=ast.FunctionDef):
     return cls(*constructor)
 
 
+def first_parameter(args):
+    """Return name of the first positional parameter or None"""
+    for arg in getattr(args, 'posonlyargs', []) + args.args:
+        return getattr(arg, 'arg', getattr(arg, 'id', None))
+    return None
+
+
+def copy_type_params(result, node):
+    """Copy type parameters of function or class (Python 3.12)"""
+    if hasattr(node, 'type_params'):
+        result.type_params = node.type_params
+    return result
+
+
 def class_def(name, bases, body, decorators, keywords=None):
     """Create class definition"""
     constructor = [name, bases]
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index bd61da4..dbe8a6a 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -885,6 +885,15 @@ class RewriteDependencies(ast.NodeTransformer):
             self.composition_edge = (id_, Component.M_ARGS, index)
             args.append(self.process_call_arg(arg))
 
+        is_super = (
+            isinstance(node.func, ast.Name) and node.func.id == 'super' and
+            not node.args and not node.keywords and rewriter.first_parameter
+        )
+        if is_super:
+            # super() inspects the function that calls it
+            args.append(ast.Name('__class__', L()))
+            args.append(ast.Name(rewriter.first_parameter, L()))
+
         keywords = []
         for index, k in enumerate(node.keywords):
             self.composition_edge = (id_, Component.M_KEYWORDS, index)
diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
index 024c137..8076d75 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_stmt.py
@@ -19,7 +19,7 @@ from .ast_elements import maybe, context, raise_, now_attribute
 from .ast_elements import L, S, none, call, param, true_false, true, false
 from .ast_elements import noworkflow, double_noworkflow
 from .ast_elements import activation, function_def, class_def, try_def
-from .ast_elements import add_now_parameters
+from .ast_elements import add_now_parameters, first_parameter, copy_type_params
 
 from .transformer_expr import RewriteDependencies
 from . import dependency_constants as Dependency
@@ -54,6 +54,7 @@ class RewriteAST(ast.NodeTransformer):
         self.current_exc_handler = 0
         self.cell = cell
         self.composition_edge = None
+        self.first_parameter = None
 
     # data
 
@@ -459,6 +460,9 @@ class RewriteAST(ast.NodeTransformer):
                 ]
             ), new_node))
 
+            with temporary(self, 'first_parameter', first_parameter(new_node.args)):
+                new_body = self.process_body(new_node.body, func_id)
+
             body = original_docstring(node) + [
                 ast_copy(ast.Expr(noworkflow('match_arguments', [
                     activation(),
@@ -469,13 +473,13 @@ class RewriteAST(ast.NodeTransformer):
                     ast.Name('__now_default_dependencies__', L()),
                     parameters,
                 ])), new_node)
-            ] + self.process_body(new_node.body, func_id)
+            ] + new_body
 
             add_now_parameters(new_node.args)
-            return ast_copy(function_def(
+            return ast_copy(copy_type_params(function_def(
                 new_node.name, new_node.args, body, decorators,
                 returns=maybe(new_node, 'returns'), cls=cls
-            ), new_node)
+            ), new_node), new_node)
 
     def visit_AsyncFunctionDef(self, node):
         """Visit Async Function Definition"""
@@ -493,7 +497,7 @@ class RewriteAST(ast.NodeTransformer):
         @<now>.collect_class_def(<act>, 'c')
         @<now>.decorator(__now_activation__)(|dec|)
         @<now>.class_def(<act>)(<act>, <block_id>, <parameterss>)
-        class c(object):
+        class c(*<now>.class_bases(#), **<now>.class_keywords(#)):
             __now_activation__ = <now>.start_class(<act>, 'c', <block_id>)
             ...
         """
@@ -564,10 +568,20 @@ class RewriteAST(ast.NodeTransformer):
                 ), new_node),
             ] + self.process_body(old_body, class_id)
 
-            result = ast_copy(class_def(
-                node.name, node.bases, body, decorators,
-                keywords=maybe(node, 'keywords')
-            ), node)
+            new_bases, new_keywords = node.bases, maybe(node, 'keywords')
+            if PY3:
+                # The decorator has the value of bases and keywords
+                new_bases = new_bases and [ast_copy(ast.Starred(
+                    noworkflow('class_bases', [ast.Num(class_id)]), L()
+                ), node)]
+                new_keywords = new_keywords and [ast_copy(ast.keyword(
+                    None, noworkflow('class_keywords', [ast.Num(class_id)])
+                ), node)]
+
+            result = ast_copy(copy_type_params(class_def(
+                node.name, new_bases, body, decorators,
+                keywords=new_keywords
+            ), node), node)
             return result
 
     def visit_Return(self, node):
diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 89a6956..a19a126 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -11,7 +11,7 @@ import os
 import time
 import inspect
 
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
 from copy import copy
 from datetime import datetime, timedelta
 from functools import partial, wraps
@@ -117,6 +117,9 @@ class Collector(object):
 
         self.condition_exceptions = ConditionExceptions()
 
+        # class definition -> (activation, bases, keywords) of its definition
+        self.class_definitions = defaultdict(list)
+
         # attribute<->self dependency
         self.current_attr = None
         # item<->key dependency
@@ -1393,8 +1396,12 @@ class Collector(object):
                         else:
                             future.bound_dependency = True
                     if function_def.__name__ in ("__new__", "__call__"):
-                        future.bound_dependency = Dependency(
-                            activation.func_evaluation, activation.func, "bound"
+                        # A class statement calls the metaclass by itself
+                        future.bound_dependency = (
+                            activation.func_evaluation is None or
+                            Dependency(
+                                activation.func_evaluation, activation.func, "bound"
+                            )
                         )
                     if function_def.__name__ in {
                         '__getattr__', '__getattribute__', '__setattr__',
@@ -1494,6 +1501,11 @@ class Collector(object):
 
     def start_class(self, last_activation, class_name, code_component_id):
         """Start script collection. Create new activation"""
+        # A class body does not see the activation of the function or class
+        # that encloses it
+        definitions = self.class_definitions[code_component_id]
+        if definitions:
+            last_activation, _, _ = definitions.pop()
         activation = self.start_activation(
             class_name, code_component_id, code_component_id,
             last_activation
@@ -1509,26 +1521,28 @@ class Collector(object):
             exc_handler=exc_handler,
             code_id=code_id,
         ))
-        return self._class_def
+        return partial(self._class_def, activation, code_id)
+
+    def class_bases(self, code_id):
+        """Return bases of the class that is being defined"""
+        return self.class_definitions[code_id][-1][1]
 
-    def _class_def(self, mode, bases=(object,), metaclass=type, **kwargs):
+    def class_keywords(self, code_id):
+        """Return keywords of the class that is being defined"""
+        return self.class_definitions[code_id][-1][2]
+
+    def _class_def(*args, **kwargs):  # pylint: disable=no-method-argument
         """Decorate class definition with then new activation.
         Collect arguments and match to parameters.
         """
+        # The class may have any keyword argument
+        self, activation, code_id, mode, bases = args
+        self.class_definitions[code_id].append((activation, bases, kwargs))
+
         def dec(cls):
-            """Decorate class definition. Based on six.add_metaclass"""
-            orig_vars = cls.__dict__.copy()
-            slots = orig_vars.get('__slots__')
-            if slots is not None:
-                if isinstance(slots, str):
-                    slots = [slots]
-                for slots_var in slots:
-                    orig_vars.pop(slots_var)
-            orig_vars.pop('__dict__', None)
-            orig_vars.pop('__weakref__', None)
-            class_def = metaclass(cls.__name__, bases, orig_vars, **kwargs)
-
-            activation = orig_vars['__now_activation__']
+            """Decorate class definition"""
+            class_def = cls
+            activation = cls.__dict__['__now_activation__']
             evaluation = activation.evaluation
             closure_activation = activation.closure
             block_id = activation.code_block_id
-- 
2.43.0


From 614150fe09e63be5b97c63591535f198b266f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:18 +0000
Subject: [PATCH 20/54] fix: let eval, exec, globals, locals, vars and dir use
 the frame of their caller

---
 .../collection/prov_execution/collector.py    | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a19a126..5068dec 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -15,7 +15,7 @@ from collections import OrderedDict, defaultdict
 from copy import copy
 from datetime import datetime, timedelta
 from functools import partial, wraps
-from types import GeneratorType
+from types import GeneratorType, BuiltinFunctionType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
 
@@ -1258,8 +1258,11 @@ class Collector(object):
         #activation = self.last_activation
         eva = activation.evaluation
         result = None
+        func = future.func
+        if type(func) is BuiltinFunctionType and not kwargs:
+            func, args = self.frame_function(func, args, sys._getframe(1))
         try:
-            result = future.func(*args, **kwargs)
+            result = func(*args, **kwargs)
         except Exception:
             self.collect_exception(activation)
             raise
@@ -1292,6 +1295,26 @@ class Collector(object):
                     activation.generator.dependency = dependency
         return result
 
+    def frame_function(self, func, args, frame):
+        """Return func and args of a builtin that uses the frame of its caller"""
+        # pylint: disable=no-self-use
+        if func in (exec, eval) and len(args) == 1:
+            return func, (args[0], frame.f_globals, frame.f_locals)
+        if func is globals and not args:
+            return self.as_is, (frame.f_globals,)
+        if func in (locals, vars, dir) and not args:
+            names = frame.f_locals
+            if "__now_args__" in names:
+                # Function: hide parameters added by the transformer
+                names = {
+                    key: value for key, value in viewitems(names)
+                    if not key.startswith("__now_")
+                }
+            if func is dir:
+                return sorted, (names,)
+            return self.as_is, (names,)
+        return func, args
+
     def decorator(self, activation, code_id, exc_handler):
         """Capture decorator before"""
         activation.dependencies.append(DependencyAware(
-- 
2.43.0


From 8b5b895867d253ca1d3f9eda4ab31154491a084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 21/54] fix: store the files of scripts and modules with their
 original bytes

---
 .../now/collection/prov_definition/definition.py     | 12 ++++++++++--
 capture/noworkflow/now/ipython/magics/now_restore.py |  4 +++-
 capture/noworkflow/now/models/code_display.py        |  4 +++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 98946d1..90da7ef 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -48,12 +48,15 @@ class Definition(object):
     def create_code_block(self, code, path, type_, binary, load):
         """Create code block for script/module"""
         # pylint: disable=too-many-arguments
+        original = None
         if load:
             try:
                 with content.std_open(path, "rb") as script_file:
-                    code = script_file.read()
+                    code = original = script_file.read()
                     if not binary:
                         code = pyposast.native_decode_source(code)
+                        # Python has the same lines for any line ending
+                        code = code.replace("\r\n", "\n").replace("\r", "\n")
             except UnicodeError:
                 # Failed to open file, use existing code
                 binary = True
@@ -73,6 +76,10 @@ class Definition(object):
             lines = [code]
 
         path = os.path.relpath(path, self.metascript.dir) 
+        code_hash = None
+        if original is not None:
+            # Keep the encoding and the byte order mark of the file
+            code_hash = content.put(original, path)
         id_ = self.metascript.code_components_store.add(
             self.metascript.trial_id,
             path,
@@ -81,7 +88,8 @@ class Definition(object):
             1, 0, len(lines), len(lines[-1]), -1
         )
         self.metascript.code_blocks_store.add(
-            id_, self.metascript.trial_id, code, binary, None, path
+            id_, self.metascript.trial_id, code, binary, None, path,
+            code_hash
         )
         return code, id_
 
diff --git a/capture/noworkflow/now/ipython/magics/now_restore.py b/capture/noworkflow/now/ipython/magics/now_restore.py
index 8c85ccb..76186d2 100644
--- a/capture/noworkflow/now/ipython/magics/now_restore.py
+++ b/capture/noworkflow/now/ipython/magics/now_restore.py
@@ -6,6 +6,8 @@
 from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
+from pyposast import native_decode_source
+
 from ...cmd import Restore
 from ...persistence import content
 
@@ -46,4 +48,4 @@ class NowRestore(IpythonCommandMagic, Restore):
         _, args = self.arguments(func, line)
         self.args_file, self.trial = args.file, None
         Restore.execute(self, args)
-        return content.get(self.trial.code_hash).decode("utf-8")
+        return native_decode_source(content.get(self.trial.code_hash))
diff --git a/capture/noworkflow/now/models/code_display.py b/capture/noworkflow/now/models/code_display.py
index 0aeae4c..de5e350 100644
--- a/capture/noworkflow/now/models/code_display.py
+++ b/capture/noworkflow/now/models/code_display.py
@@ -7,6 +7,7 @@
 import time
 
 from future.utils import viewvalues
+from pyposast import native_decode_source
 
 from ..persistence import content
 
@@ -26,7 +27,8 @@ class CodeDisplay(object):
                 comp.id: comp
                 for comp in block.all_components
             }
-            self.code = content.get(block.code_hash).decode("utf-8")
+            self.code = native_decode_source(
+                content.get(block.code_hash))
 
     def __getitem__(self, item):
         code = self.code.split('\n')
-- 
2.43.0


From c4410c6f34abe42b6bcf0d2b66e892a4c2b4c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 22/54] fix: close failed classes and keep only references to
 what is stored

---
 .../collection/prov_execution/collector.py    | 24 ++++++++++++++++++-
 .../now/persistence/content/gitdb_engine.py   |  8 ++++---
 .../now/persistence/lightweight/activation.py |  5 +++-
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 5068dec..5e9de86 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -163,7 +163,9 @@ class Collector(object):
                 # ToDo: support file descriptor
                 return old_open(*args, **kwargs)
             activation = self.last_activation
-            while activation and not activation.active:
+            # The script has an activation even if the depth excludes it
+            while (activation and not activation.active
+                   and (activation.depth > 1 or activation.id == -1)):
                 activation = activation.parent
 
             if not activation:
@@ -507,9 +509,25 @@ class Collector(object):
         while deps and exc_handler >= deps[-1].exc_handler:
             depa = deps.pop()
             code_id = code_id or depa.code_id
+        self.close_classes(activation)
 
         self.exceptions.add(self.trial_id, exc, activation.id)
 
+    def close_classes(self, activation):
+        """Close activations of class definitions that failed in activation"""
+        failed = []
+        last_activation = self.last_activation
+        while last_activation and last_activation.class_body:
+            failed.append(last_activation)
+            last_activation = last_activation.last_activation
+        if activation in failed:
+            # The class itself handles the exception
+            failed = failed[:failed.index(activation)]
+        elif last_activation is not activation:
+            return
+        for class_activation in failed:
+            self.close_activation(class_activation, None, None)
+
     def exception(self, activation, code_id, exc_handler, name, value):
         """Collection activation exc value"""
         # pylint: disable=too-many-arguments, unused-argument
@@ -1534,6 +1552,7 @@ class Collector(object):
             last_activation
         )
         activation.closure = last_activation
+        activation.class_body = True
         return activation
 
     def class_def(self, activation, code_id, exc_handler):
@@ -2055,6 +2074,9 @@ class Collector(object):
 
     def add_type(self, evaluation, value):
         """Create type for evaluation"""
+        if evaluation.id == -1:
+            # Evaluation of an activation beyond the depth. It is not stored
+            return
         if type(value) is type:
             if value not in self.shared_types:
                 self.shared_types[value] = evaluation
diff --git a/capture/noworkflow/now/persistence/content/gitdb_engine.py b/capture/noworkflow/now/persistence/content/gitdb_engine.py
index 6064854..911b071 100644
--- a/capture/noworkflow/now/persistence/content/gitdb_engine.py
+++ b/capture/noworkflow/now/persistence/content/gitdb_engine.py
@@ -10,6 +10,7 @@ from io import BytesIO
 from gitdb import LooseObjectDB, IStream
 
 from ...utils.cross_version import StringIO
+from . import safeopen
 from .pygit_engine import PyGitEngine
 
 # ToDo: implement other methods using GitDB to not depend on PyGitEngine
@@ -19,9 +20,10 @@ class GitDBPyGitEngine(PyGitEngine):
     @staticmethod
     def do_put(content_path, object_hashes, content, filename):
         """Perform put operation. This is used in the distributed wrapper"""
-        ldb = LooseObjectDB("/{}/objects/".format(content_path))
-        istream = IStream("blob", len(content), BytesIO(content))
-        ldb.store(istream)
+        with safeopen.use_safe_open():
+            ldb = LooseObjectDB("/{}/objects/".format(content_path))
+            istream = IStream("blob", len(content), BytesIO(content))
+            ldb.store(istream)
         content_hash = istream.hexsha
         filename_hash = hashlib.sha1(filename.encode('utf-8')).hexdigest()
         result = object_hashes[filename_hash] = str(content_hash.decode('utf-8'))
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index fea6fda..efa1271 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -50,7 +50,7 @@ class ActivationLW(BaseLW):
          "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
-         "bound_dependency", "func_evaluation", "iscell"]
+         "bound_dependency", "func_evaluation", "iscell", "class_body"]
     )
     nullable = {"code_block_id"}
     model = Activation
@@ -106,6 +106,9 @@ class ActivationLW(BaseLW):
         # Notebook
         self.iscell = False
 
+        # Class definition
+        self.class_body = False
+
 
     def is_complete(self):
         """Activation can always be removed from object store"""
-- 
2.43.0


From 6a012d3e415d49439aa053cace65084f13bc4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:32 +0000
Subject: [PATCH 23/54] fix: save partial results when asked to, without losing
 items or disturbing the script

---
 .../collection/prov_execution/collector.py    | 20 ++++++++++++++-----
 .../collection/prov_execution/execution.py    |  3 +++
 .../now/persistence/lightweight/base.py       | 13 +++++++++---
 .../noworkflow/now/persistence/models/base.py | 15 ++++++++------
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 5e9de86..e0df5bd 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -18,6 +18,7 @@ from functools import partial, wraps
 from types import GeneratorType, BuiltinFunctionType
 
 from future.utils import viewvalues, viewkeys, viewitems, exec_
+from sqlalchemy.exc import SQLAlchemyError
 
 from ...persistence import content
 from ...persistence.models import Trial
@@ -95,9 +96,7 @@ class Collector(object):
         self.exceptions = self.metascript.exceptions_store
         # Partial save
         self.partial_save_frequency = None
-        if metascript.save_frequency:  # milliseconds
-            self.partial_save_frequency = metascript.save_frequency / 1000.0
-        self.last_partial_save = self.get_time()
+        self.schedule_partial_save(metascript.save_frequency)
 
         self.first_activation = self.activations.dry_add(
             self.evaluations.dry_add(self.trial_id, -1, -1, None, None),
@@ -417,6 +416,11 @@ class Collector(object):
                 )
                 activation.assignments[-1].accesses[code_id] = aaccess
 
+    def schedule_partial_save(self, frequency):
+        """Save partial results at every frequency milliseconds"""
+        self.partial_save_frequency = frequency and frequency / 1000.0
+        self.last_partial_save = self.get_time()
+
     def time(self):
         """Return time at this moment
         Also check whether or not it should invoke time related methods
@@ -467,8 +471,9 @@ class Collector(object):
     def close_activation(self, activation, value, reference):
         """Close activation. Set checkpoint and value"""
         evaluation = activation.evaluation
-        evaluation.checkpoint = self.time()
+        # A complete evaluation is not stored again
         evaluation.repr = self.get_value(value)
+        evaluation.checkpoint = self.time()
         evaluation.set_reference(reference)
         self.add_type(evaluation, value)
         self.last_activation = activation.last_activation
@@ -2122,7 +2127,12 @@ class Collector(object):
 
     def store(self, partial, status="running"):
         """Store execution provenance"""
-        self.store_items(partial)
+        try:
+            self.store_items(partial)
+        except SQLAlchemyError:
+            if not partial:
+                raise
+            # Keep the items for the next storage. Do not disturb the script
 
         now = self.get_time()
         if not partial:
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index a953936..ff2a772 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -36,6 +36,7 @@ class Execution(object):
     def configure(self):
         """Configure execution provenance collection"""
         self.collector.trial_id = self.metascript.trial_id
+        self.collector.schedule_partial_save(self.metascript.save_frequency)
         builtin = self.metascript.namespace["__builtins__"]
         try:
             builtin["__noworkflow__"] = self.collector
@@ -95,6 +96,8 @@ class Execution(object):
     @meta_profiler("storage")
     def store_items(self):
         """Store everything that was collected"""
+        # What runs after the script, such as atexit, is not part of the trial
+        self.collector.schedule_partial_save(None)
         self.collector.store_items(partial=False)
 
     def finish(self):
diff --git a/capture/noworkflow/now/persistence/lightweight/base.py b/capture/noworkflow/now/persistence/lightweight/base.py
index 1651e4e..9284c3e 100644
--- a/capture/noworkflow/now/persistence/lightweight/base.py
+++ b/capture/noworkflow/now/persistence/lightweight/base.py
@@ -25,6 +25,8 @@ class ObjectStore(object):
         self.order = []
         self.id = 0                                                              # pylint: disable=invalid-name
         self.count = 0
+        # Ids of complete objects of a partial storage
+        self.complete = []
 
     def __getitem__(self, index):
         return self.store[index]
@@ -111,14 +113,13 @@ class ObjectStore(object):
 
     def generator(self, partial=False):
         """Generator used for storing objects in database"""
+        self.complete = []
         for obj in self.values():
             if partial and obj.is_complete():
-                del self[obj.id]
+                self.complete.append(obj.id)
             yield obj
             if obj.trial_id == -1:
                 print("---->", self.cls, obj)
-        if partial:
-            self.clear()
 
     def has_items(self):
         """Return true if it has items"""
@@ -126,7 +127,13 @@ class ObjectStore(object):
 
     def do_store(self, partial=False):
         """Store object store into database"""
+        self.complete = []
         self.cls.model.store(self, partial)
+        if partial:
+            # They are in the database. It is safe to forget them
+            for id_ in self.complete:
+                del self[id_]
+            self.clear()
 
 class SharedObjectStore(ObjectStore):
     """Temporary storage for LW objects. Share ids"""
diff --git a/capture/noworkflow/now/persistence/models/base.py b/capture/noworkflow/now/persistence/models/base.py
index dc22274..57642cb 100644
--- a/capture/noworkflow/now/persistence/models/base.py
+++ b/capture/noworkflow/now/persistence/models/base.py
@@ -253,12 +253,15 @@ class AlchemyProxy(Model):
         """Bulk insert lightweight objects from ObjectStore"""
         if object_store.has_items():
             _conn = conn if conn else relational.engine.connect()
-            _conn.execute(
-                cls.__model__.__table__.insert().prefix_with("OR REPLACE"),
-                *object_store.generator(partial)
-            )
-            if conn is None:
-                _conn.close()
+            try:
+                _conn.execute(
+                    cls.__model__.__table__.insert().prefix_with("OR REPLACE"),
+                    *object_store.generator(partial)
+                )
+            finally:
+                if conn is None:
+                    _conn.close()
+
     @classmethod
     def load_by_trials(cls, trial_ids_list, session=None):
         session = session or relational.session
-- 
2.43.0


From 8d404ac9a15aeba11fb69aab548f9dad506c4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 24/54] fix: finish background storage when a command fails

---
 .../now/persistence/content/parallel.py         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index 62416ef..ec5d47e 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -3,6 +3,9 @@
 # This file is part of noWorkflow.
 # Please, consult the license terms in the LICENSE file.
 """Content database engine parallel generics"""
+import atexit
+import os
+
 
 def check_errors(errors):
     """Report content that could not be stored in background"""
@@ -10,6 +13,18 @@ def check_errors(errors):
         raise RuntimeError("could not store content: {}".format("; ".join(errors)))
 
 
+def close_at_exit(engine):
+    """Finish the background storage even if the command does not close it"""
+    pid = os.getpid()
+
+    def close():
+        """Close engine. Ignore processes forked by scripts"""
+        if os.getpid() == pid:
+            engine.close()
+
+    atexit.register(close)
+
+
 def create_distributed(cls, name=None):
     from multiprocessing import Process, JoinableQueue, cpu_count, Manager, Lock
     from . import safeopen
@@ -50,6 +65,7 @@ def create_distributed(cls, name=None):
             self.object_hashes = self.manager.dict()
             self.errors = self.manager.list()
             self.lock = self.manager.RLock()
+            close_at_exit(self)
 
         def start_processes(self):
             """Start processes"""
@@ -104,6 +120,7 @@ def create_pool(cls, name=None):
             self.processes_started = False
             self.results = []
             self.lock = self.manager.RLock()
+            close_at_exit(self)
 
         def start_processes(self):
             """Start processes"""
-- 
2.43.0


From b3cf53ed286e2c04cbf84666c20e5b09d029901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 25/54] fix: keep the definition of activations and the final
 value of generators and coroutines

---
 .../now/collection/prov_execution/collector.py  | 17 +++++++++++++++--
 .../now/persistence/lightweight/activation.py   |  4 +++-
 .../now/persistence/lightweight/evaluation.py   |  6 ++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e0df5bd..e6f9e2f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -36,6 +36,13 @@ try:
 except ImportError:  # Python < 3.6
     GENERATOR_TYPES = (GeneratorType,)
 
+try:
+    from types import CoroutineType
+    # Values that may finish after the call that created them
+    PENDING_TYPES = GENERATOR_TYPES + (CoroutineType,)
+except ImportError:  # Python < 3.5
+    PENDING_TYPES = GENERATOR_TYPES
+
 NOW_UNSET = "<now_unset>"
 
 OPEN_MODES = {
@@ -1406,7 +1413,8 @@ class Collector(object):
                 Pass __now_activation__ as parameter
                 """
                 activation = self.last_activation
-                if activation.active and activation.name != function_def.__name__: # White box after black box call
+                if activation.active and (
+                        activation.name != function_def.__name__ or activation.entered): # White box after black box call
                     is_augassign = function_def.__name__ in {
                         '__iadd__', '__isub__', '__imul__', '__imatmul__', '__itruediv__', 
                         '__ifloordiv__', '__imod__', '__ipow__', '__ilshift__', '__irshift__', 
@@ -1470,7 +1478,9 @@ class Collector(object):
 
                 if closure_activation != activation:
                     activation.closure = closure_activation
-                activation.code_block_id = block_id
+                if activation.name == function_def.__name__ and not activation.entered:
+                    activation.code_block_id = block_id
+                    activation.entered = True
                 #if activation.active:
                 #    self._match_arguments(function_def, activation, arguments, defaults, args)
                 
@@ -1493,6 +1503,8 @@ class Collector(object):
                 if isinstance(result, GENERATOR_TYPES):
                     activation.generator = Generator()
                     activation.generator.value = result
+                if isinstance(result, PENDING_TYPES):
+                    activation.evaluation.pending = True
                 return result
             if default_values[0]:
                 function_def.__defaults__ = default_values[0]
@@ -1804,6 +1816,7 @@ class Collector(object):
         reference = self.find_reference_dependency(value, dependency_aware)
         evaluation.repr = self.get_value(value)
         evaluation.set_reference(reference)
+        evaluation.pending = False
         self.make_dependencies(activation, evaluation, dependency_aware)
         return value
 
diff --git a/capture/noworkflow/now/persistence/lightweight/activation.py b/capture/noworkflow/now/persistence/lightweight/activation.py
index efa1271..4636d97 100644
--- a/capture/noworkflow/now/persistence/lightweight/activation.py
+++ b/capture/noworkflow/now/persistence/lightweight/activation.py
@@ -50,7 +50,7 @@ class ActivationLW(BaseLW):
          "permanent_conditions",
          "evaluation", "assignments", "closure", "func",
          "active", "depth", "parent", "generator", "last_activation", 
-         "bound_dependency", "func_evaluation", "iscell", "class_body"]
+         "bound_dependency", "func_evaluation", "iscell", "class_body", "entered"]
     )
     nullable = {"code_block_id"}
     model = Activation
@@ -81,6 +81,8 @@ class ActivationLW(BaseLW):
         self.last_activation = None
         # Executed function
         self.func = None
+        # The function has started
+        self.entered = False
 
         # File accesses. Used to get the content after the activation
         self.file_accesses = []
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index cc9dada..6132459 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -27,6 +27,8 @@ class EvaluationLW(BaseLW):
         self.activation_id = activation_id if int(activation_id) > 0 else 0
         self.checkpoint = -1 if not checkpoint else checkpoint
         self.repr = repr_
+        # Value of a generator or coroutine that may still return another
+        self.pending = False
         self._same = None
         self.member_container_activation_id = self.activation_id
         self.member_container_id = id_
@@ -51,9 +53,9 @@ class EvaluationLW(BaseLW):
 
     def is_complete(self):                                                       # pylint: disable=no-self-use
         """Evaluation can only be removed from object store
-        if it has a checkpoint
+        if it has a checkpoint and its value does not change anymore
         """
-        return self.checkpoint != -1
+        return self.checkpoint != -1 and not self.pending
 
     def __repr__(self):
         return (
-- 
2.43.0


From 40ed062c82d17476fde72b1409c215bdf8de5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 26/54] fix: report storage errors at exit without storing more

---
 capture/noworkflow/now/persistence/content/parallel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/parallel.py b/capture/noworkflow/now/persistence/content/parallel.py
index ec5d47e..a4b9ac6 100644
--- a/capture/noworkflow/now/persistence/content/parallel.py
+++ b/capture/noworkflow/now/persistence/content/parallel.py
@@ -6,6 +6,8 @@
 import atexit
 import os
 
+from ...utils.io import print_msg
+
 
 def check_errors(errors):
     """Report content that could not be stored in background"""
@@ -20,7 +22,11 @@ def close_at_exit(engine):
     def close():
         """Close engine. Ignore processes forked by scripts"""
         if os.getpid() == pid:
-            engine.close()
+            try:
+                engine.close()
+            except RuntimeError as exc:
+                # A traceback would open files and store them
+                print_msg(exc, True)
 
     atexit.register(close)
 
-- 
2.43.0


From e3625f81c2e106960960335780b236878d946031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 27/54] fix: let commands read trials that were interrupted

---
 capture/noworkflow/now/cmd/cmd_restore.py       | 7 ++++++-
 capture/noworkflow/now/models/ast/trial_ast.py  | 4 ++++
 capture/noworkflow/now/models/dataflow_model.py | 8 ++++++--
 capture/noworkflow/now/models/prov/export.py    | 5 +++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index 27b0d88..dbf993c 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -139,7 +139,7 @@ class Restore(Command):
             os.remove(path)
             print_msg("File {} removed".format(path), self.print_msg)
             return True
-        elif code_hash is not None:
+        elif code_hash:
             load_file = content.get(code_hash)
             try:
                 parent = os.path.dirname(path)
@@ -193,6 +193,11 @@ class Restore(Command):
         metascript.name = trial.script
         metascript.path = trial.path
 
+        if (not trial.finished and not trial.main and not args.file and
+                not args.skip_script):
+            raise RuntimeError(
+                "Trial {} was interrupted before its script was stored".format(
+                    trial.id))
         restore_files = trial.versioned_files(**skip_dict(args))
         if not args.file:
             head = Trial.load_parent(trial.script, remove=False)
diff --git a/capture/noworkflow/now/models/ast/trial_ast.py b/capture/noworkflow/now/models/ast/trial_ast.py
index 68916a4..4b52fef 100644
--- a/capture/noworkflow/now/models/ast/trial_ast.py
+++ b/capture/noworkflow/now/models/ast/trial_ast.py
@@ -86,6 +86,10 @@ class TrialAst(object):
                     continue
             self.construct_ast_relationship(whole_node, part_node, composition)
 
+        if 1 not in self.node_dict:
+            raise RuntimeError(
+                "Trial {} was interrupted before its script was stored".format(
+                    self.trial.id))
         return self.node_dict[1]
 
     def construct_ast_node(self, component, def_dict):
diff --git a/capture/noworkflow/now/models/dataflow_model.py b/capture/noworkflow/now/models/dataflow_model.py
index 71d69df..b342674 100644
--- a/capture/noworkflow/now/models/dataflow_model.py
+++ b/capture/noworkflow/now/models/dataflow_model.py
@@ -50,8 +50,12 @@ class DataflowModel(Model):
         if self.run:
             clusterizer.run()
         visitor = DotVisitor(clusterizer, self.name_length, self.value_length)
-        search = SearchEvaluationVisitor(clusterizer, self.activation.id)
-        node = search.visit(clusterizer)
+        if self.activation is None:
+            # The trial was interrupted before the script started
+            node = clusterizer.main_cluster
+        else:
+            search = SearchEvaluationVisitor(clusterizer, self.activation.id)
+            node = search.visit(clusterizer)
 
         visitor.visit(node, initial=True)
         return "\n".join(visitor.result)
diff --git a/capture/noworkflow/now/models/prov/export.py b/capture/noworkflow/now/models/prov/export.py
index 15ae97e..c24d8bf 100644
--- a/capture/noworkflow/now/models/prov/export.py
+++ b/capture/noworkflow/now/models/prov/export.py
@@ -117,12 +117,13 @@ def export_prov(trial, name="temp", formats="svg"):
     for mem in trial.members:
         insert_ckpt(mem.checkpoint)
 
-    ckpt_list.sort()
+    # Activations of interrupted trials have no final checkpoint
+    ckpt_list.sort(key=lambda ckpt: (ckpt is None, ckpt or 0))
     counter = Counter()
 
     for ev in trial.evaluations:
         if ev.activation_id != 0 and not(ev.code_component.type == "name" and ev.code_component.mode == "r"):
-            value = ev.repr
+            value = ev.repr if ev.repr is not None else ""
             
             if not is_int(value) and is_float(value):
                 value += "f"
-- 
2.43.0


From a2a5adb31b48533854a7bbc9c4c03ec83c98e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:06 +0000
Subject: [PATCH 28/54] fix: record arguments, variables and values that are
 not valid text

---
 .../now/persistence/relational_database.py    | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/relational_database.py b/capture/noworkflow/now/persistence/relational_database.py
index ba76fa2..18672eb 100644
--- a/capture/noworkflow/now/persistence/relational_database.py
+++ b/capture/noworkflow/now/persistence/relational_database.py
@@ -10,7 +10,7 @@ import threading
 
 from os.path import join, exists
 
-from sqlalchemy import create_engine, inspect
+from sqlalchemy import create_engine, event, inspect
 from sqlalchemy.ext.declarative import declarative_base
 from sqlalchemy.orm import scoped_session, sessionmaker
 
@@ -20,6 +20,29 @@ from ..utils.io import print_msg
 DB_FILENAME = "db.sqlite"
 
 
+def escape_surrogates(value):
+    """Escape the undecodable bytes of arguments, variables, and file names"""
+    if isinstance(value, str):
+        try:
+            value.encode("utf-8")
+        except UnicodeEncodeError:
+            return value.encode("utf-8", "backslashreplace").decode("utf-8")
+    return value
+
+
+def escape_parameters(_conn, _cursor, statement, parameters, _context, many):
+    """Escape texts that cannot be stored"""
+    def escape(row):
+        """Escape parameters of a single execution"""
+        if isinstance(row, dict):
+            return {key: escape_surrogates(val) for key, val in row.items()}
+        return tuple(escape_surrogates(val) for val in row)
+
+    if many:
+        return statement, [escape(row) for row in parameters]
+    return statement, escape(parameters)
+
+
 class RelationalDatabase(object):
     """Relational Database deal with SQLite connection"""
 
@@ -53,6 +76,8 @@ class RelationalDatabase(object):
         self.engine = create_engine(
             "sqlite://" + ("/" if self.db_path else "") + self.db_path,
             echo=False)
+        event.listen(self.engine, "before_cursor_execute", escape_parameters,
+                     retval=True)
         self.session_factory.configure(bind=self.engine, autoflush=False,
                                        expire_on_commit=True)
         self._session_map = {}
-- 
2.43.0


From 17ddfbcfb1f389b8542e133a1e1c9ec18ad7211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:06 +0000
Subject: [PATCH 29/54] fix: record how scripts end when their exit value or
 output cannot be used

---
 .../now/collection/prov_execution/collector.py  |  4 +++-
 .../now/collection/prov_execution/execution.py  | 17 ++++++++++++++---
 capture/noworkflow/now/utils/io.py              |  9 +++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index e6f9e2f..a87d603 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1936,7 +1936,9 @@ class Collector(object):
     def restore_conditions(self, activation):
         """Remove the conditions added since the last mark"""
         # pylint: disable=no-self-use
-        del activation.conditions[activation.condition_marks.pop():]
+        if activation.condition_marks:
+            # An interrupt may precede the mark
+            del activation.conditions[activation.condition_marks.pop():]
 
     def remove_condition(self, activation):
         """Just remove the condition dependencies"""
diff --git a/capture/noworkflow/now/collection/prov_execution/execution.py b/capture/noworkflow/now/collection/prov_execution/execution.py
index ff2a772..2825c5e 100644
--- a/capture/noworkflow/now/collection/prov_execution/execution.py
+++ b/capture/noworkflow/now/collection/prov_execution/execution.py
@@ -21,6 +21,14 @@ from .debugger import debugger_builtins
 from .collector import Collector
 
 
+def describe(value, function=repr):
+    """Describe a value of the script, which may fail to do it"""
+    try:
+        return function(value)
+    except Exception:  # pylint: disable=broad-except
+        return "<unprintable {} object>".format(type(value).__name__)
+
+
 class Execution(object):
     """Execution Class"""
 
@@ -74,11 +82,14 @@ class Execution(object):
             if ex.code is None or isinstance(ex.code, int):
                 self.exit_code = int(ex.code or 0)
             else:
-                print(ex.code, file=sys.stderr)
+                try:
+                    print(ex.code, file=sys.stderr)
+                except Exception:  # pylint: disable=broad-except
+                    pass  # Python ignores it too
                 self.exit_code = 1
             self.force_msg = self.partial = self.exit_code != 0
             self.msg = ("the execution exited via sys.exit(). Exit status: {}"
-                        "".format(ex.code))
+                        "".format(describe(ex.code, str)))
 
         except BaseException as exc:  # pylint: disable=broad-except
             # ToDo #77: exceptions should be registered as return from the
@@ -88,7 +99,7 @@ class Execution(object):
             self.force_msg = self.partial = True
             self.msg = ("{}\n"
                         "the execution finished with an uncaught exception. {}"
-                        "".format(repr(exc), traceback.format_exc()))
+                        "".format(describe(exc), traceback.format_exc()))
         finally:
             if finder in sys.meta_path:
                 sys.meta_path.remove(finder)
diff --git a/capture/noworkflow/now/utils/io.py b/capture/noworkflow/now/utils/io.py
index a42d2f6..acaad47 100644
--- a/capture/noworkflow/now/utils/io.py
+++ b/capture/noworkflow/now/utils/io.py
@@ -45,5 +45,10 @@ class redirect_output(object):
 
 def print_msg(message, force=False, file=STDOUT):
     """Print message with [now] prefix when in verbose mode"""
-    if verbose or force:
-        print("{}{}".format(LABEL, message), file=file)
+    if (verbose or force) and not getattr(file, "closed", False):
+        text = "{}{}".format(LABEL, message)
+        try:
+            print(text, file=file)
+        except UnicodeEncodeError:
+            print(text.encode("ascii", "backslashreplace").decode("ascii"),
+                  file=file)
-- 
2.43.0


From 8141bb291f30f16404ec007fe3e59cf8ad28c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:22 +0000
Subject: [PATCH 30/54] fix: record the values that parameters really hold

---
 .../noworkflow/now/collection/prov_execution/collector.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index a87d603..9623bb6 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1727,8 +1727,11 @@ class Collector(object):
             else: 
                 depa = DependencyAware()
                 depa.add(arg)
+                # The dependency may be the iterable that holds the argument
+                is_many = param.is_vararg or (kwarg and param.name == kwarg[0])
                 evaluation = self.evaluate_depa(
-                    activation, param.code_id, arg.value, time, depa
+                    activation, param.code_id,
+                    arg.value if is_many else param.value, time, depa
                 )
                 arg.mode = "argument"
             activation.context[param.name] = evaluation
-- 
2.43.0


From ac465d984910994b50b57c3ef855ea05aa7a1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:22 +0000
Subject: [PATCH 31/54] fix: do not record classes beyond the depth

---
 .../now/collection/prov_execution/collector.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 9623bb6..f8734f4 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -1564,10 +1564,13 @@ class Collector(object):
         definitions = self.class_definitions[code_component_id]
         if definitions:
             last_activation, _, _ = definitions.pop()
-        activation = self.start_activation(
-            class_name, code_component_id, code_component_id,
-            last_activation
-        )
+        if last_activation.active:
+            activation = self.start_activation(
+                class_name, code_component_id, code_component_id,
+                last_activation
+            )
+        else:
+            activation = self.dry_activation(last_activation)
         activation.closure = last_activation
         activation.class_body = True
         return activation
-- 
2.43.0


From ab81868f6888a21d50162aa55087b18a873b3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:04 +0000
Subject: [PATCH 32/54] fix: record the calls of yield from expressions

---
 .../prov_definition/transformer_expr.py       | 42 ++++++++++++++++---
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
index dbe8a6a..217b2d4 100644
--- a/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
+++ b/capture/noworkflow/now/collection/prov_definition/transformer_expr.py
@@ -705,11 +705,43 @@ class RewriteDependencies(ast.NodeTransformer):
         ), new_node)
 
     def visit_YieldFrom(self, node):
-        """Visit YieldFrom"""
-        # ToDo: collect yield from
-        id_ = self.rewriter.create_ast_component(node, Component.YIELD_FROM)
-        self.create_composition(id_, *self.composition_edge)
-        return node
+        """Visit YieldFrom
+        Transform:
+            yield from x
+        Into
+            <now>.yield_(<act>, #y, <exc>)(
+                <act>, #y,
+                yield from |x|,
+                <mode>
+            )
+        """
+        # ToDo: collect the items of yield from
+        node.name = pyposast.extract_code(self.rewriter.lcode, node)
+        component_id = self.rewriter.create_code_component(
+            node, Component.YIELD_FROM, 'r'
+        )
+        self.create_composition(component_id, *self.composition_edge)
+        new_node = copy(node)
+
+        self.composition_edge = (component_id, Component.S_VALUE)
+        new_node.value = self.rewriter.capture(
+            new_node.value, mode=Dependency.USE
+        )
+
+        return ast_copy(double_noworkflow(
+            'yield_',
+            [
+                activation(),
+                ast.Num(component_id),
+                ast.Num(self.rewriter.current_exc_handler)
+            ],
+            [
+                activation(),
+                ast.Num(component_id),
+                new_node,
+                ast.Str(self.mode)
+            ]
+        ), new_node)
 
     def visit_Compare(self, node):
         """Visit Compare.
-- 
2.43.0


From 5cc901b29d5a27116de77446ba587e1399b5d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:32 +0000
Subject: [PATCH 33/54] fix: record the content of files when the function that
 uses them ends

---
 .../noworkflow/now/collection/prov_execution/collector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index f8734f4..9c8cf3b 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -214,8 +214,12 @@ class Collector(object):
                     file_access.buffering = args[2]
                 elif "buffering" in kwargs:
                     file_access.buffering = kwargs["buffering"]
-            if activation.func is open and activation.parent:
-                # The call to open ends before the file is used
+            while activation.parent and (
+                    activation.code_block_id == -1 or
+                    activation.evaluation.checkpoint != -1):
+                # The call to open, or to a function without definition that
+                # returns the file, ends before the file is used.
+                # The call to a generator ends before its execution
                 activation = activation.parent
             activation.file_accesses.append(file_access)
             return result
-- 
2.43.0


From 835eed9e3278068fa7e2a9a8e8043901b052d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:50 +0000
Subject: [PATCH 34/54] fix: count the versions of backups without script

---
 capture/noworkflow/now/persistence/models/tag.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/tag.py b/capture/noworkflow/now/persistence/models/tag.py
index 124b163..46e8d7c 100644
--- a/capture/noworkflow/now/persistence/models/tag.py
+++ b/capture/noworkflow/now/persistence/models/tag.py
@@ -126,17 +126,18 @@ class Tag(AlchemyProxy):
         session = session or relational.session
         _query = select([cls.m.name]).where(
                 (Trial.m.id == cls.m.trial_id) &
-                (Trial.m.id == CodeBlock.m.trial_id) &
-                (Trial.m.main_id == CodeBlock.m.id) &
                 (Trial.m.id != bindparam("trial_id")) &
                 (Trial.m.experiment_id == experiment_id) &
                 (cls.m.type == "AUTO")
             )
+        # Backups of trials may not have the script
+        same_code = ((Trial.m.id == CodeBlock.m.trial_id) &
+                     (Trial.m.main_id == CodeBlock.m.id) &
+                     (CodeBlock.m.code_hash == bindparam("code_hash")))
 
         conditions = [
-            (1, ((CodeBlock.m.code_hash == bindparam("code_hash")) &
-                 (Trial.m.command == bindparam("command")))),
-            (2, ((CodeBlock.m.code_hash == bindparam("code_hash")))),
+            (1, (same_code & (Trial.m.command == bindparam("command")))),
+            (2, same_code),
             (3, True)
         ]
         info = {
-- 
2.43.0


From 4772ef84e8ecc9eb2d1ac16102abd5db4ab9ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 35/54] fix: import the modules of the script and find the
 store with --dir

---
 capture/noworkflow/now/collection/metadata.py | 5 +++--
 capture/noworkflow/now/persistence/config.py  | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/capture/noworkflow/now/collection/metadata.py b/capture/noworkflow/now/collection/metadata.py
index 58c2c71..44b2a19 100644
--- a/capture/noworkflow/now/collection/metadata.py
+++ b/capture/noworkflow/now/collection/metadata.py
@@ -159,7 +159,7 @@ class Metascript(object):
     def clear_sys(self):
         """Clear sys variables"""
         # Replace now's dir with script's dir in front of module search path.
-        sys.path[0] = self.dir
+        sys.path[0] = os.path.dirname(self.path)
         # Clear argv
         sys.argv = self.argv
 
@@ -168,7 +168,8 @@ class Metascript(object):
         if not cmd:
             cmd = " ".join(sys.argv[1:])
         self.command = cmd
-        self.dir = args.dir or os.path.dirname(args.script)
+        # The script may change the current directory
+        self.dir = os.path.abspath(args.dir or os.path.dirname(args.script))
         self.argv = args.argv
         self.should_create_last_file = args.create_last
         self.name = args.name or os.path.basename(args.argv[0])
diff --git a/capture/noworkflow/now/persistence/config.py b/capture/noworkflow/now/persistence/config.py
index de34f0e..3853d7e 100644
--- a/capture/noworkflow/now/persistence/config.py
+++ b/capture/noworkflow/now/persistence/config.py
@@ -8,7 +8,7 @@ from __future__ import (absolute_import, print_function,
 
 import sys
 
-from os.path import join, isdir
+from os.path import abspath, join, isdir
 
 from ..utils.io import print_msg
 
@@ -42,6 +42,8 @@ class PersistenceConfig(object):
 
     @path.setter
     def path(self, path):
+        # The current directory may change while the paths are in use
+        path = abspath(path)
         self.base_path = path
         self.provenance_path = join(path, PROVENANCE_DIRNAME)
 
-- 
2.43.0


From 6c98d9ae1d416e6cb05770c92e05aadc3edf0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 36/54] fix: do not collect modules of folders whose name
 starts with the project

---
 .../noworkflow/now/collection/prov_deployment/py3module.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_deployment/py3module.py b/capture/noworkflow/now/collection/prov_deployment/py3module.py
index 2024d2c..b5fbbf6 100644
--- a/capture/noworkflow/now/collection/prov_deployment/py3module.py
+++ b/capture/noworkflow/now/collection/prov_deployment/py3module.py
@@ -5,6 +5,7 @@
 """Python 3 Import Hook"""
 
 import inspect
+import os
 from functools import wraps
 from importlib.machinery import PathFinder, SourceFileLoader
 from importlib.abc import Loader
@@ -144,7 +145,8 @@ def create_source_loader(metascript, loader):
             with content.use_safe_open():
                 source_path = loader.get_filename(module.__name__)
                 required = 2
-                required -= int(source_path.startswith(metascript.dir))
+                required -= int(source_path.startswith(
+                    os.path.join(metascript.dir, "")))
                 create_module = not metascript.bypass_modules
 
                 if metascript.context >= required:
-- 
2.43.0


From 0f03342164d62045b4643cc09176c1c12df40001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 37/54] fix: record a path that locates the file after a change
 of folder

---
 .../now/collection/prov_execution/collector.py    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_execution/collector.py b/capture/noworkflow/now/collection/prov_execution/collector.py
index 9c8cf3b..305283f 100644
--- a/capture/noworkflow/now/collection/prov_execution/collector.py
+++ b/capture/noworkflow/now/collection/prov_execution/collector.py
@@ -190,7 +190,7 @@ class Collector(object):
                 result = old_open(*args, **kwargs)
             # Create a file access object with default values
             file_access = self.file_accesses.add_object(
-                self.trial_id, name, checkpoint
+                self.trial_id, self.access_name(name, path), checkpoint
             )
             file_access.path = path
             file_access.content_hash_before = hash_before
@@ -226,6 +226,19 @@ class Collector(object):
 
         return open
 
+    def access_name(self, name, path):
+        """Return a name that locates the file from the folder of the script"""
+        folder = self.metascript.path
+        if not os.path.isdir(folder):
+            folder = os.path.dirname(folder)
+        folder = os.path.realpath(folder)
+        if os.path.isabs(name) or os.path.realpath(os.curdir) == folder:
+            return name
+        inside = os.path.relpath(path, folder)
+        if inside.startswith(os.pardir + os.sep):
+            return path
+        return inside
+
     def file_content(self, path):
         """Store content of regular file. Return its hash"""
         # pylint: disable=no-self-use
-- 
2.43.0


From 47242f2a1b2a7ce3b938026e086d8db05f0adfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 38/54] fix: store scripts and modules with an invalid encoding
 as binary

---
 capture/noworkflow/now/collection/prov_definition/definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/collection/prov_definition/definition.py b/capture/noworkflow/now/collection/prov_definition/definition.py
index 90da7ef..3b2846c 100644
--- a/capture/noworkflow/now/collection/prov_definition/definition.py
+++ b/capture/noworkflow/now/collection/prov_definition/definition.py
@@ -57,7 +57,7 @@ class Definition(object):
                         code = pyposast.native_decode_source(code)
                         # Python has the same lines for any line ending
                         code = code.replace("\r\n", "\n").replace("\r", "\n")
-            except UnicodeError:
+            except (UnicodeError, SyntaxError):
                 # Failed to open file, use existing code
                 binary = True
                 print_msg("Failed to decode file {}. Using binary."
-- 
2.43.0


From ea2c8ad26455f5e3b45a169b9d99a5a453ecf03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 39/54] fix: restore and back up the right files

Files were written relative to the current folder instead of the project,
the script under the name of the trial, files named differently (./a and a)
twice, and files of folders whose name starts with the project. Backups
executed the local modules, lost them and files that the head did not use,
and a backup without script restored a module as script. Restoring a single
file matched names that end alike and ignored tags.
---
 capture/noworkflow/now/cmd/cmd_restore.py     | 137 +++++++++++-------
 .../now/persistence/models/trial.py           |  50 +++++--
 2 files changed, 125 insertions(+), 62 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_restore.py b/capture/noworkflow/now/cmd/cmd_restore.py
index dbf993c..5c12148 100644
--- a/capture/noworkflow/now/cmd/cmd_restore.py
+++ b/capture/noworkflow/now/cmd/cmd_restore.py
@@ -7,9 +7,11 @@ from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
 import argparse
+import ast
 import os
 import sys
 import time
+import types
 
 from datetime import datetime
 from future.utils import viewitems
@@ -19,7 +21,6 @@ from ..persistence.models import Trial, Module, FileAccess, Tag
 from ..persistence.models import CodeComponent, CodeBlock, Argument
 from ..persistence import persistence_config, content
 from ..utils.io import print_msg
-from ..utils.cross_version import PY34, PY35, PY2
 
 from .command import Command
 
@@ -71,37 +72,23 @@ class Restore(Command):
         metascript.arguments_store.add(tid, "restore", repr(old_id))
 
 
+        main_id = None
         for path, info in viewitems(files):
+            if info["type"] != "access" and info["code_hash"] is None:
+                # The file does not exist anymore
+                continue
             if info["type"] == "script":
-                metascript.path = path
-                metascript.definition.create_code_block(
-                    None, path, "script", False, True
-                )
+                main_id = metascript.definition.create_code_block(
+                    None, self.local_path(path), "script", False, True
+                )[1]
             elif info["type"] == "module":
-                path = os.path.abspath(path)
+                path = self.local_path(path)
                 cid = metascript.definition.create_code_block(
                     None, path, "module", False, True
                 )[1]
-                version = None
-                try:
-                    if PY35:
-                        import importlib.util
-                        spec = importlib.util.spec_from_file_location(
-                            info["name"], path
-                        )
-                        module = importlib.util.module_from_spec(spec)
-                        spec.loader.exec_module(module)
-                    elif PY34:
-                        from importlib.machinery import SourceFileLoader
-                        module = SourceFileLoader(
-                            info["name"], path
-                        ).load_module()
-                    elif PY2:
-                        import imp
-                        module = imp.load_source(info["name"], path)
-                    version = metascript.deployment.get_version(module)
-                except Exception:
-                    pass
+                version = metascript.deployment.get_version(
+                    read_module(info["name"], path)
+                )
                 metascript.deployment.add_module(
                     info["name"], version, path, cid, False, None
                 )
@@ -121,23 +108,24 @@ class Restore(Command):
         Argument.store(arguments, partial)
         metascript.definition.store_provenance()
 
-        Trial.set_main(tid, metascript.main_id)
+        Trial.set_main(tid, main_id)
         content.commit_content(metascript.message or "Backup Trial {}".format(metascript.trial_id))
         Tag.create_automatic_tag(tid, None, None, None, metascript.trial.experiment_id, True) # Adds a X.0.0 tag to the backup trial
         # The trial is a backup only after everything it needs is stored
-        Trial.fast_update(tid, metascript.main_id, datetime.now(), "backup")
+        Trial.fast_update(tid, main_id, datetime.now(), "backup")
 
         print_msg("Backup Trial {} created".format(metascript.trial_id),
                   self.print_msg)
 
     def restore(self, path, code_hash, trial_id, mode="normal"):
         """Restore file with <code_hash> from <trial_id>"""
-        new_code_hash = file_hash(path)
+        new_code_hash = self.file_hash(path)
+        name, path = path, self.local_path(path)
         if code_hash == new_code_hash:
             return False
         if code_hash is None and mode != "script":
             os.remove(path)
-            print_msg("File {} removed".format(path), self.print_msg)
+            print_msg("File {} removed".format(name), self.print_msg)
             return True
         elif code_hash:
             load_file = content.get(code_hash)
@@ -147,7 +135,7 @@ class Restore(Command):
                     os.makedirs(parent, exist_ok=True)
                 with open(path, "wb") as fil:
                     fil.write(load_file)
-                msg = "File {}".format(path)
+                msg = "File {}".format(name)
                 if trial_id:
                     msg += " from trial {}".format(trial_id)
                 msg += " restored"
@@ -155,7 +143,7 @@ class Restore(Command):
                 print_msg(msg, self.print_msg)
                 return True
             except NotADirectoryError as exc:
-                msg = "Unable to restore file {}".format(path)
+                msg = "Unable to restore file {}".format(name)
                 if trial_id:
                     msg += " from trial {}".format(trial_id)
                 msg += " due to {}. Skipping it".format(str(exc))
@@ -165,7 +153,19 @@ class Restore(Command):
 
     def restore_script(self, trial):
         """Restore the main script from <trial>"""
-        self.restore(trial.script, trial.code_hash, trial.id)
+        self.restore(trial.script_path, trial.code_hash, trial.id)
+
+    def local_path(self, path):
+        """Return the path of a file of the trial"""
+        return os.path.join(self.root, path)
+
+    def file_hash(self, path):
+        """Return hash of file in path or None"""
+        path = self.local_path(path)
+        if not os.path.isfile(path):
+            return None
+        with open(path, "rb") as fil:
+            return content.put(fil.read(), path)
 
     def find_differences(self, files):
         """Compare files with existing files
@@ -177,7 +177,7 @@ class Restore(Command):
         new_files = {}
 
         for path, info in viewitems(files):
-            new_code_hash = file_hash(path)
+            new_code_hash = self.file_hash(path)
             if info["code_hash"] != new_code_hash:
                 info["code_hash"] = new_code_hash
                 match = False
@@ -190,11 +190,12 @@ class Restore(Command):
         persistence_config.connect_existing(args.dir or os.getcwd())
         self.trial = trial = metascript.trial = Trial(trial_ref=args.trial)
         metascript.trial_id = trial.id
+        self.root = metascript.dir = project_root(trial)
         metascript.name = trial.script
-        metascript.path = trial.path
+        metascript.path = self.local_path(trial.script_path)
 
-        if (not trial.finished and not trial.main and not args.file and
-                not args.skip_script):
+        if (not trial.finished and trial.status != "backup" and
+                not trial.main and not args.file and not args.skip_script):
             raise RuntimeError(
                 "Trial {} was interrupted before its script was stored".format(
                     trial.id))
@@ -203,6 +204,14 @@ class Restore(Command):
             head = Trial.load_parent(trial.script, remove=False)
 
             last_files = head.versioned_files(**skip_dict(args))
+            for path, info in viewitems(restore_files):
+                # Files that the head did not use are replaced too
+                if (path not in last_files and
+                        os.path.isfile(self.local_path(path))):
+                    if info["type"] == "script":
+                        info = {"type": "access", "checkpoint": 0.0,
+                                "code_hash": info["code_hash"]}
+                    last_files[path] = dict(info)
             match, new_files = self.find_differences(last_files)
             if not match:
                 self.create_backup(metascript, new_files, args)
@@ -232,11 +241,17 @@ class Restore(Command):
 
             parsed = parser.parse_args(args.file)
 
-            restore = self.find_file(args.trial, parsed.path, parsed.id)
+            restore = self.find_file(
+                args.trial and trial.id, parsed.path, parsed.id)
             if not restore:
                 print_msg("File version not found!", self.print_msg)
             else:
-                path = parsed.target or parsed.path
+                path = parsed.path
+                if parsed.target:
+                    path = os.path.abspath(parsed.target)
+                # Store the current content before replacing it
+                self.file_hash(path)
+                content.close()
                 if not self.restore(path, restore[1], None):
                     print_msg("File has not changed!", self.print_msg)
             content.close()
@@ -268,11 +283,10 @@ class Restore(Command):
             if code_hash:
                 return path, code_hash
 
-        if tid and fid.isnumeric():
+        if fid.isnumeric():
             # Count accesses
             fid = int(fid)
-            trial = Trial(tid)
-            for i, result in enumerate(trial.iterate_accesses(path)):
+            for i, result in enumerate(self.trial.iterate_accesses(path)):
                 if fid == i + 1:
                     return path, result[1]["code_hash"]
 
@@ -293,14 +307,37 @@ def time_str(arg):
     return None
 
 
-def file_hash(path):
-    """Return hash of file in path or None"""
-    abs_path = os.path.join(persistence_config.base_path, path)
-    if not os.path.isfile(abs_path):
-        return None
-    else:
-        with open(abs_path, "rb") as fil:
-            return content.put(fil.read(), abs_path)
+def project_root(trial):
+    """Return folder with the files of trial
+
+    It is the folder of the script, unless the project was moved"""
+    base = os.path.realpath(persistence_config.base_path)
+    path = os.path.realpath(trial.path or base)
+    if os.path.isdir(path) and (path + os.sep).startswith(
+            os.path.join(base, "")):
+        return path
+    return base
+
+
+def read_module(name, path):
+    """Create module with the constants of a file, without executing it"""
+    module = types.ModuleType(str(name))
+    try:
+        with open(path, "rb") as fil:
+            body = ast.parse(fil.read()).body
+    except (IOError, SyntaxError, ValueError):
+        return module
+    for stmt in body:
+        if not isinstance(stmt, ast.Assign):
+            continue
+        try:
+            value = ast.literal_eval(stmt.value)
+        except ValueError:
+            continue
+        for target in stmt.targets:
+            if isinstance(target, ast.Name):
+                setattr(module, target.id, value)
+    return module
 
 
 def skip_dict(args):
diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index 2befa6c..b49c4aa 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -379,16 +379,36 @@ class Trial(AlchemyProxy):
         >>> list(trial.local_modules)  # doctest: +ELLIPSIS
         [module(..., 'inte', '1.0.1')., module(..., 'inte2', '1.0.2').]
         """
+        # Backups inherit modules, but have their own local modules
+        modules = self._modules if self.status == "backup" else self.modules
         # pylint: disable=not-an-iterable
-        for module in self.modules:
+        for module in modules:
             path = module.path
             if path is None:
                 continue
             elif not os.path.isabs(path):
                 yield module
-            elif path.startswith(self.path):
+            elif self.relative_path(path) is not None:
                 yield module
 
+    def relative_path(self, path):
+        """Return path relative to the folder of the trial
+        Return None if it is outside the folder"""
+        if not os.path.isabs(path):
+            return os.path.normpath(path)
+        path = os.path.relpath(path, self.path)
+        if path == os.pardir or path.startswith(os.pardir + os.sep):
+            return None
+        return path
+
+    @property
+    def script_path(self):
+        """Path of the script. It may have a different name"""
+        if self.main and self.main.this_component.type == "script":
+            # The path of the trial is the folder of the script
+            return os.path.basename(self.main.this_component.name)
+        return self.script
+
     @property
     def script_content(self):
         """Return the "main" script content of the trial
@@ -629,16 +649,16 @@ class Trial(AlchemyProxy):
          ('main.py', [('code_hash', '...'), ('type', 'script')])]
         """
         files = {}
+        script_path = self.relative_path(self.script_path)
         def add(path, info):
             """Add file to dict"""
-            if os.path.isabs(path):
-                if not path.startswith(self.path):
-                    return
-                path = os.path.relpath(path, self.path)
-            files[path] = info
+            path = self.relative_path(path)
+            if path is not None and path != script_path:
+                files[path] = info
 
         if script:
-            add(self.script, {"code_hash": self.code_hash, "type": "script"})
+            files[script_path] = {"code_hash": self.code_hash,
+                                  "type": "script"}
         if local:
             # pylint: disable=not-an-iterable
             for module in self.local_modules:
@@ -693,18 +713,24 @@ class Trial(AlchemyProxy):
         [('file2.txt', [('checkpoint', ...), ('code_hash', None), ('type', 'access')]),
          ('file2.txt', [('checkpoint', ...), ('code_hash', 'def'), ('type', 'access')])]
         """
-        if not path or self.script.endswith(path):
-            yield self.script, {"code_hash": self.code_hash, "type": "script"}
+        def match(name):
+            """Check if name ends with path"""
+            return (not path or name == path
+                    or name.endswith(os.sep + path)
+                    or self.relative_path(name) == os.path.normpath(path))
+
+        if match(self.script_path):
+            yield self.script_path, {"code_hash": self.code_hash, "type": "script"}
         # pylint: disable=not-an-iterable
         for module in self.local_modules:
-            if not path or module.path.endswith(path):
+            if match(module.path):
                 yield module.path, {
                     "code_hash": module.code_hash,
                     "type": "module",
                     "name": module.name
                 }
         for faccess in list(self.file_accesses):
-            if not path or faccess.name.endswith(path):
+            if match(faccess.name):
                 yield faccess.name, {
                     "code_hash": faccess.content_hash_before,
                     "type": "access",
-- 
2.43.0


From 571816320385f33b52e5a7afb7110f6d44f37292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:13 +0000
Subject: [PATCH 40/54] fix: refuse ambiguous references and those that are
 only similar to a number

---
 .../now/persistence/models/trial.py           | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index b49c4aa..aaf30ba 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -8,6 +8,7 @@ from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
 import os
+import re
 
 import uuid
 import getpass
@@ -1016,11 +1017,21 @@ class Trial(AlchemyProxy):
         """
         from .tag import Tag  # avoid circular import
         session = session or relational.session
-        return (
-            session.query(cls.m)
-            .outerjoin(Tag.m)
-            .filter((cls.m.id == trial_ref) | (Tag.m.name == trial_ref) | (cls.m.sequence_key == trial_ref))
-        ).first()
+        trial_ref = str(trial_ref)
+        condition = (cls.m.id == trial_ref) | (Tag.m.name == trial_ref)
+        if re.match("^[1-9][0-9]{0,17}$", trial_ref):
+            # SQLite also considers 1.0 and 01 equal to 1
+            condition |= cls.m.sequence_key == int(trial_ref)
+        trials = {
+            trial.id: trial for trial in
+            session.query(cls.m).outerjoin(Tag.m).filter(condition)
+        }
+        if trial_ref in trials:
+            return trials[trial_ref]
+        if len(trials) > 1:
+            raise RuntimeError("Trial {} is ambiguous. It can be: {}".format(
+                trial_ref, ", ".join(sorted(trials))))
+        return next(iter(trials.values()), None)
 
     @classmethod  # query
     def load_parent(cls, script, remove=True, check=False, session=None):
-- 
2.43.0


From 793ca3acd5017ed0869a49a2b928828bde8cd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:53 +0000
Subject: [PATCH 41/54] fix: keep contents that are in no commit when
 collecting garbage

---
 capture/noworkflow/now/persistence/content/git_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index a39fa97..8c6b8b8 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -94,7 +94,8 @@ def commit_tree(tree_hash, commit_message, git_path, author=None, parent=None):
 
 
 def garbage_collection(git_path, aggressive=False):
-    cmd = ["git", "gc", "--quiet"]
+    # The store may hold contents that are in no commit (yet)
+    cmd = ["git", "gc", "--quiet", "--no-prune"]
     if aggressive:
         cmd.append("--aggressive")
     execute(cmd, cwd=git_path)
-- 
2.43.0


From 8ed126049a21ca60812debf5e59ee232c841e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:59 +0000
Subject: [PATCH 42/54] fix: store trees and commits despite a stale lock of
 dulwich

---
 .../now/persistence/content/dulwich_engine.py | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index 50ae515..ebc4839 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -15,6 +15,17 @@ from .gitbase import GitContentDatabaseEngine
 from .parallel import create_distributed, create_pool, create_threading, NullLock
 from . import safeopen
 
+
+def add_object(object_store, obj):
+    """Store a blob, a tree or a commit"""
+    try:
+        object_store.add_object(obj)
+    except file.FileLocked:
+        # Another process is storing the same object, or died while it was:
+        # store it in a pack, which needs no lock
+        object_store.add_objects([(obj, None)])
+
+
 class DulwichEngine(GitContentDatabaseEngine):
 
     def __init__(self, config):
@@ -41,12 +52,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             object_store = Repo(content_path).object_store
             blob = Blob.from_string(content)
             with lock:
-                try:
-                    object_store.add_object(blob)
-                except file.FileLocked:
-                    # Another process is storing the same content, or died
-                    # while it was: store it in a pack, which needs no lock
-                    object_store.add_objects([(blob, None)])
+                add_object(object_store, blob)
             result = object_hashes[filename] = blob.id.decode("ascii")
             return result
 
@@ -84,7 +90,7 @@ class DulwichEngine(GitContentDatabaseEngine):
         with self.use_safe_open():
             object_store = self.repo.object_store
             empty_tree = Tree()
-            object_store.add_object(empty_tree)
+            add_object(object_store, empty_tree)
             self.create_commit_object(self._initial_message, empty_tree.id)
 
     def create_commit_object(self, message, tree):
@@ -107,7 +113,7 @@ class DulwichEngine(GitContentDatabaseEngine):
             commit.encoding = self._commit_encoding.encode()
             commit.message = message.encode()
 
-            self.repo.object_store.add_object(commit)
+            add_object(self.repo.object_store, commit)
             self.repo.refs[
                 self._commit_ref.encode("utf-8")
             ] = commit.id
@@ -129,7 +135,7 @@ class DulwichEngine(GitContentDatabaseEngine):
     def write_tree(self, tree):
         """Write tree to git directory"""
         with self.restore_open(): 
-            self.repo.object_store.add_object(tree)
+            add_object(self.repo.object_store, tree)
             return tree.id
 
 
-- 
2.43.0


From fee0e2d04cba484409941541d962689a28f0079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:49 +0000
Subject: [PATCH 43/54] fix: list the contents, not the files, of content
 databases

---
 capture/noworkflow/now/persistence/content/base.py   |  4 ++++
 .../now/persistence/content/dulwich_engine.py        |  7 +++++++
 .../noworkflow/now/persistence/content/git_system.py |  6 ++++++
 .../now/persistence/content/plain_engine.py          |  9 +++++++++
 .../now/persistence/content/puregit_engine.py        |  5 +++++
 .../now/persistence/content/pygit_engine.py          |  6 ++++++
 .../noworkflow/now/persistence/content_database.py   | 12 +++---------
 7 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/capture/noworkflow/now/persistence/content/base.py b/capture/noworkflow/now/persistence/content/base.py
index 5a2d1c8..5da2138 100644
--- a/capture/noworkflow/now/persistence/content/base.py
+++ b/capture/noworkflow/now/persistence/content/base.py
@@ -56,6 +56,10 @@ class ContentDatabaseEngine(object):
         """Find hash in database"""
         raise NotImplementedError("Implement in subclass")
 
+    def list_all(self):
+        """List the hashes of all contents of database"""
+        raise NotImplementedError("Implement in subclass")
+
     def gc(self, aggressive=False):
         """Collect garbage from database"""
         raise NotImplementedError("Implement in subclass")
diff --git a/capture/noworkflow/now/persistence/content/dulwich_engine.py b/capture/noworkflow/now/persistence/content/dulwich_engine.py
index ebc4839..99103f1 100644
--- a/capture/noworkflow/now/persistence/content/dulwich_engine.py
+++ b/capture/noworkflow/now/persistence/content/dulwich_engine.py
@@ -85,6 +85,13 @@ class DulwichEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def list_all(self):
+        """List the hashes of all contents of database"""
+        with self.use_safe_open():
+            object_store = self.repo.object_store
+            return sorted({sha.decode("ascii") for sha in object_store
+                           if object_store[sha].type_name == Blob.type_name})
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         with self.use_safe_open():
diff --git a/capture/noworkflow/now/persistence/content/git_system.py b/capture/noworkflow/now/persistence/content/git_system.py
index 8c6b8b8..f9603ef 100644
--- a/capture/noworkflow/now/persistence/content/git_system.py
+++ b/capture/noworkflow/now/persistence/content/git_system.py
@@ -114,6 +114,12 @@ def all_objects(git_path):
     return []
 
 
+def all_blobs(git_path):
+    cmd = ["git", "cat-file", "--batch-check=%(objecttype) %(objectname)", "--batch-all-objects"]
+    out = execute(cmd, cwd=git_path)
+    return [x[5:].strip() for x in out.splitlines() if x.startswith(b"blob ")]
+
+
 def show_ref(ref, git_path):
     cmd = ["git", "show-ref", ref]
     result = execute(cmd, cwd=git_path, default=b"").decode().strip()
diff --git a/capture/noworkflow/now/persistence/content/plain_engine.py b/capture/noworkflow/now/persistence/content/plain_engine.py
index f0fb228..84edfc8 100644
--- a/capture/noworkflow/now/persistence/content/plain_engine.py
+++ b/capture/noworkflow/now/persistence/content/plain_engine.py
@@ -75,6 +75,15 @@ class PlainEngine(ContentDatabaseEngine):
                     return content_dirname + name
         return None
 
+    def list_all(self):
+        """List the hashes of all contents of database"""
+        return [
+            dirname + name for dirname in os.listdir(self.content_path)
+            if isdir(join(self.content_path, dirname))
+            for name in os.listdir(join(self.content_path, dirname))
+            if len(dirname + name) == 40
+        ]
+
     def gc(self, aggressive=False):
         """Do nothing for plain storage"""
         pass
diff --git a/capture/noworkflow/now/persistence/content/puregit_engine.py b/capture/noworkflow/now/persistence/content/puregit_engine.py
index 8ff253c..37e557a 100644
--- a/capture/noworkflow/now/persistence/content/puregit_engine.py
+++ b/capture/noworkflow/now/persistence/content/puregit_engine.py
@@ -52,6 +52,11 @@ class PureGitEngine(GitContentDatabaseEngine):
                 return obj.decode("utf-8")
         return None
 
+    def list_all(self):
+        """List the hashes of all contents of database"""
+        return [blob.decode("ascii")
+                for blob in git_system.all_blobs(self.content_path)]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         tree = git_system.write_tree(self.content_path)
diff --git a/capture/noworkflow/now/persistence/content/pygit_engine.py b/capture/noworkflow/now/persistence/content/pygit_engine.py
index 5dd2c65..14c2dbd 100644
--- a/capture/noworkflow/now/persistence/content/pygit_engine.py
+++ b/capture/noworkflow/now/persistence/content/pygit_engine.py
@@ -12,6 +12,7 @@ from collections import defaultdict
 from pygit2 import init_repository
 from pygit2 import Repository
 from pygit2 import GIT_FILEMODE_BLOB, GIT_FILEMODE_TREE
+from pygit2 import Blob
 from pygit2 import Signature
 
 from .gitbase import GitContentDatabaseEngine
@@ -65,6 +66,11 @@ class PyGitEngine(GitContentDatabaseEngine):
         except KeyError:
             return None
 
+    def list_all(self):
+        """List the hashes of all contents of database"""
+        return [str(oid) for oid in self.repo
+                if isinstance(self.repo[oid], Blob)]
+
     def create_initial_commit(self):
         """Create the initial commit of the git repository"""
         empty_tree = self.repo.TreeBuilder().write()
diff --git a/capture/noworkflow/now/persistence/content_database.py b/capture/noworkflow/now/persistence/content_database.py
index 4a61b37..3622b1a 100644
--- a/capture/noworkflow/now/persistence/content_database.py
+++ b/capture/noworkflow/now/persistence/content_database.py
@@ -7,7 +7,6 @@ from __future__ import (absolute_import, print_function,
                         division, unicode_literals)
 
 import importlib
-import os
 from os.path import join, isdir
 from .content.plain_engine import STANDARD_DATABASE_DIR
 from ..utils.io import print_msg
@@ -82,12 +81,7 @@ class ContentDatabase(object):
         if self.content_database_engine is None:
             self.define_engine(config)
         self.content_database_engine.connect(config)
-    
+
     def listAll(self):
-        files = []
-        for r,d, f in os.walk(self.__getattr__("content_path")):
-            for file in f:
-                fileName=os.path.basename(r)
-                fileName+=file
-                files.append(fileName)
-        return files
+        """List the hashes of all contents"""
+        return self.content_database_engine.list_all()
-- 
2.43.0


From 54c718aa8a02fb01d9d74483cf39dcb06a86c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:49 +0000
Subject: [PATCH 44/54] fix: share the columns of components and the containers
 of evaluations

---
 .../now/persistence/lightweight/bundle.py          |  3 ++-
 .../now/persistence/lightweight/code_component.py  |  2 +-
 .../now/persistence/lightweight/evaluation.py      | 14 ++++++++++----
 capture/noworkflow/now/utils/collab.py             |  3 ++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/capture/noworkflow/now/persistence/lightweight/bundle.py b/capture/noworkflow/now/persistence/lightweight/bundle.py
index 52f7ac7..8779797 100644
--- a/capture/noworkflow/now/persistence/lightweight/bundle.py
+++ b/capture/noworkflow/now/persistence/lightweight/bundle.py
@@ -68,7 +68,8 @@ class BundleLW(BaseLW):
         self.dependencies=[DependencyLW(x["id"],x["trial_id"],x["dependent_activation_id"],x["dependent_id"],x["dependency_activation_id"],\
             x["dependency_id"],x["type"],x["reference"],x["collection_activation_id"],x["collection_id"],x["key"]) for x in data["dependencies"]]
         self.environmentAttrs=[EnvironmentAttrLW(x["id"],x["trial_id"],x["name"],x["value"]) for x in data["environmentAttrs"]]
-        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"]) for x in data["evaluations"]]
+        self.evaluations= [EvaluationLW(x["id"],x["trial_id"],x["code_component_id"],x["activation_id"],x["checkpoint"],x["repr"],\
+            x.get("member_container_activation_id"),x.get("member_container_id")) for x in data["evaluations"]]
         self.fileAccesses=[FileAccessLW(x["id"],x["trial_id"],x["name"],x["checkpoint"],x["mode"],x["buffering"],\
             x["content_hash_before"],x["content_hash_after"],x["activation_id"]) for x in data["fileAccesses"]]
         self.members=[MemberLW(x["id"],x["trial_id"],x["collection_activation_id"],x["collection_id"],x["member_activation_id"],\
diff --git a/capture/noworkflow/now/persistence/lightweight/code_component.py b/capture/noworkflow/now/persistence/lightweight/code_component.py
index 006709a..bf68380 100644
--- a/capture/noworkflow/now/persistence/lightweight/code_component.py
+++ b/capture/noworkflow/now/persistence/lightweight/code_component.py
@@ -57,6 +57,6 @@ class CodeComponentLW(BaseLW):
             'first_char_line': self.first_char_line,
             'first_char_column': self.first_char_column,
             'last_char_line': self.last_char_line,
-            'last_char_column': self.last_char_line,
+            'last_char_column': self.last_char_column,
             'container_id': self.container_id
         }
diff --git a/capture/noworkflow/now/persistence/lightweight/evaluation.py b/capture/noworkflow/now/persistence/lightweight/evaluation.py
index 6132459..cbc39a4 100644
--- a/capture/noworkflow/now/persistence/lightweight/evaluation.py
+++ b/capture/noworkflow/now/persistence/lightweight/evaluation.py
@@ -20,7 +20,8 @@ class EvaluationLW(BaseLW):
     nullable = {"checkpoint"}
     model = Evaluation
 
-    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_):
+    def __init__(self, id_, trial_id, code_id, activation_id, checkpoint, repr_,
+                 member_container_activation_id=None, member_container_id=None):
         self.trial_id = trial_id
         self.id = id_                                                            # pylint: disable=invalid-name
         self.code_component_id = code_id
@@ -30,8 +31,11 @@ class EvaluationLW(BaseLW):
         # Value of a generator or coroutine that may still return another
         self.pending = False
         self._same = None
-        self.member_container_activation_id = self.activation_id
-        self.member_container_id = id_
+        self.member_container_activation_id = (
+            self.activation_id if member_container_activation_id is None
+            else member_container_activation_id)
+        self.member_container_id = (
+            id_ if member_container_id is None else member_container_id)
         self.members = {}
 
     def same(self):
@@ -71,5 +75,7 @@ class EvaluationLW(BaseLW):
             'code_component_id': self.code_component_id,
             'activation_id': self.activation_id,
             'checkpoint': self.checkpoint,
-            'repr': self.repr
+            'repr': self.repr,
+            'member_container_activation_id': self.member_container_activation_id,
+            'member_container_id': self.member_container_id
         }
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 3d41167..d85b48a 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -110,7 +110,8 @@ def export_bundle(trialIds,usersIds=[]):
         [EnvironmentAttrLW(x.id,x.trial_id,x.name,x.value) for x in envToImport]
     )
     bundle.evaluations.extend(
-        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr) for x in evaluationToImport]
+        [EvaluationLW(x.id,x.trial_id,x.code_component_id,x.activation_id,x.checkpoint,x.repr,\
+            x.member_container_activation_id,x.member_container_id) for x in evaluationToImport]
     )
     bundle.fileAccesses.extend(
         [FileAccessLW(x.id,x.trial_id,x.name,x.checkpoint,x.mode,x.buffering,\
-- 
2.43.0


From 56c54a2b2cc61d3c0fed613f941b0a0589c98da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:49 +0000
Subject: [PATCH 45/54] fix: share the users of trials, also those with the
 same login

---
 capture/noworkflow/now/persistence/models/user.py | 2 +-
 capture/noworkflow/now/utils/collab.py            | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/persistence/models/user.py b/capture/noworkflow/now/persistence/models/user.py
index 77a5460..06fd03e 100644
--- a/capture/noworkflow/now/persistence/models/user.py
+++ b/capture/noworkflow/now/persistence/models/user.py
@@ -30,7 +30,7 @@ class User(AlchemyProxy):
     id = Column( 
         String, unique=True, primary_key=True
     )
-    userLogin = Column(String, unique=True)
+    userLogin = Column(String)  # the same person uses several machines
     
 
     
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index d85b48a..44ec612 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -77,6 +77,7 @@ def export_bundle(trialIds,usersIds=[]):
     fileAccessToImport=FileAccess.load_by_trials(trialIds)
     memberToImport=Member.load_by_trials(trialIds)
     moduleToImport=Module.load_by_trials(trialIds)
+    usersIds=set(usersIds) | set(t.user_id for t in trialsToImport)
     usersToImport=[u for u in User.all() if u.id in usersIds ]
     
 
-- 
2.43.0


From 48402e430c46f9d6f6c26b37b5b6f8d64f0c4e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:35 +0000
Subject: [PATCH 46/54] fix: import trials all at once, and each of them once

---
 .../noworkflow/now/persistence/models/tag.py  |  14 ++-
 capture/noworkflow/now/utils/collab.py        | 110 ++++++++++--------
 2 files changed, 73 insertions(+), 51 deletions(-)

diff --git a/capture/noworkflow/now/persistence/models/tag.py b/capture/noworkflow/now/persistence/models/tag.py
index 46e8d7c..86978b8 100644
--- a/capture/noworkflow/now/persistence/models/tag.py
+++ b/capture/noworkflow/now/persistence/models/tag.py
@@ -206,6 +206,15 @@ class Tag(AlchemyProxy):
         # Other trials must not get the same tag between query and insertion
         session.commit()
         session.execute("BEGIN IMMEDIATE")
+        new_tag = cls.next_automatic_tag(
+            trial_id, code_hash, command, session, experiment_id, is_backup_trial)
+        cls.create(trial_id, "AUTO", new_tag, datetime.now(), session=session)
+        return new_tag
+
+    @classmethod  # query
+    def next_automatic_tag(cls, trial_id, code_hash, command, session, experiment_id=None, is_backup_trial=False):
+        """Return the name of the next automatic tag (see create_automatic_tag)"""
+        # pylint: disable=too-many-arguments
         tag_type, tag = cls.fast_load_auto_tag(
             trial_id, code_hash, command, session=session,experiment_id= experiment_id)
         new_tag = ""
@@ -219,10 +228,7 @@ class Tag(AlchemyProxy):
             tag[1] = 1
             tag[2] = 1
             if is_backup_trial: tag[1] = tag[2] = 0
-        new_tag = ".".join(cvmap(str, tag))
-
-        cls.create(trial_id, "AUTO", new_tag, datetime.now(), session=session)
-        return new_tag
+        return ".".join(cvmap(str, tag))
 
     @classmethod  # query
     def create(cls, trial_id, type_, name, timestamp, session=None):
diff --git a/capture/noworkflow/now/utils/collab.py b/capture/noworkflow/now/utils/collab.py
index 44ec612..8ad2745 100644
--- a/capture/noworkflow/now/utils/collab.py
+++ b/capture/noworkflow/now/utils/collab.py
@@ -3,66 +3,82 @@
 # This file is part of noWorkflow.
 # Please, consult the license terms in the LICENSE file.
 
+from datetime import datetime
+
 from ..persistence.lightweight import ActivationLW,ArgumentLW,CodeBlockLW,CodeComponentLW,CompositionLW,DependencyLW,EnvironmentAttrLW
 from ..persistence.lightweight import EvaluationLW,FileAccessLW,MemberLW,ModuleLW,TrialLW,BundleLW,UserLW
 
 from ..persistence.models import Trial,Activation,Argument,CodeBlock,CodeComponent,Composition,Dependency,EnvironmentAttr,Evaluation
 from ..persistence.models import FileAccess,Member,Module,Tag, User
+from ..persistence import relational
 from ..persistence.lightweight import ObjectStore
 def store_trial_from_experiment(trial,experiment,trial_store):
     trial.experiment_id=experiment
     trial_store.add_from_object(trial)
 
 def import_bundle(bundle, experiment=None):
-    trials_store=ObjectStore(TrialLW)
-    codeBlock_store=ObjectStore(CodeBlockLW)
-    arguments_store=ObjectStore(ArgumentLW)
-    codeComponent_store=ObjectStore(CodeComponentLW)
-    activation_store=ObjectStore(ActivationLW)
-    composition_store=ObjectStore(CompositionLW)
-    dependency_store=ObjectStore(DependencyLW)
-    env_store=ObjectStore(EnvironmentAttrLW)
-    evaluation_store=ObjectStore(EvaluationLW)
-    fileAccess_store=ObjectStore(FileAccessLW)
-    member_store=ObjectStore(MemberLW)
-    module_store=ObjectStore(ModuleLW)
-    user_store=ObjectStore(UserLW)
+    """Import the trials of bundle, all at once
 
-    [store_trial_from_experiment(x,experiment,trials_store) for x in bundle.trials]
-    [codeBlock_store.add_from_object(x) for x in bundle.codeBlocks]
-    [arguments_store.add_from_object(x) for x in bundle.arguments]
-    [codeComponent_store.add_from_object(x) for x in bundle.codeComponents]
-    [activation_store.add_from_object(x) for x in bundle.activations]
-    [composition_store.add_from_object(x) for x in bundle.compositions]
-    [dependency_store.add_from_object(x) for x in bundle.dependencies]
-    [env_store.add_from_object(x) for x in bundle.environmentAttrs]
-    [evaluation_store.add_from_object(x) for x in bundle.evaluations]
-    [fileAccess_store.add_from_object(x) for x in bundle.fileAccesses]
-    [member_store.add_from_object(x) for x in bundle.members]
-    [module_store.add_from_object(x) for x in bundle.modules]
-    [user_store.add_from_object(x) for x in bundle.users]
+    Trials that are already there stay as they are, unless bundle has the end
+    of a trial that was not finished"""
+    session = relational.session
+    session.commit()
+    session.execute("BEGIN IMMEDIATE")
+    try:
+        new_trials = replace_unfinished(bundle.trials, session)
+        store_bundle(bundle, set(x.id for x in new_trials), experiment, session)
+        for x in new_trials:
+            create_tag(x, bundle, experiment, session)
+        session.commit()
+    except:
+        session.rollback()
+        raise
 
-    trials_store.do_store()
-    arguments_store.do_store()
-    codeBlock_store.do_store()
-    codeComponent_store.do_store()
-    activation_store.do_store()
-    composition_store.do_store()
-    dependency_store.do_store()
-    env_store.do_store()
-    evaluation_store.do_store()
-    fileAccess_store.do_store()
-    member_store.do_store()
-    module_store.do_store()
-    user_store.do_store()
+def replace_unfinished(trials, session):
+    """Return the trials to import. Remove previous parts of them"""
+    existing=dict(session.query(Trial.m.id,Trial.m.finish).all())
+    result=[]
+    for trial in trials:
+        if trial.id in existing:
+            if existing[trial.id] is not None or trial.finish is None:
+                continue
+            for model in (Activation,Argument,CodeBlock,CodeComponent,Composition,Dependency,EnvironmentAttr,\
+                    Evaluation,FileAccess,Member,Module):
+                session.execute(model.t.delete().where(model.t.c.trial_id==trial.id))
+        result.append(trial)
+    return result
+
+def store_bundle(bundle, trial_ids, experiment, session):
+    """Store the objects of the trials in trial_ids, and the users"""
+    for lightweight,objects in (
+            (TrialLW,bundle.trials),(ArgumentLW,bundle.arguments),(CodeBlockLW,bundle.codeBlocks),
+            (CodeComponentLW,bundle.codeComponents),(ActivationLW,bundle.activations),
+            (CompositionLW,bundle.compositions),(DependencyLW,bundle.dependencies),
+            (EnvironmentAttrLW,bundle.environmentAttrs),(EvaluationLW,bundle.evaluations),
+            (FileAccessLW,bundle.fileAccesses),(MemberLW,bundle.members),(ModuleLW,bundle.modules),
+            (UserLW,bundle.users)):
+        store=ObjectStore(lightweight)
+        for x in objects:
+            if lightweight is UserLW:
+                store.add_from_object(x)
+            elif x.trial_id in trial_ids:
+                if lightweight is TrialLW:
+                    store_trial_from_experiment(x,experiment,store)
+                else:
+                    store.add_from_object(x)
+        lightweight.model.store(store,False,conn=session.connection())
+
+def create_tag(trial, bundle, experiment, session):
+    """Create the automatic tag of an imported trial"""
+    if session.query(Tag.m).filter((Tag.m.trial_id == trial.id) & (Tag.m.type == "AUTO")).first():
+        return
+    main_block_code_hash=None
+    for block in bundle.codeBlocks:
+        if block.trial_id==trial.id and block.id==trial.main_id:
+            main_block_code_hash=block.code_hash
+    name=Tag.next_automatic_tag(trial.id,main_block_code_hash,trial.command,session,experiment,trial.status=="backup")
+    session.execute(Tag.t.insert(),{"trial_id":trial.id,"type":"AUTO","name":name,"timestamp":datetime.now()})
 
-    for x in bundle.trials:
-        main_block=[c for c in bundle.codeBlocks if c.trial_id==x.id and x.main_id==c.id]
-        main_block_code_hash=None
-        if len(main_block)>0:
-            main_block_code_hash=main_block[0].code_hash
-        Tag.create_automatic_tag(x.id,main_block_code_hash,x.command, experiment_id=experiment)
-    
 def export_bundle(trialIds,usersIds=[]):
     #Load dependencies
     trialsToImport=[t for t in Trial.all() if t.id in trialIds ]
@@ -129,4 +145,4 @@ def export_bundle(trialIds,usersIds=[]):
         [UserLW(x.id,x.userLogin) for x in usersToImport]
     )
 
-    return bundle
\ No newline at end of file
+    return bundle
-- 
2.43.0


From 971f1b019dae884d14cc445dfa20e743c21da543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:27 +0000
Subject: [PATCH 47/54] fix: report success of a transfer only if all contents
 and trials arrived

---
 capture/noworkflow/now/cmd/cmd_import.py | 10 +++++---
 capture/noworkflow/now/cmd/cmd_pull.py   | 32 +++++++++++++++---------
 capture/noworkflow/now/cmd/cmd_push.py   | 21 +++++++++-------
 capture/noworkflow/now/vis/views.py      | 10 +++++---
 4 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/capture/noworkflow/now/cmd/cmd_import.py b/capture/noworkflow/now/cmd/cmd_import.py
index e7b3b4a..5982b6e 100644
--- a/capture/noworkflow/now/cmd/cmd_import.py
+++ b/capture/noworkflow/now/cmd/cmd_import.py
@@ -51,10 +51,12 @@ class Import(Command):
         sourceFiles=self.sourceContent.listAll()
         
         [self.addFile(x) for x in sourceFiles if x not in targetFiles]
+        self.targetContent.close()
     
     def addFile(self,name):
         content=self.sourceContent.get(name)
-        self.targetContent.put(content)
+        if self.targetContent.put(content, name) != name:
+            raise RuntimeError("content {} has another hash in target".format(name))
 
     def populate(self,args):
         if not (args.source):  
@@ -75,13 +77,13 @@ class Import(Command):
 
         self.populate(args)
             
-        self.import_content(args)
-             
         persistence_config.connect(args.target or os.getcwd())
-        targetTrials=[t for t in Trial.all()]
+        targetTrials=[t for t in Trial.all() if t.finish is not None]
        
+        # Only import trials with all of their files. Others may be finishing
         persistence_config.connect(args.source)
         sourceTrials=[t for t in Trial.all()]
+        self.import_content(args)
         
         targetUuids=[x.id for x in targetTrials]
         trialsToImport=[x for x in sourceTrials if x.id not in targetUuids]
diff --git a/capture/noworkflow/now/cmd/cmd_pull.py b/capture/noworkflow/now/cmd/cmd_pull.py
index 016de33..cedc7fc 100644
--- a/capture/noworkflow/now/cmd/cmd_pull.py
+++ b/capture/noworkflow/now/cmd/cmd_pull.py
@@ -44,15 +44,17 @@ class Pull(Command):
         response=requests.get(url, headers=headers)
         return json.loads(response.content)
 
-    def importTrials(self,url):
+    def listTrials(self):
         trialUrls=self.url+"/collab/trialsids"
         targetUuids=self.get(trialUrls)
         
         if targetUuids == self.text_invalid_experiment_id:
             print(self.text_importing_trials_failed + " " + targetUuids)
-            return False
-        
-        trialsIds=[t.id for t in Trial.all()]
+            return None
+        return targetUuids
+
+    def importTrials(self,targetUuids):
+        trialsIds=[t.id for t in Trial.all() if t.finish is not None]
         trialsToImport=[x for x in targetUuids if x not in trialsIds]
         bundleUrls=self.url+"/collab/bundle?id=0&"
         for x in trialsToImport:
@@ -71,7 +73,11 @@ class Pull(Command):
         print("Importing file: "+url)
         headers = {'Accept-Encoding': 'gzip'}
         response=requests.get(url, headers=headers)
-        content.put(response.content, None)
+        contentHash=url.split("/")[-1]
+        if response.status_code!=200 or content.put(response.content, contentHash)!=contentHash:
+            print("Error importing file: "+url)
+            return False
+        return True
 
     def importFiles(self,url):
         filesUrl=self.url+"/collab/files"
@@ -81,9 +87,9 @@ class Pull(Command):
             return False
         targetFiles=content.listAll()
         filesToImport=[x for x in sourceFiles if x not in targetFiles]
-        [self.importFile(filesUrl+"/"+x) for x in filesToImport]
-        
-        return True
+        result=all([self.importFile(filesUrl+"/"+x) for x in filesToImport])
+        content.close()
+        return result
 
     def execute(self, args):
 
@@ -91,10 +97,12 @@ class Pull(Command):
         
         persistence_config.connect(os.getcwd())
 
-        importFilesSuccess = self.importFiles(self.url)
+        # Only import trials with all of their files. Others may be arriving
+        targetUuids = self.listTrials()
+        if targetUuids is None or not self.importFiles(self.url):
+            print("Error pulling")
+            return
         print("Importing trials")
-        importTrialsSuccess = self.importTrials(self.url)
-        
-        if importFilesSuccess and importTrialsSuccess:
+        if self.importTrials(targetUuids):
             Remote.create(self.url, self.url.split("/experiments/")[-1], True)
             print("Pulled successfully")
\ No newline at end of file
diff --git a/capture/noworkflow/now/cmd/cmd_push.py b/capture/noworkflow/now/cmd/cmd_push.py
index 2015478..5e55633 100644
--- a/capture/noworkflow/now/cmd/cmd_push.py
+++ b/capture/noworkflow/now/cmd/cmd_push.py
@@ -45,7 +45,7 @@ class Push(Command):
         response=requests.get(url, headers=headers)
         return json.loads(response.content)
 
-    def exportTrials(self):
+    def exportTrials(self, trials):
         url=self.url+"/collab/trialsids"
         targetUuids=self.get(url)
 
@@ -53,13 +53,12 @@ class Push(Command):
             print(self.text_exporting_trials_failed + " " + targetUuids)
             return False
 
-        trials=[t for t in Trial.all()]
-        trialsToExport=[x.id for x in trials if x.id not in targetUuids]
+        trialsToExport=[x for x in trials if x not in targetUuids]
 
         url=self.url+"/collab/usersids"
         usersIds=self.get(url)
         if usersIds == self.text_invalid_experiment_id:
-            print(self.exportTrials + " " + usersIds)
+            print(self.text_exporting_trials_failed + " " + usersIds)
             return False
             
         localUsers=[u for u in User.all()]
@@ -105,22 +104,26 @@ class Push(Command):
             }
             
             response = requests.post(filesUrl, files=multipart_form_data)
-            if response.status_code == 400:
-                print(self.text_exporting_files_failed + " " + sourceFiles)
+            if response.status_code != 201:
+                print(self.text_exporting_files_failed)
                 return False
         
             zipF.close()
+        return True
 
     def execute(self, args):
 
         self.populate(args)
 
         persistence_config.connect(os.getcwd())
+        # Only export trials with all of their files. Others may be finishing
+        trials=[t.id for t in Trial.all()]
         print("Exporting Files...")
-        self.exportFiles()
+        if not self.exportFiles():
+            print("Error pushing")
+            return
         print("Exporting Trials...")
-        status_code=self.exportTrials()
-        
+        status_code=self.exportTrials(trials)
 
         if(status_code==201):
             Remote.create(self.url, self.url.split("/experiments/")[-1], True)
diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index 95cecdf..b0c4b94 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -241,11 +241,14 @@ def receiveFiles(expCode):
         
         zF=BytesIO(filedata)
         zipObj = ZipFile(zF, 'r')
-        for fName in zipObj.namelist():
-            content.put(zipObj.read(fName), fName)
+        received = [content.put(zipObj.read(fName), fName) == fName
+                    for fName in zipObj.namelist()]
+        content.close()
 
         zipObj.close()
         zF.close()
+        if not all(received):
+            return "Content with another hash",400
         return "",201
     
     return return_json_error_invalid_experiment_id()
@@ -272,7 +275,8 @@ def listFiles(expCode):
 def trialsId(expCode):
     """Respond trials ids"""
     if experiment_in_db(expCode=expCode):
-        resp=[t.id for t in Trial.list_from_experiment(expCode)]
+        # Trials that are not finished may be received again
+        resp=[t.id for t in Trial.list_from_experiment(expCode) if t.finish is not None]
         return jsonify(resp)
     
     return return_json_error_invalid_experiment_id()
-- 
2.43.0


From 76e6c3197fbe0f1733ba67596d94c8681e3dea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:04 +0000
Subject: [PATCH 48/54] fix: send files with any version of flask, also for
 experiments

---
 capture/noworkflow/now/vis/views.py | 32 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/capture/noworkflow/now/vis/views.py b/capture/noworkflow/now/vis/views.py
index b0c4b94..fa34ae1 100644
--- a/capture/noworkflow/now/vis/views.py
+++ b/capture/noworkflow/now/vis/views.py
@@ -9,6 +9,7 @@ from __future__ import (absolute_import, print_function,
 import os
 import io
 import json
+import mimetypes
 
 from flask import render_template, jsonify, request, make_response, send_file,send_file, Response
 from io import BytesIO as IO
@@ -76,6 +77,15 @@ def zipper(response):
     response.headers['Content-Length'] = len(response.data)
     return response
 
+def send_named_file(data, name, mimetype=None, disposition="inline"):
+    """Send data as a file. The parameter of send_file for its name depends on
+    the version of flask"""
+    if mimetype is None:
+        mimetype = mimetypes.guess_type(name)[0] or "application/octet-stream"
+    response = make_response(send_file(data, mimetype=mimetype))
+    response.headers.set("Content-Disposition", disposition, filename=name)
+    return response
+
 def getRequestContent():
     encoding = request.headers.get('Content-Encoding', '')
     if 'gzip' in encoding.lower():
@@ -169,7 +179,7 @@ def getExtendedAnnotationContent(id):
     extention=annt.annotationFormat
     if(extention=="plainText"):
         extention="txt"
-    return send_file(IO(bytes(annt.annotation, 'utf-8')),mimetype='application/octet-stream',as_attachment=True,attachment_filename=id+"."+extention)
+    return send_named_file(IO(bytes(annt.annotation, 'utf-8')),id+"."+extention,mimetype='application/octet-stream',disposition="attachment")
 
 
 @app.route("/experiments/<expCode>/extendedAnnotation", methods=['Post'])
@@ -308,33 +318,33 @@ def trials(expId=None):
 #generate dafalowdataflow
 @app.route("/experiments/<expCode>/trials/<tid>/flow.pdf")
 @app.route("/trials/<tid>/flow.pdf")
-def dataflow(tid):
+def dataflow(tid, expCode=None):
     """Generates the dafalow of a trial """ 
     trial = Trial(tid)
     display = DotDisplay(trial.dot.export_text(), format="pdf")
-    return send_file(
+    return send_named_file(
         io.BytesIO(display.display_result()["application/pdf"]),
-        attachment_filename='flow.pdf',
+        'flow.pdf',
         mimetype="application/pdf"
     )
 
 @app.route("/experiments/<expCode>/trials/<tid>/<script_hash>/<name>") 
 @app.route("/trials/<tid>/<script_hash>/<name>")    
-def get_script(tid, script_hash, name):
+def get_script(tid, script_hash, name, expCode=None):
     """Returns the executed script"""
-    return send_file(
+    return send_named_file(
         io.BytesIO(content.get(script_hash)),
-        attachment_filename=name + '.py'
+        name + '.py'
     )
 
 @app.route("/experiments/<expCode>/trials/files/<file_hash>/<file_ext>")
 @app.route("/trials/files/<file_hash>/<file_ext>")
-def get_file(file_hash, file_ext):
+def get_file(file_hash, file_ext, expCode=None):
     """Returns a file used in the trial"""
     name = file_hash + file_ext
-    return send_file(
+    return send_named_file(
         io.BytesIO(content.get(file_hash)),
-        attachment_filename=name
+        name
     )
 
 @app.route("/experiments/<expCode>/trials/<tid>/<graph_mode>/<cache>.json")
@@ -384,7 +394,7 @@ def file_accesses(tid,expCode=None):
 @app.route("/experiments/<expCode>/trials/<tid>/activations/<aid>")
 @app.route("/trials/<tid>/activations/<aid>.json")
 @app.route("/trials/<tid>/activations/<aid>")
-def activations(tid, aid):
+def activations(tid, aid, expCode=None):
     """Respond trial activation as text"""
     activation = Activation((tid, aid))
     global_evaluations = activation.filter_evaluations_by_type("global")
-- 
2.43.0


From 5cbc6512ba1c0aa4244c2b1448705bda4e2b5c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:19 +0000
Subject: [PATCH 49/54] fix: compute graphs whose cache is damaged or missing

---
 capture/noworkflow/now/models/graphs/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/structures.py b/capture/noworkflow/now/models/graphs/structures.py
index 726335f..a217aaa 100644
--- a/capture/noworkflow/now/models/graphs/structures.py
+++ b/capture/noworkflow/now/models/graphs/structures.py
@@ -64,7 +64,8 @@ def prepare_cache(get_type):
                                 continue
                             cache_session.close()                                # pylint: disable=no-member
                             return result
-                    except (ValueError, exc.SQLAlchemyError):
+                    except Exception:                                            # pylint: disable=broad-except
+                        # Damaged or missing contents fail in many ways
                         traceback.print_exc()
                         print_msg("Couldn't load graph cache", True)
                 start = time.time()
-- 
2.43.0


From 8d3f5f990e8757a5b8625f79806b5be47b43c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:19 +0000
Subject: [PATCH 50/54] fix: graph of trials without calls

---
 capture/noworkflow/now/models/graphs/trial_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/capture/noworkflow/now/models/graphs/trial_graph.py b/capture/noworkflow/now/models/graphs/trial_graph.py
index 8f92d0c..16f0a92 100644
--- a/capture/noworkflow/now/models/graphs/trial_graph.py
+++ b/capture/noworkflow/now/models/graphs/trial_graph.py
@@ -291,7 +291,7 @@ class TreeSummarization(NoMatchSummarization):
     def __call__(self, preorder):
         result = super(TreeSummarization, self).__call__(preorder)
         self.edges.clear()
-        stack = [self.root]
+        stack = [self.root] if self.root is not None else []
         while stack:
             current = stack.pop()
             for index, child in enumerate(current.children):
@@ -329,7 +329,7 @@ class DefinitionSummarization(LineNameSummarization):
                         self.insert_node(node, find)
                         relationship.remove(relation)
                         break
-        stack = [self.root]
+        stack = [self.root] if self.root is not None else []
         while stack:
             current = stack.pop()
             for index, child in enumerate(current.children):
-- 
2.43.0


From dd08c87c291a94695ace7444ba7e3dc32441f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:19 +0000
Subject: [PATCH 51/54] fix: history graph after trials finished or were
 replaced

---
 capture/noworkflow/now/models/graphs/history_graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index c30d8d3..34dc9b5 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -48,13 +48,20 @@ class HistoryGraph(Graph):
         edges -- list of edges dicts with keys source and target as node index
         """
 
+        # Trials may have been added, finished or replaced since the last time
+        state = relational.session.query(
+            Trial.m.id, Trial.m.status, Trial.m.start, Trial.m.finish
+        ).filter(
+            Trial.m.experiment_id == self.history.expId
+        ).order_by(Trial.m.sequence_key).all()
         key = (
             self.history.script, self.history.status, self.history.summarize,
-            Trial.count(None,self.history.expId)
+            self.history.expId, tuple(tuple(row) for row in state)
         )
         
         if self.use_cache and key in self.cache:
             return self.cache[key]
+        relational.session.expire_all()
 
         tmap = self._load_trials(Trial.reverse_trials(MAXTRIALS,None,self.history.expId))
         graph = self._create_graph(tmap)
-- 
2.43.0


From a764e47242a9a52002bb3f83c696d6297c5fe8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:40 +0000
Subject: [PATCH 52/54] fix: dataflow of trials with calls in nodes that are
 not clusters

---
 capture/noworkflow/now/models/dependency_graph/clusterizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/dependency_graph/clusterizer.py b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
index dc65f36..f032b23 100644
--- a/capture/noworkflow/now/models/dependency_graph/clusterizer.py
+++ b/capture/noworkflow/now/models/dependency_graph/clusterizer.py
@@ -333,7 +333,7 @@ class ProspectiveClusterizer(Clusterizer):
             self.process_activation(activation, evaluation, cluster, False)
             for dep in chain(evaluation.dependencies, evaluation.dependents):
                 dep_act_node_id = EvaluationNode.get_node_id(dep.activation_id)
-                dep_cluster = created[dep_act_node_id][1]
+                _, dep_cluster = created.get(dep_act_node_id, (None, None))
                 if not isinstance(dep_cluster, ClusterNode):
                     continue
                 self.process_evaluation(dep, dep_cluster, False)
-- 
2.43.0


From b4f8cf8f404ffd4ffc29eb44d8f8c227a6bad384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:40 +0000
Subject: [PATCH 53/54] fix: no edges from trials to themselves in the history

---
 capture/noworkflow/now/models/graphs/history_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capture/noworkflow/now/models/graphs/history_graph.py b/capture/noworkflow/now/models/graphs/history_graph.py
index 34dc9b5..a840361 100644
--- a/capture/noworkflow/now/models/graphs/history_graph.py
+++ b/capture/noworkflow/now/models/graphs/history_graph.py
@@ -334,7 +334,7 @@ class HistoryGraph(Graph):
                 graph[tid],
                 key=lambda x, i=tid: float("inf") if x == i else graph[i][x]
             )
-            if graph[tid][target] != MAX_IN_GRAPH:
+            if target != tid and graph[tid][target] != MAX_IN_GRAPH:
                 yield (tid, target)
             script_order[trial.script] = 1
 
-- 
2.43.0


From ab5598374cdea08a8da69609c4a9830cf3ccc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:40 +0000
Subject: [PATCH 54/54] fix: find interrupted trials as unfinished in the
 history

---
 capture/noworkflow/now/persistence/models/trial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capture/noworkflow/now/persistence/models/trial.py b/capture/noworkflow/now/persistence/models/trial.py
index aaf30ba..b10b318 100644
--- a/capture/noworkflow/now/persistence/models/trial.py
+++ b/capture/noworkflow/now/persistence/models/trial.py
@@ -1362,6 +1362,8 @@ class Trial(AlchemyProxy):
         """
         if status == "*":
             return True
+        if status == "unfinished":
+            return not self.finished and not self.backup
         return self.status == status
 
     def match_script(self, script):
-- 
2.43.0

