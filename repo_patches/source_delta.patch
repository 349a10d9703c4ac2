From a2ef71da97d441802ee32380ca93ff7e518be822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 01/45] fix: look for data files in all subdirectories of a
 package

The search stopped at the first subdirectory that was listed, which made
has_data_files wrong and dependent on the directory order.
---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..ab31fbc 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -117,7 +117,8 @@ def _contains_datafiles(directory: pathlib.Path):
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
 
             else:
                 return True
-- 
2.43.0


From 3e6bd09d7ae43a41cf7602400038811211b99ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 02/45] fix: handle modules whose source cannot be decoded

Undecodable source raised UnicodeDecodeError out of the graph builder, and a
package with an unknown source encoding was recorded as a plain invalid
module instead of as a package.
---
 modulegraph2/_graphbuilder.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index ab31fbc..f63fed0 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -234,28 +234,10 @@ def node_for_spec(
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
         try:
             source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
+        except (SyntaxError, UnicodeDecodeError):
+            # The source cannot be decoded, loading the code below
+            # will mark the module as invalid.
+            source_code = None
 
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
-- 
2.43.0


From a592532d886e071f553691a2ffc4ccfb8a045c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 03/45] fix: record damaged bytecode files as invalid modules

A bytecode file without source that is truncated or made by another Python
version raised out of the graph builder.
---
 modulegraph2/_graphbuilder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f63fed0..b38d00b 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -267,7 +267,13 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except (SyntaxError, ImportError, EOFError, TypeError, ValueError) as exc:
+            if not isinstance(exc, SyntaxError) and not isinstance(
+                loader, importlib.machinery.SourcelessFileLoader
+            ):
+                raise
+
+            # Invalid source, or a stale or damaged bytecode file
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
-- 
2.43.0


From 4da6f0a75d6e4f516cee35d1f9dcc4f17a9ecb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 04/45] fix: tolerate explicit namespace packages that cannot
 be imported

Only ImportError was handled, other exceptions raised by the package aborted
building the graph.
---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b38d00b..8261bba 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -465,7 +465,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except (Exception, SystemExit):
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From 9d82b8d47b9f6bcf327ce6c403ae6d2bc46a30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 05/45] fix: installed scripts are not importable names of a
 distribution

A RECORD entry such as "../../../bin/tool.py" ended up as an import name
"../../../bin/tool" with the slashes turned into dots.
---
 modulegraph2/_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..af474f0 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -106,6 +106,10 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
                 continue
 
+            if os.path.isabs(relpath) or ".." in relpath.split("/"):
+                # Not below the directory on the search path
+                continue
+
             for suffix in all_suffixes:
                 if not relpath.endswith(suffix):
                     continue
-- 
2.43.0


From a96441dc5fcdb689b69be1f139be81524c96994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 06/45] fix: broken dist-info directories do not hide other
 distributions

An unreadable dist-info directory ended the search in that directory, and one
with incomplete metadata aborted the search. Concurrent searches could return
different objects for one distribution, and the order was that of the file
system.
---
 modulegraph2/_distributions.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index af474f0..d197b01 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,9 +79,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"incomplete metadata in {distribution_file}")
 
     with open(os.path.join(distribution_file, "RECORD")) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
@@ -146,23 +146,30 @@ def all_distributions(
 
     for entry in path:
         try:
-            for fname in os.listdir(entry):
-                if not fname.endswith(".dist-info"):
-                    continue
+            fnames = sorted(os.listdir(entry))
+        except OSError:
+            continue
 
-                dist_name = os.path.join(entry, fname)
+        for fname in fnames:
+            if not fname.endswith(".dist-info"):
+                continue
 
-                try:
-                    dist = _cached_distributions[dist_name]
+            dist_name = os.path.join(entry, fname)
 
-                except KeyError:
+            try:
+                dist = _cached_distributions[dist_name]
+
+            except KeyError:
+                try:
                     dist = create_distribution(dist_name)
-                    _cached_distributions[dist_name] = dist
+                except (OSError, ValueError):
+                    # Incomplete or unreadable metadata
+                    continue
 
-                yield dist
+                # Another thread may have found the same distribution
+                dist = _cached_distributions.setdefault(dist_name, dist)
 
-        except OSError:
-            continue
+            yield dist
 
 
 def distribution_for_file(
-- 
2.43.0


From 1ec13299cf97eb2cdc165962959d99e4d39a8b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 07/45] fix: build the graph in an order that does not depend
 on hashing

The order in which names were imported depended on string hash
randomisation or the directory order, which can change the outcome for import
cycles. One of the renames in "from a import b as c, b as d" was dropped,
which one depended on hashing as well.
---
 modulegraph2/_ast_tools.py     | 22 ++++++++++++++--------
 modulegraph2/_modulegraph.py   |  6 +++---
 modulegraph2/_mypyc_support.py |  2 +-
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..8ad82c7 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -44,14 +44,20 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            names = [(nm.name, nm.asname) for nm in node.names]
+            while names:
+                # A set of import names cannot contain the same name with
+                # different renames ("from a import b as c, b as d")
+                batch = dict(reversed(names))
+                yield create_importinfo(
+                    (node.module or "", None),
+                    set(batch.items()),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
+                names = [item for item in names if item not in batch.items()]
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..b515b87 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -327,7 +327,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
         for path_name in spec.submodule_search_locations or []:
             path = pathlib.Path(path_name)
-            for fn in path.glob("*.py"):
+            for fn in sorted(path.glob("*.py")):
                 module = fn.stem
                 if not module.isidentifier():
                     continue
@@ -343,7 +343,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     (self.import_package, (node, f"{package_name}.{module}"))
                 )
 
-            for fn in path.iterdir():
+            for fn in sorted(path.iterdir()):
                 if fn.is_dir() and fn.name.isidentifier():
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
@@ -960,7 +960,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         return
 
                 importing_module.globals_written.update(import_info.import_names)
-                for nm in import_info.import_names:
+                for nm in sorted(import_info.import_names):
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..4a33489 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -67,7 +67,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     #
     # The name check can be made stricter if needed
     # by looking at the prefix as well.
-    for nm in node.distribution.import_names:
+    for nm in sorted(node.distribution.import_names):
         if nm.endswith("__mypyc"):
             # Distribution is mypyc compiled
             helper_module = nm
-- 
2.43.0


From 18b9ed68e97498d0d9c44ca305962ae74d23edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 08/45] fix: adding a distribution again after a failure
 completes the work

---
 modulegraph2/_modulegraph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b515b87..5aee1fb 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -230,13 +230,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         found = self.find_node(distribution.identifier)
         if found is not None:
             assert isinstance(found, PyPIDistribution)
+            self._run_stack()
             return found
 
+        # Load the modules before adding the distribution, otherwise trying
+        # again after an exception would find an incomplete distribution.
+        nodes = [
+            self._find_or_load_module(None, module_name)
+            for module_name in sorted(distribution.import_names)
+        ]
+
         self.add_node(distribution)
         self.add_root(distribution)
 
-        for module_name in distribution.import_names:
-            node = self._find_or_load_module(None, module_name)
+        for node in nodes:
             self.add_edge(distribution, node, DEFAULT_DEPENDENCY)
 
         self._run_stack()
-- 
2.43.0


From 7c9b053edaf2e548b49fdede91a0376ee98dc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 09/45] fix: always remove the fake package of the SWIG hook
 from sys.modules

---
 modulegraph2/_swig_support.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..0186c7b 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -92,9 +92,11 @@ def swig_missing_hook(
             ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
         )
 
-        spec = importlib.util.find_spec("." + missing_name, to_import)
+        try:
+            spec = importlib.util.find_spec("." + missing_name, to_import)
 
-        del sys.modules[to_import]
+        finally:
+            del sys.modules[to_import]
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
-- 
2.43.0


From 21d125a4f6e768274f56f3acc915301e7e53367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 10/45] fix: relative imports in a script are always invalid

The path of the script was used as if it were a module name.
---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 8261bba..549aee0 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -503,6 +504,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # A script is not part of a package
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From d64866e26f41706d778b2f35a7e8977394bb9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 11/45] fix: complete an alias whose target could not be loaded
 earlier

Later imports from the alias failed with an AssertionError when loading the
target of the alias had raised an exception.
---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5aee1fb..37b0dc3 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -958,7 +958,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 if isinstance(imported_module, AliasNode):
                     importing_module.globals_written.update(import_info.import_names)
                     node = self._find_module(imported_module.actual_module)
-                    assert node is not None
+                    if node is None:
+                        # Adding the alias was interrupted by an exception
+                        node = self.import_module(
+                            imported_module, imported_module.actual_module
+                        )
 
                     imported_module = node
                     if not isinstance(
-- 
2.43.0


From 6fbc3fde417f6c1229ed3e1c00f3bfbd8a078d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 12/45] fix: import_package uses the search path of the package
 node

Looking for the spec again fails for packages that cannot be imported, and
misses directories added by the package. Do not add __pycache__ as a
subpackage.
---
 modulegraph2/_modulegraph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 37b0dc3..284371c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -330,10 +330,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
+        for path in node.search_path:
+            if not path.is_dir():
+                continue
+
             for fn in sorted(path.glob("*.py")):
                 module = fn.stem
                 if not module.isidentifier():
@@ -351,7 +351,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
 
             for fn in sorted(path.iterdir()):
-                if fn.is_dir() and fn.name.isidentifier():
+                if (
+                    fn.is_dir()
+                    and fn.name.isidentifier()
+                    and fn.name != "__pycache__"
+                ):
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
-- 
2.43.0


From d7e8d7deb8e3e19737946d5ec56b381a97b72ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 13/45] fix: always restore module objects without a spec in
 sys.modules

The entry was lost, and building failed, when the module was imported while
looking for its spec.
---
 modulegraph2/_modulegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 284371c..0a9b966 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -598,7 +598,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 try:
                     spec = importlib.util.find_spec(module_name)
                 finally:
-                    assert module_name not in sys.modules
+                    # Importing the parent package can have added the
+                    # module to sys.modules again.
                     sys.modules[module_name] = orig
 
             except AttributeError as exc:  # pragma: no branch
-- 
2.43.0


From f0645b6f5a6da07033e5866b4c6ec20b8a73a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 14/45] fix: handle more ways in which a parent package cannot
 be imported

* The parent only exists in the graph, for example as an alias: this failed
  with an AssertionError.
* The package calls sys.exit() when it is imported: this ended the program.
* The package raises ModuleNotFoundError with a message of its own: its
  submodules were reported as missing.
---
 modulegraph2/_modulegraph.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 0a9b966..6cf441c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -617,10 +617,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except Exception as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
+        except (Exception, SystemExit) as exc:
+            if not isinstance(
+                exc, ModuleNotFoundError
+            ) or "__path__ attribute not found" not in str(exc):
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
@@ -634,8 +634,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 parent = module_name.rpartition(".")[0]
                 assert parent not in sys.modules
 
-                spec = importlib.util.find_spec(parent)
-                assert spec is not None
+                try:
+                    spec = importlib.util.find_spec(parent)
+                except ModuleNotFoundError:
+                    spec = None
+                if spec is None:
+                    # The parent only exists in the graph (an alias, or a
+                    # node added by a hook), it cannot have submodules.
+                    return self._create_missing_module(importing_module, module_name)
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
-- 
2.43.0


From 04bdd53d3579a11d5e8baa4829f3a4077abe402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 15/45] fix: imports in try statements with "except*" are
 optional

---
 modulegraph2/_ast_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 8ad82c7..16c1c2f 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -67,7 +67,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From 582f2292bc08e5204c28c9f7a7157d5d10c2d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 16/45] fix: packages in a package that cannot be imported can
 be imported

Importing these failed because the fake module has no __spec__, which ended
building the graph for modules in a namespace package in such a package.
---
 modulegraph2/_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..1423c3c 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -67,6 +67,10 @@ class FakePackage:
         """
         self.__path__ = path
 
+        # The import system needs this attribute when it imports a
+        # package in this package.
+        self.__spec__ = None
+
 
 def stdlib_module_names() -> list[str]:
     """
-- 
2.43.0


From 041928b23f364c690b21231d06224dba071b5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 17/45] fix: a "global" statement in a class body declares a
 module global

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..e3fddfe 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -130,7 +130,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if inst.opname == "STORE_NAME" and (is_class_code or is_function_code):
                 continue
 
             const_offset = inst.arg
-- 
2.43.0


From 3dba078e3b0d143ef3d3d3ec0e19e2a57b658ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 18/45] fix: errors while locating a module are not caused by
 its package

Finding the spec of a module in a zip file compiles the module. A syntax
error in the module was reported as a missing module (top-level) or as an
AssertionError (modules in a package), other errors were hidden for top-level
modules. Record an invalid module for syntax errors, and raise other errors.
---
 modulegraph2/_modulegraph.py | 52 +++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 6cf441c..b3124d5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -18,7 +18,11 @@ from objectgraph import ObjectGraph
 from ._ast_tools import extract_ast_info
 from ._callback_list import CallbackList, FirstNotNone
 from ._depinfo import DependencyInfo, from_importinfo
-from ._distributions import PyPIDistribution, distribution_named
+from ._distributions import (
+    PyPIDistribution,
+    distribution_for_file,
+    distribution_named,
+)
 from ._graphbuilder import SIX_MOVES_TO, node_for_spec, relative_package
 from ._implies import STDLIB_IMPLIES, Alias, ImpliesValueType, Virtual
 from ._importinfo import ImportInfo
@@ -27,6 +31,7 @@ from ._nodes import (
     AliasNode,
     BaseNode,
     ExcludedModule,
+    InvalidModule,
     InvalidRelativeImport,
     MissingModule,
     Module,
@@ -417,6 +422,40 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self._process_import_list(node, ())
         return node
 
+    def _create_invalid_module(
+        self, module_name: str, error: SyntaxError
+    ) -> InvalidModule:
+        """
+        Create an InvalidModule node for a module whose spec cannot be
+        found because its source is invalid.
+
+        Args:
+          module_name: The name of the invalid module
+
+          error: The error raised while locating the module
+
+        Returns:
+          A new :class:`InvalidModule`
+        """
+        filename = error.filename
+        node = InvalidModule(
+            name=module_name,
+            loader=None,
+            distribution=(
+                distribution_for_file(filename, sys.path)
+                if filename is not None
+                else None
+            ),
+            extension_attributes={},
+            filename=pathlib.Path(filename) if filename is not None else None,
+            globals_written=set(),
+            globals_read=set(),
+            code=None,
+        )
+        self.add_node(node)
+        self._process_import_list(node, ())
+        return node
+
     def add_excludes(self, excluded_names: Iterable[str]) -> None:
         """
         Exclude the names in "excludeded_names" from the graph
@@ -632,11 +671,18 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # hence we know that find_spec will be successfull and
                 # will find a pacakge with an __init__.py.
                 parent = module_name.rpartition(".")[0]
-                assert parent not in sys.modules
+                if not parent or parent in sys.modules:
+                    # The problem is with the module itself, not with
+                    # importing its parent package.
+                    if not isinstance(exc, SyntaxError):
+                        raise
+
+                    # The zipimporter compiles a module to find its spec
+                    return self._create_invalid_module(module_name, exc)
 
                 try:
                     spec = importlib.util.find_spec(parent)
-                except ModuleNotFoundError:
+                except (ModuleNotFoundError, SyntaxError):
                     spec = None
                 if spec is None:
                     # The parent only exists in the graph (an alias, or a
-- 
2.43.0


From d2233c2cecec5cb1334761af88e9153b4df0f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 19/45] fix: graphs can be built in several threads at the same
 time

Finding a module temporarily changes sys.modules, which made concurrent
builds fail or use the temporary entries of each other.
---
 modulegraph2/_modulegraph.py  | 96 +++++++++++++++++++++--------------
 modulegraph2/_swig_support.py | 76 +++++++++++++++------------
 modulegraph2/_utilities.py    |  5 ++
 3 files changed, 106 insertions(+), 71 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b3124d5..8cbc12e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -41,7 +41,7 @@ from ._nodes import (
     VirtualNode,
 )
 from ._swig_support import swig_missing_hook
-from ._utilities import FakePackage, split_package
+from ._utilities import FakePackage, import_state_lock, split_package
 
 ProcessingCallback = Callable[["ModuleGraph", BaseNode], None]
 MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | None]
@@ -592,36 +592,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         else:
             return None
 
-    def _load_module(
-        self, importing_module: BaseNode | None, module_name: str
-    ) -> BaseNode:
+    def _find_spec(self, module_name: str) -> importlib.machinery.ModuleSpec | None:
         """
-        Add a node for a specific module.
-
-        The module must not be part of the graph, and the
-        module_name must be an absolute name (not a relative
-        import.
+        Find the spec for a module.
 
-        This not just adds the loaded module to the graph,
-        but also pushed functions to the work stack that will
-        process the import statements in *module_name*.
+        Finding the spec of a module in a package imports the package.
+        Must be called with the *import_state_lock* held because this temporarily
+        changes :data:`sys.modules`.
 
         Args:
-          importing_module: The node triggering this import
-
-          module_name: The name to be loaded
+          module_name: Absolute name of the module
 
         Returns:
-          A new node for *module_name*
-
+          The spec, or :data:`None` when there is no such module
         """
-        node: BaseNode
-
-        assert not module_name.startswith(".")
-        node = self.find_node(module_name)
-        if node is not None:
-            return node
-
         try:
             try:
                 spec = importlib.util.find_spec(module_name)
@@ -652,9 +636,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-            if spec is None:
-                node = self._create_missing_module(importing_module, module_name)
-                return node
+            return spec
 
         except (Exception, SystemExit) as exc:
             if not isinstance(
@@ -674,11 +656,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 if not parent or parent in sys.modules:
                     # The problem is with the module itself, not with
                     # importing its parent package.
-                    if not isinstance(exc, SyntaxError):
-                        raise
-
-                    # The zipimporter compiles a module to find its spec
-                    return self._create_invalid_module(module_name, exc)
+                    raise
 
                 try:
                     spec = importlib.util.find_spec(parent)
@@ -687,7 +665,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 if spec is None:
                     # The parent only exists in the graph (an alias, or a
                     # node added by a hook), it cannot have submodules.
-                    return self._create_missing_module(importing_module, module_name)
+                    return None
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
@@ -696,16 +674,56 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     assert path.rpartition(os.sep)[-1].startswith("__init__."), path
                     path = os.path.dirname(path)
                     sys.modules[parent] = cast(ModuleType, FakePackage([path]))
-                    return self._load_module(importing_module, module_name)
+                    return self._find_spec(module_name)
 
                 else:
-                    node = self._create_missing_module(importing_module, module_name)
-                    return node
+                    return None
             else:
-                node = self._create_missing_module(importing_module, module_name)
-                return node
+                return None
+
+    def _load_module(
+        self, importing_module: BaseNode | None, module_name: str
+    ) -> BaseNode:
+        """
+        Add a node for a specific module.
+
+        The module must not be part of the graph, and the
+        module_name must be an absolute name (not a relative
+        import.
+
+        This not just adds the loaded module to the graph,
+        but also pushed functions to the work stack that will
+        process the import statements in *module_name*.
+
+        Args:
+          importing_module: The node triggering this import
+
+          module_name: The name to be loaded
+
+        Returns:
+          A new node for *module_name*
+
+        """
+        node: BaseNode
+
+        assert not module_name.startswith(".")
+        node = self.find_node(module_name)
+        if node is not None:
+            return node
+
+        with import_state_lock:
+            try:
+                spec = self._find_spec(module_name)
+
+            except SyntaxError as exc:
+                # The zipimporter compiles a module to find its spec
+                return self._create_invalid_module(module_name, exc)
+
+            if spec is not None:
+                node, imports = node_for_spec(spec, sys.path)
 
-        node, imports = node_for_spec(spec, sys.path)
+        if spec is None:
+            return self._create_missing_module(importing_module, module_name)
 
         if node.name != module_name:
             # Module is aliased in sys.modules. One example of
diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 0186c7b..6e60956 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -12,7 +12,7 @@ import modulegraph2
 
 from ._graphbuilder import node_for_spec
 from ._nodes import BaseNode, ExtensionModule, Module, Package
-from ._utilities import FakePackage
+from ._utilities import FakePackage, import_state_lock
 
 # SWIG uses an absolute import to find an extension
 # module located in a package (basically a Python 2
@@ -28,6 +28,47 @@ from ._utilities import FakePackage
 #   package __init__.
 
 
+def _find_spec(
+    missing_name: str, to_import: str
+) -> importlib.machinery.ModuleSpec | None:
+    """
+    Find the spec for module *missing_name* in package *to_import*.
+    """
+    try:
+        spec = importlib.util.find_spec("." + missing_name, to_import)
+    except ImportError:
+        # Loading the package may fail if there's and error. This
+        # code assumes that's due to the invalid import by swig and
+        # adjusts sys.modules for that before retrying.
+        #
+        # The fake entry in sys.modules is removed as soon as possible
+        # because the assumption is not generally true and leaving the
+        # fake module might cause problems in the generic code dealing
+        # with simular problems.
+        sp = importlib.util.find_spec(to_import)
+
+        # By this time it must be possible to locate the spec,
+        # as we were already passed as proper module node.
+        #
+        # The origin should be set as well, the ImportError shouldn't
+        # happen for implicit namespace packages (which don't have
+        # an __init__.py and no origin)
+        assert sp is not None
+        assert sp.origin is not None
+
+        sys.modules[to_import] = cast(
+            ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
+        )
+
+        try:
+            spec = importlib.util.find_spec("." + missing_name, to_import)
+
+        finally:
+            del sys.modules[to_import]
+
+    return spec
+
+
 def swig_missing_hook(
     graph: "modulegraph2.ModuleGraph",
     importing_module: BaseNode | None,
@@ -66,37 +107,8 @@ def swig_missing_hook(
     else:
         to_import = importing_module.name.rpartition(".")[0]
 
-    try:
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
-        # Loading the package may fail if there's and error. This
-        # code assumes that's due to the invalid import by swig and
-        # adjusts sys.modules for that before retrying.
-        #
-        # The fake entry in sys.modules is removed as soon as possible
-        # because the assumption is not generally true and leaving the
-        # fake module might cause problems in the generic code dealing
-        # with simular problems.
-        sp = importlib.util.find_spec(to_import)
-
-        # By this time it must be possible to locate the spec,
-        # as we were already passed as proper module node.
-        #
-        # The origin should be set as well, the ImportError shouldn't
-        # happen for implicit namespace packages (which don't have
-        # an __init__.py and no origin)
-        assert sp is not None
-        assert sp.origin is not None
-
-        sys.modules[to_import] = cast(
-            ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
-        )
-
-        try:
-            spec = importlib.util.find_spec("." + missing_name, to_import)
-
-        finally:
-            del sys.modules[to_import]
+    with import_state_lock:
+        spec = _find_spec(missing_name, to_import)
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 1423c3c..2e69562 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -5,6 +5,11 @@ Some useful utility functions.
 import contextlib
 import importlib
 import sys
+import threading
+
+# Held while locating modules: this can import packages and temporarily
+# changes sys.modules, which is shared by all graphs in the process.
+import_state_lock = threading.RLock()
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 4dc37ae11c656bc1fb9e489ef0dfed9871b7f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 20/45] fix: SWIG hook fails for toplevel modules and broken
 packages

The hook raised ValueError when a toplevel SWIG module imports a missing
extension, raised the exception of a package that cannot be imported for
another reason than an ImportError, and could remove a module from
sys.modules.
---
 modulegraph2/_swig_support.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 6e60956..cd00117 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -36,7 +36,13 @@ def _find_spec(
     """
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
+    except (Exception, SystemExit) as exc:
+        if to_import in sys.modules:
+            # The package was imported earlier, but isn't really a package
+            if not isinstance(exc, ImportError):
+                raise
+            return None
+
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
         # adjusts sys.modules for that before retrying.
@@ -107,6 +113,10 @@ def swig_missing_hook(
     else:
         to_import = importing_module.name.rpartition(".")[0]
 
+    if not to_import:
+        # A toplevel module, the C extension would be found without this hook.
+        return None
+
     with import_state_lock:
         spec = _find_spec(missing_name, to_import)
 
-- 
2.43.0


From 1dacc244d221389a583f04b9abdaa01fb80c17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 21/45] fix: namespace packages that are imported by a broken
 package

Calculating the search path of the namespace package failed with a KeyError
when its parent package is no longer in sys.modules.
---
 modulegraph2/_modulegraph.py | 60 ++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 8cbc12e..79f7523 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -636,6 +636,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
+            parent = module_name.rpartition(".")[0]
+            if (
+                spec is not None
+                and parent
+                and parent not in sys.modules
+                and spec.submodule_search_locations is not None
+                and spec.origin is None
+            ):
+                # A namespace package that was imported by a package that
+                # cannot be imported. The search path of the namespace package
+                # is calculated using the path of its parent.
+                self._add_fake_package(parent)
+
             return spec
 
         except (Exception, SystemExit) as exc:
@@ -658,22 +671,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     # importing its parent package.
                     raise
 
-                try:
-                    spec = importlib.util.find_spec(parent)
-                except (ModuleNotFoundError, SyntaxError):
-                    spec = None
-                if spec is None:
-                    # The parent only exists in the graph (an alias, or a
-                    # node added by a hook), it cannot have submodules.
-                    return None
-                loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
-                if loader.is_package(spec.name):
-                    path = spec.origin
-                    assert path is not None
-                    assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-                    path = os.path.dirname(path)
-                    sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+                if self._add_fake_package(parent):
                     return self._find_spec(module_name)
 
                 else:
@@ -681,6 +679,36 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             else:
                 return None
 
+    def _add_fake_package(self, parent: str) -> bool:
+        """
+        Add a fake module object to :data:`sys.modules` for package *parent*.
+
+        Args:
+          parent: Name of a package that cannot be imported
+
+        Returns:
+          True when the fake was added, False if *parent* is not a package.
+        """
+        try:
+            spec = importlib.util.find_spec(parent)
+        except (ModuleNotFoundError, SyntaxError):
+            spec = None
+        if spec is None:
+            # The parent only exists in the graph (an alias, or a
+            # node added by a hook), it cannot have submodules.
+            return False
+        loader = spec.loader
+        assert isinstance(loader, importlib.abc.InspectLoader)
+        if loader.is_package(spec.name):
+            path = spec.origin
+            assert path is not None
+            assert path.rpartition(os.sep)[-1].startswith("__init__."), path
+            path = os.path.dirname(path)
+            sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+            return True
+
+        return False
+
     def _load_module(
         self, importing_module: BaseNode | None, module_name: str
     ) -> BaseNode:
-- 
2.43.0


From d325120e940a3e11a8ce8e125a95170c1fb3b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 22/45] fix: recognise classes in modules with more than 256
 constants

The bytecode scanner treated the class body as a function, which affects
global names and imports found in bytecode modules.
---
 modulegraph2/_bytecode_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index e3fddfe..c8450b6 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -160,6 +160,10 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             assert const_offset is not None
 
             if sys.version_info[:2] >= (3, 11):
+                # The code object can have a large constant index
+                while instructions[offset - 2].opname == "EXTENDED_ARG":
+                    offset -= 1
+
                 if (
                     offset >= 2
                     and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-- 
2.43.0


From 88fbe3510f5b0f03be81dfb89b7266fbd3cb268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 23/45] fix: packages of implied modules that cannot be
 imported

Finding a submodule of an implied module, or of a namespace package in a
package without import metadata, raised the exception that prevents
importing the enclosing package.
---
 modulegraph2/_modulegraph.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 79f7523..769decd 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -665,8 +665,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # successfully calling node_for_spec on the parent package,
                 # hence we know that find_spec will be successfull and
                 # will find a pacakge with an __init__.py.
+                #
+                # An import that fails can leave subpackages in sys.modules,
+                # therefore look for the innermost package that isn't there.
                 parent = module_name.rpartition(".")[0]
-                if not parent or parent in sys.modules:
+                while parent in sys.modules:
+                    parent = parent.rpartition(".")[0]
+                if not parent:
                     # The problem is with the module itself, not with
                     # importing its parent package.
                     raise
@@ -690,7 +695,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
           True when the fake was added, False if *parent* is not a package.
         """
         try:
-            spec = importlib.util.find_spec(parent)
+            # The packages that contain *parent* might not be importable either.
+            spec = self._find_spec(parent)
         except (ModuleNotFoundError, SyntaxError):
             spec = None
         if spec is None:
@@ -698,6 +704,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             # node added by a hook), it cannot have submodules.
             return False
         loader = spec.loader
+        if loader is None:
+            # Namespace package
+            assert spec.submodule_search_locations is not None
+            sys.modules[parent] = cast(
+                ModuleType, FakePackage(list(spec.submodule_search_locations))
+            )
+            return True
+
         assert isinstance(loader, importlib.abc.InspectLoader)
         if loader.is_package(spec.name):
             path = spec.origin
-- 
2.43.0


From e5335157aa5ddbca365293a08a87c93ccef60c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 24/45] fix: import the __init__ extension of a package as a
 module

---
 modulegraph2/_graphbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 549aee0..733ab3f 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -450,7 +450,9 @@ def node_for_spec(
 
     loader = cast(importlib.abc.InspectLoader, loader)
 
-    if loader.is_package(spec.name):
+    # (a spec without search path is for the __init__ module of an extension
+    # package that's imported as a submodule of the package)
+    if spec.submodule_search_locations is not None and loader.is_package(spec.name):
         node_file = node.filename
         if node_file is not None:
             node_file = node_file.parent
-- 
2.43.0


From 0c26fce392c88b5f1cd3df13fa0615148f570270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 25/45] fix: broken packages in a zip file and nested namespace
 packages

Locating a submodule failed when the enclosing package is in a zip file and
cannot be imported, or is a namespace package in a broken package.
---
 modulegraph2/_modulegraph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 769decd..a7423c6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -636,18 +636,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-            parent = module_name.rpartition(".")[0]
             if (
                 spec is not None
-                and parent
-                and parent not in sys.modules
                 and spec.submodule_search_locations is not None
                 and spec.origin is None
             ):
-                # A namespace package that was imported by a package that
-                # cannot be imported. The search path of the namespace package
-                # is calculated using the path of its parent.
-                self._add_fake_package(parent)
+                # A namespace package, possibly one that was imported by a
+                # package that cannot be imported. The search path of the
+                # namespace package is calculated using the path of its parents.
+                parent = module_name.rpartition(".")[0]
+                while parent:
+                    if parent not in sys.modules:
+                        self._add_fake_package(parent)
+                    parent = parent.rpartition(".")[0]
 
             return spec
 
@@ -712,8 +713,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             )
             return True
 
-        assert isinstance(loader, importlib.abc.InspectLoader)
-        if loader.is_package(spec.name):
+        if cast(importlib.abc.InspectLoader, loader).is_package(spec.name):
             path = spec.origin
             assert path is not None
             assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-- 
2.43.0


From b276e15dbc38d6b5788bc1f8b1a403483858cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:03 +0000
Subject: [PATCH 26/45] fix: missing package with an implied reference to its
 own submodule

---
 modulegraph2/_modulegraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index a7423c6..4b08fcc 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -930,7 +930,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
             )
-            if isinstance(parent_node, MissingModule):
+            # Loading the package loads the module when the package has it as
+            # an implied reference.
+            node = self._find_module(module_name)
+            if node is not None:
+                pass
+            elif isinstance(parent_node, MissingModule):
                 node = self._create_missing_module(importing_module, module_name)
             elif isinstance(parent_node, ExcludedModule):
                 node = ExcludedModule(module_name)
-- 
2.43.0


From 1e799c6fba7348b40da743da46463fc9a1c0fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 27/45] fix: keep the implied references of a module that could
 not be loaded

---
 modulegraph2/_modulegraph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 4b08fcc..70e2e64 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -582,7 +582,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 return node
 
             else:
-                node = self._find_or_load_module(importing_module, module_name)
+                try:
+                    node = self._find_or_load_module(importing_module, module_name)
+                except BaseException:
+                    # Use the implied references when the module is loaded later
+                    self._global_lazy_nodes.setdefault(module_name, implied)
+                    raise
+
                 for ref in implied:
                     other = self._find_or_load_module(node, ref)
                     self.add_edge(node, other, DEFAULT_DEPENDENCY)
-- 
2.43.0


From 03f4f52b3f7ef6603ff1a77c6c6cc2a59178c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 28/45] fix: modules in a package whose import is blocked are
 missing

---
 modulegraph2/_modulegraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 70e2e64..31eba6c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -677,6 +677,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # therefore look for the innermost package that isn't there.
                 parent = module_name.rpartition(".")[0]
                 while parent in sys.modules:
+                    if sys.modules[parent] is None:
+                        # The import of the package is blocked
+                        return None
                     parent = parent.rpartition(".")[0]
                 if not parent:
                     # The problem is with the module itself, not with
-- 
2.43.0


From be6ff36ffd0f254dbd33b0ec18d906efb358f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 29/45] fix: do not use the metadata of a distribution that is
 being installed

METADATA was read before RECORD, therefore an incomplete METADATA file
could be used (and cached) when the installation finished between the two.
---
 modulegraph2/_distributions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index d197b01..28395f6 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -75,14 +75,8 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
 
     distribution_dir = os.path.dirname(distribution_file)
 
-    with open(os.path.join(distribution_file, "METADATA"), "rb") as meta_fp:
-        info = BytesParser().parse(meta_fp)
-
-    name = info["Name"]
-    version = info["Version"]
-    if not isinstance(name, str) or not isinstance(version, str):
-        raise ValueError(f"incomplete metadata in {distribution_file}")
-
+    # Installers write RECORD last: when that file exists the METADATA that
+    # is read after it is complete.
     with open(os.path.join(distribution_file, "RECORD")) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
@@ -124,6 +118,14 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
 
                 break
 
+    with open(os.path.join(distribution_file, "METADATA"), "rb") as meta_fp:
+        info = BytesParser().parse(meta_fp)
+
+    name = info["Name"]
+    version = info["Version"]
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"incomplete metadata in {distribution_file}")
+
     return PyPIDistribution(
         distribution_file, name, version, set(files), set(import_names), {}
     )
-- 
2.43.0


From edd11b99648f2215a1cd37f51582ad03046f09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 30/45] fix: a module that is too complex to compile is an
 invalid module

Compiling such a module raises RecursionError, which aborted the build.
---
 modulegraph2/_graphbuilder.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 733ab3f..201fa7f 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -255,7 +255,8 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except (SyntaxError, RecursionError):
+                # Invalid source, or source that is too complex to compile
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -268,8 +269,19 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except (SyntaxError, ImportError, EOFError, TypeError, ValueError) as exc:
-            if not isinstance(exc, SyntaxError) and not isinstance(
+        except (
+            SyntaxError,
+            ImportError,
+            EOFError,
+            TypeError,
+            ValueError,
+            RecursionError,
+        ) as exc:
+            if isinstance(exc, RecursionError):
+                if node_type is not InvalidModule:
+                    raise
+
+            elif not isinstance(exc, SyntaxError) and not isinstance(
                 loader, importlib.machinery.SourcelessFileLoader
             ):
                 raise
-- 
2.43.0


From cbf2957f3ec66939913a18e1a3d2b62be7838e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 31/45] fix: names imported from an alias of an alias are
 resolved in the real module

Names imported from an alias were dropped when the alias refers to
another alias.
---
 modulegraph2/_modulegraph.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 31eba6c..9eb6d5f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1088,14 +1088,21 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             ):
                 if isinstance(imported_module, AliasNode):
                     importing_module.globals_written.update(import_info.import_names)
-                    node = self._find_module(imported_module.actual_module)
-                    if node is None:
-                        # Adding the alias was interrupted by an exception
-                        node = self.import_module(
-                            imported_module, imported_module.actual_module
-                        )
-
-                    imported_module = node
+                    aliases: set[str] = set()
+                    while isinstance(imported_module, AliasNode):
+                        if imported_module.identifier in aliases:
+                            # Aliases that refer to each other
+                            return
+                        aliases.add(imported_module.identifier)
+
+                        node = self._find_module(imported_module.actual_module)
+                        if node is None:
+                            # Adding the alias was interrupted by an exception
+                            node = self.import_module(
+                                imported_module, imported_module.actual_module
+                            )
+                        imported_module = node
+
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
                     ):
-- 
2.43.0


From 432e0ba7a4d4648be340d865af699e10de2b4cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 32/45] fix: missing hook that causes an import of the missing
 module itself

A missing hook can import a module that refers to the missing module
(for example through an implied reference), which then already has a
node when the hook returns None.
---
 modulegraph2/_modulegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9eb6d5f..c4834fe 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -417,6 +417,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         if node is not None:
             return node
 
+        node = self._find_module(module_name)
+        if node is not None:
+            # One of the hooks imported something that refers to this module
+            return node
+
         node = MissingModule(module_name)
         self.add_node(node)
         self._process_import_list(node, ())
-- 
2.43.0


From 03f4a19a64444266594afac810d9fef674c409af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 33/45] fix: excludes and implied actions apply to modules that
 are aliased in sys.modules

---
 modulegraph2/_modulegraph.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c4834fe..bf1db9b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -603,6 +603,23 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         else:
             return None
 
+    def _has_lazy_action(self, module_name: str) -> bool:
+        """
+        Check if *module_name*, or one of the packages containing it, is
+        excluded or has implied actions that are not used yet.
+
+        Args:
+          module_name: Absolute name of the module
+        """
+        while module_name:
+            if module_name in self._global_lazy_nodes or isinstance(
+                self._find_module(module_name), ExcludedModule
+            ):
+                return True
+            module_name = module_name.rpartition(".")[0]
+
+        return False
+
     def _find_spec(self, module_name: str) -> importlib.machinery.ModuleSpec | None:
         """
         Find the spec for a module.
@@ -790,6 +807,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
+            if self._has_lazy_action(node.name):
+                # The actual module is excluded or has implied actions
+                actual_node = self._find_or_load_module(alias_node, node.name)
+                self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
+                return alias_node
+
             if self.find_node(node) is None:
                 self.add_node(node)
                 self._process_import_list(node, imports)
-- 
2.43.0


From bc76a0cec70eb496b1599913ede7ba5a8fd25959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 34/45] fix: import_package passes the importing module to
 missing hooks

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index bf1db9b..60e6fa5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -322,7 +322,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         with self._saved_stack():
             if node is None:
-                node = self._find_or_load_module(None, package_name)
+                node = self._find_or_load_module(importing_module, package_name)
 
             self._run_stack()
 
-- 
2.43.0


From f11f7d78e24a080221494e1f6aaa91f9c922b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 35/45] fix: RECORD files in directories with a dot in the name
 are not importable

---
 modulegraph2/_distributions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 28395f6..6d9efa7 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -108,13 +108,13 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 if not relpath.endswith(suffix):
                     continue
 
-                if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
+                name = relpath[: -len(suffix)]
+                if name.endswith("/__init__"):
+                    name = name[: -len("/__init__")]
 
-                else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                # Files such as "pkg/.hidden/mod.py" cannot be imported
+                if all(part and "." not in part for part in name.split("/")):
+                    import_names.append(name.replace("/", "."))
 
                 break
 
-- 
2.43.0


From e4c28e407712141a03a49ba05e9e7ed294962eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 36/45] fix: SWIG support copes with modules in sys.modules
 without a spec

---
 modulegraph2/_swig_support.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index cd00117..a050f26 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -34,6 +34,17 @@ def _find_spec(
     """
     Find the spec for module *missing_name* in package *to_import*.
     """
+    full_name = f"{to_import}.{missing_name}"
+    module = sys.modules.get(full_name)
+    if module is not None and getattr(module, "__spec__", None) is None:
+        # importlib.util.find_spec raises ValueError for module-like objects
+        # without a spec.
+        del sys.modules[full_name]
+        try:
+            return _find_spec(missing_name, to_import)
+        finally:
+            sys.modules[full_name] = module
+
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
     except (Exception, SystemExit) as exc:
-- 
2.43.0


From b10a60226787ead2b0fa9fd9b5234a77259cd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 37/45] fix: import_package reports errors while listing a
 package directory

---
 modulegraph2/_modulegraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 60e6fa5..6d18a23 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -339,9 +339,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             if not path.is_dir():
                 continue
 
-            for fn in sorted(path.glob("*.py")):
+            # (Path.glob ignores errors while reading the directory)
+            entries = sorted(path.iterdir())
+
+            for fn in entries:
                 module = fn.stem
-                if not module.isidentifier():
+                if fn.suffix != ".py" or not module.isidentifier():
                     continue
 
                 module_node = self._find_or_load_module(
@@ -355,7 +358,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     (self.import_package, (node, f"{package_name}.{module}"))
                 )
 
-            for fn in sorted(path.iterdir()):
+            for fn in entries:
                 if (
                     fn.is_dir()
                     and fn.name.isidentifier()
-- 
2.43.0


From 4ba5de7237b6dbf05c626c4d305e3927800ec4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 38/45] fix: hooks that add modules do not process pending work

---
 modulegraph2/_modulegraph.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 6d18a23..1a10b47 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -69,6 +69,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
     _post_processing_seen: set[str]
     _missing_hook: FirstNotNone[MissingCallback]
     _work_stack: list[tuple[Callable, tuple]]
+    _delay_work: bool
     _global_lazy_nodes: dict[str, ImpliesValueType]
 
     def __init__(
@@ -79,6 +80,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self._post_processing_seen = set()
         self._missing_hook = FirstNotNone()
         self._work_stack = []
+        self._delay_work = False
 
         self._global_lazy_nodes = {}
 
@@ -416,7 +418,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
           A new node, either the result of one of the hooks or
           a new :class:`MissingModule`.
         """
-        node = self._missing_hook(self, importing_module, module_name)
+        with self._delayed_work():
+            node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
             return node
 
@@ -532,10 +535,25 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         Process all items in the delayed work queue, until there
         is no more work.
+
+        This does nothing when called by a hook: the work is done after
+        calling the hook.
         """
-        while self._work_stack:
-            func, args = self._work_stack.pop()
-            func(*args)
+        if self._delay_work:
+            return
+
+        with self._delayed_work():
+            while self._work_stack:
+                func, args = self._work_stack.pop()
+                func(*args)
+
+    @contextlib.contextmanager
+    def _delayed_work(self) -> Iterator[None]:
+        saved, self._delay_work = self._delay_work, True
+        try:
+            yield
+        finally:
+            self._delay_work = saved
 
     def _implied_references(
         self, importing_module: BaseNode | None, module_name: str
-- 
2.43.0


From d374e773838c68ba171aa045d07606bca134620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 39/45] fix: hooks can add hooks while they are called

---
 modulegraph2/_callback_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_callback_list.py b/modulegraph2/_callback_list.py
index 2bd7cd5..0d9fd78 100644
--- a/modulegraph2/_callback_list.py
+++ b/modulegraph2/_callback_list.py
@@ -64,7 +64,8 @@ class CallbackList(Generic[T]):
           args: Positional arguments for the function
           kwds: Keyword arguments for the function
         """
-        for function in self._callbacks:
+        # (a copy because the functions can add to the list)
+        for function in self._callbacks[:]:
             function(*args, **kwds)
 
 
@@ -113,7 +114,8 @@ class FirstNotNone(Generic[T]):
         Returns:
           The first not :data:`None` result or :data:`None`
         """
-        for function in self._callbacks:
+        # (a copy because the functions can add to the list)
+        for function in self._callbacks[:]:
             result = function(*args, **kwds)
             if result is not None:
                 return result
-- 
2.43.0


From 01c88b727d8f41597ec76112256b03318be01011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 40/45] fix: add_dependencies_for_source adds names in a fixed
 order

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 1a10b47..aeb931b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -211,7 +211,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         )
         for info in extract_ast_info(ast_node):
             self.add_module(info.import_module)
-            for name in info.import_names:
+            for name in sorted(info.import_names):
                 self.add_module(f"{info.import_module}.{name}")
 
     def add_distribution(
-- 
2.43.0


From 0fb5da8afaf791b5340ab890943a09604514d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 41/45] fix: mypyc hook ignores sources that are too complex to
 compile

---
 modulegraph2/_mypyc_support.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 4a33489..17b902d 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -98,7 +98,8 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except SyntaxError:
+    except (SyntaxError, RecursionError):
+        # Invalid source, or source that is too complex to compile
         return
 
     else:
-- 
2.43.0


From a26d425d580257a22df7d08581a56c8bc92bde94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 42/45] fix: imports of namespace packages are scheduled before
 their hidden import

---
 modulegraph2/_modulegraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index aeb931b..f1c4824 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -848,6 +848,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             return alias_node
 
         self.add_node(node)
+        self._process_import_list(node, imports)
 
         if isinstance(node, Package):
             # Hidden import in explicit namespace packages
@@ -856,8 +857,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 assert nspkg is not None
                 self.add_edge(node, nspkg, DEFAULT_DEPENDENCY)
 
-        self._process_import_list(node, imports)
-
         return node
 
     def _load_script(self, script_path: os.PathLike) -> Script:
-- 
2.43.0


From 8b0361aee294d61e496f5812652a01f414f8567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 43/45] fix: relative imports in source code are invalid
 imports

add_dependencies_for_source raised ValueError for 'from . import x' and
added the absolute module for 'from .a import b'.
---
 modulegraph2/_modulegraph.py | 44 ++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index f1c4824..3bd7141 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -210,6 +210,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
+            if info.import_level:
+                # The code is not part of a package
+                self.add_root(self._invalid_relative_import(info))
+                self._run_stack()
+                continue
+
             self.add_module(info.import_module)
             for name in sorted(info.import_names):
                 self.add_module(f"{info.import_module}.{name}")
@@ -1016,6 +1022,29 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         return node
 
+    def _invalid_relative_import(self, import_info: ImportInfo) -> BaseNode:
+        """
+        Locate the node for a relative import that refers to a location
+        outside of a top-level package, creating the node if necessary.
+
+        Args:
+          import_info: Information about an import
+
+        Returns:
+          The node for the import
+        """
+        invalid_name = ("." * import_info.import_level) + import_info.import_module
+        node = self._find_module(invalid_name)
+        if node is None:
+            node = InvalidRelativeImport(invalid_name)
+            self.add_node(node)
+            self._process_import_list(node, ())
+
+        else:
+            assert isinstance(node, InvalidRelativeImport)  # pragma: nocover
+
+        return node
+
     def _process_import(
         self, importing_module: BaseNode, import_info: ImportInfo
     ) -> None:
@@ -1046,20 +1075,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             )
             if importing_package is None:
                 # Invalid relative import: points to outside of a top-level package
-                invalid_name = (
-                    "." * import_info.import_level
-                ) + import_info.import_module
-                node = self._find_module(invalid_name)
-                if node is None:
-                    node = InvalidRelativeImport(
-                        ("." * import_info.import_level) + import_info.import_module
-                    )
-                    self.add_node(node)
-                    self._process_import_list(node, ())
-
-                else:
-                    assert isinstance(node, InvalidRelativeImport)  # pragma: nocover
-
+                node = self._invalid_relative_import(import_info)
                 self.add_edge(
                     importing_module, node, from_importinfo(import_info, False, None)
                 )
-- 
2.43.0


From 368c29c4b4ef4af22612f8cf77a1f12c7b290b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:53 +0000
Subject: [PATCH 44/45] fix: find distributions for relative and unnormalised
 search path entries

Files in directories on the search path that are not spelled as a
normalised absolute path ('', 'lib', '/a//b', '/a/../b') were not
attributed to their distribution.
---
 modulegraph2/_distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 6d9efa7..230e8d5 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -57,7 +57,7 @@ class PyPIDistribution:
         Returns:
            True if *filename* is part of this distribution, otherwise False.
         """
-        return os.fspath(filename) in self.files
+        return os.path.abspath(filename) in self.files
 
 
 def create_distribution(distribution_file: str) -> PyPIDistribution:
@@ -94,7 +94,7 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 # The record file is a CSV file that can contain quoted strings.
                 relpath = relpath[1:-1].replace('""', '"')
 
-            abspath = os.path.normpath(os.path.join(distribution_dir, relpath))
+            abspath = os.path.abspath(os.path.join(distribution_dir, relpath))
             files.append(abspath)
 
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
@@ -148,6 +148,9 @@ def all_distributions(
 
     for entry in path:
         try:
+            # The search path can contain relative paths, including an empty
+            # string for the current directory.
+            entry = os.path.abspath(entry)
             fnames = sorted(os.listdir(entry))
         except OSError:
             continue
-- 
2.43.0


From 6c7eb6f7f91d1adb92c06e045a1c8d7a9ff75c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 45/45] fix: RECORD files are UTF-8 whatever the locale

In other locales distributions with names that are not ASCII were not
found, or had wrong names.
---
 modulegraph2/_distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 230e8d5..504b141 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -77,7 +77,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
 
     # Installers write RECORD last: when that file exists the METADATA that
     # is read after it is complete.
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"), encoding="utf-8"
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
-- 
2.43.0

