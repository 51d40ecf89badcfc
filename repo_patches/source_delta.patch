From 6807ee39525dc1ebf9391b95860c6f03c6eb5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 01/22] fix: close resource files after reading them

---
 fluent.runtime/fluent/runtime/fallback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index f39bbf8..9a73ba8 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -134,7 +134,8 @@ class FluentResourceLoader(AbstractResourceLoader):
                 path = self.localize_path(os.path.join(root, resource_id), locale)
                 if not os.path.isfile(path):
                     continue
-                content = codecs.open(path, "r", "utf-8").read()
+                with codecs.open(path, "r", "utf-8") as fh:
+                    content = fh.read()
                 resources.append(FluentParser().parse(content))
             if resources:
                 yield resources
-- 
2.43.0


From ddf6f22af572ff8c0a5139a7ad4e738ed0ac0279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/22] fix: keep loading locales after a failed load, and from
 several threads

A generator that raised is finished, so an error while loading one resource
made all further locales disappear for the rest of the object's life. And a
generator can be run by one thread at a time only: concurrent lookups failed
with "generator already executing", or cached bundles in the wrong order.
---
 fluent.runtime/fluent/runtime/fallback.py | 43 +++++++++++++++++++----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index 9a73ba8..5f1ccb9 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -1,5 +1,7 @@
 import codecs
 import os
+import threading
+from itertools import islice
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -7,6 +9,7 @@ from typing import (
     Dict,
     Generator,
     List,
+    Tuple,
     Type,
     Union,
     cast,
@@ -46,7 +49,11 @@ class FluentLocalization:
         self.bundle_class = bundle_class
         self.functions = functions
         self._bundle_cache: List[FluentBundle] = []
-        self._bundle_it = self._iterate_bundles()
+        # The locale to load bundles of, and the number of bundles before it.
+        self._progress: Tuple[int, int] = (0, 0)
+        self._bundle_it: Union[Generator[FluentBundle, None, None], None] = None
+        # Only held to load a bundle, never to use one.
+        self._load_lock = threading.RLock()
 
     def format_value(
         self, msg_id: str, args: Union[Dict[str, Any], None] = None
@@ -72,21 +79,45 @@ class FluentLocalization:
         bundle_pointer = 0
         while True:
             if bundle_pointer == len(self._bundle_cache):
-                try:
-                    self._bundle_cache.append(next(self._bundle_it))
-                except StopIteration:
+                if not self._load_bundle(bundle_pointer):
                     return
             yield self._bundle_cache[bundle_pointer]
             bundle_pointer += 1
 
+    def _load_bundle(self, position: int) -> bool:
+        """
+        Append the bundle for the given position to the cache, unless another
+        thread just did. Return False if there are no more bundles.
+        """
+        with self._load_lock:
+            if position < len(self._bundle_cache):
+                return True
+            # A generator is finished once it raised, so only keep it if it
+            # didn't. Without, loading resumes after the cached bundles.
+            bundle_it, self._bundle_it = self._bundle_it, None
+            if bundle_it is None:
+                bundle_it = self._iterate_bundles()
+            try:
+                self._bundle_cache.append(next(bundle_it))
+            except StopIteration:
+                self._bundle_it = bundle_it
+                return False
+            self._bundle_it = bundle_it
+            return True
+
     def _iterate_bundles(self) -> Generator[FluentBundle, None, None]:
-        for first_loc in range(0, len(self.locales)):
+        start, bundles_before = self._progress
+        loaded = len(self._bundle_cache) - bundles_before
+        for first_loc in range(start, len(self.locales)):
             locs = self.locales[first_loc:]
-            for resources in self.resource_loader.resources(locs[0], self.resource_ids):
+            all_resources = self.resource_loader.resources(locs[0], self.resource_ids)
+            for resources in islice(all_resources, loaded, None):
                 bundle = self._create_bundle(locs)
                 for resource in resources:
                     bundle.add_resource(resource)
                 yield bundle
+            self._progress = (first_loc + 1, len(self._bundle_cache))
+            loaded = 0
 
 
 class AbstractResourceLoader:
-- 
2.43.0


From 11087c141376cbe6fd16ed60ca4275033c995998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 03/22] fix: use overriding definitions of messages that were
 used before

The compiled form of a message or term was looked up by name, and thus
add_resource with allow_overrides had no effect on those already compiled.
---
 fluent.runtime/fluent/runtime/bundle.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..814d326 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -43,7 +43,8 @@ class FluentBundle:
         self.use_isolating = use_isolating
         self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
         self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
-        self._compiled: Dict[str, Message] = {}
+        # By the definition compiled, as that can be overridden.
+        self._compiled: Dict[Union[FTL.Message, FTL.Term], Message] = {}
         # The compiler is not typed, and this cast is only valid for the public API
         self._compiler = cast(
             Callable[[Union[FTL.Message, FTL.Term]], Message], Compiler()
@@ -77,17 +78,13 @@ class FluentBundle:
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-        if term:
-            compiled_id = "-" + entry_id
-        else:
-            compiled_id = entry_id
+        entry = self._terms[entry_id] if term else self._messages[entry_id]
         try:
-            return self._compiled[compiled_id]
+            return self._compiled[entry]
         except LookupError:
             pass
-        entry = self._terms[entry_id] if term else self._messages[entry_id]
-        self._compiled[compiled_id] = self._compiler(entry)
-        return self._compiled[compiled_id]
+        # If several threads get here, they all need to use the same object.
+        return self._compiled.setdefault(entry, self._compiler(entry))
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0


From 4f6ddfa7c439373e2e61221e5c28956b60a572d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 04/22] fix: keep which of two repeated hours a datetime
 denotes

---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From 7402172857b3b1b4aa6b34a19f0b4c04c855e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 05/22] fix: read the file to highlight as UTF-8, whatever the
 locale

---
 fluent.pygments/fluent/pygments/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.pygments/fluent/pygments/cli.py b/fluent.pygments/fluent/pygments/cli.py
index 652155b..253c561 100644
--- a/fluent.pygments/fluent/pygments/cli.py
+++ b/fluent.pygments/fluent/pygments/cli.py
@@ -10,7 +10,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument("path")
     args = parser.parse_args()
-    with open(args.path) as fh:
+    with open(args.path, encoding="utf-8") as fh:
         code = fh.read()
     highlight(code, FluentLexer(), Terminal256Formatter(), sys.stdout)
 
-- 
2.43.0


From 3a3882f68176d5d8ec00aa19495c22ff70693bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 06/22] fix: don't take errors in a referenced pattern for a
 missing reference

A LookupError or TypeError raised while formatting the referenced message
was reported as an unknown message or missing pattern.
---
 fluent.runtime/fluent/runtime/resolver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..2095cdc 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -68,8 +68,10 @@ class ResolverEnvironment:
         # copy returned by attr.evolve is fine (at least for now).
         old_current = self.current
         self.current = attr.evolve(old_current, **replacements)
-        yield self
-        self.current = old_current
+        try:
+            yield self
+        finally:
+            self.current = old_current
 
     def modified_for_term_reference(
         self, args: Union[Dict[str, Any], None] = None
@@ -236,15 +238,15 @@ def resolveEntryReference(
             pattern = entry.attributes[ref.attribute.name]
         else:
             pattern = entry.value  # type: ignore
-        return pattern(env)
     except LookupError:
         ref_id = reference_to_id(ref)
         env.errors.append(unknown_reference_error_obj(ref_id))
         return FluentNone(f"{{{ref_id}}}")
-    except TypeError:
+    if pattern is None:
         ref_id = reference_to_id(ref)
         env.errors.append(FluentReferenceError(f"No pattern: {ref_id}"))
         return FluentNone(ref_id)
+    return pattern(env)
 
 
 class MessageReference(FTL.MessageReference, BaseResolver):
-- 
2.43.0


From ade37473dca862e732ab69a62d90ae9b5f2ce9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 07/22] fix: report errors of formatting a value, instead of
 raising them

Formatting fails for instance for time zones or options that Babel doesn't
know. Such an error costs its placeable only, like errors in functions.
---
 fluent.runtime/fluent/runtime/bundle.py   | 2 +-
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 814d326..0b71e0e 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -103,7 +103,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except Exception as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 2095cdc..2c3df71 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -170,7 +170,11 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        try:
+            return fluentish.format(env.context._babel_locale)
+        except Exception as e:
+            env.errors.append(e)
+            return FluentNone().format(env.context._babel_locale)
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
-- 
2.43.0


From 7337c74b11c23381f27cbcb6300938f37cda0bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 08/22] fix: bound the evaluation of patterns that are just a
 placeable

Cycles through such patterns ended in a RecursionError, and their number
was not limited, so that a few lines could keep formatting busy for ever.
---
 fluent.runtime/fluent/runtime/resolver.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 2c3df71..85de60e 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -53,7 +53,7 @@ class ResolverEnvironment:
     context: "FluentBundle" = attr.ib()
     errors: List[Exception] = attr.ib()
     part_count: int = attr.ib(default=0, init=False)
-    active_patterns: Set[FTL.Pattern] = attr.ib(factory=set, init=False)
+    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(factory=set, init=False)
     current: CurrentEnvironment = attr.ib(factory=CurrentEnvironment)
 
     @contextlib.contextmanager
@@ -205,7 +205,18 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        # This is the only part of its pattern, and has the same protections.
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        if env.part_count >= Pattern.MAX_PARTS:
+            raise ValueError(
+                "Too many parts in message (> {}), aborting.".format(Pattern.MAX_PARTS)
+            )
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.part_count += 1
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From 4f4221d14ee3982eedd5a5ffe5f44b50c42f800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 09/22] fix: don't build documentation from a checkout that
 failed

If git couldn't check out a release, its documentation was silently built
from whatever version was checked out before.
---
 fluent.docs/fluent/docs/build.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index fbdfe52..54574a8 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -49,9 +49,11 @@ def build(repo_name, projects, releases_after=None):
     for tag in tagged_versions:
         if worktree is None:
             worktree = tempfile.mkdtemp()
-            subprocess.run(["git", "worktree", "add", "--detach", worktree])
+            subprocess.run(["git", "worktree", "add", "--detach", worktree], check=True)
         subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"], cwd=worktree
+            ["git", "checkout", f"{tag.project}@{tag.version}"],
+            cwd=worktree,
+            check=True,
         )
         with ProjectBuilder(
             repo_name,
-- 
2.43.0


From 0e09ee8638c8c45c4f70a713896e2dbc9d527d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 10/22] fix: remove the temporary checkout also if building a
 release fails

---
 fluent.docs/fluent/docs/build.py | 42 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index 54574a8..9fda2b7 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -46,25 +46,29 @@ def build(repo_name, projects, releases_after=None):
         target = "stable" if last_vers[project] != "dev" else "dev"
         index.write_text(f'<meta http-equiv="refresh" content="0; URL={target}/">\n')
     worktree = None
-    for tag in tagged_versions:
-        if worktree is None:
-            worktree = tempfile.mkdtemp()
-            subprocess.run(["git", "worktree", "add", "--detach", worktree], check=True)
-        subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"],
-            cwd=worktree,
-            check=True,
-        )
-        with ProjectBuilder(
-            repo_name,
-            os.path.join(worktree, tag.project),
-            tag.project,
-            versions_4_project[tag.project],
-            tag.version,
-        ) as builder:
-            builder.build()
-    if worktree is not None:
-        shutil.rmtree(worktree)
+    try:
+        for tag in tagged_versions:
+            if worktree is None:
+                worktree = tempfile.mkdtemp()
+                subprocess.run(
+                    ["git", "worktree", "add", "--detach", worktree], check=True
+                )
+            subprocess.run(
+                ["git", "checkout", f"{tag.project}@{tag.version}"],
+                cwd=worktree,
+                check=True,
+            )
+            with ProjectBuilder(
+                repo_name,
+                os.path.join(worktree, tag.project),
+                tag.project,
+                versions_4_project[tag.project],
+                tag.version,
+            ) as builder:
+                builder.build()
+    finally:
+        if worktree is not None:
+            shutil.rmtree(worktree)
     for project in projects:
         if last_vers[project] == "dev":
             continue
-- 
2.43.0


From 9fd87d7f9c87a88ace46ced01b4e1a82dffdf0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 11/22] fix: don't replace a definition that another thread
 just added

Without allow_overrides the first definition counts. Checking for it and
adding one were separate steps, so that a later one could replace it.
---
 fluent.runtime/fluent/runtime/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 0b71e0e..fb95dab 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -68,8 +68,10 @@ class FluentBundle:
                 continue
             map_ = self._messages if isinstance(item, FTL.Message) else self._terms
             full_id = item.id.name
-            if full_id not in map_ or allow_overrides:
+            if allow_overrides:
                 map_[full_id] = item
+            else:
+                map_.setdefault(full_id, item)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From 0ff6fa319c286c9826160fd8cee9bea27232f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 12/22] fix: comments with empty lines stay whole in files with
 CRLF line ends

ParserStream.peek() returned the carriage return of a CRLF pair, unlike
current_peek, so is_next_line_comment() did not see an empty comment line:
the comment was split there, and only its rest attached to the message.
---
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..d09a4f7 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -51,7 +51,7 @@ class ParserStream:
         ):
             self.peek_offset += 1
         self.peek_offset += 1
-        return self.get(self.index + self.peek_offset)
+        return self.current_peek
 
     def reset_peek(self, offset: int = 0) -> None:
         self.peek_offset = offset
-- 
2.43.0


From 4584de0292c6341007c00644147134d1f90d8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 13/22] fix: tools fail on files that end inside a UTF-8
 character

codecs.open().read() drops an incomplete character at the end of a file
without an error, so a file cut short there was printed as if it were
complete. The io module decodes strictly up to the end; newline='' keeps
line ends as stored, as before.
---
 tools/fluentfmt.py | 3 +--
 tools/parse.py     | 3 +--
 tools/serialize.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/fluentfmt.py b/tools/fluentfmt.py
index 9d6b75a..b4146a0 100755
--- a/tools/fluentfmt.py
+++ b/tools/fluentfmt.py
@@ -1,6 +1,5 @@
 #!/usr/bin/python
 
-import codecs
 import sys
 
 from fluent.syntax import parse, serialize
@@ -9,7 +8,7 @@ sys.path.append("./")
 
 
 def read_file(path):
-    with codecs.open(path, "r", encoding="utf-8") as file:
+    with open(path, encoding="utf-8", newline="") as file:
         text = file.read()
     return text
 
diff --git a/tools/parse.py b/tools/parse.py
index f3fece9..1934cca 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -1,6 +1,5 @@
 #!/usr/bin/python
 
-import codecs
 import json
 import sys
 
@@ -10,7 +9,7 @@ sys.path.append("./")
 
 
 def read_file(path):
-    with codecs.open(path, "r", encoding="utf-8") as file:
+    with open(path, encoding="utf-8", newline="") as file:
         text = file.read()
     return text
 
diff --git a/tools/serialize.py b/tools/serialize.py
index dccaa8d..0f21c5f 100755
--- a/tools/serialize.py
+++ b/tools/serialize.py
@@ -1,6 +1,5 @@
 #!/usr/bin/python
 
-import codecs
 import json
 import sys
 
@@ -10,7 +9,7 @@ sys.path.append("./")
 
 
 def read_json(path):
-    with codecs.open(path, "r", encoding="utf-8") as file:
+    with open(path, encoding="utf-8", newline="") as file:
         return json.load(file)
 
 
-- 
2.43.0


From 71ff841b3efb1ebebc3bac4863bbf44525019995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 14/22] fix: serialize texts containing exotic line separators
 unchanged

Indenting continuation lines used str.splitlines(), which also splits at
U+0085, U+2028, form feeds and others, so four spaces were inserted into
such texts each time they were serialized.
---
 fluent.syntax/fluent/syntax/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..988ecbb 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,12 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only a line feed ends a line in Fluent; str.splitlines() knows many more.
+    return re.sub(r"\n(?!\Z)", "\n    ", content)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From 37e284c0481caaf719e787207d6696925e37898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 15/22] fix: let transformers remove properties

Returning None for a property such as a message's comment deleted the
attribute while iterating over the attributes: RuntimeError, and a node
no longer usable.
---
 fluent.syntax/fluent/syntax/visitor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..ee73712 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -48,7 +48,8 @@ class Transformer(Visitor):
         return visit(node)
 
     def generic_visit(self, node: Node) -> Node:  # type: ignore
-        for propname, propvalue in vars(node).items():
+        # Callbacks may remove properties, so iterate over a copy.
+        for propname, propvalue in list(vars(node).items()):
             if isinstance(propvalue, list):
                 new_vals: List[Any] = []
                 for child in propvalue:
@@ -58,9 +59,6 @@ class Transformer(Visitor):
                 # in-place manipulation
                 propvalue[:] = new_vals
             elif isinstance(propvalue, BaseNode):
-                new_val = self.visit(propvalue)
-                if new_val is None:
-                    delattr(node, propname)
-                else:
-                    setattr(node, propname, new_val)
+                # A removed property is None, as for nodes built without it.
+                setattr(node, propname, self.visit(propvalue))
         return node
-- 
2.43.0


From f6ae9abf6022bdf4b9e7d32c7cb3bc0969837c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 16/22] fix: serialize resources with junk without growing them

Junk includes the blank lines that follow it, so the blank line written
before a comment made the resource grow with each save.  Entries after
junk without a line break were joined to it and lost.
---
 fluent.syntax/fluent/syntax/serializer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 988ecbb..f0578af 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -55,9 +55,12 @@ class FluentSerializer:
         parts: List[str] = []
         for entry in resource.body:
             if not isinstance(entry, ast.Junk) or self.with_junk:
+                if parts and not parts[-1].endswith("\n"):
+                    # Junk from the end of a file without a line break.
+                    parts.append("\n")
                 parts.append(self.serialize_entry(entry, state))
-                if not state & self.HAS_ENTRIES:
-                    state |= self.HAS_ENTRIES
+                # Junk includes the blank lines which follow it.
+                state = 0 if isinstance(entry, ast.Junk) else self.HAS_ENTRIES
 
         return "".join(parts)
 
-- 
2.43.0


From e24d2d6acb8ac895100482ab08774e53054fe7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 17/22] fix: parse comments which end with the file after their
 hash signs

A file ending in "#" without a line break ended in junk, although the
grammar allows an empty comment line there; once a line break was added
the junk became a comment, possibly merged with what was added after it.
---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..096bf6d 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char not in (EOL, EOF):
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index d09a4f7..e24da82 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,7 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        if self.peek() in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From c05391e5273fb375feee09af691c0e0d5550354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 18/22] fix: accept escapes beyond U+10FFFF in string literals

---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..1747ec7 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -217,11 +217,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or none at
+            # all, are well-formed but invalid in Fluent. Replace them with
+            # U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From 70b2409e0b45f3d73679096d7e1caf7ca80391b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 19/22] fix: parse deeply nested entries as junk

Parsing some hundred nested placeables or call arguments, as in a damaged or
hostile file, raised RecursionError, and with it all other entries were lost.
Limit the nesting to 50 levels, which whatever processes the AST can handle
within Python's default recursion limit.
---
 fluent.syntax/fluent/syntax/errors.py |  2 ++
 fluent.syntax/fluent/syntax/parser.py | 14 ++++++++++++++
 fluent.syntax/fluent/syntax/stream.py |  1 +
 3 files changed, 17 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/errors.py b/fluent.syntax/fluent/syntax/errors.py
index b6a59f5..85072c9 100644
--- a/fluent.syntax/fluent/syntax/errors.py
+++ b/fluent.syntax/fluent/syntax/errors.py
@@ -67,4 +67,6 @@ def get_error_message(code: str, args: Tuple[Union[str, None], ...]) -> str:
         return "Expected an inline expression"
     if code == "E0029":
         return "Expected simple expression as selector"
+    if code == "E0030":
+        return "Nested deeper than {} levels".format(args[0])
     return code
diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 096bf6d..02e9129 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -7,6 +7,10 @@ from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
+# How deep placeables and call arguments can be nested. Each level takes several
+# Python stack frames, in the parser as well as in whatever processes the AST.
+MAX_NESTING = 50
+
 
 def with_span(fn: Callable[..., R]) -> Callable[..., R]:
     def decorated(
@@ -112,6 +116,7 @@ class FluentParser:
 
     def get_entry_or_junk(self, ps: FluentParserStream) -> ast.EntryType:
         entry_start_pos = ps.index
+        ps.nesting = 0
 
         try:
             entry = self.get_entry(ps)
@@ -528,12 +533,19 @@ class FluentParser:
 
         return f"\\{u}{sequence}"
 
+    def enter_nested(self, ps: FluentParserStream) -> None:
+        ps.nesting += 1
+        if ps.nesting > MAX_NESTING:
+            raise ParseError("E0030", str(MAX_NESTING))
+
     @with_span
     def get_placeable(self, ps: FluentParserStream) -> ast.Placeable:
         ps.expect_char("{")
+        self.enter_nested(ps)
         ps.skip_blank()
         expression = self.get_expression(ps)
         ps.expect_char("}")
+        ps.nesting -= 1
         return ast.Placeable(expression)
 
     @with_span
@@ -665,6 +677,7 @@ class FluentParser:
         argument_names: Set[str] = set()
 
         ps.expect_char("(")
+        self.enter_nested(ps)
         ps.skip_blank()
 
         while True:
@@ -692,6 +705,7 @@ class FluentParser:
             break
 
         ps.expect_char(")")
+        ps.nesting -= 1
         return ast.CallArguments(positional, named)
 
     @with_span
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index e24da82..d89efd5 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -10,6 +10,7 @@ class ParserStream:
         self.string = string
         self.index = 0
         self.peek_offset = 0
+        self.nesting = 0
 
     def get(self, offset: int) -> Union[str, None]:
         try:
-- 
2.43.0


From c95d0dda78ef5a2bd221db6f29127bb762df03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 20/22] fix: accept number literals with more digits than int()
 converts

Looking up a message that contains such a literal, for example in a damaged
file, raised ValueError.
---
 fluent.runtime/fluent/runtime/resolver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 85de60e..30f0364 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -235,7 +235,11 @@ class NumberLiteral(FTL.NumberLiteral, BaseResolver):
         if "." in cast(str, self.value):
             self.value = FluentFloat(self.value)
         else:
-            self.value = FluentInt(self.value)
+            try:
+                self.value = FluentInt(self.value)
+            except ValueError:
+                # Python limits the number of digits it converts to an integer.
+                self.value = FluentFloat(self.value)
 
     def __call__(self, env: ResolverEnvironment) -> Union[FluentFloat, FluentInt]:
         return self.value
-- 
2.43.0


From 7dc9bf6f69e28495b0148563de8b8b7f471704e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:50 +0000
Subject: [PATCH 21/22] fix: limit how many digits number options ask for

A translation with a huge minimumIntegerDigits or minimumFractionDigits kept
formatting busy for hours or used up the memory.
---
 fluent.runtime/fluent/runtime/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..bc96c22 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -28,6 +28,10 @@ CURRENCY_DISPLAY_OPTIONS = {
     CURRENCY_DISPLAY_NAME,
 }
 
+# Options in translations must not make numbers arbitrarily long. Messages do not
+# accept more characters in a placeable either.
+MAX_DIGITS = 2500
+
 NUMBER_TYPE_ORDINAL = "ordinal"
 NUMBER_TYPE_CARDINAL = "cardinal"
 NUMBER_TYPE_OPTIONS = {
@@ -188,6 +192,14 @@ class FluentNumber(FluentType):
             max_digits = maxSD if maxSD is not None else min_digits
             pattern.int_prec = (min_digits, max_digits)
         else:
+            for digits in (
+                self.options.minimumIntegerDigits,
+                self.options.minimumFractionDigits,
+            ):
+                if digits is not None and digits > MAX_DIGITS:
+                    raise ValueError(
+                        f"Too many digits ({digits}, max allowed is {MAX_DIGITS})"
+                    )
             if self.options.minimumIntegerDigits is not None:
                 pattern.int_prec = (
                     self.options.minimumIntegerDigits,
-- 
2.43.0


From 12e57ea2411377a49b08f93466a02f604140b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 22/22] fix: forget compiled definitions once they are
 overridden

---
 fluent.runtime/fluent/runtime/bundle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index fb95dab..0efb45b 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,7 +69,10 @@ class FluentBundle:
             map_ = self._messages if isinstance(item, FTL.Message) else self._terms
             full_id = item.id.name
             if allow_overrides:
+                replaced = map_.get(full_id)
                 map_[full_id] = item
+                if replaced is not None and replaced is not item:
+                    self._compiled.pop(replaced, None)
             else:
                 map_.setdefault(full_id, item)
 
@@ -86,7 +89,11 @@ class FluentBundle:
         except LookupError:
             pass
         # If several threads get here, they all need to use the same object.
-        return self._compiled.setdefault(entry, self._compiler(entry))
+        compiled = self._compiled.setdefault(entry, self._compiler(entry))
+        if (self._terms if term else self._messages)[entry_id] is not entry:
+            # It was overridden meanwhile, and won't be looked up any more.
+            self._compiled.pop(entry, None)
+        return compiled
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0

