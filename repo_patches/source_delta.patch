From 446b3379d679a29dd5da682f724fbdf7b8eab7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/18] fix: read versions back exactly through several deltas
 with LineTokenizer

---
 src/gaspra/versions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..7b17424 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -110,6 +110,10 @@ class Versions:
                 for c in stripped_changeset
             )
             encoded_patched = apply(encoded_stripped_changeset, encoded_patched)
+            # The pieces were encoded one by one, which may give other
+            # tokens than encoding the whole, which is what the slices
+            # of the next changeset count in.
+            encoded_patched = tokenizer.encode(tokenizer.decode(encoded_patched))
 
         return tokenizer.decode(encoded_patched)
 
-- 
2.43.0


From 6876e20615735694810a57b794c39a617775d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/18] fix: give every diff() and merged() call its own
 default tokenizer

---
 src/gaspra/tokenizers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..f4c4e05 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -226,13 +226,17 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    # A tokenizer remembers what it encoded, so every call needs its own.
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -245,7 +249,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -254,6 +258,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 9a89f259c03004f16e6f6d6a342861831d34e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/18] fix: merged() passed decode_changes() an argument it
 does not take

---
 src/gaspra/tokenizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index f4c4e05..98179f0 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -266,5 +266,5 @@ def merged(
     encoded_other = tokenizer.encode(other)
 
     changes = merge_token_sequence(encoded_parent, encoded_current, encoded_other)
-    merged = decode_changes(changes, tokenizer, transformer)
+    merged = transformer(decode_changes(changes, tokenizer))
     return merged
-- 
2.43.0


From b4c6efb8e816b9e6c6094468f89c353c8ec91d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 04/18] fix: a manifest may name files its base manifest does
 not have

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From 9fbf7a2e855ad03b0e49dcbb20ffff8777cea96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/18] fix: --strikeout crashed and leaked into later
 invocations

---
 src/gaspra/markup.py     | 13 ++++++++-----
 src/gaspra/merge_tool.py |  5 +++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..e068f7d 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -38,12 +38,15 @@ COLORED_LEVEL1 = {
 }
 
 
-def strikeout_level0() -> str:
-    return "[dark_red strike]"
-
+strikeout_level0 = {
+    "prefix": lambda _: "[dark_red strike]",
+    "suffix": lambda _: "[/]",
+}
 
-def strikeout_level1() -> str:
-    return "[pink1 strike]"
+strikeout_level1 = {
+    "prefix": lambda _: "[pink1 strike]",
+    "suffix": lambda _: "[/]",
+}
 
 
 def show_header(print, header, markup={}):
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..ca05c4a 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -152,13 +152,14 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    # Work on a copy, so that strikeout doesn't end up in the constants.
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
     if arguments.strikeout and allow_strikeout:
         markup["level0"]["from"] = strikeout_level0
         markup["level1"]["from"] = strikeout_level1
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From 6ec4bdd2bf28011f1ac5f82583433618a4924ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 06/18] fix: refuse duplicate tags and unknown bases, and let
 an older version be forked

---
 src/gaspra/versions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 7b17424..c6a9212 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -32,9 +32,21 @@ class Versions:
     tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer
 
     def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
+        # Refuse before anything is changed.
+        if tag in self.tree:
+            raise KeyError(f"Version already exists: {tag!r}")
+        path_to_base = () if existing_head is None else self.tree.path_to(existing_head)
+        if existing_head is not None and not path_to_base:
+            raise KeyError(f"Base version does not exist: {existing_head!r}")
+
         self.head_version[tag] = version
         self.tree.add(tag, existing_head)
 
+        # A base that already has a successor is not a head any more.
+        # The new version is a fork and becomes the head of its own line.
+        if path_to_base and len(path_to_base) > 1:
+            return
+
         # Find the best split best split among the descendants of existing_head.
         if existing_head is not None:
             split, path_to_split = self.tree.get_split(existing_head)
-- 
2.43.0


From e2afc4b842f44af89ac1991142ebf8f8b873c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 07/18] fix: keep the split readable when add() fails or
 crashes half-way

---
 src/gaspra/versions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index c6a9212..40a9e25 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -56,6 +56,9 @@ class Versions:
         # If there is an appropriate split, move it up to be a child of `tag`
         if split is not None and path_to_split is not None and split != existing_head:
             split_version = self._retrieve_using_path(path_to_split)
+            # Keep a full copy until the split has its new parent, so that
+            # it can be read at any time in between.
+            self.head_version[split] = split_version
             self._add_edge(
                 tag,
                 split,
@@ -111,11 +114,16 @@ class Versions:
         """
         # Initialize with root_version,
         # then apply all of the patches in the path.
-        patched = self.head_version[path[0]]
+        # Start from the last version in the path with a full copy.
+        start = 0
+        for index, tag in enumerate(path):
+            if tag in self.head_version:
+                start = index
+        patched = self.head_version[path[start]]
         tokenizer = self.tokenizer_factory()
         encoded_patched = tokenizer.encode(patched)
 
-        for tag in path[1:]:
+        for tag in path[start + 1 :]:
             stripped_changeset = deserialize_changeset(self.diffs[tag])
             encoded_stripped_changeset = tuple(
                 c if type(c) is slice else tokenizer.encode(c)
-- 
2.43.0


From 466f32bf0f212b15f2be6d7f0dff1e98d1ed0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 08/18] fix: version_info() of a version whose addition failed
 is None

---
 src/gaspra/versions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 40a9e25..d13e33a 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -151,6 +151,10 @@ class Versions:
         """
         Return information about a version.
         """
+        # A failed add() may have left data of a version it did not add.
+        if tag not in self.tree:
+            return None
+
         if (changeset := self.diffs.get(tag)) is not None:
             changeset = tuple(deserialize_changeset(changeset))
             token_count = sum(len(c) for c in changeset if not isinstance(c, slice))
-- 
2.43.0


From 450a5a22c78342698e32dc663d892eaf44d57e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 09/18] fix: DBCollection lacked the rest of the mapping
 interface version_info() uses

---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..0f81210 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,3 +1,4 @@
+from collections.abc import MutableMapping
 from typing import Callable
 
 from sqlite3 import Connection
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From 6ce9a1eb0e3f5b35a5c069d723c3a54029ccf4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 10/18] fix: iterating a DBCollection held a lock and could
 undo other operations

---
 src/gaspra/db_collections.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index 0f81210..d30e53e 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -70,9 +70,10 @@ class DBCollection(MutableMapping):
     def __iter__(self):
         statement = ITER.format(table=self.table)
         with self.connection_factory() as connection:
-            result = connection.cursor().execute(statement)
-            for row in result:
-                yield row[0]
+            # Don't stay inside the transaction between steps.
+            result = connection.cursor().execute(statement).fetchall()
+        for row in result:
+            yield row[0]
 
     def __len__(self):
         statement = LENGTH.format(table=self.table)
-- 
2.43.0


From ab07f05fe86a9efa49b796790e18956ba10de412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 11/18] fix: DBTree.change_parent() updates links and metrics
 in one transaction

---
 src/gaspra/db_tree.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index ac4963d..1b9cab1 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -108,8 +108,9 @@ class DBTree:
                 ADD_CHILDx.format(x=child), (tag_rid, new_parent_rid)
             )
 
-        self._update_metrics(original_parent, original_parent_rid)
-        self._update_metrics(new_parent, new_parent_rid)
+            # The metrics must change along with the links or not at all.
+            self._update_metrics(connection, original_parent, original_parent_rid)
+            self._update_metrics(connection, new_parent, new_parent_rid)
 
     def get_split(self, tag: Hashable):
         return self.new_get_split(tag)
@@ -126,17 +127,16 @@ class DBTree:
                 depth += 1
         return tag, path
 
-    def _update_metrics(self, tag: str, tag_rid: int):
-        self._new_update_metrics(tag, tag_rid)
+    def _update_metrics(self, connection: Connection, tag: str, tag_rid: int):
+        self._new_update_metrics(connection, tag, tag_rid)
 
-    def _new_update_metrics(self, tag: str, tag_rid: int):
-        with self.connection_factory() as connection:
-            while tag_rid is not None:
-                _, parent_rid, height, size = connection.execute(
-                    GET_NODE_METRICS, (tag_rid,)
-                ).fetchone()
-                connection.execute(UPDATE_METRICS, (height, size, tag_rid))
-                tag_rid = parent_rid
+    def _new_update_metrics(self, connection: Connection, tag: str, tag_rid: int):
+        while tag_rid is not None:
+            _, parent_rid, height, size = connection.execute(
+                GET_NODE_METRICS, (tag_rid,)
+            ).fetchone()
+            connection.execute(UPDATE_METRICS, (height, size, tag_rid))
+            tag_rid = parent_rid
 
     def old_get_split(self, tag: Hashable):
         with self.connection_factory() as connection:
-- 
2.43.0


From d0ab7b46b03d2e815ef1e84b6cd654a9a0bdb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 12/18] fix: close the output file also when a diff or merge
 command fails

Left open, it was closed whenever the exception was garbage collected.
Its buffer could then overwrite what a later command of the same process
had written to the file.
---
 src/gaspra/markup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index e068f7d..3115ffe 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -59,10 +59,10 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
-
-    yield file.write, lambda _: _
-    file.close()
+    # Close it on failure, too.  Otherwise, what is still buffered might be
+    # written later, when the file already has other contents.
+    with open(filename, "wt", encoding="utf-8") as file:
+        yield file.write, lambda _: _
 
 
 @contextmanager
-- 
2.43.0


From 00c4f4bc1f84e75eb45923f50b45def07d479186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 13/18] fix: diffs of texts with many changes exceeded the
 recursion limit

find_changeset() and the streams of a Changeset recursed once for every
common part, so texts with about a thousand changes (say, a file of 2000
lines of which every other one changed) could neither be diffed, nor
merged, nor added to a version store.
---
 src/gaspra/changesets.py | 92 ++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/gaspra/changesets.py b/src/gaspra/changesets.py
index 9704f5b..51e5d31 100644
--- a/src/gaspra/changesets.py
+++ b/src/gaspra/changesets.py
@@ -114,10 +114,13 @@ class Changeset:
         # Construction of the tree creates "empty" changesets.  Omit
         # those from the output stream.
 
-        yield from self.prefix._stream(original)
-        copy = original[self.common_original]
-        yield CopyFragment(insert=copy, length=len(copy))
-        yield from self.suffix._stream(original)
+        node = self
+        while isinstance(node, Changeset):
+            yield from node.prefix._stream(original)
+            copy = original[node.common_original]
+            yield CopyFragment(insert=copy, length=len(copy))
+            node = node.suffix
+        yield from node._stream(original)
 
     def as_change_stream(self) -> ChangeIterable:
         """Produce a simple output stream containing changes.
@@ -128,9 +131,12 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_change_stream()
-        yield CommonSlice(self.common_original, self.common_modified)
-        yield from self.suffix.as_change_stream()
+        node = self
+        while isinstance(node, Changeset):
+            yield from node.prefix.as_change_stream()
+            yield CommonSlice(node.common_original, node.common_modified)
+            node = node.suffix
+        yield from node.as_change_stream()
 
     def as_diff_stream(self, original: str | TokenSequence) -> DiffIterable:
         """Produce a simpler output stream than _stream() suitable
@@ -141,19 +147,28 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_diff_stream(original)
-        yield original[self.common_original]
-        yield from self.suffix.as_diff_stream(original)
+        node = self
+        while isinstance(node, Changeset):
+            yield from node.prefix.as_diff_stream(original)
+            yield original[node.common_original]
+            node = node.suffix
+        yield from node.as_diff_stream(original)
 
     def old_apply_forward(self, original: str | TokenSequence):
-        yield from self.prefix.old_apply_forward(original)
-        yield original[self.common_original]
-        yield from self.suffix.old_apply_forward(original)
+        node = self
+        while isinstance(node, Changeset):
+            yield from node.prefix.old_apply_forward(original)
+            yield original[node.common_original]
+            node = node.suffix
+        yield from node.old_apply_forward(original)
 
     def old_apply_reverse(self, modified: str | TokenSequence):
-        yield from self.prefix.old_apply_reverse(modified)
-        yield modified[self.common_modified]
-        yield from self.suffix.old_apply_reverse(modified)
+        node = self
+        while isinstance(node, Changeset):
+            yield from node.prefix.old_apply_reverse(modified)
+            yield modified[node.common_modified]
+            node = node.suffix
+        yield from node.old_apply_reverse(modified)
 
     # Exclude __str__ from coverage because it's only used for debugging.
     def __str__(self):  # pragma: no cover
@@ -216,20 +231,19 @@ def find_changeset(
     original_slice: slice = slice(0, None),
     modified_slice: slice = slice(0, None),
 ) -> Changeset | ChangesetLeaf:
-    automaton_original = build(original[original_slice])
+    # The suffixes are taken one after the other rather than recursively.
+    # Texts that have many changes would exceed the recursion limit.
+    found = []
+    while True:
+        automaton_original = build(original[original_slice])
+
+        common_offset_original, common_offset_modified, common_length = find_lcs(
+            automaton_original, modified[modified_slice]
+        )
 
-    common_offset_original, common_offset_modified, common_length = find_lcs(
-        automaton_original, modified[modified_slice]
-    )
+        if common_length == 0:
+            break
 
-    if common_length == 0:
-        changeset = ChangesetLeaf(
-            original=original[original_slice],
-            modified=modified[modified_slice],
-            original_slice=original_slice,
-            modified_slice=modified_slice,
-        )
-    else:
         common_original = slice(
             original_slice.start + common_offset_original,
             original_slice.start + common_offset_original + common_length,
@@ -245,17 +259,23 @@ def find_changeset(
             slice(original_slice.start, common_original.start),
             slice(modified_slice.start, common_modified.start),
         )
-        suffix = find_changeset(
-            original,
-            modified,
-            slice(common_original.stop, original_slice.stop),
-            slice(common_modified.stop, modified_slice.stop),
-        )
+        found.append((common_original, common_modified, prefix))
+
+        original_slice = slice(common_original.stop, original_slice.stop)
+        modified_slice = slice(common_modified.stop, modified_slice.stop)
+
+    changeset = ChangesetLeaf(
+        original=original[original_slice],
+        modified=modified[modified_slice],
+        original_slice=original_slice,
+        modified_slice=modified_slice,
+    )
+    for common_original, common_modified, prefix in reversed(found):
         changeset = Changeset(
-            prefix=prefix,
-            suffix=suffix,
             common_original=common_original,
             common_modified=common_modified,
+            prefix=prefix,
+            suffix=changeset,
         )
 
     return changeset
-- 
2.43.0


From ecfb3200df895cfe9019f9e6e2b70ebf00d3c560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 14/18] fix: backslashes and brackets in texts or file names
 broke console output

---
 src/gaspra/markup.py     |  7 ++++++-
 src/gaspra/merge_tool.py | 10 +++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 3115ffe..f39102b 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import re
 
 from rich.console import Console
 
@@ -7,7 +8,11 @@ from gaspra.types import Change
 
 
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    # Backslashes before a bracket, or at the end where a tag may follow, would
+    # be taken for escapes.  Double them and put an empty tag after them.
+    return r"\[".join(
+        re.sub(r"(?<!\\)(\\+)\Z", r"\1\1[none][/]", piece) for piece in s.split("[")
+    )
 
 
 COLORED_LEVEL0 = {
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index ca05c4a..e1edf97 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -273,8 +273,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0


From 8e4fbc1178a46ed239700fe5e739d9a95c20a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 15/18] fix: extend a line after an interrupted re-hanging in
 memory

An interrupt inside MemoryTree.change_parent() can leave a node with a
height that is out of date.  get_split() then walked past a leaf and
every later addition on that node failed with a ValueError.
---
 src/gaspra/memory_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/memory_tree.py b/src/gaspra/memory_tree.py
index eadcf31..188e345 100644
--- a/src/gaspra/memory_tree.py
+++ b/src/gaspra/memory_tree.py
@@ -82,8 +82,10 @@ class MemoryTree:
         depth = 1
         # All leaves have a height of one, so within this
         # loop there will always be children.  Because depth
-        # starts at one, you cannot enter this loop for a leaf.
-        while depth < node.height:
+        # starts at one, you cannot enter this loop for a leaf.  The
+        # exception is a height that is out of date because
+        # change_parent() was interrupted.
+        while depth < node.height and node.children:
             next_child_index = max(
                 (self.nodes[child].height, self.nodes[child].order_id, index)
                 for index, child in enumerate(node.children)
-- 
2.43.0


From f2eb2817bd416be9101254d61ed2e2b482211403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:16 +0000
Subject: [PATCH 16/18] fix: an input from a pipe that is not UTF-8 was read as
 empty

---
 src/gaspra/merge_tool.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index e1edf97..a684d5f 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -280,14 +280,14 @@ def diff_cli():
 
 def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
-    for filename in filenames:
+    # Read each one only once.  What came through a pipe is gone afterwards.
+    for contents in get_bytes(*filenames):
         try:
-            with open(filename, "rt", encoding="utf-8") as f:
-                data.append(f.read())
-
+            text = contents.decode("utf-8")
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1") as f:
-                data.append(f.read())
+            text = contents.decode("iso-8859-1")
+
+        data.append(text.replace("\r\n", "\n").replace("\r", "\n"))
 
     return tuple(data)
 
-- 
2.43.0


From 9570a87722dcb935769d71596ce72d3ad7d13b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:26 +0000
Subject: [PATCH 17/18] fix: contents that are not UTF-8 could be added but not
 read with the character and symbol tokenizers

---
 src/gaspra/tokenizers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 98179f0..74b48f7 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -109,7 +109,10 @@ class CharTokenizer(Generic[BytesOrStr]):
         self.source_type = type(contents)
 
         if isinstance(contents, bytes):
-            return tuple(ord(c) for c in contents.decode("utf-8"))
+            # Whatever is not UTF-8 must come back from decode(), too.
+            return tuple(
+                ord(c) for c in contents.decode("utf-8", errors="surrogateescape")
+            )
         else:
             return tuple(ord(c) for c in contents)
 
@@ -117,7 +120,10 @@ class CharTokenizer(Generic[BytesOrStr]):
         if self.source_type is bytes:
             return cast(
                 BytesOrStr,
-                b"".join(chr(cast(int, code)).encode("utf-8") for code in contents),
+                b"".join(
+                    chr(cast(int, code)).encode("utf-8", errors="surrogateescape")
+                    for code in contents
+                ),
             )
         else:
             return cast(
@@ -177,8 +183,10 @@ class SymbolTokenizer(Generic[BytesOrStr]):
 
         if type(contents) is bytes:
             unencoded_tokens = [
-                token[0].encode("utf-8")
-                for token in SYMBOLS.finditer(contents.decode("utf-8"))
+                token[0].encode("utf-8", errors="surrogateescape")
+                for token in SYMBOLS.finditer(
+                    contents.decode("utf-8", errors="surrogateescape")
+                )
             ]
         elif type(contents) is str:
             unencoded_tokens = [token[0] for token in SYMBOLS.finditer(contents)]
-- 
2.43.0


From aa499c616ddb87044f9a1c6d39c6c66c8b83701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:31 +0000
Subject: [PATCH 18/18] fix: output was dropped without an error when standard
 output is closed

---
 src/gaspra/markup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index f39102b..32934ad 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,6 +1,8 @@
 from contextlib import contextmanager
+import errno
 import io
 import re
+import sys
 
 from rich.console import Console
 
@@ -72,6 +74,10 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
+    # Console would silently drop everything.
+    if sys.stdout is None:
+        raise OSError(errno.EBADF, "Standard output is closed")
+
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-- 
2.43.0

