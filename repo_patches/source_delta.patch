From be6f557399aa1713e8da468f0a98b0921e75ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:50 +0000
Subject: [PATCH 01/51] fix: factorize no longer raises KeyError when a cube of
 sequences has a missing corner

---
 ieml/dictionary/script/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..85f0049 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -69,6 +69,10 @@ def factor(sequences):
 
         for r in candidate:
             _facto = sorted(set(it.chain.from_iterable(_neighbours(t, r) for t in factorisation)))
+            if any(i not in relations for i in _facto):
+                # a corner of the cube is not in the sequences, r can't be factorized with this factorisation
+                continue
+
             _candidate = set(candidate)
             for i in _facto:
                 _candidate &= set(relations[i])
-- 
2.43.0


From c355ea110cbee083a06987813fd56462b54cf424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:45 +0000
Subject: [PATCH 02/51] fix: make factorize depend only on the set of
 sequences, not on their iteration order

---
 ieml/dictionary/script/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 85f0049..8c8810a 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -8,6 +8,8 @@ from ieml.dictionary.script import MultiplicativeScript, Script, AdditiveScript
 
 
 def factor(sequences):
+    # the factorisation must depend only on the sequences, not on their order (sets have no stable order)
+    sequences = sorted(set(sequences))
     layer = next(iter(sequences)).layer
 
     if layer == 0:
-- 
2.43.0


From dbdf862743e72dec64d6582902cb2f370f2b39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 03/51] fix: count a singular sequence shared by several
 addends only once

---
 ieml/dictionary/script/script.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 7f4adca..210d1f0 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -287,7 +287,11 @@ class AdditiveScript(Script):
             self.layer = self.children[0].layer
             self.empty = all((e.empty for e in self.children))
             self.paradigm = len(self.children) > 1 or any(child.paradigm for child in self.children)
-            self.cardinal = sum((e.cardinal for e in self.children))
+            if len(self.children) > 1 and any(e.cardinal != 1 for e in self.children):
+                # the children can overlap, a shared singular sequence is counted only once
+                self.cardinal = len(set(chain.from_iterable(e.singular_sequences for e in self.children)))
+            else:
+                self.cardinal = sum((e.cardinal for e in self.children))
 
         if self.cardinal > MAX_SINGULAR_SEQUENCES:
             raise TooManySingularSequences(self.cardinal)
@@ -321,9 +325,7 @@ class AdditiveScript(Script):
             return [self]
         else:
             # additive proposition has always children set
-            s = [sequence for child in self.children for sequence in child.singular_sequences]
-            s.sort()
-            return s
+            return sorted({sequence for child in self.children for sequence in child.singular_sequences})
 
     def _compute_cells(self):
         # we generate one table per children, unless one children is a singular sequence.
-- 
2.43.0


From 09417c97755ed86e25561c33bfcea2c186bb40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 04/51] fix: building a sum no longer modifies the list of
 addends given by the caller

---
 ieml/dictionary/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 210d1f0..a7dae98 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -237,7 +237,7 @@ class AdditiveScript(Script):
         _children = []
 
         if children:
-            _children = children
+            _children = list(children)
 
         if character in REMARKABLE_ADDITION:
             _character = character
-- 
2.43.0


From 847470cc4f16c53842c61c63475b603abcf7d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 05/51] fix: read every field of the database as a text and
 accept a database without structure

---
 ieml/ieml_database/ieml_database.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..a92e69a 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -55,7 +55,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
@@ -203,7 +207,8 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            # every field is a text: do not let pandas guess another type for values such as "NA" or "1"
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
@@ -214,8 +219,13 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            # every field is a text: do not let pandas guess another type for values such as "True"
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
+
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From 99ec9d510da0263b33f2e86c3fca5d3b6a942486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:26 +0000
Subject: [PATCH 06/51] fix: remove_descriptor removes exactly the lines it is
 asked to remove

---
 ieml/ieml_database/ieml_database.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index a92e69a..853eb9e 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -300,21 +300,26 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value, normalize=normalize)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value, normalize=normalize)
             return
 
         if value:
             value = _normalize_value(value)
 
-        with open(path, "r", encoding='utf8') as f:
-            lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+        prefix = '"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor)
 
-        with open(path, "w", encoding='utf8') as f:
+        # only '\n' ends a line: a value can contain a '\r'
+        with open(path, "r", encoding='utf8', newline='\n') as f:
+            if value is None:
+                lines = [l for l in f.readlines() if not l.startswith(prefix)]
+            else:
+                removed = '{}"{}"'.format(prefix, self.escape_value(value))
+                lines = [l for l in f.readlines() if l.rstrip('\n') != removed]
+
+        with open(path, "w", encoding='utf8', newline='\n') as f:
             f.writelines(lines)
 
     def add_structure(self, ieml, key, value):
-- 
2.43.0


From 220120bda97d422347a491dd83ccdf275d107818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 07/51] fix: the cached list of all the USLs is refreshed when
 any descriptor or structure changes

---
 ieml/commons.py                     | 7 +++++--
 ieml/ieml_database/ieml_database.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..8350ead 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -90,12 +90,15 @@ class FolderWatcherCache:
         Cache that check if `folder` content has changed. Compute a hash of the files in the folder and
         get pruned if the content of this folder change.
 
-        :param folder: the folder to watch
+        :param db_path: the folder to watch
+        :param pattern: a glob pattern (or a list of glob patterns) of the files to watch in this folder
         :param cache_folder: the folder to put the cache file
         """
         self.db_path = db_path
         self.pattern = pattern
-        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)])
+        patterns = [pattern] if isinstance(pattern, str) else pattern
+        self.files = sorted({os.path.abspath(ff) for p in patterns
+                             for ff in glob.glob(os.path.join(glob.escape(self.db_path), p), recursive=True)})
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 853eb9e..55d1bbd 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -234,7 +234,7 @@ class IEMLDatabase:
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    @cache_results_watch_files(["**/*.desc", "**/*.ieml"], 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From dda0a876daa15d31a711623c6f882507a290139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 08/51] fix: list gives each USL once, decorated ones included,
 and nothing for an empty folder

---
 ieml/ieml_database/ieml_database.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 55d1bbd..ea69e09 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -1,6 +1,8 @@
+import csv
 import logging
 import operator
-from collections import defaultdict
+from collections import OrderedDict, defaultdict
+from io import TextIOWrapper
 from shlex import quote
 from sys import stdout
 
@@ -159,12 +161,14 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
+        if not os.path.isdir(p):
+            return []
+
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
-        p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
-        p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
-
-        res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
+        # the IEML can contain (escaped) double quotes, when it is decorated
+        lines = TextIOWrapper(p2.stdout, encoding='utf8', newline='')
+        res = list(OrderedDict.fromkeys(row[0] for row in csv.reader(lines, delimiter=' ', quotechar='"') if row))
 
         if parse:
             parser = IEMLParser(dictionary=self.get_dictionary())
-- 
2.43.0


From c8b70a806bed1560bed76af78878eb31b788fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 09/51] fix: pull resolves deleted, emptied and non descriptor
 conflicts, ignores renames and ends the merge

---
 ieml/ieml_database/git_interface.py | 43 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..2aa20b9 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -18,11 +18,13 @@ except ImportError:
 from sys import stderr
 
 import pygit2
+from pygit2.enums import MergeFlag
 from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, LANGUAGES, \
+    DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
@@ -260,7 +262,8 @@ class GitInterface:
             # repo.head.set_target(commit_target)
 
 
-            repo.merge(commit_target)
+            # a file is identified by its path, that depends on the IEML: a rename is a removal and a creation
+            repo.merge(commit_target, flags=MergeFlag(0))
 
             # we are now in the remote state, we are going to try to add the local commit on top of the remote HEAD
             # until a merge conflict
@@ -305,23 +308,23 @@ class GitInterface:
 
                     # add local entry as conflicts if a descriptor
                     if old_path.endswith('.desc'):
+                        if local_entry is not None and ancestor is not None and ancestor.path != local_entry.path:
+                            raise ValueError("Renaming not supported")
+
+                        local = {}
                         if local_entry is not None:
-                            if ancestor is not None and ancestor.path != local_entry.path:
-                                raise ValueError("Renaming not supported")
-
-                            # local entry is not deleted
-                            res = Descriptors.from_csv_string(repo.get(local_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
-                            ieml = next(iter(res))
-                            conflicts[ieml] = res[ieml]
-                        else:
-                            # locally deleted
-                            assert remote_entry is not None
-                            res = Descriptors.from_csv_string(repo.get(remote_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
-                            ieml = next(iter(res))
+                            local = Descriptors.from_csv_string(repo.get(local_entry.oid).data.decode('utf8'))
 
-                            conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
+                        if local:
+                            if len(local) != 1:
+                                raise ValueError("Multiple IEML in csv string")
+                            conflicts.update(local)
+                        else:
+                            # locally deleted, or all its descriptors are removed
+                            for entry in (remote_entry, ancestor):
+                                if entry is not None:
+                                    for ieml in Descriptors.from_csv_string(repo.get(entry.oid).data.decode('utf8')):
+                                        conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
                     else:
                         print("Ignoring", old_path, "not a descriptor", file=stderr)
                     # repo.index.read()
@@ -354,16 +357,16 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(', '.join(conflicts) or "branch"),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-                # repo.state_cleanup()
+            repo.state_cleanup()
 
             # repo.head.set_target(last)
         else:
             #TODO handle merge conflicts here
-            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(self.branch, commit_target,self.folder))
+            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(repo.head.shorthand, commit_target,self.folder))
 
         return conflicts
 
-- 
2.43.0


From 84601943d42e10d02aed7247fa70a5f07e075477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 10/51] fix: a paradigm marked as ignored no longer prevents to
 build the dictionary

---
 ieml/dictionary/dictionary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..2195027 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -33,6 +33,8 @@ class Dictionary:
             elif key == 'is_ignored' and value[0].lower() == 't':
                 ignored.append(p)
 
+        root_paradigms = [r for r in root_paradigms if r not in ignored]
+
         # ignore all scripts that are not in a root paradigm
         singular_sequences = set()
         for r in root_paradigms:
@@ -44,10 +46,8 @@ class Dictionary:
             if not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
-        for s in ignored:
+        for s in set(ignored):
             del scripts[str(s)]
-            if s in root_paradigms:
-                root_paradigms.remove(s)
             if s in inhibitions:
                 del inhibitions[s]
 
-- 
2.43.0


From 649957461e499bbd2fa42971d3125a8c15e49bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 11/51] fix: no table gets a rank greater than 5

---
 ieml/dictionary/table/table_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index e1e7be2..4756852 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -66,7 +66,8 @@ class TableStructure:
             candidates = set()
             for t in defined:
                 accept, regular = t.accept_script(s)
-                if accept:
+                # the rank of a table is at most 5 (6 is the rank of the cells)
+                if accept and table_class(s)(script=s, parent=t, regular=regular).rank <= 5:
                     candidates |= {(t, regular)}
 
             if len(candidates) == 0:
-- 
2.43.0


From d03fce0cccc9b53997bdbd0ae497e7659ccf16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 12/51] fix: the inhibitions of the father relations of a root
 paradigm are applied

---
 ieml/dictionary/relation/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/relation/relations.py b/ieml/dictionary/relation/relations.py
index 24c3508..d3ce726 100644
--- a/ieml/dictionary/relation/relations.py
+++ b/ieml/dictionary/relation/relations.py
@@ -188,12 +188,13 @@ class RelationsGraph:
         father = [([], []) for _ in range(3)]
 
         for s in dictionary.scripts:
+            inhibitions = dictionary._inhibitions[dictionary.tables.root(s)]
             for sub_s in s if isinstance(s, AdditiveScript) else [s]:
                 if len(sub_s.children) == 0 or isinstance(sub_s, NullScript):
                     continue
 
                 for i, rel in enumerate(('father_substance', 'father_attribute', 'father_mode')):
-                    if rel in dictionary._inhibitions:
+                    if rel in inhibitions:
                         continue
 
                     fathers_indexes = _recurse_script(sub_s.children[i])
-- 
2.43.0


From ac22049078d814297361ce55e2249251f88abbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 13/51] fix: the dictionary transactions accept a new root and
 refuse a paradigm outside of any root

---
 ieml/ieml_database/transactions/DBTransaction.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..0c4a63c 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -88,11 +88,9 @@ class DBTransactions:
 
         dictionary = db.get_dictionary()
         for ss in root.singular_sequences:
-            try:
+            if ss in dictionary.tables:
                 r = dictionary.tables.root(ss)
                 raise ValueError("Root paradigms {} intersection with script {} ".format(str(r), str(root)))
-            except KeyError:
-                pass
 
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
@@ -135,10 +133,9 @@ class DBTransactions:
 
         r_cand = set()
         for ss in script.singular_sequences:
-            try:
-                r_cand.add(d.tables.root(ss))
-            except KeyError:
+            if ss not in d.tables:
                 raise ValueError("No root paradigms contains this script {}".format(str(script)))
+            r_cand.add(d.tables.root(ss))
 
         if len(r_cand) != 1:
             raise ValueError("No root paradigms or too many for script {}".format(str(script)))
@@ -239,11 +236,10 @@ class DBTransactions:
 
         root_new_cand = set()
         for ss in script_new.singular_sequences:
-            try:
+            if ss in d.tables:
                 root_new_cand.add(d.tables.root(ss))
-            except KeyError:
-                if not is_root:
-                    raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
+            elif not is_root:
+                raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
 
         assert len(root_new_cand) == 1, "No root paradigms or too many for script {}".format(str(script_new))
         root_new = next(iter(root_new_cand))
-- 
2.43.0


From 299db6378c479cc833d591cedb1b44ae667c4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 14/51] fix: update_all_ieml moves the descriptors of every USL

---
 ieml/ieml_database/transactions/DBTransaction.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 0c4a63c..c6ef866 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -354,14 +354,13 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
-            for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
-                new_ieml = f(old_ieml)
-
-                value = desc.get_values_partial(old_ieml)
+            migrated = [(f(old_ieml), old_ieml) for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls")]
 
+            # a new ieml can be one of the old ones
+            for _, old_ieml in migrated:
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+            for new_ieml, old_ieml in migrated:
+                for (_, l, d), values in desc.get_values_partial(old_ieml).items():
+                    for e in values:
+                        db.add_descriptor(new_ieml, l, d, e)
-- 
2.43.0


From e01dd15e27944771852778d3d45ed7512b8ef47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:18 +0000
Subject: [PATCH 15/51] fix: a text with too many singular sequences is
 reported as a CannotParse by the parser of scripts

---
 ieml/dictionary/script/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index e034ce3..a066fdc 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -4,7 +4,7 @@ from functools import lru_cache
 import os
 import ply.yacc as yacc
 
-from ieml.exceptions import InvalidScript, CannotParse
+from ieml.exceptions import InvalidScript, CannotParse, TooManySingularSequences
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
 from ieml.commons import Singleton
@@ -34,7 +34,7 @@ class ScriptParser(metaclass=Singleton):
         with self.lock:
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except InvalidScript as e:
+            except (InvalidScript, TooManySingularSequences) as e:
                 raise CannotParse(s, str(e))
 
     def p_error(self, p):
-- 
2.43.0


From 6ab0c5f577495db4c6b0669ba4116c0d56446c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 16/51] fix: a sum with an addend written as a sum of one term
 keeps this term

---
 ieml/dictionary/script/script.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index a7dae98..ea1b3b9 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -256,17 +256,14 @@ class AdditiveScript(Script):
 
         if _children:
 
-            to_remove = []
             to_add = []
             # remove the sub addition
             for c in _children:
                 if isinstance(c, AdditiveScript):
-                    to_remove.append(c)
                     to_add.extend(c.children)
 
-            _children.extend(to_add)
             # Remove duplicate children
-            _children = list(set(c for c in _children if c not in to_remove))
+            _children = list(set([c for c in _children if not isinstance(c, AdditiveScript)] + to_add))
 
         # make a character with the children if possible
         if l == 0:
-- 
2.43.0


From 325afff0e7744acd51e61107d5d77a6bec9f80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:49 +0000
Subject: [PATCH 17/51] fix: the parser of scripts raises
 TooManySingularSequences again (reverts e01dd15)

---
 ieml/dictionary/script/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index a066fdc..e034ce3 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -4,7 +4,7 @@ from functools import lru_cache
 import os
 import ply.yacc as yacc
 
-from ieml.exceptions import InvalidScript, CannotParse, TooManySingularSequences
+from ieml.exceptions import InvalidScript, CannotParse
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
 from ieml.commons import Singleton
@@ -34,7 +34,7 @@ class ScriptParser(metaclass=Singleton):
         with self.lock:
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except (InvalidScript, TooManySingularSequences) as e:
+            except InvalidScript as e:
                 raise CannotParse(s, str(e))
 
     def p_error(self, p):
-- 
2.43.0


From 27920c6f455d6196d07d16bf30631a1115953a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:45 +0000
Subject: [PATCH 18/51] fix: the parents of the tables do not depend on the
 hash seed of the process

---
 ieml/dictionary/table/table_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index 4756852..187200b 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -58,7 +58,8 @@ class TableStructure:
             cells.add(cell)
 
         defined = {root_table}
-        for s in sorted(set(paradigms) - {root}, key=len, reverse=True):
+        # the paradigms with the same number of singular sequences are sorted too: a set has no stable order
+        for s in sorted(sorted(set(paradigms) - {root}), key=len, reverse=True):
             if s in tables:
                 raise ValueError("Already defined")
                 # continue
-- 
2.43.0


From b47b91a8acf206220606af868eb8d6097be526ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 19/51] fix: the index of lexemes, words, decorated USLs and
 polymorphemes without constant

---
 ieml/usl/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 175ffa9..644f185 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -22,11 +22,16 @@ def int2base(i, max=30, characters=alphanumeric):
 
 
 def _polymorph_idx(pm, dic):
-    return sum(len(dic.scripts) ** i * dic.index[ss] for i, ss in enumerate(pm.constant))
+    # the null constant of a polymorpheme made of groups only is not in the dictionary
+    return sum(len(dic.scripts) ** i * dic.index[ss] for i, ss in enumerate(pm.constant) if not ss.empty)
 
 
 
 def get_index(s, dic):
+    from .decoration.instance import InstancedUSL
+    if isinstance(s, InstancedUSL):
+        s = s.usl
+
     if isinstance(s, Script):
         return (0, '0' + int2base(dic.index[s]))
 
@@ -35,7 +40,7 @@ def get_index(s, dic):
             return (0, '0' + int2base(dic.index[s.constant[0]]))
         else:
             return (1, '1' + int2base(_polymorph_idx(s, dic)))
-    elif isinstance(s, Word):
+    elif isinstance(s, Lexeme):
         return (2, '2' + int2base(0))
     else:
         return (3, '3' + int2base(0))
-- 
2.43.0


From 28f272ebe451573c9942df75cdc9101e83c03fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 20/51] fix: get_list does not fail when a word is stored

---
 ieml/ieml_database/ieml_database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index ea69e09..f3effbd 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -259,7 +259,9 @@ class IEMLDatabase:
                 res[ieml] = {'ieml': str(pieml),
                              'type': TYPES[i],
                              'paradigm': len(pieml) != 1,
-                             'class': GRAMMATICAL_CLASS_NAMES[pieml.grammatical_class].lower().capitalize(),
+                             # the grammatical class of a word is a morpheme
+                             'class': str(pieml.grammatical_class) if isinstance(pieml.grammatical_class, Script) else
+                                 GRAMMATICAL_CLASS_NAMES[pieml.grammatical_class].lower().capitalize(),
                              'index': r,
                              'cardinality': 'singular_sequence' if pieml.cardinal == 1 else \
                                  ('paradigm' if not isinstance(pieml,
-- 
2.43.0


From e97d453e2ff73b15a312ccdcf2e913ae59ffb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 21/51] fix: removing the structure value False removes only
 this value

---
 ieml/ieml_database/descriptors.py   | 2 +-
 ieml/ieml_database/ieml_database.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/descriptors.py b/ieml/ieml_database/descriptors.py
index e2006e4..8ae2921 100644
--- a/ieml/ieml_database/descriptors.py
+++ b/ieml/ieml_database/descriptors.py
@@ -37,7 +37,7 @@ def normalize_key(ieml, key, value, parse_ieml=False, partial=False, structure=F
             if key not in STRUCTURE_KEYS:
                 raise ValueError("Unsupported structure key: '{}'".format(str(key)))
 
-        if value:
+        if value is not None:
             if key and key == 'inhibition':
                 value = str(value)
                 if value not in INHIBITABLE_RELATIONS:
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index f3effbd..01209f2 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -349,7 +349,7 @@ class IEMLDatabase:
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(str(ieml), key) + \
-                                        ('"{}"'.format(value) if value else ''))]
+                                        ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From 3c1a3377fbf664044ab1a2c1c92145d9ebe47709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 22/51] fix: a root paradigm that has no table is refused
 before anything is committed

---
 ieml/ieml_database/transactions/DBTransaction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index c6ef866..981839b 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -92,6 +92,9 @@ class DBTransactions:
                 r = dictionary.tables.root(ss)
                 raise ValueError("Root paradigms {} intersection with script {} ".format(str(r), str(root)))
 
+        # fails before any modification if the root paradigm has no table
+        main_tables = [tt for tt in root.tables_script if tt != root]
+
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
                         " / ".join("{}:{}".format(l, ', '.join(db.get_descriptors().get_values(str(root), l, 'translations'))) for l in LANGUAGES),
@@ -111,11 +114,10 @@ class DBTransactions:
                     db.add_descriptor(root, language=l, descriptor='comments', value=v)
 
         # add main tables header
-        for i, t in enumerate([tt for tt in root.tables_script if tt != root]):
+        for i, t in enumerate(main_tables):
             self.add_morpheme_paradigm(t,
                                        translations=append_idx_to_dict(translations, i),
                                        comments=append_idx_to_dict(comments, i))
-        # main_tables = [tt for tt in root.tables_script if tt != root]
 
     def add_morpheme_paradigm(self,
                               script: Script,
-- 
2.43.0


From b4d4e4180a3c167ad5ec593fcfca247c75f291f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 23/51] fix: the structure of a decorated USL is escaped in its
 file

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 01209f2..0c2260f 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -332,7 +332,7 @@ class IEMLDatabase:
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=False, structure=True)
 
         with open(self.path_of(ieml, descriptor=False, mkdir=True), 'a', encoding='utf8') as fp:
-            fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
+            fp.write('"{}" {} "{}"\n'.format(self.escape_value(str(ieml)), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=True, structure=True)
@@ -348,7 +348,7 @@ class IEMLDatabase:
 
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} '.format(str(ieml), key) + \
+                     if not l.startswith('"{}" {} '.format(self.escape_value(str(ieml)), key) + \
                                         ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
-- 
2.43.0


From e07dccfcd48a7ab47668eea0ea839138cf2ee1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 24/51] fix: the diff of two commits reads the whole IEML of a
 decorated USL

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 2aa20b9..69e42db 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -422,7 +422,8 @@ class GitInterface:
                         added.append(l.content)
             if l:
                 res[file_path] = {
-                    'ieml': l.content.split('"')[1],
+                    # the IEML can contain (escaped) double quotes, when it is decorated
+                    'ieml': next(csv.reader([l.content], delimiter=' ', quotechar='"'))[0],
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
-- 
2.43.0


From 1432aa95a5108bf12d748677cb7125ee50fc9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 25/51] fix: a root paradigm is refused as a whole when one of
 its main tables already exists

---
 ieml/ieml_database/transactions/DBTransaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 981839b..db31f91 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -94,6 +94,9 @@ class DBTransactions:
 
         # fails before any modification if the root paradigm has no table
         main_tables = [tt for tt in root.tables_script if tt != root]
+        for tt in main_tables:
+            if db.get_descriptors().get_values_partial(tt):
+                raise ValueError("Script {} already exists in dictionary".format(tt))
 
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
-- 
2.43.0


From bc34191416b553c3e37dfaa70d8a7541a01c4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:34 +0000
Subject: [PATCH 26/51] fix: a root paradigm is not updated to a script that
 has no table

---
 ieml/ieml_database/transactions/DBTransaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index db31f91..11f49ef 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -260,6 +260,8 @@ class DBTransactions:
 
             assert script_old in script_new, "Can only update a root paradigm to a bigger version of it"
 
+            # fails before any modification if the new root paradigm has no table
+            script_new.tables_script
 
             # then we can update it to a bigger version of it
             old_structure = ds.get_values_partial(script_old)
-- 
2.43.0


From b79f28288d848f428001036033018cfe005f3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 27/51] fix: a polymorpheme group of empty morphemes was
 written m1(), which can not be parsed

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 31f1715..803cb32 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -161,7 +161,7 @@ class PolyMorpheme(USL):
         # self.groups_paradigms = [PolyMorpheme(groups=[g]) for g in groups]
 
         self._str = ' '.join(chain(map(str, self.constant),
-                               ["m{}({})".format(mult, ' '.join(map(str, group))) for group, mult
+                               ["m{}({})".format(mult, ' '.join(map(str, group or (NULL_SCRIPTS[0],)))) for group, mult
                                     in self.groups]))
 
         if not self.constant:
-- 
2.43.0


From 8eaaafab043868739aeac63574849fa4fcffd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 28/51] fix: singular sequences of a polymorpheme exceeded the
 multiplicity of the groups larger than the smallest one

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 803cb32..fa4db19 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -108,7 +108,7 @@ def compute_PM_singular_sequences(constants, groups):
 
     max_sizes_groups = defaultdict(set)
     for i, (grp, mult) in enumerate(groups):
-        for j in range(mult + 1, min_len + 1):
+        for j in range(mult + 1, min_len + 2):
             max_sizes_groups[j].add(i)
 
     def iter_groups_combinations():
-- 
2.43.0


From adf5da71aca40f140671d01a2189c8f1fa09b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 29/51] fix: Lexeme.check accepted every lexeme

---
 ieml/usl/lexeme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index fea0d1c..41f9cb0 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -41,7 +41,7 @@ class Lexeme(USL):
 			self._str = "()"
 
 	def check(self):
-		pass
+		check_lexeme(self)
 
 	def iter_structure(self):
 		yield self.pm_flexion
-- 
2.43.0


From 1aa59131761e823a890b063567a1e202543169c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 30/51] fix: words with an incomplete role (no lexeme, no role,
 no junction index) raised IndexError or were accepted

---
 ieml/usl/syntagmatic_function.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f817c32..bbc925d 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -190,6 +190,9 @@ class SyntagmaticFunction:
         if not l:
             raise ValueError("Empty syntagmatic function")
 
+        if any(len(address) == 0 for address, _ in l):
+            raise ValueError("Invalid syntagmatic function, a lexeme has no role")
+
         roles = [address[0] for address, _ in l]
         children_l = [(address[1:], x) for address, x in l]
 
@@ -262,12 +265,13 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
-        junctions = {address[0] for address, _ in l}
+        if any(len(address) < 2 for address, _ in l):
+            raise ValueError("Invalid junction syntagmatic function definition, a link and an index are expected.")
 
-        links = junctions & set(JUNCTION_SCRIPTS)
-        if len(links) != 1:
-            raise ValueError("No links defined in the junction")
+        links = {address[0] for address, _ in l}
         link = next(iter(links))
+        if len(links) != 1 or link not in JUNCTION_SCRIPTS:
+            raise ValueError("No links defined in the junction")
 
         # anchors = junctions & JUNCTION_ANCHOR_TO_LINKS.keys()
         # try:
@@ -288,7 +292,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         groups = [[] for _ in range(len(_groups))]
         for i in _groups:
-            if i > len(groups):
+            if i >= len(groups):
                 raise ValueError("Invalid junction syntagmatic function definition, incoherent indexing.")
             groups[i] = _groups[i]
 
@@ -377,6 +381,9 @@ class DependantQualitySyntagmaticFunction(SyntagmaticFunction):
         if _junction:
             return JunctionSyntagmaticFunction._from_list(l, DependantQualitySyntagmaticFunction)
 
+        if actor is None:
+            raise ValueError("Invalid actant syntagmatic function definition, there is no lexeme for the role.")
+
         dependant = None
         if _dependant:
             dependant = DependantQualitySyntagmaticFunction._from_list(_dependant)
-- 
2.43.0


From befac7e0926f877d8f4f0adcf27c06e0dcef8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 31/51] fix: empty, order, morphemes and structure of the words
 that contain a junction raised AttributeError

---
 ieml/usl/syntagmatic_function.py | 13 ++++++++-----
 ieml/usl/word.py                 |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index bbc925d..1b76a3d 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -60,9 +60,12 @@ class SyntagmaticFunction:
         return s_actors == o_actors
 
     def __lt__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
-        return s_actors < o_actors
+        return self._leaves() < other._leaves()
+
+    def _leaves(self):
+        """The (role, actor) of this function, sorted by role. The junctions have no actor, only their members have one."""
+        return sorted([(p, a.actor) for p, a in self.actors.items() if not isinstance(a, JunctionSyntagmaticFunction)],
+                      key=lambda e: e[0])
 
     # @property
     # def role(self):
@@ -78,7 +81,7 @@ class SyntagmaticFunction:
 
     @property
     def empty(self):
-        return self.actor.empty and len(self.actors) == 0
+        return all(lexeme.empty for _, lexeme in self._leaves())
 
     def get(self, role: SyntagmaticRole, ignore_prefix=False, ignore_process_valence=False) -> X:
         # UNUSED ?
@@ -104,8 +107,8 @@ class SyntagmaticFunction:
 
     def iter_structure(self):
         for sfun in self.actors.values():
-            yield sfun.actor
             if sfun.actor is not None:
+                yield sfun.actor
                 yield from sfun.actor.iter_structure()
 
     def iter_structure_path(self, context, focus_role=None):
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index e8aa5c2..6511a30 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -84,7 +84,8 @@ class Word(USL):
     @property
     def morphemes(self):
         return sorted(set(chain.from_iterable(e.actor.morphemes
-                                              for e in self.syntagmatic_fun.actors.values())))
+                                              for e in self.syntagmatic_fun.actors.values()
+                                              if e.actor is not None)))
 
     def check(self):
         check_word(self)
\ No newline at end of file
-- 
2.43.0


From d8e5fbfb048c314b02f5abee4f24b0a811e3cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 32/51] fix: comparing a script with an USL raised TypeError

---
 ieml/usl/usl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 867d2ad..cdeeee4 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -40,6 +40,10 @@ class USL(DecoratedComponent):
         return self.syntactic_level < other.syntactic_level or \
                (self.syntactic_level == other.syntactic_level and self.do_lt(other))
 
+    def __gt__(self, other):
+        # the scripts do not know the USLs and come before them
+        return isinstance(other, Script) or other < self
+
     def do_lt(self, other):
         raise NotImplementedError()
 
-- 
2.43.0


From e6c15dff050f36d2f8f2e1f8f31f1b22f2431a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 33/51] fix: the names *10, *11 and *12 of the junction indexes
 were not recognized in a path

---
 ieml/usl/decoration/parser/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/parser/lexer.py b/ieml/usl/decoration/parser/lexer.py
index c58c994..ca66989 100644
--- a/ieml/usl/decoration/parser/lexer.py
+++ b/ieml/usl/decoration/parser/lexer.py
@@ -5,7 +5,8 @@ from ieml.usl.constants import NAMES_TO_ADDRESS_WITH_VALENCE_IN_PROCESS, ROLE_NA
 
 logger = logging.getLogger(__name__)
 
-ROLE_NAMES = list(ROLE_NAMES_TO_SCRIPT)
+# the longest first, a name can be the beginning of another one (*1 and *10)
+ROLE_NAMES = sorted(ROLE_NAMES_TO_SCRIPT, key=len, reverse=True)
 ROLE_NAMES_REGEX = r"({})".format('|'.join(map(re.escape, map(str, ROLE_NAMES))))
 
 ROLES_SCRIPTS = list(NAMES_TO_ADDRESS)
-- 
2.43.0


From 32c50df7408be1c2b423e8092e02ea1ed294ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 34/51] fix: a path to a group that can not exist raised
 KeyError instead of CannotParse

---
 ieml/usl/decoration/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..4f34c39 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -32,7 +32,7 @@ class PathParser:
         with self.lock:
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except ValueError as e:
+            except (ValueError, KeyError) as e:
                 raise CannotParse(s, str(e))
             except CannotParse as e:
                 e.s = s
-- 
2.43.0


From 6ad29c8325972cc890fdfd72ffd414bb93052688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 35/51] fix: a parsed path to the constants had a multiplicity
 and was not a prefix of the paths of the constants

---
 ieml/usl/decoration/parser/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index 4f34c39..e2c8e03 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -114,20 +114,23 @@ class PathParser:
                              | POLYMORPHEME_POSITION MULTIPLICITY SEPARATOR MORPHEME"""
         if len(p) == 2:
             group_idx = GroupIndex[p[1].upper()]
-            p[0] = PolymorphemePath(group_idx, multiplicity=1)
+            p[0] = PolymorphemePath(group_idx, multiplicity=self._multiplicity(group_idx))
         elif len(p) == 3:
             group_idx = GroupIndex[p[1].upper()]
-            p[0] = PolymorphemePath(group_idx, multiplicity=int(p[2]))
+            p[0] = PolymorphemePath(group_idx, multiplicity=self._multiplicity(group_idx, p[2]))
         elif len(p) == 4:
             group_idx = GroupIndex[p[1].upper()]
             morpheme = script(p[3])
-            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=1)
+            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=self._multiplicity(group_idx))
         else:
             group_idx = GroupIndex[p[1].upper()]
             morpheme = script(p[4])
-            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=int(p[2]))
-
+            p[0] = PolymorphemePath(group_idx, morpheme, multiplicity=self._multiplicity(group_idx, p[2]))
 
+    @staticmethod
+    def _multiplicity(group_idx, value=1):
+        # the constants have no multiplicity
+        return None if group_idx == GroupIndex.CONSTANT else int(value)
 
     def p_error(self, p):
         if p:
-- 
2.43.0


From 0037aa9ab10726d473b1286ea7e77b2390c6205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 36/51] fix: the path of a morpheme had the paths of the other
 morphemes of its group for prefixes

---
 ieml/usl/decoration/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..a4036f9 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -220,7 +220,8 @@ class PolymorphemePath(UslPath):
 			   self.multiplicity == other.multiplicity
 
 	def _has_prefix(self, other):
-		return self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
+		return self.__class__ == other.__class__ and other.morpheme is None and \
+			   self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
 
 	def as_constant(self, u=None):
 		return PolymorphemePath(group_idx=GroupIndex.CONSTANT,
-- 
2.43.0


From 96a0eece4086b359f84bcebd61bf524fb65be3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 37/51] fix: a path to a role of another kind of word or to a
 junction was followed instead of refused

---
 ieml/usl/decoration/path.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index a4036f9..647122b 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -3,7 +3,7 @@ from itertools import chain
 
 from ieml.commons import OrderedEnum, monitor_decorator
 from ieml.dictionary.script import Script
-from ieml.usl.constants import FLEXION_SCRIPTS
+from ieml.usl.constants import FLEXION_SCRIPTS, ADDRESS_ROLE_IN_PROCESS
 from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from ieml.usl.usl import USL
 from ieml.usl.polymorpheme import PolyMorpheme
@@ -608,11 +608,20 @@ class RolePath(UslPath):
 		return self.role < other.role
 
 	def _deference(self: 'RolePath', usl: Word):
+		prefix = SyntagmaticFunction.get_context_role_prefix(usl.context_type)
+		if tuple(self.role.constant[:1]) not in ([prefix] if prefix else [(r,) for r in ADDRESS_ROLE_IN_PROCESS]):
+			raise DeferenceError("Role " + str(self.role) + " not in word")
+
 		try:
-			return usl.syntagmatic_fun.get(self.role, ignore_prefix=True, ignore_process_valence=True)
+			node = usl.syntagmatic_fun.get(self.role, ignore_prefix=True, ignore_process_valence=True)
 		except KeyError as key:
 			raise DeferenceError(key)
 
+		if node is None:
+			raise DeferenceError("The role " + str(self.role) + " is a junction, it has no lexeme")
+
+		return node
+
 	def _to_str(self):
 		return 'role' + SEPARATOR + ('! ' if self.has_focus else '') + str(self.role)
 
-- 
2.43.0


From d68fd0735d30cfe2714a5185c99040c5accad190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 38/51] fix: the paths of a flexion raised AssertionError in a
 polymorpheme, and led to other nodes in a lexeme

---
 ieml/usl/lexeme.py       |  5 ++---
 ieml/usl/polymorpheme.py | 12 ++++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index 41f9cb0..e85e2cb 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -51,12 +51,11 @@ class Lexeme(USL):
 
 	def iter_structure_path(self, flexion=False):
 		from ieml.usl.decoration.path import LexemePath, LexemeIndex
-		from ieml.usl.decoration.path import FlexionPath
 
 		yield (LexemePath(LexemeIndex.FLEXION), self.pm_flexion)
 
-		yield from [(LexemePath(LexemeIndex.FLEXION, child=None if path.morpheme is None else FlexionPath(path.morpheme)), pm)
-					for path, pm in self.pm_flexion.iter_structure_path()]
+		yield from [(LexemePath(LexemeIndex.FLEXION, child=path), pm)
+					for path, pm in self.pm_flexion.iter_structure_path(flexion=True)]
 
 		yield (LexemePath(LexemeIndex.CONTENT), self.pm_content)
 		yield from [(LexemePath(LexemeIndex.CONTENT, child=path), pm)
diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index fa4db19..1744a8c 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -190,18 +190,22 @@ class PolyMorpheme(USL):
         res_f = lambda u, grp_idx, multiplicity: (FlexionPath(morpheme=u) if flexion else
                                 PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity))
 
-        yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
+        if not flexion:
+            yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
         yield from [(res_f(m, GroupIndex.CONSTANT, None), m) for m in self.constant]
         if len(self.groups) > 0:
-            yield (res_f(None, GroupIndex.GROUP_0, self.groups[0][1]), PolyMorpheme(groups=[self.groups[0]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_0, self.groups[0][1]), PolyMorpheme(groups=[self.groups[0]]))
             yield from [(res_f(s, GroupIndex.GROUP_0, self.groups[0][1]), s) for s in self.groups[0][0]]
 
         if len(self.groups) > 1:
-            yield (res_f(None, GroupIndex.GROUP_1, self.groups[1][1]), PolyMorpheme(groups=[self.groups[1]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_1, self.groups[1][1]), PolyMorpheme(groups=[self.groups[1]]))
             yield from [(res_f(s, GroupIndex.GROUP_1, self.groups[1][1]), s) for s in self.groups[1][0]]
 
         if len(self.groups) > 2:
-            yield (res_f(None, GroupIndex.GROUP_2, self.groups[2][1]), PolyMorpheme(groups=[self.groups[2]]))
+            if not flexion:
+                yield (res_f(None, GroupIndex.GROUP_2, self.groups[2][1]), PolyMorpheme(groups=[self.groups[2]]))
             yield from [(res_f(s, GroupIndex.GROUP_2, self.groups[2][1]), s) for s in self.groups[2][0]]
 
     @property
-- 
2.43.0


From 6926b1904da0022ccff40e0fae7fba19a7eee0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 39/51] fix: the morphemes of a flexion that are in no flexion
 paradigm were lost when an usl is built from its paths

---
 ieml/usl/decoration/path.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 647122b..579296f 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -425,14 +425,17 @@ class FlexionPath(UslPath):
 
 		root_flexion_groups = defaultdict(set)
 
-		for m in all_morphemes:
-			for r in FLEXION_SCRIPTS:
-				if m in r.singular_sequences_set:
-					root_flexion_groups[r].add(m)
-
 		constant = []
 		groups = []
 
+		for m in all_morphemes:
+			roots = [r for r in FLEXION_SCRIPTS if m in r.singular_sequences_set]
+			for r in roots:
+				root_flexion_groups[r].add(m)
+
+			if not roots:
+				constant.append(m)
+
 		for k, v in root_flexion_groups.items():
 			if len(v) == 0:
 				continue
-- 
2.43.0


From 22cd00d3827b8334d9bdf0ff35aebdf55624a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 40/51] fix: the value of a decoration was not read back as it
 was written when it has a quote or a backslash

---
 ieml/usl/decoration/instance.py | 2 +-
 ieml/usl/parser/lexer.py        | 2 +-
 ieml/usl/parser/parser.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b07e0fa..6e92dbf 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -36,7 +36,7 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"'))
+		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('\\', r'\\').replace('"', r'\"'))
 
 	def __lt__(self, other):
 		return (self.path, self.value) < (other.path, other.value)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..af44d31 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -58,7 +58,7 @@ def get_lexer(module=None):
     t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
                                                                                                                         term_regex=TERM_REGEX)
 
-    t_DECORATION_VALUE = r'"(\\"|[^"])*"'
+    t_DECORATION_VALUE = r'"(\\["\\]|[^"\\]|\\(?!["\\]))*"'
 
     t_ignore  = '{} \t\n'
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..7f3e37c 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,4 +1,4 @@
-import logging, os
+import logging, os, re
 import ply.yacc as yacc
 
 from ieml.constants import PARSER_FOLDER
@@ -209,7 +209,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, re.sub(r'\\(["\\])', r'\1', p[3][1:-1]))
 
 
     def p_error(self, p):
-- 
2.43.0


From 3f0e9d2b1926c189792010009a4639f9619eb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 41/51] fix: the decorations of the focus, of a role, of a
 group, of the content and of the flexion were written in a way that is not
 read back

---
 ieml/usl/parser/lexer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index af44d31..fdb1abe 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -2,7 +2,6 @@ import ply.lex as lxr
 import logging
 
 from ieml.constants import TERM_REGEX
-from ieml.usl.constants import ROLE_REGEX
 
 logger = logging.getLogger(__name__)
 
@@ -55,8 +54,8 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
-                                                                                                                        term_regex=TERM_REGEX)
+    # parsed by the PathParser
+    t_USL_PATH = r'(?<=\[)>[^"\[\]]*'
 
     t_DECORATION_VALUE = r'"(\\["\\]|[^"\\]|\\(?!["\\]))*"'
 
-- 
2.43.0


From fa138f15eb0b5c8d90cfa593d698f34079625fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 42/51] fix: a decoration whose path is not in the USL raised
 DeferenceError instead of CannotParse

---
 ieml/usl/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 7f3e37c..53ad439 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -12,6 +12,7 @@ import threading
 
 from ..decoration.instance import Decoration, InstancedUSL
 from ..decoration.parser.parser import PathParser
+from ..decoration.path import DeferenceError
 
 
 class IEMLParserSingleton(type):
@@ -51,7 +52,7 @@ class IEMLParser():
             self.factorize_script = factorize_script
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except ValueError as e:
+            except (ValueError, DeferenceError) as e:
                 raise CannotParse(s, str(e))
             except CannotParse as e:
                 e.s = s
-- 
2.43.0


From 70091df93e77ea3d41a15d773c6fb327de323c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:19 +0000
Subject: [PATCH 43/51] fix: a decoration was lost on a group or a whole USL,
 and repeated at every place that has the same morpheme

The value of a decoration was stored in the node it decorates. The morphemes are shared by all the paths and
all the USLs that contain them, and the groups and the constants are built each time a path is followed.
The decorations are now kept by their path.
---
 ieml/usl/decoration/instance.py | 39 +++++++++++++++------------------
 ieml/usl/decoration/path.py     | 29 ++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 6e92dbf..c57a24c 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -56,17 +56,19 @@ class InstancedUSL(USL):
 		self.grammatical_class = self.usl.grammatical_class
 
 		self.flexion = False
-		with literal_context():
-			for decoration in decorations:
-				if not isinstance(decoration, Decoration):
-					raise ValueError("Invalid argument for a InstantiatedUSL, expected a Decoration, got a "+\
-									 decoration.__class__.__name__)
+		values = {}
+		for decoration in decorations:
+			if not isinstance(decoration, Decoration):
+				raise ValueError("Invalid argument for a InstantiatedUSL, expected a Decoration, got a "+\
+								 decoration.__class__.__name__)
 
-				self.flexion = isinstance(decoration.path, FlexionPath) or self.flexion
+			self.flexion = isinstance(decoration.path, FlexionPath) or self.flexion
+			# the nodes can be shared by several paths and several usls, only the path is decorated
+			values[decoration.path.normalize(self.usl)] = decoration.value
 
-				decoration.apply(self.usl)
-
-			self.decorations = InstancedUSL.list_decorations(self.usl, flexion=self.flexion)
+		order = {path: i for i, (path, _) in enumerate(self.usl.iter_structure_path(self.flexion))}
+		self.decorations = sorted(Decoration(path, values[path]) for path in
+								  sorted(values, key=lambda path: order.get(path, -1)))
 
 	@staticmethod
 	def list_decorations(u: USL, flexion=False):
@@ -80,7 +82,11 @@ class InstancedUSL(USL):
 
 	@staticmethod
 	def from_usl(u: 'USL'):
-		return InstancedUSL(u, InstancedUSL.list_decorations(u))
+		decorations = InstancedUSL.list_decorations(u)
+		for _, value in u.iter_structure_path():
+			value.clear_literal()
+
+		return InstancedUSL(u, decorations)
 
 	def __str__(self):
 		return "{} {}".format(str(self.usl), ' '.join(map(str, self.decorations))).strip()
@@ -105,17 +111,8 @@ class InstancedUSL(USL):
 	def _compute_singular_sequences(self):
 		res = []
 		for ss in self.usl.singular_sequences:
-			dec = []
-			with literal_context():
-				for d in self.decorations:
-
-					if d.path.contained(ss):
-						dec.append(d)
-
-				if dec:
-					res.append(InstancedUSL(ss, dec))
-				else:
-					res.append(ss)
+			dec = [d for d in self.decorations if d.path.contained(ss)]
+			res.append(InstancedUSL(ss, dec) if dec else ss)
 
 		return res
 
diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 579296f..c3d820a 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -3,7 +3,7 @@ from itertools import chain
 
 from ieml.commons import OrderedEnum, monitor_decorator
 from ieml.dictionary.script import Script
-from ieml.usl.constants import FLEXION_SCRIPTS, ADDRESS_ROLE_IN_PROCESS
+from ieml.usl.constants import FLEXION_SCRIPTS, ADDRESS_ROLE_IN_PROCESS, ADDRESS_PROCESS_VALENCE_SCRIPTS
 from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from ieml.usl.usl import USL
 from ieml.usl.polymorpheme import PolyMorpheme
@@ -120,6 +120,16 @@ class UslPath:
 		else:
 			return node
 
+	def normalize(self, usl: USL) -> 'UslPath':
+		"""The path of the usl that leads to the same node (same focus, valence and multiplicity as in the usl)"""
+		self.deference(usl)
+		res = self._normalize(usl)
+		res.child = None if self.child is None else self.child.normalize(self._deference(usl))
+		return res
+
+	def _normalize(self, usl):
+		return self.no_child_clone()
+
 	def contained(self, usl):
 		try:
 			self.deference(usl)
@@ -231,7 +241,11 @@ class PolymorphemePath(UslPath):
 
 
 	def _do_lt(self, other):
-		return (self.group_idx, self.morpheme) < (other.group_idx, other.morpheme)
+		if self.group_idx != other.group_idx or self.morpheme is None or other.morpheme is None:
+			# the group before its morphemes
+			return (self.group_idx, self.morpheme is not None) < (other.group_idx, other.morpheme is not None)
+
+		return self.morpheme < other.morpheme
 
 	def without_morpheme(self):
 		return PolymorphemePath(group_idx=self.group_idx,
@@ -259,6 +273,10 @@ class PolymorphemePath(UslPath):
 			else:
 				return PolyMorpheme(groups=[usl.groups[self.group_idx.value]])
 
+	def _normalize(self, usl):
+		return PolymorphemePath(group_idx=self.group_idx, morpheme=self.morpheme,
+								multiplicity=None if self.group_idx == GroupIndex.CONSTANT else usl.groups[self.group_idx.value][1])
+
 	def _to_str(self):
 		if self.group_idx == GroupIndex.CONSTANT:
 			if self.morpheme is not None:
@@ -625,6 +643,13 @@ class RolePath(UslPath):
 
 		return node
 
+	def _normalize(self, usl):
+		roles = [SyntagmaticRole(r) for r, _ in usl.syntagmatic_fun.as_list(usl.context_type)]
+		# the valence of a process is not the one of the word
+		role = self.role if self.role in roles else \
+			next(r for r in roles if r.constant[0] in ADDRESS_PROCESS_VALENCE_SCRIPTS)
+		return RolePath(role=role, has_focus=role == usl.role)
+
 	def _to_str(self):
 		return 'role' + SEPARATOR + ('! ' if self.has_focus else '') + str(self.role)
 
-- 
2.43.0


From 89b7c14cd8027498cf3ee09501df1c372df0cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:02 +0000
Subject: [PATCH 44/51] fix: the columns of a table of USLs had all the rows as
 constants, and the tables failed on empty components or wrote a morpheme at a
 wrong place

---
 ieml/usl/table.py | 191 +++++++++++++++-------------------------------
 1 file changed, 61 insertions(+), 130 deletions(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index be06731..2c45ae5 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -1,179 +1,110 @@
 from collections import defaultdict
-from itertools import chain, product
+from itertools import product
 from typing import List
 
 import tqdm
 
 from ieml.commons import cached_property
-from ieml.dictionary.script import Script
 from ieml.usl import USL, PolyMorpheme
-from ieml.usl.decoration.path import UslPath, PolymorphemePath, FlexionPath, LexemePath, LexemeIndex
+from ieml.usl.decoration.path import UslPath, PolymorphemePath
 from ieml.usl.usl import usl
 
 
 class UslTable2D:
     def __init__(self, usl: USL, columns: UslPath, rows: UslPath=None):
         self.usl = usl
-        self._rows = rows
-        self._columns = columns
+        self._rows = None if rows is None else rows.normalize(usl)
+        self._columns = columns.normalize(usl)
 
         # self.paths_structure = dict(self.usl.iter_structure_path_by_script_ss())
 
     @cached_property
     def columns(self) -> List[USL]:
         """Return a list of paradigms that have as singular sequences the cell columns.
-        len(self.rows) == len(self.cells)
+        len(self.columns) == len(self.cells[0])
         The paradigms are ordered as they will appear in the column tables
         """
-
-        res = []
-        row_variations = [(path, ss) for l in self.row_paths_variation for path, ss in l]
-
-        for column_path_values_list in self.column_paths_constant:
-            res.append(usl(self.constant_paths + column_path_values_list + row_variations))
-
-        return res
+        return [self._column(l) for l in self.column_paths_constant]
 
     @cached_property
     def rows(self) -> List[USL]:
-        res = []
-        column_variations = [(path, ss) for l in self.column_paths_variation for path, ss in l]
+        """Return a list of paradigms that have as singular sequences the cell rows.
+        len(self.rows) == len(self.cells)
+        The paradigms are ordered as they will appear in the row tables
+        """
+        return [self._row(l) for l in self.row_paths_constant]
 
-        for row_path_values_list in self.row_paths_constant:
-            res.append(usl(self.constant_paths + row_path_values_list + column_variations))
+    def _column(self, column_path_values_list):
+        return usl([(path, ss) for path, ss in self._paths if not self._in_columns(path)] + column_path_values_list)
 
-        return res
+    def _row(self, row_path_values_list):
+        return usl([(path, ss) for path, ss in self._paths if not self._in_rows(path)] + row_path_values_list)
 
     @cached_property
-    def column_paths_variation(self):
-        """Return a list of the variation that correspond to the dimension of variations of each column"""
-        res = []
-        u = self._columns.deference(self.usl)
+    def _paths(self):
+        return list(self.usl.iter_structure_path_by_script_ss())
+
+    def _in_columns(self, path):
+        return path.has_prefix(self._columns)
 
-        ss_to_groups_path = {ss_v: p.without_morpheme() for p, ss_v in u.iter_structure_path_by_script_ss()}
+    def _in_rows(self, path):
+        """If the path is in a dimension of variation of the rows"""
+        if self._rows is not None:
+            return path.has_prefix(self._rows)
+
+        head, tail = path.split_tail()
+        return not self._in_columns(path) and tail.morpheme not in head.deference(self.usl).constant
 
-        for ss in self._columns.deference(self.usl).singular_sequences:
-            res.append([(self._columns.concat(ss_to_groups_path[morph], force=False), morph)
-                            for path, morph in ss.iter_structure_path_by_script_ss()])
+    def _place(self, path, u: USL):
+        """Return the list of (path, ss) of u placed at path in self.usl"""
+        if isinstance(path.tail, PolymorphemePath):
+            # the singular sequence of a group only has constants
+            return [(path.as_constant(ss), ss) for _, ss in u.iter_structure_path_by_script_ss()]
 
-        # return sorted(res, key=lambda l: usl(l + self.constant_paths))
-        return sorted(res, key=lambda l: usl([(path.as_constant(vv), vv) for path, vv in l] + self.constant_paths))
+        return [(path.concat(p), ss) for p, ss in u.iter_structure_path_by_script_ss()]
 
     @cached_property
     def column_paths_constant(self):
-        """Return a list of List[(path, ss)], that correspond to the variable path and constant ss of self.columns"""
-        return [[(p.as_constant(ss), ss) for p, ss in l] for l in self.column_paths_variation]
+        """Return a list of List[(path, ss)], that correspond to the path (as constant) and ss of self.columns"""
+        return sorted([self._place(self._columns, ss) for ss in self._columns.deference(self.usl).singular_sequences],
+                      key=self._column)
 
     @cached_property
-    def row_paths_constant(self):
-        """Return a list of List[(path, ss)], that correspond to the path and constant ss of self.rows or all the
-        dim of variation that are not used by self.columns.
-        The path returned as returned as constant."""
-
-        return [[(path.as_constant(morph), morph) for path, morph in l]
-                 for l in self.row_paths_variation]
+    def column_paths_variation(self):
+        """Return a list of the variation that correspond to the dimension of variations of each column"""
+        return self.column_paths_constant
 
     @cached_property
-    def row_paths_variation(self):
-        """Return a list of List[(path, ss)], that correspond to the path and constant ss of self.rows or all the
-        dim of variation that are not used by self.columns.
-        The path returned as returned as constant."""
-
-        constant_dim = set()
-        variations_dim = set()
+    def row_paths_constant(self):
+        """Return a list of List[(path, ss)], that correspond to the path (as constant) and ss of self.rows, or of all
+        the dim of variation that are not used by self.columns."""
         if self._rows is not None:
-            for path, ss in self._rows.deference(self.usl).iter_structure_path_by_script_ss():
-                path = self._rows.concat(path.without_morpheme(), force=False)
-
-                if path.deference(self.usl).cardinal != 1:
-                    variations_dim.add(path)
-                else:
-                    constant_dim.add(path)
-
+            dims = [(self._rows, self._rows.deference(self.usl))]
         else:
-            for path, value in self.usl.iter_structure_path_by_script_ss():
-                path = path.without_morpheme()
+            # the groups of each polymorpheme, for the correct singular sequences
+            dims = []
+            for head in dict.fromkeys(path.split_tail()[0] for path, _ in self._paths if not self._in_columns(path)):
+                groups = [g for i, g in enumerate(head.deference(self.usl).groups)
+                          if (head, i) != self._column_group]
+                if groups:
+                    dims.append((head, PolyMorpheme(constant=[], groups=groups)))
 
-                if not path.has_prefix(self._columns):
-                    if path.deference(self.usl).cardinal != 1:
-                        variations_dim.add(path.without_morpheme())
+        variations = [[self._place(path, ss) for ss in u.singular_sequences] for path, u in dims]
+        return sorted([sum(l, []) for l in product(*variations)], key=self._row)
 
-        variations = []
-
-        for path_dim in variations_dim:
-            bin = []
-            for ss in path_dim.deference(self.usl).singular_sequences:
-                bin.append([(path_dim.without_morpheme(), morph)
-                            for _, morph in ss.iter_structure_path_by_script_ss()])
-
-            variations.append(bin)
-
-        constants = []
-        for path_dim in constant_dim:
-            for ss in path_dim.deference(self.usl).singular_sequences:
-                constants.append((path_dim, ss))
-
-
-        # group variation by pm for correct ss iteration
-        pm_bin = defaultdict(list)
-        for path_dim in variations_dim:
-
-            path_head, path_tail = path_dim.split_tail()
-            if isinstance(path_tail, (PolymorphemePath)) or \
-                (isinstance(path_tail, LexemePath) and path_tail.index == LexemeIndex.FLEXION):
-                pm_bin[path_head].extend([(path_tail, ss) for p, ss in path_dim.deference(self.usl).iter_structure_path_by_script_ss()])
-        # ss -> group
-
-        # ss_to_group_path = {k: v for k, v in path_bin}
-
-
-        variations_by_pm = []
-        for path_bin, v in pm_bin.items():
-            pm_struct = []
-            ss_to_groups_path = {ss_v: path_tail for path_tail, ss_v in v}
-            for pm_ss in usl(v).singular_sequences:
-                group_ss = []
-                for _, ss in pm_ss.iter_structure_path_by_script_ss():
-                    path = path_bin.concat(ss_to_groups_path[ss])
-
-                    group_ss.append((path, ss))
-
-                pm_struct.append(group_ss)
-            variations_by_pm.append(pm_struct)
-
-        # path -> pm
-        # variations_by_pm = [[[(path.concat(p_ss), ss) for p_ss, ss in pm_ss.iter_structure_path_by_script_ss()]
-        #                         for pm_ss in usl(v).singular_sequences]
-        #                         for path, v in pm_bin.items()]
-
-        res = []
-        for vars in product(*variations_by_pm):
-            # for vars in product(*sorted(variations, reverse=True,
-            #                             key=lambda bin: min(ss for v in bin for _, ss in v if not ss.empty))):
-            res.append(sum(vars, constants))
-
-        res2 = []
-        for l in res:
-            res2.append([(path.concat(p2).as_constant(ss), ss)
-                         for path, vv in l
-                         for p2, ss in vv.iter_structure_path_by_script_ss()])
+    @cached_property
+    def row_paths_variation(self):
+        """Return a list of the variation that correspond to the dimension of variations of each row"""
+        return self.row_paths_constant
 
-        return sorted(res2, key=lambda l: usl([(path.as_constant(), vv) for path, vv in l] + self.constant_paths))
+    @cached_property
+    def _column_group(self):
+        head, tail = self._columns.split_tail()
+        return (head, tail.group_idx.value) if isinstance(tail, PolymorphemePath) else None
 
     @cached_property
     def constant_paths(self):
-        res = []
-
-        if self._rows is not None:
-            for path, value in self.usl.iter_structure_path_by_script_ss():
-                if not path.has_prefix(self._rows) and not path.has_prefix(self._columns):
-                    res.append((path, value))
-        else:
-            for path, value in self.usl.iter_structure_path_by_script_ss():
-                if not path.has_prefix(self._columns) and path.is_constant_path:
-                    res.append((path, value))
-
-        return res
+        return [(path, ss) for path, ss in self._paths if not self._in_columns(path) and not self._in_rows(path)]
 
     @cached_property
     def cells(self):
-- 
2.43.0


From c7bc7669cc745e6aa38d5c8fb8709587dc06cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 45/51] fix: the structure of a singular sequence no longer
 prevents the dictionary from being built

---
 ieml/dictionary/dictionary.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index 2195027..6b562ee 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -16,8 +16,10 @@ class Dictionary:
         root_paradigms = []
         inhibitions = defaultdict(list)
         ignored = []
+        # the structure only applies to the given paradigms, not to the singular sequences that are added below
+        given = set(scripts)
         for (p, key), (value,) in structure.df.iterrows():
-            if p not in scripts:
+            if p not in given:
                 # print(p)
                 continue
             p = scripts[p]
@@ -46,7 +48,8 @@ class Dictionary:
             if not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
-        for s in set(ignored):
+        # the singular sequences of a root are always in the dictionary
+        for s in set(ignored) - singular_sequences:
             del scripts[str(s)]
             if s in inhibitions:
                 del inhibitions[s]
-- 
2.43.0


From fe2c24d3f96215ddc67d95b348c734d4eaa667cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 46/51] fix: a root declared twice no longer overlaps with
 itself

---
 ieml/dictionary/dictionary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index 6b562ee..02ead53 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -35,7 +35,8 @@ class Dictionary:
             elif key == 'is_ignored' and value[0].lower() == 't':
                 ignored.append(p)
 
-        root_paradigms = [r for r in root_paradigms if r not in ignored]
+        # a paradigm can be declared as a root several times
+        root_paradigms = [r for r in dict.fromkeys(root_paradigms) if r not in ignored]
 
         # ignore all scripts that are not in a root paradigm
         singular_sequences = set()
-- 
2.43.0


From 20e69fbcf3b8188357f557ea648dbebd7ed28d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 47/51] fix: a decorated USL whose decoration has a '/' or many
 wide characters can be stored

---
 ieml/ieml_database/ieml_database.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 0c2260f..ac99db0 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -93,6 +93,8 @@ class IEMLDatabase:
 
     MAX_IEML_NAME_SIZE = 100
     HASH_SIZE = 10
+    # 255, without the extension
+    MAX_FILE_NAME_BYTES = 250
 
     def __init__(self, folder,
                  cache_folder=None,
@@ -116,8 +118,11 @@ class IEMLDatabase:
 
     def filename_of(self, ieml):
         l = str(ieml)
-        if len(l) > self.MAX_IEML_NAME_SIZE:
-            l = "{}|{}".format(l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1],
+        # the values of a decorated USL can contain '/' and characters of several bytes
+        fits = '/' not in l and len(l.encode('utf8')) <= self.MAX_FILE_NAME_BYTES
+        if len(l) > self.MAX_IEML_NAME_SIZE or not fits:
+            prefix = l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1].replace('/', '|').encode('utf8')
+            l = "{}|{}".format(prefix[:self.MAX_FILE_NAME_BYTES - self.HASH_SIZE - 1].decode('utf8', 'ignore'),
                                sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])
         return l
 
-- 
2.43.0


From 8023c781fbd18da7381738e4bf443601be94c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 48/51] fix: the descriptors of the files whose name has a
 backslash are read

---
 ieml/ieml_database/ieml_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index ac99db0..c3eb65a 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -206,7 +206,8 @@ class IEMLDatabase:
     @monitor_decorator("Get descriptors")
     def get_descriptors(self, files_list=None):
         if files_list is not None:
-            p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(files_list)],
+            # the file names of the decorated USLs can contain backslashes
+            p1 = subprocess.Popen(['printf', r'%s\0', *files_list],
                                   stdout=subprocess.PIPE, cwd=self.folder)
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
             #                       stdout=subprocess.PIPE, cwd=self.folder)
-- 
2.43.0


From ae1f8fa0bfeed533586926dd8ad4c31cdd1c443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:22 +0000
Subject: [PATCH 49/51] fix: removing a structure value keeps the carriage
 returns of the decorations

---
 ieml/ieml_database/ieml_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index c3eb65a..e81796d 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -352,7 +352,8 @@ class IEMLDatabase:
             os.remove(path)
             return
 
-        with open(path, "r", encoding='utf8') as f:
+        # only '\n' ends a line: the values of a decorated USL can contain a '\r'
+        with open(path, "r", encoding='utf8', newline='\n') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(self.escape_value(str(ieml)), key) + \
                                         ('"{}"'.format(value) if value is not None else ''))]
-- 
2.43.0


From 9b8675bc4a96ed5525db0f3f8505c8e0c589e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 50/51] fix: an USL whose singular sequences are computed can
 be pickled and copied

---
 ieml/usl/usl.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index cdeeee4..9302469 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -16,6 +16,22 @@ class USL(DecoratedComponent):
 
         self.grammatical_class = None
 
+    def __new__(cls, *args, **kwargs):
+        """
+        Need this to pickle and copy the usls, as for the scripts: an usl can be in its own set of singular sequences,
+        then __hash__ is used before the attributes are restored.
+        """
+        instance = super().__new__(cls)
+        if 'str' in kwargs:
+            instance._str = kwargs['str']
+
+        return instance
+
+    def __getnewargs_ex__(self):
+        return ((), {
+            'str': str(self)
+        })
+
     def __bool__(self):
         return not self.empty
 
-- 
2.43.0


From ff8f1c14aab53afd14db713b050cfa431d1c495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:47 +0000
Subject: [PATCH 51/51] fix: the files of units of long names can be merged by
 git

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index e81796d..ed003e0 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -93,8 +93,8 @@ class IEMLDatabase:
 
     MAX_IEML_NAME_SIZE = 100
     HASH_SIZE = 10
-    # 255, without the extension
-    MAX_FILE_NAME_BYTES = 250
+    # 255, without the extension and what git adds to it while it merges (.lock, ~HEAD, ~ and a commit id)
+    MAX_FILE_NAME_BYTES = 200
 
     def __init__(self, folder,
                  cache_folder=None,
-- 
2.43.0

