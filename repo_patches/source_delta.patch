From 0a7f80180cec18a5f7fbffeeb4aa58bbede79474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 01/40] fix: stop position windows leaking into the next
 document

The half open end of the range was clamped before adding one, so a window
near the end of a document also covered the first position of the next one.
---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From c3875201e6bd48e291888673cc00f1f428b7d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 02/40] fix: keep the last single position passage of a
 partition

A passage covering a single position was kept everywhere except at the end of
a partition, so the passages found depended on how documents were batched.
---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..6aa1f7f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2514,16 +2514,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, as it hasn't been closed off yet.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From c561ca65ee3d3ca024f6f5665397355c2e82d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 03/40] fix: include the end of a passage when rendering it

Passage ends are inclusive, so the final matching token was dropped when
passage_overhang is 0, and the overhang was lopsided otherwise.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 6aa1f7f..9426363 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2577,7 +2577,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From d7493d95b53052713f7cb6051761fd61152efab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 04/40] fix: make the working_dir argument of Index.index
 usable

A path has neither a usable `name` nor a `cleanup` method. Create the temporary
files in their own directory inside working_dir, which itself is kept.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 9426363..c13c9f6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -345,7 +345,7 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From e24bd3d5d649ae2dac92998d77997101cbb02b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 05/40] fix: allow indexing a corpus with no documents

With no batches the temporary index had no tables, so (re)indexing an empty
corpus failed with an OperationalError.
---
 hyperreal/index.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c13c9f6..5bd49f5 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -398,7 +398,8 @@ class Index:
                             f.result()
 
             # Dispatch the final batch.
-            if batch_doc_keys:
+            # Always dispatch something, so an empty corpus is an empty index.
+            if batch_doc_keys or not futures:
                 self.logger.debug("Dispatching final batch for indexing.")
                 futures.add(
                     self.pool.submit(
@@ -2081,8 +2082,8 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
 
         docs = corpus.docs(doc_keys=doc_keys)
 
-        first_doc_id = doc_ids[0]
-        last_doc_id = doc_ids[-1]
+        first_doc_id = doc_ids[0] if doc_ids else None
+        last_doc_id = doc_ids[-1] if doc_ids else None
 
         for doc_id, (_, doc) in zip(doc_ids, docs):
             features = corpus.index(doc)
-- 
2.43.0


From 470c654009d4212b4d5eec37e65a0a815a479043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 06/40] fix: replace the index and the cluster statistics in
 one transaction

The statistics of the clusters were refreshed in a second transaction: readers
could see new documents with stale clusters, and a crash in between left the
clusters marked as changed so that every later call to `index` failed with an
IntegrityError. Also roll back when interrupted, rather than leaving the
transaction open.
---
 hyperreal/index.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 5bd49f5..ee3a651 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -529,18 +529,37 @@ class Index:
                 """
             )
 
-            # Update all cluster stats based on new index stats
-            self.db.execute(
-                "insert into changed_cluster select cluster_id from cluster"
+            # Update all cluster stats based on new index stats. This has to be
+            # part of the same transaction so that the index and the model are
+            # replaced together: as the background pool can't see the new
+            # content before the commit this runs here instead.
+            cluster_stats = list(
+                self.db.execute(
+                    """
+                    select
+                        cluster_id,
+                        sum(ii.docs_count),
+                        roaring_union(ii.doc_ids)
+                    from feature_cluster
+                    inner join inverted_index ii using(feature_id)
+                    group by cluster_id
+                    """
+                )
             )
 
-            self.db.execute("commit")
+            for cluster_id, weight, union in cluster_stats:
+                doc_ids = db_utilities.load_bitmap(union)
+                self.db.execute(
+                    """
+                    update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
+                    where cluster_id = ?
+                    """,
+                    (len(doc_ids), weight, doc_ids, cluster_id),
+                )
 
-            self.db.execute("begin")
-            self._update_changed_clusters()
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
             self.db.execute("rollback")
             raise
-- 
2.43.0


From 87b5c1663120cddecf6c017be0764dba6f096224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 07/40] fix: roll back edits that are interrupted or fail in
 housekeeping

An edit interrupted by KeyboardInterrupt committed whatever had been written so
far, without updating the clusters. When the housekeeping itself failed the
savepoint was never released, so that nothing later was ever committed.
---
 hyperreal/index.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index ee3a651..8f6211e 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -106,7 +106,7 @@ def atomic(writes=False):
 
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
                 # Rewind to the previous savepoint, then release it
                 # This is necessary to behave nicely whether we are operating
@@ -117,16 +117,24 @@ def atomic(writes=False):
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
-                    self._changed = False
-
-                self.db.execute(f'release "{func.__name__}"')
+                try:
+                    # We've decremented to the final transaction level and are
+                    # about to commit.
+                    if self._transaction_level == 0 and self._changed:
+                        self._changed = False
+                        self.logger.info(f"Changes detected - updating clusters.")
+                        # Note that this will check for changed queries, and will
+                        # therefore be a noop if there aren't any.
+                        self._update_changed_clusters()
+
+                except BaseException:
+                    # Never commit changes without the housekeeping, or leave
+                    # the savepoint open.
+                    self.db.execute(f'rollback to "{func.__name__}"')
+                    raise
+
+                finally:
+                    self.db.execute(f'release "{func.__name__}"')
 
         return wrapper
 
-- 
2.43.0


From 344160674e37b490f36e45d13093ccb5bc5981d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 08/40] fix: refining a model with every feature pinned is a
 noop

It failed with a ZeroDivisionError.
---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8f6211e..d7ea9d0 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1540,6 +1540,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # Nothing can move if everything is pinned.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From 7d4445ca2126aeb8ed9d8fd9e2c2d0c43c34b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 09/40] fix: keep a cluster when the target is taken up by
 pinned clusters

A target of fewer clusters than are pinned failed with an IndexError, and a
target equal to the number of pinned clusters was ignored.
---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d7ea9d0..81cfef1 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1745,6 +1745,9 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The clusters that aren't pinned can't be dissolved completely.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From e7a4841904f373dc71f016cfb440b46a8d175a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 10/40] fix: don't lose new clusters when splitting some of the
 clusters

The temporary ids can overlap with the ids they are mapped to, in which case
a cluster that had just been mapped was deleted again.
---
 hyperreal/index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 81cfef1..479f56c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1775,6 +1775,8 @@ class Index:
 
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From 300d6b1f5779ff02b6b74fbe702aba51e01d5406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 11/40] fix: raise a MigrationError for databases that aren't
 an index

The error message refers to an undefined name.
---
 hyperreal/_index_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..fce9e7a 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -245,7 +245,7 @@ def migrate(db):
 
         if table_count > 0:
             raise MigrationError(
-                f"Database at '{db_path}' is not empty, and cannot be used as an index."
+                "Database is not empty, and cannot be used as an index."
             )
         else:
             db.execute("begin")
-- 
2.43.0


From e20d14884b95ffe84560f8354df123ca2bc9d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 12/40] fix: set up the index before refreshing clusters on
 migration

Refreshing clusters pickles the index, which needs the corpus attribute, so
migrating an old model failed. Also don't convert a database to WAL mode before
it is known to be an index.
---
 hyperreal/index.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 479f56c..734bb3d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -169,7 +169,6 @@ class Index:
         for statement in """
             pragma synchronous=NORMAL;
             pragma foreign_keys=ON;
-            pragma journal_mode=WAL;
             """.split(
             ";"
         ):
@@ -177,13 +176,16 @@ class Index:
 
         migrated = _index_schema.migrate(self.db)
 
+        # Only once it's known to be an index, as this changes the file.
+        self.db.execute("pragma journal_mode=WAL")
+
+        self.corpus = corpus
+
         if migrated:
             self.db.execute("begin")
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        self.corpus = corpus
-
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
         }
-- 
2.43.0


From e5ea038505ab95e66ff9645a6ac24cea68073b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 13/40] fix: is_index_db for paths with special characters and
 other files

Paths containing URI syntax such as # or %20 were reported as not being an index,
and files that aren't databases raised a DatabaseError.
---
 hyperreal/index.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 734bb3d..df833c1 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -17,6 +17,7 @@ import logging
 import math
 import multiprocessing as mp
 import os
+import pathlib
 import random
 import sqlite3
 import tempfile
@@ -228,12 +229,17 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
-            return (
-                list(db.execute("pragma application_id"))[0][0]
-                == _index_schema.MAGIC_APPLICATION_ID
+            db = sqlite3.connect(
+                f"{pathlib.Path(db_path).absolute().as_uri()}?mode=ro", uri=True
             )
-        except sqlite3.OperationalError:
+            try:
+                return (
+                    list(db.execute("pragma application_id"))[0][0]
+                    == _index_schema.MAGIC_APPLICATION_ID
+                )
+            finally:
+                db.close()
+        except sqlite3.DatabaseError:
             return False
 
     def __enter__(self):
-- 
2.43.0


From 3c5c5bf99f3c0f992e7dd2a21e31bdf918009a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 14/40] fix: don't hide errors while replacing documents

The previous documents were kept, but the caller was told that all was well.
---
 hyperreal/corpus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..377d3a1 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -185,6 +185,7 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
 
         except Exception:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
-- 
2.43.0


From 953f3fb7b0f7022639c6c75ffd14f54cdf63a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 15/40] fix: show concordances in the web interface when asked
 to

The concordances were replaced by whole documents.
---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..2e1c9e9 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -134,7 +134,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -384,7 +384,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..fda1943 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type == 'concordance' %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From 90403f306bd8835ff83e03c48570344f99d3deed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 16/40] fix: label graphs of values that are not strings
 without the field

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index df833c1..8ae15e8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1892,7 +1892,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(str(value) for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From 3c2c600fc7edacd5f246ef639b74e8088bc39269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 17/40] fix: escape user names and tags in rendered
 StackExchange documents

---
 hyperreal/corpus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 377d3a1..e6b1df2 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -557,7 +557,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                     Copyright {{ base_fields["ContentLicense"]}} by
                     {% if base_fields["OwnerUserId"] %}
                     <a href="{{ '{}/users/{}'.format(base_fields["site_url"], base_fields["OwnerUserId"]) }}">
-                        {{ base_fields["DisplayName"] }}
+                        {{ base_fields["DisplayName"] | e }}
                     </a>
                     {% else %}
                     <Deleted User>
@@ -571,7 +571,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 <summary>Tags:</summary>
                 <ul>
                     {% for tag in tags %}
-                    <li>{{ tag }}
+                    <li>{{ tag | e }}
                     {% endfor %}
                 </ul>
             </details>
@@ -585,7 +585,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                                 Copyright {{ comment["ContentLicense"]}} by
                                 {% if comment["UserId"] %}
                                 <a href="{{ '{}/users/{}'.format(comment["site_url"], comment["UserId"]) }}">
-                                    {{ comment["DisplayName"] }}
+                                    {{ comment["DisplayName"] | e }}
                                 </a>
                                 {% else %}
                                 <Deleted User>
-- 
2.43.0


From a752007f844d34a63f875d3559e486f33aa05200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 18/40] fix: only summarise values that are present in the
 field summary

Values that disappeared from the corpus were still counted after reindexing.
---
 hyperreal/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8ae15e8..07b8ca6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -541,6 +541,9 @@ class Index:
                         0
                     )
                 from inverted_index ii
+                -- Features from previous index runs are kept, even if they
+                -- are no longer present.
+                where docs_count > 0
                 group by field
                 """
             )
-- 
2.43.0


From 06bdce76e34354c9e3deb0f878e155f3f0e2ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 19/40] fix: allow indexing positions of tweets that aren't
 replies or quotes

Sequences are positional and can't hold None, so indexing tweets failed unless
positions were turned off. These fields have a single value, or none at all.
---
 hyperreal/corpus.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index e6b1df2..b5bd631 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1023,19 +1023,19 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 "by": [doc["user"]["username"]],
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
                 "by": [doc["user"]["username"]],
                 "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-- 
2.43.0


From 0dc6284fe7e86d3214db5b0b23b14e481b7b2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 20/40] fix: allow dissolving clusters that no feature was
 tested against

With group testing, clusters that aren't in any of the best groups have no
objective, and refinement failed with a KeyError.
---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 07b8ca6..cb608cf 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1616,7 +1616,8 @@ class Index:
                 dissolve_cluster_ids = set(
                     sorted(
                         cluster_feature.keys() - clusters_with_pinned_features,
-                        key=lambda x: objectives[x],
+                        # Clusters in no best group haven't been measured.
+                        key=lambda x: objectives.get(x, 0),
                     )[:n_dissolve]
                 )
                 self.logger.info(
-- 
2.43.0


From 1f5defd2814ce6ba8dfd2fa6ed631631de6d2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 21/40] fix: only count collocations within the field

Positions are relative to a field, so features of other positional fields were
counted by comparing unrelated positions.
---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index cb608cf..1f250f4 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2597,8 +2597,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where first_doc_id = ? and field = ?
+            """,
+            [first_doc_id, field],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From edb9f1a8696d946d1a82ec98b5335471db0d7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 22/40] fix: roll back replacing documents when interrupted

A KeyboardInterrupt isn't an Exception: the savepoint was released without
rolling back, committing only part of the new documents.
---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index b5bd631..b036fc2 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,7 +183,7 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
             raise
 
-- 
2.43.0


From b2d449ed7dcfe67a7d6640396ac3bc6b267607e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 23/40] fix: roll back importing a site when interrupted

The transaction was left open on interrupts, and the next import on the same
object committed the partial one, through executescript.
---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index b036fc2..fb25d9f 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -462,7 +462,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
+        except BaseException:
             self.db.execute("rollback")
             raise
 
-- 
2.43.0


From f3f04bd9e229be4f5b435c562c93173f919471d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 24/40] fix: keep the text following a code block

Removing an element with lxml also removes the text that follows it.
---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index fb25d9f..38f96e8 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -730,7 +730,8 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 # Extract text of code blocks
                 code_blocks.append(" ".join(node.itertext()))
                 # Then remove them, treat everything else as post text
-                node.getparent().remove(node)
+                # - this keeps the text that comes after.
+                node.drop_tree()
 
             # This is a little wrong, ideally we'd handle the cases where
             # the code blocks are removed with a sentinel...
-- 
2.43.0


From a15d48e5799ad172ba0ef32c51d9dac6f0fa9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 25/40] fix: show deleted users in rendered StackExchange
 documents

The placeholder was not escaped, so browsers took it for an element.
---
 hyperreal/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 38f96e8..7f95df4 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -560,7 +560,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                         {{ base_fields["DisplayName"] | e }}
                     </a>
                     {% else %}
-                    <Deleted User>
+                    &lt;Deleted User&gt;
                     {% endif %}
                 </small>
             </p>
@@ -588,7 +588,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                                     {{ comment["DisplayName"] | e }}
                                 </a>
                                 {% else %}
-                                <Deleted User>
+                                &lt;Deleted User&gt;
                                 {% endif %}
                             </small>
                         </li>
-- 
2.43.0


From 08f796e2f7c1d9f6f42a69cff81fbcdaf3cc688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 26/40] fix: escape user names in rendered tweets

---
 hyperreal/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 7f95df4..5f8d64f 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -964,7 +964,7 @@ class TwittersphereCorpus(SqliteBackedCorpus):
             <span>
             <img src={{ doc["user"]["profile_image_url"] }}>
             <a href="https://twitter.com/{{ doc["user"]["username"] }}">@{{ doc["user"]["username"] }}</a>
-            {{ doc["user"]["name"] }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
+            {{ doc["user"]["name"] | e }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
                 <time datetime="{{ doc['created_at'] }}">{{ doc['created_at'] }}</time>
             </a>
             </span>
-- 
2.43.0


From 793c9156772f59ba5f6015d2588876a9f1060151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 27/40] fix: wait for running batches before cleaning up a
 failed indexing run

---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1f250f4..929818f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -355,6 +355,8 @@ class Index:
                 "The `index` method can't be called in a nested transaction."
             )
 
+        futures = set()
+
         try:
             manager = mp.Manager()
             write_lock = manager.Lock()
@@ -377,8 +379,6 @@ class Index:
             batch_doc_keys = []
             batch_size = 0
 
-            futures = set()
-
             self.logger.info("Beginning indexing.")
 
             for doc_key in doc_keys:
@@ -585,6 +585,11 @@ class Index:
 
         finally:
             self.db.execute("pragma foreign_keys=1")
+
+            # After a failure batches can still be waiting or running: they need
+            # the manager (a worker can't even receive a batch without it), and
+            # the temporary directory.
+            cf.wait([f for f in futures if not f.cancel()])
             manager.shutdown()
 
             if detach:
-- 
2.43.0


From 16eb0a9d6747f486296de14453337cd083a02c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 28/40] fix: refuse databases of other applications that have a
 known version number

---
 hyperreal/_index_schema.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index fce9e7a..e31f0ed 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -238,6 +238,14 @@ def migrate(db):
 
     db_version = list(db.execute("pragma user_version"))[0][0]
 
+    # Other applications number the versions of their databases too.
+    if db_version != 0 and not list(
+        db.execute(
+            "select 1 from sqlite_master where (type, name) = ('table', 'inverted_index')"
+        )
+    ):
+        raise MigrationError("Database is not an index.")
+
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-- 
2.43.0


From 8b745262c3478bb206f4ee67bbd7c1edc8621daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 29/40] fix: refresh clusters in the same transaction as the
 migration

---
 hyperreal/_index_schema.py | 53 ++++++++++++++++++++++++++++++++++++++
 hyperreal/index.py         |  7 +----
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index e31f0ed..af253d5 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -11,6 +11,8 @@ database, associated with CURRENT_SCHEMA_VERSION.
 
 """
 
+from hyperreal import db_utilities
+
 # The application ID uses SQLite's pragma application_id to quickly identify index
 # databases from everything else.
 MAGIC_APPLICATION_ID = 715973853
@@ -228,6 +230,55 @@ class IndexVersionMismatch(ValueError):
     pass
 
 
+def _refresh_changed_clusters(db):
+    """
+    Refresh the statistics of changed clusters as part of a migration.
+
+    The background pool can't be used for this, as it can't see or open the
+    database before the migration is committed.
+
+    """
+
+    db.execute(
+        """
+        update cluster set feature_count = (
+            select count(*)
+            from feature_cluster fc
+            where fc.cluster_id=cluster.cluster_id
+        )
+        where cluster_id in (select cluster_id from changed_cluster)
+        """
+    )
+
+    cluster_stats = list(
+        db.execute(
+            """
+            select
+                cluster_id,
+                sum(ii.docs_count),
+                roaring_union(ii.doc_ids)
+            from changed_cluster
+            inner join feature_cluster using(cluster_id)
+            inner join inverted_index ii using(feature_id)
+            group by cluster_id
+            """
+        )
+    )
+
+    for cluster_id, weight, union in cluster_stats:
+        doc_ids = db_utilities.load_bitmap(union)
+        db.execute(
+            """
+            update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
+            where cluster_id = ?
+            """,
+            (len(doc_ids), weight, doc_ids, cluster_id),
+        )
+
+    db.execute("delete from cluster where feature_count = 0")
+    db.execute("delete from changed_cluster")
+
+
 def migrate(db):
     """
     Migrate the database to the current version of the index schema.
@@ -291,6 +342,8 @@ def migrate(db):
                 for statement in migration[1]:
                     db.execute(statement)
 
+        _refresh_changed_clusters(db)
+
         db.execute("commit")
 
         return True
diff --git a/hyperreal/index.py b/hyperreal/index.py
index 929818f..b8ba334 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -175,18 +175,13 @@ class Index:
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
+        _index_schema.migrate(self.db)
 
         # Only once it's known to be an index, as this changes the file.
         self.db.execute("pragma journal_mode=WAL")
 
         self.corpus = corpus
 
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
-
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
         }
-- 
2.43.0


From 2d3870b5dcea5fe5663048f5be35ccf9e967e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 30/40] fix: roll back edits that can't be committed

---
 hyperreal/index.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index b8ba334..b06226c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -135,7 +135,14 @@ def atomic(writes=False):
                     raise
 
                 finally:
-                    self.db.execute(f'release "{func.__name__}"')
+                    try:
+                        self.db.execute(f'release "{func.__name__}"')
+                    except BaseException:
+                        # The changes couldn't be committed (a full disk, for
+                        # example): don't leave them pending either.
+                        self.db.execute(f'rollback to "{func.__name__}"')
+                        self.db.execute(f'release "{func.__name__}"')
+                        raise
 
         return wrapper
 
-- 
2.43.0


From 5cf2cfe4307d513415c5219dd9679defb0c48274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 31/40] fix: roll back replacing documents that can't be
 committed

---
 hyperreal/corpus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 5f8d64f..f031df6 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,12 +183,12 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
+            self.db.execute("release add_texts")
+
         except BaseException:
             self.db.execute("rollback to add_texts")
-            raise
-
-        finally:
             self.db.execute("release add_texts")
+            raise
 
     def docs(self, doc_keys=None):
         self.db.execute("savepoint docs")
-- 
2.43.0


From 3d618546709e4a7b9bd5aae0abb19a02cbdb8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 32/40] fix: leave features that are no longer present out of
 migrated field summaries

The field summary written by the migration counted values that no document
has any more, unlike the one written when indexing.
---
 hyperreal/_index_schema.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index af253d5..5be4df2 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -215,6 +215,8 @@ migrations = {
                     0
                 )
             from inverted_index ii
+            -- Features that are no longer present are kept, as when indexing.
+            where docs_count > 0
             group by field
             """,
         ],
-- 
2.43.0


From 1e7af398cc8f873103bc574eb257fecefc8cd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 33/40] fix: redirect to a page that exists after an edit

Deleting the only cluster or its last features, dissolving the first of the
selected clusters by refining them, or editing without a selection redirected
to a cluster that doesn't exist, or failed after the edit was saved.
---
 hyperreal/server.py | 56 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 2e1c9e9..37caa60 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -48,6 +48,22 @@ def ensure_list(**kwargs):
             cherrypy.request.params[key] = [converter(value)]
 
 
+def edited_location(index_id, cluster_id=None, return_to="cluster"):
+    """
+    Return where to go after an edit.
+
+    The cluster an edit started from might not exist anymore afterwards, or
+    might not have been selected at all: go to the overview in that case.
+
+    """
+    if cluster_id is None or int(cluster_id) not in cherrypy.request.index.cluster_ids:
+        return f"/index/{index_id}"
+    elif return_to == "cluster":
+        return f"/index/{index_id}/cluster/{cluster_id}"
+    else:
+        return f"/index/{index_id}/?cluster_id={cluster_id}"
+
+
 class Cluster:
     @cherrypy.expose
     def index(
@@ -196,11 +212,9 @@ class ClusterOverview:
     def delete(self, index_id, cluster_id=None, return_cluster_id=None, **params):
         cherrypy.request.index.delete_clusters(cherrypy.request.params["cluster_id"])
 
-        if return_cluster_id:
-            redirect_to = f"/index/{index_id}/cluster/{return_cluster_id}"
-        else:
-            redirect_to = f"/index/{index_id}"
-        raise cherrypy.HTTPRedirect(redirect_to)
+        raise cherrypy.HTTPRedirect(
+            edited_location(index_id, return_cluster_id or None)
+        )
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -209,7 +223,7 @@ class ClusterOverview:
         new_cluster_id = cherrypy.request.index.create_cluster_from_features(
             cherrypy.request.params["feature_id"]
         )
-        raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{new_cluster_id}")
+        raise cherrypy.HTTPRedirect(edited_location(index_id, new_cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -218,7 +232,7 @@ class ClusterOverview:
         merge_cluster_id = cherrypy.request.index.merge_clusters(
             cherrypy.request.params["cluster_id"]
         )
-        raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{merge_cluster_id}")
+        raise cherrypy.HTTPRedirect(edited_location(index_id, merge_cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -243,12 +257,9 @@ class ClusterOverview:
             minimum_cluster_features=int(minimum_cluster_features),
             iterations=int(iterations),
         )
-        if return_to == "cluster":
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
-        else:
-            raise cherrypy.HTTPRedirect(
-                f"/index/{index_id}/?cluster_id={cluster_id[0]}"
-            )
+        raise cherrypy.HTTPRedirect(
+            edited_location(index_id, next(iter(cluster_id), None), return_to)
+        )
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -263,12 +274,9 @@ class ClusterOverview:
         cherrypy.request.index.pin_clusters(
             cluster_ids=cherrypy.request.params["cluster_id"], pinned=int(pinned)
         )
-        if return_to == "cluster":
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
-        else:
-            raise cherrypy.HTTPRedirect(
-                f"/index/{index_id}/?cluster_id={cluster_id[0]}"
-            )
+        raise cherrypy.HTTPRedirect(
+            edited_location(index_id, next(iter(cluster_id), None), return_to)
+        )
 
 
 class FeatureOverview:
@@ -281,10 +289,7 @@ class FeatureOverview:
     @cherrypy.tools.ensure_list(feature_id=int)
     def remove_from_model(self, index_id, feature_id=None, cluster_id=None):
         cherrypy.request.index.delete_features(cherrypy.request.params["feature_id"])
-        if cluster_id is not None:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id}")
-        else:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/")
+        raise cherrypy.HTTPRedirect(edited_location(index_id, cluster_id))
 
     @cherrypy.expose
     @cherrypy.tools.allow(methods=["POST"])
@@ -300,10 +305,7 @@ class FeatureOverview:
         cherrypy.request.index.pin_features(
             cherrypy.request.params["feature_id"], pinned=int(pinned)
         )
-        if cluster_id is not None:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id}")
-        else:
-            raise cherrypy.HTTPRedirect(f"/index/{index_id}/")
+        raise cherrypy.HTTPRedirect(edited_location(index_id, cluster_id))
 
 
 @cherrypy.popargs("index_id")
-- 
2.43.0


From 3367ea231c2484e98340b9a6cfe07b7f549b65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 34/40] fix: return to cluster 0 when searching from it

Cluster ids start from 0, so the search form of that cluster's page lost it.
---
 hyperreal/templates/macros.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index fda1943..c0a5471 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -100,7 +100,7 @@
         <label for="site-search">for</label>
         <input type="search" id="target_value" name="value" />
         <button type="submit">Search</button>
-        {% if cluster_id %}
+        {% if cluster_id is not none %}
         <input type="hidden" name="cluster_id" value="{{ cluster_id }}"/>
         {% endif %}
     </form>
-- 
2.43.0


From ec3e02bfb914eba14ef60b5bfb2feeba387987d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 35/40] fix: link to the other clusters when that is cluster 0

In a model with clusters 0 and 1 the page of cluster 1 had no links to the
previous and next clusters.
---
 hyperreal/templates/cluster.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/cluster.html b/hyperreal/templates/cluster.html
index 5285055..4aea7d5 100644
--- a/hyperreal/templates/cluster.html
+++ b/hyperreal/templates/cluster.html
@@ -14,7 +14,7 @@
 
 <ul class="nav-links">
     <li><a href="/index/{{ index_id }}/cluster/{{ cluster_id }}">Cluster Overview</a></li>
-    {% if prev_cluster_id or next_cluster_id %}
+    {% if prev_cluster_id is not none or next_cluster_id is not none %}
     <li><a href="/index/{{ index_id }}/cluster/{{ prev_cluster_id }}">Previous Cluster</li>
     <li><a href="/index/{{ index_id }}/cluster/{{ next_cluster_id }}">Next Cluster</li>
     {% endif %}
-- 
2.43.0


From 01022d80d129eae7a74644c56618365fc8e656b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 36/40] fix: refuse to model a file that isn't an index

Unlike every other command using an existing index, modelling an empty file
turned it into an index.
---
 hyperreal/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..4af358c 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -362,6 +362,9 @@ def model(
     model with --restart.
 
     """
+    if not hyperreal.index.Index.is_index_db(index_db):
+        raise ValueError(f"{index_db} is not a valid index file.")
+
     doc_index = hyperreal.index.Index(index_db, random_seed=random_seed)
 
     # Check if any clusters exist.
-- 
2.43.0


From 0731c8db2a9b33bb8cf4c38ab6bc5ff278f7ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 37/40] fix: leave no unfinished query behind when updating
 clusters fails

As long as the exception was referred to (by a reference cycle, or a debugger or
interactive session) the query over the changed clusters stayed open, and so
indexing could not detach its temporary database: it raised an error although it
had committed, and could not be repeated with the same Index.
---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index b06226c..c482a87 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1845,7 +1845,8 @@ class Index:
             """
         )
 
-        changed = self.db.execute("select cluster_id from changed_cluster")
+        # An unfinished query would keep the database busy if this fails below.
+        changed = list(self.db.execute("select cluster_id from changed_cluster"))
 
         # Then update the union statistics for all of the clusters
         bg_args = (
-- 
2.43.0


From 8f215d189fcb8712ef7a4d1571d01c8d2443a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:42 +0000
Subject: [PATCH 38/40] fix: end the transaction when rendering documents fails

A StackExchange or Twittersphere corpus asked to render a document it doesn't
have kept its savepoint open, and from then on showed its documents as they were
at that time, whatever other connections changed.
---
 hyperreal/corpus.py | 80 ++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index f031df6..52285cd 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -672,24 +672,26 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a HTML version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_html")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            docs.append(
-                (
-                    key,
-                    Markup(
-                        self.TEMPLATE.render(
-                            base_fields=base_fields,
-                            tags=tags,
-                            user_comments=user_comments,
-                        )
-                    ),
+        try:
+            docs = []
+
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                docs.append(
+                    (
+                        key,
+                        Markup(
+                            self.TEMPLATE.render(
+                                base_fields=base_fields,
+                                tags=tags,
+                                user_comments=user_comments,
+                            )
+                        ),
+                    )
                 )
-            )
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
@@ -697,23 +699,25 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         """Render a simplified tabular version of the stackexchange posts, including metadata."""
         self.db.execute("savepoint render_docs_spreadsheet")
 
-        docs = []
-
-        for key in doc_keys:
-            base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
-            base_fields["tags"] = ", ".join(tags)
-            base_fields["comments"] = json.dumps(
-                [
-                    {
-                        key: comment[key]
-                        for key in ["DisplayName", "Text", "ContentLicense"]
-                    }
-                    for comment in user_comments
-                ]
-            )
-            docs.append((key, base_fields))
+        try:
+            docs = []
 
-        self.db.execute("release render_docs_spreadsheet")
+            for key in doc_keys:
+                base_fields, tags, user_comments = self._get_rendered_doc_fields(key)
+                base_fields["tags"] = ", ".join(tags)
+                base_fields["comments"] = json.dumps(
+                    [
+                        {
+                            key: comment[key]
+                            for key in ["DisplayName", "Text", "ContentLicense"]
+                        }
+                        for comment in user_comments
+                    ]
+                )
+                docs.append((key, base_fields))
+
+        finally:
+            self.db.execute("release render_docs_spreadsheet")
 
         return docs
 
@@ -989,12 +993,14 @@ class TwittersphereCorpus(SqliteBackedCorpus):
     def render_docs_html(self, doc_keys):
         self.db.execute("savepoint render_docs_html")
 
-        docs = [
-            (key, Markup(self.TEMPLATE.render(doc=doc)))
-            for key, doc in self.docs(doc_keys=doc_keys)
-        ]
+        try:
+            docs = [
+                (key, Markup(self.TEMPLATE.render(doc=doc)))
+                for key, doc in self.docs(doc_keys=doc_keys)
+            ]
 
-        self.db.execute("release render_docs_html")
+        finally:
+            self.db.execute("release render_docs_html")
 
         return docs
 
-- 
2.43.0


From 8700a701eeb0d2ea5e2b83ab7ff37cce65d25eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:10 +0000
Subject: [PATCH 39/40] fix: a malformed link in a tweet doesn't make indexing
 fail

---
 hyperreal/corpus.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 52285cd..b0e3c4a 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -772,6 +772,14 @@ class StackExchangeCorpus(SqliteBackedCorpus):
         return indexed
 
 
+def _link_domain(url):
+    """Return the domain of the given link, or None if the link is malformed."""
+    try:
+        return urlparse(url).hostname
+    except ValueError:
+        return None
+
+
 class TwittersphereCorpus(SqliteBackedCorpus):
 
     """
@@ -919,7 +927,7 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 }
 
                 doc["external_domains"] = {
-                    urlparse(url).hostname for url in doc["external_urls"]
+                    _link_domain(url) for url in doc["external_urls"]
                 }
 
                 doc["user"] = self._retrieve_user(doc["user_id"])
-- 
2.43.0


From 5840d27a4139b898ca250743a3c1061733b500ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:24 +0000
Subject: [PATCH 40/40] fix: let several processes open, create and migrate an
 index at once

---
 hyperreal/_index_schema.py | 39 ++++++++++++++++++++++++++++++++++----
 hyperreal/db_utilities.py  | 21 ++++++++++++++++++++
 hyperreal/index.py         |  2 +-
 3 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 5be4df2..78057cc 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -281,6 +281,23 @@ def _refresh_changed_clusters(db):
     db.execute("delete from changed_cluster")
 
 
+def _begin(db, db_version):
+    """
+    Begin changing the schema, if it is still the given version.
+
+    Something else could be opening, and changing, the same database.
+
+    """
+
+    db.execute("begin immediate")
+
+    if list(db.execute("pragma user_version"))[0][0] == db_version:
+        return True
+
+    db.execute("rollback")
+    return False
+
+
 def migrate(db):
     """
     Migrate the database to the current version of the index schema.
@@ -302,14 +319,27 @@ def migrate(db):
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-        table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
+        db_version, table_count = list(
+            db.execute(
+                """
+                select
+                    (select user_version from pragma_user_version),
+                    (select count(*) from sqlite_master)
+                """
+            )
+        )[0]
+
+        if db_version != 0:
+            # Something else just initialised it.
+            return migrate(db)
 
-        if table_count > 0:
+        elif table_count > 0:
             raise MigrationError(
                 "Database is not empty, and cannot be used as an index."
             )
         else:
-            db.execute("begin")
+            if not _begin(db, db_version):
+                return migrate(db)
 
             for statement in CURRENT_SCHEMA.split("--------"):
                 db.execute(statement)
@@ -324,7 +354,8 @@ def migrate(db):
         return False
 
     elif db_version in migrations:
-        db.execute("begin")
+        if not _begin(db, db_version):
+            return migrate(db)
 
         m = sorted(migrations.items())
 
diff --git a/hyperreal/db_utilities.py b/hyperreal/db_utilities.py
index 078692b..5a3f65b 100644
--- a/hyperreal/db_utilities.py
+++ b/hyperreal/db_utilities.py
@@ -1,4 +1,5 @@
 import sqlite3
+import time
 
 import pyroaring
 
@@ -35,6 +36,26 @@ def connect_sqlite(db_path, row_factory=None):
     return conn
 
 
+def use_wal(db, timeout=5):
+    """
+    Switch a database to write ahead logging.
+
+    SQLite doesn't wait for other connections that are doing the same thing, so
+    that is done here.
+
+    """
+
+    give_up = time.monotonic() + timeout
+
+    while True:
+        try:
+            return db.execute("pragma journal_mode=WAL")
+        except sqlite3.OperationalError as e:
+            if "locked" not in str(e) or time.monotonic() > give_up:
+                raise
+            time.sleep(0.01)
+
+
 def save_bitmap(bm):
     bm.shrink_to_fit()
     bm.run_optimize()
diff --git a/hyperreal/index.py b/hyperreal/index.py
index c482a87..5b75886 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -185,7 +185,7 @@ class Index:
         _index_schema.migrate(self.db)
 
         # Only once it's known to be an index, as this changes the file.
-        self.db.execute("pragma journal_mode=WAL")
+        db_utilities.use_wal(self.db)
 
         self.corpus = corpus
 
-- 
2.43.0

