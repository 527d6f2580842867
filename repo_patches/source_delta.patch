From 196dc5a07bf067b9b47ac7fb0b35392d7caecb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 1/6] fix: keep must-linked data together in strict affinity
 propagation when all similarities are equal

---
 .../clustering/affinity_propagation.py                     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
index 6cf7f68..fcff7c2 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/affinity_propagation.py
@@ -305,7 +305,12 @@ def _affinity_propagation_constrained(
         # It makes no sense to run the algorithm in this case, so return 1 or n_samples clusters, depending on preferences
         # TODO: warnings.warn("All samples have mutually equal similarities. Returning arbitrary cluster center(s).")
         if preference.flat[0] >= S.flat[n_samples - 1]:
-            return np.arange(n_samples)
+            labels = np.arange(n_samples)
+            # Keep data from a MUST_LINK closure in the same cluster.
+            if absolute_must_links:
+                for closure in must_links:
+                    labels[closure] = closure[0]
+            return labels
         return [0 for _ in range(n_samples)]
 
     # Fix random seed.
-- 
2.43.0


From 1da9363632544f7d145d5074b9249da100d5d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:09 +0000
Subject: [PATCH 2/6] fix: count the computed clusters, not ten, when MPCKMeans
 refills empty clusters

---
 .../interactive_clustering/clustering/mpckmeans.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 6fe232b..55293b9 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -569,7 +569,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
             filling_point: float = max(distances_to_clusters, key=distances_to_clusters.get)
             labels[filling_point] = empty_cluster_id
 
-            n_samples_in_cluster = np.bincount(labels, minlength=10)
+            n_samples_in_cluster = np.bincount(labels, minlength=self.nb_clusters)
 
         empty_clusters = np.where(n_samples_in_cluster == 0)[0]
 
-- 
2.43.0


From bbd629b950773645ee724c24e1014733ed9bcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:13 +0000
Subject: [PATCH 3/6] fix: make MPCKMeans cluster exactly the managed data IDs,
 in their own order

---
 .../interactive_clustering/clustering/mpckmeans.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 55293b9..116bc23 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -204,11 +204,11 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
         self.nb_clusters: int = min(nb_clusters, len(self.list_of_data_IDs))
 
         # TODO: Reformat vectors
-        id_names: np.ndarray = np.array(list(vectors.keys()))
+        id_names: List[str] = self.list_of_data_IDs
         X: np.ndarray = np.array(
             [
                 (np.array(v).flatten() if isinstance(v, (np.ndarray, list)) else v.toarray().flatten())
-                for v in vectors.values()
+                for v in (self.vectors[data_ID] for data_ID in self.list_of_data_IDs)
             ]
         )
 
-- 
2.43.0


From ba10d6d19b152c18a8ac957baee051dceec2f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 4/6] fix: make MPCKMeans use its random seed

---
 .../interactive_clustering/clustering/mpckmeans.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
index 116bc23..87b8ff3 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/mpckmeans.py
@@ -20,6 +20,7 @@ from typing import Dict, List, Optional, Set, Tuple
 import numpy as np
 import scipy
 from scipy.sparse import csr_matrix
+from sklearn.utils import check_random_state
 
 from cognitivefactory.interactive_clustering.clustering.abstract import (
     AbstractConstrainedClustering,
@@ -141,6 +142,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
 
         # Store `self.random_seed`.
         self.random_seed: Optional[int] = random_seed
+        self.random_state: np.random.RandomState = check_random_state(self.random_seed)
 
         # Store `self.kargs` for clustering.
         self.kargs = kargs
@@ -203,6 +205,9 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
             raise ValueError("The `nb_clusters` '" + str(nb_clusters) + "' must be greater than or equal to 2.")
         self.nb_clusters: int = min(nb_clusters, len(self.list_of_data_IDs))
 
+        # Restart the random state, in order to redo the same clustering for the same `self.random_seed`.
+        self.random_state = check_random_state(self.random_seed)
+
         # TODO: Reformat vectors
         id_names: List[str] = self.list_of_data_IDs
         X: np.ndarray = np.array(
@@ -365,7 +370,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
         traversed = []
 
         # Choose the first point randomly (weighted)
-        i = np.random.choice(len(points), size=1, p=weights)[0]
+        i = self.random_state.choice(len(points), size=1, p=weights)[0]
         traversed.append(i)
 
         # Find remaining n - 1 maximally separated points
@@ -496,7 +501,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
 
             if len(neighborhoods) < self.nb_clusters:
                 remaining_cluster_centers = X[
-                    np.random.choice(X.shape[0], self.nb_clusters - len(neighborhoods), replace=False), :
+                    self.random_state.choice(X.shape[0], self.nb_clusters - len(neighborhoods), replace=False), :
                 ]
                 cluster_centers = np.concatenate([cluster_centers, remaining_cluster_centers])
 
@@ -540,7 +545,7 @@ class MPCKMeansConstrainedClustering(AbstractConstrainedClustering):
         labels = np.full(X.shape[0], fill_value=-1)
 
         index = list(range(X.shape[0]))
-        np.random.shuffle(index)
+        self.random_state.shuffle(index)
         for i in index:
             labels[i] = np.argmin(
                 [
-- 
2.43.0


From 9eec368be51f313a09e4bbfd322607204a61ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:19 +0000
Subject: [PATCH 5/6] fix: draw seeded random numbers from a private generator
 in kmeans and sampling

---
 .../interactive_clustering/clustering/kmeans.py               | 3 +--
 .../interactive_clustering/sampling/clusters_based.py         | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/clustering/kmeans.py b/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
index d28531b..89f4143 100644
--- a/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
+++ b/src/cognitivefactory/interactive_clustering/clustering/kmeans.py
@@ -412,8 +412,7 @@ class KMeansConstrainedClustering(AbstractConstrainedClustering):
         indices: List[str] = self.list_of_data_IDs.copy()
 
         # Shuffle the list of possible indices.
-        random.seed(self.random_seed)
-        random.shuffle(indices)
+        random.Random(self.random_seed).shuffle(indices)
 
         # Subset indices.
         indices = indices[: self.nb_clusters]
diff --git a/src/cognitivefactory/interactive_clustering/sampling/clusters_based.py b/src/cognitivefactory/interactive_clustering/sampling/clusters_based.py
index ba30557..ef18457 100644
--- a/src/cognitivefactory/interactive_clustering/sampling/clusters_based.py
+++ b/src/cognitivefactory/interactive_clustering/sampling/clusters_based.py
@@ -224,7 +224,7 @@ class ClustersBasedConstraintsSampling(AbstractConstraintsSampling):
             }
 
         # Set random seed.
-        random.seed(self.random_seed)
+        random_generator = random.Random(self.random_seed)
 
         # Case of closest neightbors selection.
         if self.distance_restriction == "closest_neighbors":
@@ -242,6 +242,6 @@ class ClustersBasedConstraintsSampling(AbstractConstraintsSampling):
             )[:nb_to_select]
 
         # (default) Case of random selection.
-        return random.sample(
+        return random_generator.sample(
             list_of_possible_pairs_of_data_IDs, k=min(nb_to_select, len(list_of_possible_pairs_of_data_IDs))
         )
-- 
2.43.0


From 3187722c5d085b33078986aa92cf4ea99acf4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:14 +0000
Subject: [PATCH 6/6] fix: keep the previous file when the serialization of
 constraints fails or is interrupted

---
 .../constraints/binary.py                     | 45 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/cognitivefactory/interactive_clustering/constraints/binary.py b/src/cognitivefactory/interactive_clustering/constraints/binary.py
index 55612b9..937fa49 100644
--- a/src/cognitivefactory/interactive_clustering/constraints/binary.py
+++ b/src/cognitivefactory/interactive_clustering/constraints/binary.py
@@ -13,7 +13,11 @@
 # ==============================================================================
 
 import json
-from typing import Any, Dict, List, Optional, Set, Tuple
+import os
+import shutil
+import uuid
+from contextlib import contextmanager
+from typing import Any, Dict, Iterator, List, Optional, Set, TextIO, Tuple
 
 import networkx as nx
 
@@ -766,7 +770,7 @@ class BinaryConstraintsManager(AbstractConstraintsManager):
         """
 
         # Serialize constraints manager.
-        with open(filepath, "w") as fileobject:
+        with _open_to_replace(filepath) as fileobject:
             json.dump(
                 {
                     "list_of_managed_data_IDs": self.get_list_of_managed_data_IDs(),
@@ -790,6 +794,43 @@ class BinaryConstraintsManager(AbstractConstraintsManager):
         return True
 
 
+# ==============================================================================
+# SERIALIZATION - REPLACE FILE AT ONCE
+# ==============================================================================
+@contextmanager
+def _open_to_replace(filepath: str) -> Iterator[TextIO]:
+    """
+    Open a file to rewrite it entirely. The content is written beside the file, then replaces it at once: if the writing fails or is interrupted, the previous content is kept.
+
+    Args:
+        filepath (str): The path of the file to write.
+
+    Yields:
+        TextIO: The file object where to write the new content.
+    """
+
+    # Case of a path that can't be replaced (device, pipe, folder, ...): write on it.
+    filepath = os.path.realpath(filepath)
+    if os.path.exists(filepath) and not os.path.isfile(filepath):
+        with open(filepath, "w") as special_fileobject:
+            yield special_fileobject
+        return
+
+    # Otherwise: write beside the file, then replace it.
+    temporary_filepath: str = os.path.join(os.path.dirname(filepath), "." + uuid.uuid4().hex + ".tmp")
+    try:
+        with open(temporary_filepath, "w") as fileobject:
+            yield fileobject
+            fileobject.flush()
+            os.fsync(fileobject.fileno())
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, temporary_filepath)
+        os.replace(temporary_filepath, filepath)
+    finally:
+        if os.path.exists(temporary_filepath):
+            os.remove(temporary_filepath)
+
+
 # ==============================================================================
 # SERIALIZATION - FROM JSON
 # ==============================================================================
-- 
2.43.0

