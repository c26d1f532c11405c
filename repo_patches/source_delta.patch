From 9a49112dc1a4fb2732ba7c2203ecf72b7919fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 01/43] fix: levenshtein_distance single character shortcut
 must ignore the common prefix & suffix

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From e12f7aca444b16f269a884e42c247db57ec7d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 02/43] fix: Levenshtein distances must not truncate characters
 beyond the BMP

---
 cfog/metrics/levenshtein.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..b08dc4e 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef unsigned int charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
-- 
2.43.0


From 14b9d8fe6f93240d0e7ca065cfacc69694064926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 03/43] fix: limited_levenshtein_distance must free its buffers
 when giving up early

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index b08dc4e..f4d22b8 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From 22901aca668046ab1061070b0d90b8c074a5142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 04/43] fix: Levenshtein distances must raise MemoryError when
 their buffers cannot be allocated

---
 cfog/metrics/levenshtein.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index f4d22b8..9d98dcf 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -77,6 +77,12 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes is NULL or vector is NULL:
+        free(codes)
+        free(vector)
+
+        raise MemoryError()
+
     cdef unsigned int i = 0
 
     while i < LB:
@@ -195,6 +201,12 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
+    if codes is NULL or vector is NULL:
+        free(codes)
+        free(vector)
+
+        raise MemoryError()
+
     cdef unsigned int i = 0
 
     while i < max_distance:
-- 
2.43.0


From 99d35396f5a89018144471ba91969f0d5f66eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:00 +0000
Subject: [PATCH 05/43] fix: pairwise_leader must drop clusters exceeding
 max_size & release their members

---
 fog/clustering/pairwise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..2d3c84c 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -105,11 +106,12 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                     cluster.append(B)
 
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
                 visited.add(j)
+                members.append(j)
 
         if cluster is not None and len(cluster) >= min_size:
             yield cluster
-- 
2.43.0


From 5452d78f481828705d16699117ef2ca33db82a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 06/43] fix: key_collision must honor min_size & max_size when
 merging buckets

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From 636f3f29fbec0c932b17b989d67eb975a11bd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 07/43] fix: key_collision must not make an item collide with
 itself when its keys repeat

---
 fog/clustering/key_collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..fee27ae 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            # NOTE: an item cannot collide with itself
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From c1047b5b4b561b6b63c82e10d8ae85a32a49181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 08/43] fix: quickjoin must convert a similarity to an actual
 distance lest it misses pairs

---
 fog/clustering/quickjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..1a85ca6 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,8 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        distance = lambda x, y: 1 - similarity(x, y)
+        radius = 1 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From 0747037c7196e9d26dfa86e7cda0c1f051972eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 09/43] fix: vp_tree clustering must not crash on less than two
 items

---
 fog/clustering/quickjoin.py | 2 +-
 fog/clustering/vp_tree.py   | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 1a85ca6..da64f86 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..cf9e98f 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,13 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: the tree cannot index less than two items
+    if len(data) < 2:
+        if len(data) == 1 and min_size <= 1 <= max_size:
+            yield [data[0]]
+
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From 96e485d793c40e38fbd11cb3334fd1dd2598bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:00 +0000
Subject: [PATCH 10/43] fix: passjoin must not repeat items in fuzzy clusters
 when a pair arises more than once

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From 7652272600a1b2edb454bccce68b01977f6305ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:19 +0000
Subject: [PATCH 11/43] fix: ppjoin must filter & index using token positions,
 not the threshold, lest it misses pairs

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,14 +389,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From f12d0961543f48e808478f778965cc3b8a4e7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:19 +0000
Subject: [PATCH 12/43] fix: ppjoin default token ordering must work without a
 tokenizer

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..ccd38c1 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From 09cd5fb9613fe49f52148706a3ca8eed8c4a5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:19 +0000
Subject: [PATCH 13/43] fix: ppjoin must not crash on records without tokens

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index ccd38c1..9c2627a 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # An empty record cannot share a token with another one
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From a5e375fa347f9a8b106548cf867a6f4d3ad377a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:17 +0000
Subject: [PATCH 14/43] fix: adaptive_sorted_neighborhood must not enlarge its
 window past the last record

---
 fog/clustering/sorted_neighborhood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..df26340 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -119,11 +119,14 @@ def full_AA_SNM(sorted_records, similarity, window):
         f = first
 
         # Enlargement
-        while similarity(sorted_records[first], sorted_records[last]):
+        while last < n and similarity(sorted_records[first], sorted_records[last]):
             w = last - f + 1
             first = last
             last = first + w - 1
 
+        # NOTE: the window cannot be enlarged past the last record
+        last = min(last, n - 1)
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From 2655adcf329c48d05151a99a6c4dbada4f06a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:21 +0000
Subject: [PATCH 15/43] fix: multipass sorted neighborhood must not exhaust
 iterators at its first pass

---
 fog/clustering/sorted_neighborhood.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index df26340..ed1b3f8 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,9 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # NOTE: multipass variant needs to sort the data several times
+    data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -200,6 +203,9 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # NOTE: multipass variant needs to sort the data several times
+    data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 25efcd1e1cadb20842973333a7ecbe93f2bc1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 16/43] fix: MinHash must not crash when using numpy

---
 fog/lsh/minhash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..5e27a48 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,15 +102,16 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            # NOTE: working on 64 bits because the universal hash would overflow
+            signature = np.repeat(np.array(list(tokens), dtype=np.uint64), self.h)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
             signature *= self.A
             signature += self.B
-            signature %= NEXT_PRIME
+            signature %= np.uint64(NEXT_PRIME)
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), np.uint64(MAX_UINT32)).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From dcefd6b60eaf4b58498d8bae4a2c2ce629ebff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 17/43] fix: minhash must not guess more bands than there are
 integers in a signature

---
 fog/clustering/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..8e20880 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -80,7 +80,7 @@ def guess_bands(h, threshold):
 
     bands = 1
 
-    while bands <= h:
+    while bands < h:
         t = similarity_threshold(h, bands)
 
         if t <= threshold:
-- 
2.43.0


From 2bfabde4f760c49671626129fcc32a08dd50b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 18/43] fix: nn_descent must handle less than two items & k
 larger than the number of other items

---
 fog/clustering/nn_descent.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..454995a 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,17 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # NOTE: there is no pair to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +281,17 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # NOTE: there is no pair to find
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # NOTE: an item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From d980f72e8bcd68cb346f5e2b2b7f56de5b1303d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:42 +0000
Subject: [PATCH 19/43] fix: nn_descent must not keep a same neighbor more than
 once

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 454995a..34318c6 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -57,6 +57,14 @@ def reverse(B):
     return R
 
 
+def has_neighbor(heap, j):
+    """
+    Returns whether the given index can already be found in a neighbor heap.
+
+    """
+    return any(neighbor[1] == j for neighbor in heap)
+
+
 def nn_descent(data, radius, similarity=None, distance=None, k=None,
                min_size=2, max_size=float('inf'),
                mode='connected_components',
@@ -153,7 +161,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not has_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -347,11 +355,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not has_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not has_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -362,11 +370,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not has_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not has_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From 498f519af37c487f417920497c84c654e4be166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:33 +0000
Subject: [PATCH 20/43] fix: levenshtein_2d_blocks must not miss strings whose
 middle block is shifted

---
 fog/key/levenshtein.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..e5302bb 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -210,7 +210,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
         basic = (
             flag1 + string[:h],
             flag2 + string[h:h * 2],
-            flag3 + string[h * 2:]
+            flag3 + string[h * 2:],
+
+            # NOTE: the middle block can be shifted by one character if one was
+            # deleted before it and another one added after it
+            flag2 + string[h + 1:h * 2 + 1]
         )
 
         if transpositions:
-- 
2.43.0


From 2557c6508fcc2da72e9dd3a574f79fba20e07569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:15 +0000
Subject: [PATCH 21/43] fix: damerau_levenshtein_2d_blocks must handle the
 empty string & not miss double transpositions

---
 fog/key/levenshtein.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index e5302bb..e6e712b 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -217,7 +217,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag2 + string[h + 1:h * 2 + 1]
         )
 
-        if transpositions:
+        if transpositions and n > 0:
             h1 = h - 1
 
             return basic + (
@@ -248,7 +248,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
         h1 = n // 3
         h = h1 + 1
 
-        return (
+        basic = (
             flag1 + string[:h],
             flag2 + string[h:h + h1],
             flag3 + string[h + h1:],
@@ -260,5 +260,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h1 * 2:]
         )
 
+        # NOTE: two transpositions can straddle the blocks' boundaries
+        if transpositions and n > 1:
+            return basic + (flag1 + string[:h1 - 1] + string[h1], )
+
+        return basic
+
 
 damerau_levenshtein_2d_blocks = partial(levenshtein_2d_blocks, transpositions=True)
-- 
2.43.0


From f6d7b412914ec5c3eff743a6c4aa5a54a3b9cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:59 +0000
Subject: [PATCH 22/43] fix: monopartite_projection must not crash on nodes
 with null cosine vectors

---
 fog/graph/projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..ade27b1 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -162,6 +162,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     if monopartite.has_edge(n1, n2):
                         continue
 
+                    # NOTE: nodes whose vector is null were not kept
+                    if n2 not in vectors:
+                        continue
+
                     norm2, vector2 = vectors[n2]
 
                     # NOTE: at this point, both norms should be > 0
-- 
2.43.0


From 32955715879cbe1847d135b54c1bd72d76f1e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:59 +0000
Subject: [PATCH 23/43] fix: monopartite_projection must not require nodes to
 be orderable

---
 fog/graph/projection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index ade27b1..f2caccf 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -137,7 +137,11 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
     # Version relying on graph traversals
     if use_topology:
 
+        done = set()
+
         for n1, (norm1, vector1) in vectors.items():
+            done.add(n1)
+
             for np in bipartite.neighbors(n1):
                 for n2 in bipartite.neighbors(np):
 
@@ -146,7 +150,8 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     # the same as cutting edges from n1 to np after you
                     # traversed them.
                     # We also avoid (n1, n1) since n1 is obv. a neighbor of np.
-                    if n1 >= n2:
+                    # NOTE: nodes are not necessarily orderable
+                    if n2 in done:
                         continue
 
                     # NOTE: if a threshold is given, this condition does
-- 
2.43.0


From 57b8f2ac4a01bf24ed68fd78de7bef84b113123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:59 +0000
Subject: [PATCH 24/43] fix: floatsam_sparsification must stop when no edge is
 left instead of looping forever

---
 fog/graph/sparsification.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..a7673f5 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -48,6 +48,7 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
 
     threshold = starting_treshold
     best_threshold = None
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
 
     def edge_filter(u, v, attr):
         return attr[weight] >= threshold
@@ -59,6 +60,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         best_threshold = threshold
         threshold += learning_rate
 
+        # NOTE: no edge would be left
+        if threshold > max_weight:
+            break
+
         c = second_largest_component_size(graph, edge_filter)
 
         if c is not None and c >= max_drifter_size:
-- 
2.43.0


From 144285a9411092a190b0f08f28f9737b5cc029d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:59 +0000
Subject: [PATCH 25/43] fix: hashjoin must not exhaust lazy keys on the first
 comparison

---
 fog/join/hashjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..f777374 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -63,12 +63,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & set(key_b)) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From e46f511ef3b7f3e7f984336a46831379ead4499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:59 +0000
Subject: [PATCH 26/43] fix: hashjoin must not miss pairs when its right side
 is an iterator

---
 fog/join/hashjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index f777374..26c7f2c 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # NOTE: we need to iterate more than once over B
+    if iter(B) is B:
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
-- 
2.43.0


From dfa0af0e00f457094e5d73bc687e95c824693d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:29 +0000
Subject: [PATCH 27/43] fix: keep the text following a point after a capital in
 word tokens

---
 fog/tokenizers/words.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..0cbe807 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -502,7 +502,10 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if not t:
+                            continue
+
                         yield ('word' if t != '.' else 'punct', t)
 
                 i = j
-- 
2.43.0


From 0b88473c02d0a9b6aba7b98d88dd8a02e218d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:33 +0000
Subject: [PATCH 28/43] fix: do not emit empty tokens for words ending in -t-

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 0cbe807..6966195 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -576,7 +576,7 @@ class WordTokenizer(object):
                     # Handling unions that should be split
                     hyphens = before.count('-')
 
-                    if hyphens == 2 and '-t-' in before:
+                    if hyphens == 2 and '-t-' in before and not before.endswith('-'):
                         for t in before.split('-'):
                             yield (token_type, t)
 
-- 
2.43.0


From 4e8f74793dd7e39a9546808eca140d0a8d4b2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:37 +0000
Subject: [PATCH 29/43] fix: a lone hyphen is punctuation, not a number nor the
 start of a contraction

---
 fog/tokenizers/words.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 6966195..3e1cf35 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -442,6 +442,10 @@ class WordTokenizer(object):
                 if already_consumed and j > i + 1 and string[j - 1] in DECIMALS:
                     j -= 1
 
+                # A lone hyphen is not a number
+                if string[i:j] == '-':
+                    token_type = 'punct'
+
             # Alphanumerical token
             can_be_acronym = False
 
@@ -512,7 +516,7 @@ class WordTokenizer(object):
                 continue
 
             # Handling contractions
-            if j < l and string[j] in APOSTROPHES:
+            if j < l and string[j] in APOSTROPHES and before != '-':
                 k = j + 1
 
                 while k < l:
-- 
2.43.0


From 3c7259bc682816e99f1675acb1ce4dcd607af68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:02 +0000
Subject: [PATCH 30/43] fix: hashtags and mentions end at the following
 apostrophe

---
 fog/tokenizers/words.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 3e1cf35..59115bf 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -527,7 +527,20 @@ class WordTokenizer(object):
 
                     k += 1
 
-                if k > j + 1:
+                # Hashtags and mentions end at the apostrophe
+                if token_type == 'hashtag' or token_type == 'mention':
+                    if token_type == 'hashtag' and self.split_hashtags:
+                        yield from split_hashtag(before)
+                    else:
+                        yield (token_type, before)
+
+                    if string[j + 1:k] in ENGLISH_CONTRACTIONS:
+                        yield ('word', string[j:k])
+                    else:
+                        yield ('punct', string[j])
+                        k = j + 1
+
+                elif k > j + 1:
                     after = string[j + 1:k]
 
                     if after[0].isdigit():
-- 
2.43.0


From 759d4e34967342a0d30b42c029ff86516c396cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:06 +0000
Subject: [PATCH 31/43] fix: tokens holding an apostrophe are words, not
 numbers

---
 fog/tokenizers/words.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 59115bf..f5ed0bc 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -544,20 +544,20 @@ class WordTokenizer(object):
                     after = string[j + 1:k]
 
                     if after[0].isdigit():
-                        yield (token_type, before + string[j])
+                        yield ('word', before + string[j])
                         i = j + 1
                         continue
 
                     elif after in ENGLISH_CONTRACTIONS:
                         yield (token_type, before)
-                        yield (token_type, string[j] + after)
+                        yield ('word', string[j] + after)
 
                     elif (
                         (before.endswith('n') and after == 't') or
                         after in FRENCH_EXCEPTIONS or
                         '-' in before
                     ):
-                        yield (token_type, string[i:k])
+                        yield ('word', string[i:k])
 
                     elif (
                         (
@@ -567,10 +567,10 @@ class WordTokenizer(object):
                         ) or
                         before in IRISH
                     ):
-                        yield (token_type, before + string[j] + after)
+                        yield ('word', before + string[j] + after)
 
                     else:
-                        yield (token_type, before + string[j])
+                        yield ('word', before + string[j])
                         i = j + 1
                         continue
 
-- 
2.43.0


From 8d746df9f7c9add739caf40a196947ffc4c327e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:51 +0000
Subject: [PATCH 32/43] fix: cologne collapses the duplicates of the leading
 code

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..7fa7986 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -121,6 +121,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From c727d4bfb8f97209bd96d824065be339d5ec05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:54 +0000
Subject: [PATCH 33/43] fix: rusalka of a name made only of dropped letters

---
 fog/phonetics/rusalka.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..7d95d28 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,9 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    if not name:
+        return ''
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From 302d17a3044b67e5aeeb6073f62124779582dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:58 +0000
Subject: [PATCH 34/43] fix: fog split writes one value per row in the target
 column

---
 fog/cli/split.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..247c856 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -25,15 +25,10 @@ def split_action(namespace):
     for line in reader:
         values = line[position]
 
-        if len(values) == 0:
-            writer.writerow(line)
-            continue
-
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From 6c5bc63cbf13e24c7a9403990079aca38a6fe63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:01 +0000
Subject: [PATCH 35/43] fix: escape backslashes and control characters in TOML
 reports

---
 fog/cli/reporting/toml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..70c12e8 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -4,10 +4,16 @@
 #
 # Function used to render a clustering result into a TOML file.
 #
+import re
+
+CONTROL_RE = re.compile(r'[\x00-\x1f\x7f]')
 
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    string = string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+
+    # NOTE: other control characters are not allowed in TOML strings
+    return CONTROL_RE.sub(lambda m: '\\u%04x' % ord(m.group()), string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From 90b380cadb871cdba683e8b50ca6be83dafa0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:05 +0000
Subject: [PATCH 36/43] fix: escape values in HTML reports

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From 4f24f076a100127190cf2e16cc06c0be3cb91094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:08 +0000
Subject: [PATCH 37/43] fix: fingerprints keep the capitals yielded by
 transliteration

---
 fog/tokenizers/fingerprint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..77f04dc 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -103,8 +103,8 @@ class FingerprintTokenizer(object):
         if self.min_token_size_re:
             string = re.sub(self.min_token_size_re, '', string)
 
-        # Deburring
-        string = unidecode(string)
+        # Deburring (some characters, e.g. ideograms, yield capitals)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -156,8 +156,8 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
         if self.min_token_size_re:
             string = re.sub(self.min_token_size_re, '', string)
 
-        # Deburring
-        string = unidecode(string)
+        # Deburring (some characters, e.g. ideograms, yield capitals)
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From 4e359c94172d4cf6c8a08fd0c15d6030418de2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:11 +0000
Subject: [PATCH 38/43] fix: squeeze drops consecutive line breaks too

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From a08b221f0ffe707bee0475689a41cef35b7c7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:15 +0000
Subject: [PATCH 39/43] fix: skip the blank lines of csv files in the CLI

---
 fog/cli/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index c3b9321..cde6926 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -12,7 +12,8 @@ def custom_reader(f, target_header):
     # dialect = sniffer.sniff(f.read(1024))
     # f.seek(0)
 
-    reader = csv.reader(f)
+    # NOTE: blank lines are no rows
+    reader = filter(None, csv.reader(f))
 
     headers = next(reader, None)
 
-- 
2.43.0


From b0b59f1fc7698a48ae150c32618610cdf9466079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:21 +0000
Subject: [PATCH 40/43] fix: phonetic codes keep every letter yielded by
 transliteration

---
 fog/phonetics/cologne.py | 2 +-
 fog/phonetics/rusalka.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 7fa7986..496a654 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -84,7 +84,7 @@ def cologne(name):
     for p, r in GERMANIC_SUBSTITUTIONS:
         name = name.replace(p, r)
 
-    name = unidecode(name)
+    name = unidecode(name).upper()
     name = re.sub(ALPHA_RE, '', name)
 
     code = []
diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 7d95d28..1fd7bf2 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -88,7 +88,7 @@ def rusalka(name):
         name = re.sub(pattern, replacement, name)
 
     # Unidecode
-    name = unidecode(name)
+    name = unidecode(name).lower()
 
     # Dropping irrelevant characters
     name = re.sub(FILTER, '', name)
-- 
2.43.0


From ccc6329ba4dd298b12ec7e0a75b51a4a05328952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:22 +0000
Subject: [PATCH 41/43] fix: quickjoin must terminate when more than a block of
 items coincide

---
 fog/clustering/quickjoin.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index da64f86..73ca396 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -269,6 +269,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
 
                 L, G, Lw, Gw = partition(S, distance, p1, radius, rho)
 
+                # NOTE: coinciding pivots cannot split points within the radius
+                if rho == 0 and len(Gw) == N:
+                    yield (S, None)
+                    continue
+
                 # Recursion
                 stack.append((G, None))
                 stack.append((L, None))
@@ -280,11 +285,10 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 N2 = len(S2)
                 N = N1 + N2
 
-                if N <= block_size:
-
-                    if N1 == 0 or N2 == 0:
-                        continue
+                if N1 == 0 or N2 == 0:
+                    continue
 
+                if N <= block_size:
                     yield (S1, S2)
                     continue
 
@@ -303,6 +307,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 L1, G1, Lw1, Gw1 = partition(S1, distance, p1, radius, rho)
                 L2, G2, Lw2, Gw2 = partition(S2, distance, p1, radius, rho)
 
+                # NOTE: coinciding pivots cannot split points within the radius
+                if rho == 0 and len(Gw1) + len(Gw2) == N:
+                    yield (S1, S2)
+                    continue
+
                 stack.append((L1, L2))
                 stack.append((G1, G2))
                 stack.append((Lw1, Gw2))
-- 
2.43.0


From 24437b502caadd1aad9dae21099156bffb26ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:17 +0000
Subject: [PATCH 42/43] fix: close the tags of HTML reports

---
 fog/cli/reporting/html.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 4ade43c..917ed19 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -84,7 +84,7 @@ def print_html_report(file, meta, values, clusters):
     p('      <h2>Clusters:</h2>')
 
     for i, cluster in enumerate(clusters):
-        p('      <p>')
+        p('      <div>')
         p('        Cluster n°%i (%i unique values, %i affected rows):' % (i + 1, len(cluster), sum(values[v] for v in cluster)))
         p('      <ul>')
 
@@ -97,8 +97,8 @@ def print_html_report(file, meta, values, clusters):
             p('        </li>')
 
         p('      </ul>')
-        p('      </p>')
+        p('      </div>')
 
     p('    </div>')
     p('  </body>')
-    p('<html>')
+    p('</html>')
-- 
2.43.0


From 2f77cfc26924af60882a9867bb8268aec075e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 43/43] fix: SuperMinHash must not truncate its values

Truncated to integers, the values of disjoint sets coincide (two disjoint
sets of 1000 tokens were deemed 97% similar with 256 values), since nearly
all of them fall between 0 and 1 once the sets outgrow the signature.
---
 fog/lsh/minhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index 5e27a48..4d5f8a7 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -193,7 +193,7 @@ class SuperMinHash(object):
 
                 j += 1
 
-        return [int(i) for i in h]
+        return h
 
 
 class LSBMinHash(object):
-- 
2.43.0

