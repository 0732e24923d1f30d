From 4fe870a7c9f79feac1372364d5a9075268d7c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 1/7] fix: count each distinct term once in SortedDawg::add

A term equal to the previous one was accepted and counted again, so size()
exceeded the number of distinct terms and iteration repeated the last term.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..a36d5f0 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -18,9 +18,11 @@ auto SortedDawg::add(const std::string &term) -> bool {
   }
 
   if (term.empty()) {
-    _root->is_final(true);
+    if (!_root->is_final()) {
+      _root->is_final(true);
+      _size += 1;
+    }
     _prev_term = term;
-    _size += 1;
     return true;
   }
 
@@ -48,9 +50,11 @@ auto SortedDawg::add(const std::string &term) -> bool {
     source = target;
   }
 
-  source->is_final(true);
+  if (!source->is_final()) {
+    source->is_final(true);
+    _size += 1;
+  }
   _prev_term = term;
-  _size += 1;
   return true;
 }
 
-- 
2.43.0


From e5a5677fd1ae6e86ee583c1a896839c521a9ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 2/7] fix: refuse to add terms to a finished SortedDawg

add() dereferenced the construction state that clean_up() (or deserialization)
leaves null, so adding to a finished dictionary crashed, or, for the empty
term, changed it.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index a36d5f0..6c74f75 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -13,6 +13,11 @@ SortedDawg::~SortedDawg() {
 }
 
 auto SortedDawg::add(const std::string &term) -> bool {
+  // Terms may only be added between init() and clean_up().
+  if (unchecked_transitions == nullptr) {
+    return false;
+  }
+
   if (term < _prev_term) {
     return false;
   }
-- 
2.43.0


From 2bb9469529536f06b9f5d817e0ff1eeef9a7a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 3/7] fix: keep the target when DawgNode::add_edge re-adds the
 same edge

Adding the edge a node already has deleted its target and stored the dangling
pointer.
---
 src/liblevenshtein/collection/dawg_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..f2d6d8c 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -40,7 +40,9 @@ auto DawgNode::transition(char label) const -> DawgNode * {
 
 auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
   DawgNode* existing = transition(label);
-  delete existing;
+  if (existing != target) {
+    delete existing;
+  }
   _edges[label] = target;
   return this;
 }
-- 
2.43.0


From 3a59833b3d28a58ec82b9440d4372297ad203357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 4/7] fix: judge subsumption by rhs's own special flag and the
 maximum distance

subsumes<TRANSPOSITION> and subsumes<MERGE_AND_SPLIT> read lhs's flag for both
positions, and StateTransition handed the query length to the predicate that
documents the maximum edit distance, so non-redundant positions were reported
as subsumed.
---
 src/liblevenshtein/transducer/state_transition.cpp | 2 +-
 src/liblevenshtein/transducer/subsumes.cpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liblevenshtein/transducer/state_transition.cpp b/src/liblevenshtein/transducer/state_transition.cpp
index f184df0..b1413d5 100644
--- a/src/liblevenshtein/transducer/state_transition.cpp
+++ b/src/liblevenshtein/transducer/state_transition.cpp
@@ -25,7 +25,7 @@ auto StateTransition::operator()(State *curr_state,
     merge(next_state, transition(n, position, characteristic_vector, offset));
   }
 
-  unsubsume(next_state, query_length);
+  unsubsume(next_state, n);
 
   if (next_state->head() != nullptr) {
     next_state->sort(compare);
diff --git a/src/liblevenshtein/transducer/subsumes.cpp b/src/liblevenshtein/transducer/subsumes.cpp
index 9bd5c4b..a002966 100644
--- a/src/liblevenshtein/transducer/subsumes.cpp
+++ b/src/liblevenshtein/transducer/subsumes.cpp
@@ -21,7 +21,7 @@ auto subsumes<Algorithm::TRANSPOSITION>(Position *lhs, Position *rhs,
 
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s) {
     if (t) {
@@ -46,7 +46,7 @@ auto subsumes<Algorithm::MERGE_AND_SPLIT>(Position *lhs, Position *rhs,
   bool s = lhs->is_special();
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
 
   if (s && !t) {
     return false;
-- 
2.43.0


From e1a6e2202a8e1ff39374202b134de3e16abd1fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 5/7] fix: report failure when the serialized dictionary cannot
 be flushed

The bytes may still be in the stream's buffer when SerializeToOstream returns,
so a full disk was only noticed by close(), whose outcome was ignored.
---
 src/liblevenshtein/serialization/serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..8e02f5f 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -31,7 +31,7 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
   output.close();
-  return serialized;
+  return serialized && output.good();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From 3b413f36ebfb64a2eafce7eb93aa45196e28c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:29 +0000
Subject: [PATCH 6/7] fix: reject incomplete serialized dictionaries instead of
 crashing on them

An empty or truncated file, or one whose edges or root name a missing node,
was deserialized into a dictionary with null nodes (or dereferenced them on
the spot). deserialize_protobuf documents nullptr for that.
---
 .../serialization/serializer.cpp              | 32 ++++++++++++++++---
 src/liblevenshtein/serialization/serializer.h |  3 +-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 8e02f5f..a652bab 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -142,18 +142,40 @@ auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
     }
   }
 
+  bool is_valid = true;
   for (int index = 0; index < dict_proto.edge_size(); index += 1) {
     const llp::Dictionary_Edge &edge_proto = dict_proto.edge(index);
     uint64_t source_id = edge_proto.source_id();
     char label = (char)edge_proto.label();
     uint64_t target_id = edge_proto.target_id();
-    DawgNode *source = nodes[source_id];
-    DawgNode *target = nodes[target_id];
-    source->add_edge(label, target);
+    auto source = nodes.find(source_id);
+    auto target = nodes.find(target_id);
+    if (source == nodes.end() || target == nodes.end() ||
+        source->second->transition(label) != nullptr) {
+      is_valid = false;
+      break;
+    }
+    source->second->add_edge(label, target->second);
+  }
+
+  // The root and the size are serialized last, and only the dictionary without
+  // terms has no size, so an incomplete serialization lacks at least one.
+  auto root = nodes.find(dict_proto.root_id());
+  if (root == nodes.end()) {
+    is_valid = false;
+  } else {
+    bool has_terms = root->second->is_final() || dict_proto.edge_size() > 0;
+    is_valid = is_valid && has_terms == (dict_proto.size() > 0);
+  }
+
+  if (!is_valid) {
+    for (const auto &[node_id, node] : nodes) {
+      delete node;
+    }
+    return nullptr;
   }
 
-  DawgNode *root = nodes[dict_proto.root_id()];
-  auto *dawg = new SortedDawg(root, dict_proto.size());
+  auto *dawg = new SortedDawg(root->second, dict_proto.size());
   return dawg;
 }
 
diff --git a/src/liblevenshtein/serialization/serializer.h b/src/liblevenshtein/serialization/serializer.h
index 03639c4..b7be4a4 100644
--- a/src/liblevenshtein/serialization/serializer.h
+++ b/src/liblevenshtein/serialization/serializer.h
@@ -125,7 +125,8 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary *;
  *
  * @param dict_proto Protobuf containing the serialized information necessary
  * for reconstructing the Dawg.
- * @return A pointer to the deserialized Dawg.
+ * @return A pointer to the deserialized Dawg or nullptr if the protobuf does not
+ * describe a complete one.
  */
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg *;
 
-- 
2.43.0


From 31f2558966a79c4a6b0ce0c2720356ee891d0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 7/7] fix: make owners of raw pointers non-copyable

Copying a Dawg, DawgIterator, Position, State, Intersection, LazyQuery or
Transducer duplicated ownership of raw pointers and freed them twice.
---
 src/liblevenshtein/collection/dawg.h          | 6 ++++++
 src/liblevenshtein/collection/dawg_iterator.h | 6 ++++++
 src/liblevenshtein/transducer/intersection.h  | 6 ++++++
 src/liblevenshtein/transducer/lazy_query.h    | 6 ++++++
 src/liblevenshtein/transducer/position.h      | 6 ++++++
 src/liblevenshtein/transducer/state.h         | 6 ++++++
 src/liblevenshtein/transducer/transducer.h    | 6 ++++++
 7 files changed, 42 insertions(+)

diff --git a/src/liblevenshtein/collection/dawg.h b/src/liblevenshtein/collection/dawg.h
index 6339d99..aace61c 100644
--- a/src/liblevenshtein/collection/dawg.h
+++ b/src/liblevenshtein/collection/dawg.h
@@ -40,6 +40,12 @@ public:
    */
   Dawg();
 
+  /**
+   * A dictionary owns its nodes, so it may not be copied.
+   */
+  Dawg(const Dawg &other) = delete;
+  auto operator=(const Dawg &other) -> Dawg & = delete;
+
   /**
    * Deletes all the nodes associated with this dictionary.
    */
diff --git a/src/liblevenshtein/collection/dawg_iterator.h b/src/liblevenshtein/collection/dawg_iterator.h
index 3aeb97f..7bf35a9 100644
--- a/src/liblevenshtein/collection/dawg_iterator.h
+++ b/src/liblevenshtein/collection/dawg_iterator.h
@@ -34,6 +34,12 @@ public:
    */
   DawgIterator(std::size_t term_index);
 
+  /**
+   * An iterator owns its prefixes, so it may not be copied.
+   */
+  DawgIterator(const DawgIterator &other) = delete;
+  auto operator=(const DawgIterator &other) -> DawgIterator & = delete;
+
   /**
    * Cleans up all the prefixes allocated by this iterator.
    */
diff --git a/src/liblevenshtein/transducer/intersection.h b/src/liblevenshtein/transducer/intersection.h
index 43e7361..b0317c4 100644
--- a/src/liblevenshtein/transducer/intersection.h
+++ b/src/liblevenshtein/transducer/intersection.h
@@ -27,6 +27,12 @@ public:
    */
   Intersection(char label, DawgNode *node, State *state, Intersection *parent = nullptr);
 
+  /**
+   * An Intersection owns its State, so it may not be copied.
+   */
+  Intersection(const Intersection &other) = delete;
+  auto operator=(const Intersection &other) -> Intersection & = delete;
+
   /**
    * Frees all owned members.
    */
diff --git a/src/liblevenshtein/transducer/lazy_query.h b/src/liblevenshtein/transducer/lazy_query.h
index b0b4390..8a9b3bf 100644
--- a/src/liblevenshtein/transducer/lazy_query.h
+++ b/src/liblevenshtein/transducer/lazy_query.h
@@ -54,6 +54,12 @@ public:
    */
   LazyQuery() = default;
 
+  /**
+   * A LazyQuery owns its Intersections, so it may not be copied.
+   */
+  LazyQuery(const LazyQuery &other) = delete;
+  auto operator=(const LazyQuery &other) -> LazyQuery & = delete;
+
   /**
    * Frees any owned members.
    */
diff --git a/src/liblevenshtein/transducer/position.h b/src/liblevenshtein/transducer/position.h
index 3283caf..70486b5 100644
--- a/src/liblevenshtein/transducer/position.h
+++ b/src/liblevenshtein/transducer/position.h
@@ -22,6 +22,12 @@ public:
   Position(std::size_t term_index, std::size_t num_errors,
            bool is_special = false);
 
+  /**
+   * A Position owns the ones that follow it, so it may not be copied.
+   */
+  Position(const Position &other) = delete;
+  auto operator=(const Position &other) -> Position & = delete;
+
   /**
    * Frees any owned allocations.
    */
diff --git a/src/liblevenshtein/transducer/state.h b/src/liblevenshtein/transducer/state.h
index 06dc156..ee2e0bf 100644
--- a/src/liblevenshtein/transducer/state.h
+++ b/src/liblevenshtein/transducer/state.h
@@ -45,6 +45,12 @@ public:
    */
   State(std::vector<Position *> &positions);
 
+  /**
+   * A State owns its Positions, so it may not be copied.
+   */
+  State(const State &other) = delete;
+  auto operator=(const State &other) -> State & = delete;
+
   /**
    * Frees any owned allocations.
    */
diff --git a/src/liblevenshtein/transducer/transducer.h b/src/liblevenshtein/transducer/transducer.h
index f78475b..c793838 100644
--- a/src/liblevenshtein/transducer/transducer.h
+++ b/src/liblevenshtein/transducer/transducer.h
@@ -34,6 +34,12 @@ public:
    */
   Transducer(DawgNode *root);
 
+  /**
+   * A Transducer owns its initial Intersection, so it may not be copied.
+   */
+  Transducer(const Transducer &other) = delete;
+  auto operator=(const Transducer &other) -> Transducer & = delete;
+
   /**
    * Frees any owned allocations.
    */
-- 
2.43.0

