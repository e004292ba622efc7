From f44f4b205e5237d80e0757765b04c435414c7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 01/79] fix: IntegerNode/BinaryNode default moves with negative
 lower bounds and on empty arrays

---
 dwave/optimization/src/nodes/numbers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..9ae759a 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,8 +139,9 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
@@ -168,6 +169,7 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to change
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From 7b58c1cc8c71c10ac19e016070c50df5c19bdd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 02/79] fix: default moves of empty collections read out of
 bounds

---
 dwave/optimization/src/nodes/collections.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..0d6ffbb 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -341,6 +341,8 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to move
+
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -663,6 +665,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 }
 
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // nothing to move
+
     auto data = data_ptr<DisjointListStateData>(state);
 
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
@@ -746,6 +750,8 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // nothing to exchange
+
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
-- 
2.43.0


From cefc4af5750a6fcadba43300df9a569a2dfe909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 03/79] fix: DisjointBitSetsNode accepted initial states that
 are not a partition

---
 dwave/optimization/src/nodes/collections.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 0d6ffbb..8440f12 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -13,6 +13,7 @@
 //    limitations under the License.
 #include "dwave-optimization/nodes/collections.hpp"
 
+#include <algorithm>
 #include <ranges>
 #include <unordered_set>
 #include <utility>
@@ -244,7 +245,8 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        // the number of sets that each element is in
+        std::vector<ssize_t> counts(primary_set_size, 0);
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,11 +258,11 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                counts[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
+        if (std::ranges::any_of(counts, [](const ssize_t& count) { return count != 1; })) {
             throw std::invalid_argument(
                     "disjoint set elements must be in exactly one bit-set once");
         }
-- 
2.43.0


From 33632c0846cdeaebcff52de29c3d1396c7a4dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 04/79] fix: undefined float to integer conversions when
 initializing collections

---
 dwave/optimization/src/nodes/collections.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 8440f12..2d45150 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -14,6 +14,7 @@
 #include "dwave-optimization/nodes/collections.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <ranges>
 #include <unordered_set>
 #include <utility>
@@ -163,7 +164,7 @@ void CollectionNode::initialize_state(State& state, std::vector<double> contents
     }
 
     for (const auto& val : contents) {
-        if (ssize_t(val) != val) throw std::invalid_argument("contents must be integral");
+        if (std::trunc(val) != val) throw std::invalid_argument("contents must be integral");
         if (val < 0) throw std::invalid_argument("contents must be non-negative");
         if (val >= max_value_) throw std::invalid_argument("contents too large for the collection");
     }
@@ -409,16 +410,17 @@ struct DisjointListStateData : NodeStateData {
         std::unordered_set<size_t> elements;
         for (const auto& list : lists) {
             for (const auto& el : list) {
-                size_t int_el = static_cast<size_t>(el);
-                if (el < 0.0 || static_cast<double>(int_el) != el) {
+                // check the range before casting
+                if (!(el >= 0.0) || std::trunc(el) != el) {
                     throw std::invalid_argument(
                             "disjoint list elements must be integral and non-negative");
                 }
-                if (int_el >= primary_set_size) {
+                if (el >= static_cast<double>(primary_set_size)) {
                     throw std::invalid_argument(
                             "disjoint list elements must be belong in the range [0, "
                             "primary_set_size)");
                 }
+                size_t int_el = static_cast<size_t>(el);
                 auto [_, inserted] = elements.insert(int_el);
                 if (!inserted) {
                     throw std::invalid_argument(
-- 
2.43.0


From f1c2785356e844f793af606745da1fd42a4bfeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 05/79] fix: ConcatenateNode recorded the wrong old value in
 its diff, breaking revert()

---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From b5462a8d2d041fa92d08f8799af82dde4fe77707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 06/79] fix: a refused ConcatenateNode left dangling successors
 behind

---
 dwave/optimization/src/nodes/manipulation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..389242d 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -40,12 +40,8 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
+    // only add ourselves to our predecessors once there is nothing left that can throw
     for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
-        if ((*it)->dynamic()) {
-            throw std::invalid_argument(
-                "concatenate input arrays cannot be dynamic");
-        }
-
         this->add_predecessor((*it));
     }
 }
@@ -84,6 +80,10 @@ std::vector<ssize_t> make_concatenate_shape(std::span<ArrayNode*> array_ptrs, ss
         throw std::invalid_argument("need at least one array to concatenate");
     }
 
+    if (std::ranges::any_of(array_ptrs, [](const ArrayNode* ptr) { return ptr->dynamic(); })) {
+        throw std::invalid_argument("concatenate input arrays cannot be dynamic");
+    }
+
     for (auto it = std::next(array_ptrs.begin()), stop = array_ptrs.end(); it != stop; ++it) {
 
         // Arrays must have the same number of dimensions
-- 
2.43.0


From a3cd90fc4627a38680525ae318221e3094b93dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 07/79] fix: bounds of SquareNode were wrong for predecessors
 that can be negative

---
 dwave/optimization/src/nodes/mathematical.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..4eb1138 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1797,8 +1797,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the largest square is that of the bound furthest from 0
+    const double max = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1846,8 +1847,15 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    const double low = array_ptr_->min();
+    const double high = array_ptr_->max();
+
+    // if the range includes 0 then so does the range of squares
+    if (low <= 0 && high >= 0) return 0;
+
+    // otherwise the smallest square is that of the bound closest to 0
+    const double min = std::min(std::abs(low), std::abs(high));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From 1922dcf6f030a9acf25b197741add4243fe32d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:21 +0000
Subject: [PATCH 08/79] fix: bounds of min/max reductions over possibly empty
 arrays ignored init

---
 dwave/optimization/src/nodes/mathematical.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 4eb1138..9262553 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1312,6 +1312,8 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
+        // an empty array reduces to init
+        if (init.has_value() && array_ptr_->size() <= 0) return init.value();
         if (init.has_value()) return std::min(init.value(), array_ptr_->max());
         return array_ptr_->max();
     }
@@ -1395,6 +1397,8 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
+        // an empty array reduces to init
+        if (init.has_value() && array_ptr_->size() <= 0) return init.value();
         if (init.has_value()) return std::max(init.value(), array_ptr_->min());
         return array_ptr_->min();
     }
-- 
2.43.0


From dc386dd08d0568d97af38290eb4b06cb6b0d641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 09/79] fix: a refused NaryOpNode left dangling successors
 behind

---
 .../dwave-optimization/nodes/mathematical.hpp        |  9 ++++++++-
 dwave/optimization/src/nodes/mathematical.cpp        | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..900db5f 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -159,7 +159,11 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
     explicit NaryOpNode(ArrayNode* node_ptr);
     explicit NaryOpNode(std::span<ArrayNode*> node_ptrs);
     explicit NaryOpNode(ArrayNode* node_ptr, std::convertible_to<ArrayNode*> auto... node_ptrs)
-            : NaryOpNode(node_ptr) {
+            : ArrayOutputMixin(node_ptr->shape()) {
+        // check everything before adding any predecessors
+        check_node(node_ptr);
+        (check_node(node_ptrs), ...);
+        add_node(node_ptr);
         (add_node(node_ptrs), ...);
     }
 
@@ -189,6 +193,9 @@ class NaryOpNode : public ArrayOutputMixin<ArrayNode> {
  private:
     using op = BinaryOp;
 
+    // Throws if the node cannot be added as an operand.
+    void check_node(const ArrayNode* node_ptr) const;
+
     std::vector<Array*> operands_;
 };
 
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 9262553..3f7da02 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -494,13 +494,18 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // check everything before adding any predecessors, otherwise when we throw the
+    // predecessors would be left with a dangling successor
+    for (const ArrayNode* ptr : node_ptrs) {
+        check_node(ptr);
+    }
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
 }
 
 template <class BinaryOp>
-void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+void NaryOpNode<BinaryOp>::check_node(const ArrayNode* node_ptr) const {
     if (this->topological_index() >= 0 && node_ptr->topological_index() >= 0 &&
         this->topological_index() < node_ptr->topological_index()) {
         throw std::logic_error("this operation would invalidate the topological ordering");
@@ -513,6 +518,11 @@ void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
     if (!std::ranges::equal(this->shape(), node_ptr->shape())) {
         throw std::invalid_argument("arrays must all be the same shape");
     }
+}
+
+template <class BinaryOp>
+void NaryOpNode<BinaryOp>::add_node(ArrayNode* node_ptr) {
+    check_node(node_ptr);
 
     this->add_predecessor(node_ptr);
     operands_.emplace_back(node_ptr);
-- 
2.43.0


From 19c937f25710e96ce872c19da66d3cac5712c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 10/79] fix: BinaryOpNode confused a dynamic operand of size 1
 with the scalar operand

---
 dwave/optimization/src/nodes/mathematical.cpp | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 3f7da02..0f3f23f 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,9 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
-    // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
-
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    // exactly one of our predecessors is dynamic and it determines our shape. Note
+    // that it may happen to have a size of 1 in this state.
+    return (operands_[0]->dynamic()) ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +377,8 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
-    // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
-
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    // exactly one of our predecessors is dynamic and it determines our size
+    return (operands_[0]->dynamic()) ? operands_[0]->size(state) : operands_[1]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From 785294055c0aea07a57d5ff54584531c2ec6fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:01 +0000
Subject: [PATCH 11/79] fix: refuse to broadcast a dynamic array to more
 dimensions

---
 dwave/optimization/src/nodes/mathematical.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 0f3f23f..8c709d5 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -34,7 +34,11 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
     // If one size is a scalar, we also support dynamic arrays.
     // Otherwise both arrays must be the same shape and not be dynamic
     if (lhs_ptr->size() == 1 || rhs_ptr->size() == 1) {
-        // this is allowed
+        // this is allowed, but only the first axis can be dynamic
+        if ((lhs_ptr->dynamic() && lhs_ptr->ndim() < rhs_ptr->ndim()) ||
+            (rhs_ptr->dynamic() && rhs_ptr->ndim() < lhs_ptr->ndim())) {
+            throw std::invalid_argument("cannot broadcast a dynamic array to more dimensions");
+        }
     } else if (lhs_ptr->dynamic() || rhs_ptr->dynamic()) {
         throw std::invalid_argument("cannot perform a binary op on two dynamic arrays");
     } else if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
-- 
2.43.0


From ed28591b99d834fa66b634c11212a8330971adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 12/79] fix: BasicIndexingNode reported wrong updates for
 strided and multi-dimensional views

---
 dwave/optimization/src/nodes/indexing.cpp | 87 ++++++++---------------
 1 file changed, 30 insertions(+), 57 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..e471450 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1061,7 +1061,8 @@ struct BasicIndexingNodeData : NodeStateData {
 
     Slice fitted_first_slice;
 
-    // This will be used to cache the full output in the case of a negative start index.
+    // This will be used to cache the full output of a dynamic array, which we use in the
+    // case of a negative start index and for multi-dimensional and strided arrays.
     // Keeping a full cache not only keeps the implementation simpler, but because any
     // change of size to the predecessor array means (most definitely) that the entire
     // output of the BasicIndexingNode will change, it is likely close to optimal (unless
@@ -1185,10 +1186,8 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
-            // Initialize the full output cache
-            node_data->full_cache_.assign(begin(state), end(state));
-        }
+        // Initialize the full output cache
+        node_data->full_cache_.assign(begin(state), end(state));
     }
 }
 
@@ -1217,15 +1216,12 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (dynamic() &&
+        (!contiguous_ || array_ptr_->ndim() > 1 || axis0_slice_.value().start < 0)) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1438,56 +1434,36 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
+    } else {
+        // Handle all other cases of static sized arrays.
+        assert(!dynamic());
         assert(!this->contiguous());
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
 
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
-
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
-        assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
-
         for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
-
-            index -= start;
-
-            bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
-                    break;
-                }
-
-                index /= div;
+            // the position in the (contiguous) parent array relative to our first element
+            ssize_t offset = index - this->start_;
+
+            // Find the multi-index of the position in our view. Our strides are positive
+            // and each one is greater than the extent of all of the axes that follow it,
+            // so there is at most one.
+            bool skip = offset < 0;
+            ssize_t flat_index = 0;
+            for (ssize_t axis = 0; axis < ndim_ && !skip; ++axis) {
+                assert(strides_[axis] % this->itemsize() == 0);
+                const ssize_t stride = strides_[axis] / static_cast<ssize_t>(this->itemsize());
+                const ssize_t coord = offset / stride;
+
+                skip = coord >= shape_[axis];  // past the end of the axis
+                flat_index = flat_index * shape_[axis] + coord;
+                offset -= coord * stride;
             }
-            if (skip) continue;
+            if (skip || offset != 0) continue;  // not in our view
 
-            assert(index >= 0 && index < this->size(state));
+            assert(flat_index >= 0 && flat_index < this->size(state));
 
-            diff.emplace_back(index, old, value);
+            diff.emplace_back(flat_index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1501,10 +1477,7 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
+        node_data->full_cache_.resize(node_data->previous_size);
     }
 }
 
-- 
2.43.0


From d536408d935fc77e397534caa2e78f34701ddb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 13/79] fix: BasicIndexingNode multiplied the start of a
 dynamic slice by its step

---
 dwave/optimization/src/nodes/indexing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index e471450..2f9a73a 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1192,7 +1192,8 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // our own strides include the step, which doesn't apply to the start
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
-- 
2.43.0


From 08cb43c474c02e759dcdf95dff7b466470c2006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 14/79] fix: SizeInfo of dynamic slices could exclude sizes
 that the slice takes

---
 dwave/optimization/src/array.cpp          |  96 ++++++++++--------
 dwave/optimization/src/nodes/indexing.cpp | 117 +++++++++++-----------
 2 files changed, 114 insertions(+), 99 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..c263b5a 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -42,62 +42,74 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
             this->max == other.max);
 }
 
+// The smallest integer not smaller than multiplier * n, for nonnegative values.
+static ssize_t ceil_multiply(const fraction& multiplier, const ssize_t n) {
+    const fraction product = multiplier * n;
+    return (product.numerator() + product.denominator() - 1) / product.denominator();
+}
+
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
     if (max_depth <= 0) return *this;
+    if (this->multiplier == 0) return *this;  // already a fixed size
 
-    SizeInfo sizeinfo = this->array_ptr->sizeinfo();
-
-    // Check if substitution will do nothing, and return if so
-    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-    if (this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 && sizeinfo.offset == 0 &&
-        this->min.value_or(-MAX) >= sizeinfo.min.value_or(MAX) &&
-        this->max.value_or(MAX) <= sizeinfo.max.value_or(-MAX)) {
-        return *this;
-    }
+    // A SizeInfo that hasn't been resolved, i.e. that doesn't have a minimum, represents
+    // a size of max(0, min(ceil(multiplier * array_ptr->size()), max) + offset).
+    // One that has been resolved has the bounds on that size as its minimum and maximum, and
+    // there is nothing left to do.
+    if (this->min.has_value()) return *this;
 
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
-
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
-        } else {
-            sizeinfo.max = this->max;
+    assert(this->array_ptr);
+    const SizeInfo array_size = this->array_ptr->sizeinfo();
+
+    // Check whether we can express ourselves in terms of the array that our array gets
+    // its size from.
+    const bool composable =
+            (array_size.array_ptr && array_size.array_ptr != this->array_ptr &&
+             array_size.multiplier != 0 && this->offset <= 0 &&
+             (this->multiplier * array_size.offset).denominator() == 1 &&
+             (this->multiplier.numerator() == 1 || array_size.multiplier.denominator() == 1));
+
+    if (composable) {
+        SizeInfo sizeinfo = array_size;
+        sizeinfo.multiplier *= this->multiplier;
+
+        const ssize_t offset = static_cast<ssize_t>(this->multiplier * array_size.offset);
+        sizeinfo.offset = offset + this->offset;
+
+        if (array_size.max) sizeinfo.max = ceil_multiply(this->multiplier, *array_size.max);
+        if (this->max) {
+            sizeinfo.max = std::min(sizeinfo.max.value_or(*this->max - offset),
+                                    *this->max - offset);
         }
-    }
 
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
-        } else {
-            sizeinfo.min = this->min;
-        }
+        // in the future we can/should do an iterative rather than recurisive
+        // version
+        return sizeinfo.substitute(max_depth - 1);
     }
 
-    if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
-    }
-    if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+    // Otherwise our array determines the bounds.
+    const SizeInfo bounds = array_size.substitute(max_depth - 1);
+
+    auto size = [&](ssize_t array_size) {
+        ssize_t size = ceil_multiply(this->multiplier, array_size);
+        if (this->max) size = std::min(size, *this->max);
+        return std::max<ssize_t>(0, size + this->offset);
+    };
+
+    SizeInfo sizeinfo = *this;
+    sizeinfo.min = size(std::max<ssize_t>(0, bounds.min.value_or(0)));
+    if (bounds.max) {
+        sizeinfo.max = size(*bounds.max);
+    } else if (this->max) {
+        sizeinfo.max = std::max<ssize_t>(0, *this->max + this->offset);
     }
 
-    // Adjust the minimum based on the offset
-    if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
+    // Check whether we're actually a fixed size
+    if (sizeinfo.max.has_value() && *sizeinfo.min == *sizeinfo.max) {
         sizeinfo.offset = *sizeinfo.min;
         sizeinfo.multiplier = 0;
     }
 
-    // in the future we can/should do an iterative rather than recurisive
-    // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
     return sizeinfo;
 }
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 2f9a73a..b20302a 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1491,66 +1491,69 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
-
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
-
-        sizeinfo.multiplier /= axis0_slice_->step;
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
+
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), ssize_t(1), std::multiplies<ssize_t>());
+
+    if (num_per_row == 0 || array_num_per_row == 0) return SizeInfo(0);  // always empty
+
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    const ssize_t start = axis0_slice_->start;
+    const ssize_t stop = axis0_slice_->stop;
+    const ssize_t step = axis0_slice_->step;
+
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    const bool has_stop = stop != std::numeric_limits<ssize_t>::max();
+
+    if ((start < 0 && has_stop && stop >= 0) ||                // combines both ends
+        (step > 1 && num_per_row > 1) ||                       // rounds to a number of rows
+        (start > 0 && start % step) || (stop < 0 && stop % step)) {  // rounds twice
+        // We cannot express our size in terms of the size of the array
+        const SizeInfo array_size = array_ptr_->sizeinfo().substitute(100);
+
+        // The number of rows is limited by the size of the array and by the slice
+        std::optional<ssize_t> max_num_rows;
+        if (array_size.max) max_num_rows = *array_size.max / array_num_per_row;
+        if (has_stop && stop >= 0) max_num_rows = std::min(max_num_rows.value_or(stop), stop);
+        if (start < 0) max_num_rows = std::min(max_num_rows.value_or(-start), -start);
+
+        if (!max_num_rows) return SizeInfo(this, 0, std::nullopt);
+        return SizeInfo(this, 0, num_per_row * ((*max_num_rows + step - 1) / step));
     }
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
-
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
-
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
-
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
-
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.multiplier /= array_num_per_row;
+    sizeinfo.multiplier *= num_per_row;
+    sizeinfo.multiplier /= step;
+
+    // the number of elements in the first n rows
+    auto num_elements = [&](ssize_t n) { return num_per_row * ((n + step - 1) / step); };
+
+    if (start > 0) {
+        // having a positive start imposes a size offset
+        sizeinfo.offset -= num_elements(start);
+    } else if (start < 0) {
+        // a negative start imposes a max size
+        sizeinfo.max = num_elements(-start);
+    }
 
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
-        }
+    if (stop < 0) {
+        // having a negative stop imposes a size offset
+        sizeinfo.offset -= num_elements(-stop);
+    } else if (has_stop) {
+        // having a positive stop imposes a max size
+        sizeinfo.max = num_elements(stop);
     }
 
     return sizeinfo;
-- 
2.43.0


From 6a457e1956639a470413119769a6bb5eefd0026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 15/79] fix: SizeInfo of AdvancedIndexingNode ignored the size
 of the indexed subspace

---
 dwave/optimization/src/nodes/indexing.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index b20302a..c4a50e4 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -644,9 +644,23 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+
+    // The number of rows is determined either by the (sliced) base array or by the indexing
+    // arrays, depending on which one gives us our first axis
+    const bool from_base = array_ptr_->dynamic() && std::holds_alternative<Slice>(indices_[0]);
+    const Array* rows_ptr =
+            from_base ? array_ptr_ : dynamic_cast<const ArrayNode*>(predecessors()[1]);
+    assert(rows_ptr->dynamic());
+
+    auto num_per_row = [](std::span<const ssize_t> shape) {
+        return std::reduce(shape.begin() + 1, shape.end(), ssize_t(1), std::multiplies<ssize_t>());
+    };
+    if (!num_per_row(shape()) || !num_per_row(rows_ptr->shape())) return SizeInfo(0);
+
+    auto sizeinfo = SizeInfo(rows_ptr);
+    sizeinfo.multiplier /= num_per_row(rows_ptr->shape());
+    sizeinfo.multiplier *= num_per_row(shape());
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
-- 
2.43.0


From 8d6d15b501e953750fa1210fb17629b2f2891868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 16/79] fix: array_shape_equal only compared the sizes of the
 arrays

---
 dwave/optimization/src/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index c263b5a..338087b 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -175,6 +175,9 @@ std::string shape_to_string(const std::span<const ssize_t> shape) {
 }
 
 bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
+    // the sizes can only tell us about the first axis of dynamic arrays
+    if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) return false;
+
     auto lhs_size = lhs_ptr->sizeinfo();
     auto rhs_size = rhs_ptr->sizeinfo();
 
-- 
2.43.0


From c42aacd27fe17c1c840e8885cf460f461961504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 17/79] fix: AdvancedIndexingNode converted NaNs to integers
 and read removed values out of bounds

---
 dwave/optimization/src/nodes/indexing.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c4a50e4..d9e8e21 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -110,7 +110,7 @@ struct AdvancedIndexingNodeData : NodeStateData {
 
         // Walk backwards through the diff/offsets and unapply them to the state
         for (const auto& update : offsets_diff | std::views::reverse) {
-            offsets_[update.index] = update.old;
+            if (!update.placed()) offsets_[update.index] = update.old;
 
             if (!update.removed()) delete_from_reverse(update.index, update.value);
             if (!update.placed()) add_to_reverse(update.index, update.old);
@@ -533,7 +533,11 @@ void AdvancedIndexingNode::fill_subspace_recurse(const std::span<const ssize_t>&
         // Base case. Copy the value from `array_buffer` to `data`, updating the diff
         // as necessary. Or pop/push to the data array if placing/removing.
         ssize_t data_index = data_offset / static_cast<ssize_t>(itemsize());
-        double new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
+        // When removing, the value might not be in the array anymore.
+        [[maybe_unused]] double new_val = 0;
+        if constexpr (!removal) {
+            new_val = array_buffer[array_offset / static_cast<ssize_t>(itemsize())];
+        }
         if constexpr (placement) {
             if constexpr (fill_diff) diff->emplace_back(Update::placement(data_index, new_val));
             assert(data_index == static_cast<ssize_t>(data.size()));
@@ -764,14 +768,9 @@ void AdvancedIndexingNode::propagate(State& state) const {
                 assert(update.index < static_cast<ssize_t>(node_data->offsets_size()) &&
                        "Update with index more than one larger than current size");
 
-                ssize_t old_indexer_val = update.old;
-                ssize_t new_indexer_val = update.value;
                 // Replace NaNs with 0, as they represent no change to the offset
-                if (update.placed()) {
-                    old_indexer_val = 0;
-                } else if (update.removed()) {
-                    new_indexer_val = 0;
-                }
+                ssize_t old_indexer_val = update.old_or(0);
+                ssize_t new_indexer_val = update.value_or(0);
 
                 ssize_t offset_delta = stride * (new_indexer_val - old_indexer_val);
                 node_data->add_to_offset(update.index, offset_delta);
@@ -814,7 +813,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
         // Handle the removals
         for (const auto& offset_update : offsets_diff | std::views::reverse) {
             if (!offset_update.removed()) break;
-            fill_subspace<false, true>(state, offset_update.value, data, offset_update.index, diff);
+            // the offset has been removed, but we don't need it
+            fill_subspace<false, true>(state, 0, data, offset_update.index, diff);
         }
 
         // Handle any updates to the parent array that weren't already pulled in by
-- 
2.43.0


From 85448e3e2dfa73c69b33b6b6d5495fadf70f1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:28 +0000
Subject: [PATCH 18/79] fix: AdvancedIndexingNode shared its dynamic shape
 between states

---
 .../dwave-optimization/nodes/indexing.hpp     |  1 -
 dwave/optimization/src/nodes/indexing.cpp     | 34 ++++++++++++-------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..557ab0b 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -124,7 +124,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index d9e8e21..3f2d4e8 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -180,6 +180,9 @@ struct AdvancedIndexingNodeData : NodeStateData {
     ssize_t old_offsets_size;
     ssize_t old_data_size;
 
+    // The state dependent shape, only used when the node is dynamic.
+    mutable std::vector<ssize_t> dynamic_shape;
+
  private:
     void delete_from_reverse(ssize_t index, ssize_t offset) {
         if (!maintain_reverse_offset_map) return;
@@ -471,13 +474,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -615,7 +611,7 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
         }
     }
 
-    ssize_t array_axis0_size = array_ptr_->size(state) / array_item_strides()[0];
+    ssize_t array_axis0_size = array_ptr_->shape(state)[0];
 
     // Now get the values
     ssize_t data_size = bullet1mode_ ? size * (subspace_stride_ / itemsize())
@@ -670,8 +666,20 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+
+    // The shape depends on the state, so it needs to be held by the state
+    auto node_data = data_ptr<AdvancedIndexingNodeData>(state);
+    auto& dynamic_shape = node_data->dynamic_shape;
+    if (dynamic_shape.empty()) dynamic_shape.assign(shape().begin(), shape().end());
+
+    if (strides()[0]) {
+        dynamic_shape[0] = this->size(state) / (strides()[0] / static_cast<ssize_t>(itemsize()));
+    } else {
+        // one of the other axes has size 0
+        dynamic_shape[0] =
+                bullet1mode_ ? node_data->offsets_size() : array_ptr_->shape(state)[0];
+    }
+    return dynamic_shape;
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
@@ -846,8 +854,10 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t old_parent_size = new_parent_size - array_ptr_->size_diff(state);
         ssize_t unchanged_parent_size = std::min(new_parent_size, old_parent_size);
 
-        ssize_t old_axis0_size = old_parent_size / array_item_strides()[0];
-        ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
+        // if one of the other axes has size 0 then there are no values to place or remove
+        ssize_t axis0_stride = std::max<ssize_t>(array_item_strides()[0], 1);
+        ssize_t old_axis0_size = old_parent_size / axis0_stride;
+        ssize_t new_axis0_size = new_parent_size / axis0_stride;
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
-- 
2.43.0


From f7eeceff0325bf6deaea4b2363b273d7edf85f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 19/79] fix: PermutationNode updated the wrong values of arrays
 with more than two dimensions

---
 dwave/optimization/src/nodes/indexing.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 3f2d4e8..a6ad440 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1716,14 +1716,19 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        // for each dimension, the affected values are grouped in contiguous blocks
+        ssize_t block_size = this->size();
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
+            block_size /= n;
+            const ssize_t num_affected = this->size() / n;
+
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
+                for (ssize_t j = 0; j < num_affected; ++j) {
+                    const ssize_t i = (j / block_size * n + index) * block_size + j % block_size;
+
                     old_offsets.emplace_back(offsets[i]);
 
                     offsets[i] += stride * (neo - old);
@@ -1738,9 +1743,6 @@ void PermutationNode::propagate(State& state) const {
                     updates.emplace_back(i, old_value, values[i]);
                 }
             }
-
-            mul /= n;
-            step *= n;
         }
     }
 
-- 
2.43.0


From 3bb2184d7e8284a403f41408bc6f3acfa38e0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 20/79] fix: PermutationNode read out of bounds for empty
 arrays and orders that are out of range

---
 dwave/optimization/src/nodes/indexing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index a6ad440..8eeaf03 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1628,7 +1628,8 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->size() &&
+        (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0])) {
         throw std::invalid_argument("order may have values out of range");
     }
 
@@ -1659,7 +1660,7 @@ void PermutationNode::initialize_state(State& state) const {
 
     // first work out all of the offsets in the array
     std::vector<ssize_t> offsets;
-    {
+    if (n) {
         assert(this->size() >= 0);
         offsets.reserve(this->size());
 
-- 
2.43.0


From d6345d3a748bd3be9f57bb8498c268deda79070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:15 +0000
Subject: [PATCH 21/79] fix: DisjointBitSetNode referenced a nonexistent value
 of an empty set

---
 dwave/optimization/src/nodes/collections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 2d45150..1b11c2b 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -309,7 +309,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         }
     }
 
-    double const* get_data(ssize_t set_index) { return &data[set_index * primary_set_size]; }
+    double const* get_data(ssize_t set_index) { return data.data() + set_index * primary_set_size; }
 
     ssize_t primary_set_size;
     ssize_t num_disjoint_sets;
-- 
2.43.0


From 903a6328bfaf25028cc8ff7af4547fec33ac28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:37 +0000
Subject: [PATCH 22/79] fix: AdvancedIndexingNode of a growing array placed the
 new values in the wrong order

---
 dwave/optimization/src/nodes/indexing.cpp | 29 ++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 8eeaf03..695d5b6 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -861,26 +861,33 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
-            // Growing, so need placements
+            // Growing, so need placements. The subspaces of the different offsets might be
+            // interleaved, so we need to fill in all of the values before we place them
+            const ssize_t old_data_size = data.size();
+            data.resize(new_axis0_size * (strides()[0] / static_cast<ssize_t>(itemsize())));
+
+            std::vector<Update> discarded;
             for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
                 for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
+                    fill_axis0_subspace<false, false>(state, axis0_idx,
+                                                      node_data->offsets()[offset_idx], data,
+                                                      offset_idx, discarded);
                 }
             }
+
+            for (ssize_t i = old_data_size; i < static_cast<ssize_t>(data.size()); ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
+            }
         }
 
         if (new_axis0_size < old_axis0_size) {
             // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
+            const ssize_t new_data_size =
+                    new_axis0_size * (strides()[0] / static_cast<ssize_t>(itemsize()));
+            for (ssize_t i = static_cast<ssize_t>(data.size()) - 1; i >= new_data_size; --i) {
+                diff.emplace_back(Update::removal(i, data[i]));
             }
+            data.resize(new_data_size);
         }
 
         // Now handle the changes to offsets for axis0 indices that are have not just been placed
-- 
2.43.0


From f8029db9e70dcef2a29b5ec12640d600ca4b7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:37 +0000
Subject: [PATCH 23/79] fix: refuse to slice a dynamic array and index it by a
 scalar, which failed to initialize

---
 dwave/optimization/src/nodes/indexing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 695d5b6..c2e0960 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -334,7 +334,8 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+        if ((bullet1mode || indexing_arrays_ndim == 0) && array_ptr->dynamic() &&
+            std::holds_alternative<Slice>(indices_[0])) {
             throw std::invalid_argument(
                     "Indexed Array cannot be dynamic with an empty slice in the first dimension");
         }
-- 
2.43.0


From 44819c879d7307c7b4f16e792b132b0c428ab5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:22 +0000
Subject: [PATCH 24/79] fix: subtracting strided iterators changed their
 location

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..a19ea7f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -452,8 +452,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From fe79327fec2fe120104d3658e58450672e44ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:47 +0000
Subject: [PATCH 25/79] fix: bounds of products of unbounded values could be
 NaN

---
 dwave/optimization/src/nodes/mathematical.cpp | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 8c709d5..f4e006b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -15,12 +15,18 @@
 #include "dwave-optimization/nodes/mathematical.hpp"
 
 #include <ranges>
+#include <tuple>
 
 #include "_state.hpp"
 #include "dwave-optimization/utils.hpp"
 
 namespace dwave::optimization {
 
+// Multiply two bounds. Either one might be infinite, and 0 times an arbitrarily large value is 0.
+static double multiply_bounds(double lhs, double rhs) {
+    return (lhs == 0 || rhs == 0) ? 0 : lhs * rhs;
+}
+
 // BinaryOpNode ************************************************************
 
 template <class BinaryOp>
@@ -199,8 +205,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::max(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::max({multiply_bounds(lhs_low, rhs_low), multiply_bounds(lhs_low, rhs_high),
+                         multiply_bounds(lhs_high, rhs_low), multiply_bounds(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -252,8 +258,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::min(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::min({multiply_bounds(lhs_low, rhs_low), multiply_bounds(lhs_low, rhs_high),
+                         multiply_bounds(lhs_high, rhs_low), multiply_bounds(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -587,13 +593,9 @@ double NaryOpNode<BinaryOp>::max() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
-
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
-
-            lhs_low = tmp;
+            std::tie(lhs_low, lhs_high) = std::minmax(
+                    {multiply_bounds(lhs_low, rhs_low), multiply_bounds(lhs_low, rhs_high),
+                     multiply_bounds(lhs_high, rhs_low), multiply_bounds(lhs_high, rhs_high)});
         }
 
         return lhs_high;
@@ -638,13 +640,9 @@ double NaryOpNode<BinaryOp>::min() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
-
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
-
-            lhs_low = tmp;
+            std::tie(lhs_low, lhs_high) = std::minmax(
+                    {multiply_bounds(lhs_low, rhs_low), multiply_bounds(lhs_low, rhs_high),
+                     multiply_bounds(lhs_high, rhs_low), multiply_bounds(lhs_high, rhs_high)});
         }
 
         return lhs_low;
@@ -1345,10 +1343,10 @@ double ReduceNode<BinaryOp>::max() const {
 
         // more than one element
         return std::max({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            multiply_bounds(init, std::pow(low, size)),
+            multiply_bounds(init, std::pow(high, size)),
+            multiply_bounds(init, multiply_bounds(low, std::pow(high, size - 1))),
+            multiply_bounds(init, multiply_bounds(high, std::pow(low, size - 1))),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1434,10 +1432,10 @@ double ReduceNode<BinaryOp>::min() const {
 
         // more than one element
         return std::min({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            multiply_bounds(init, std::pow(low, size)),
+            multiply_bounds(init, std::pow(high, size)),
+            multiply_bounds(init, multiply_bounds(low, std::pow(high, size - 1))),
+            multiply_bounds(init, multiply_bounds(high, std::pow(low, size - 1))),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-- 
2.43.0


From b76570c3fd3803a732f80b5edfd5f68d35848683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 26/79] fix: products of integers drifted away from integers
 when updated

---
 dwave/optimization/src/nodes/mathematical.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index f4e006b..48854aa 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1647,8 +1647,10 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             nonzero /= update.old;
             num_zero += 1;
         } else {
-            // something else to something else
-            nonzero *= (update.value / update.old);
+            // something else to something else. We divide the product rather than
+            // the values because that is exact for integers
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
-- 
2.43.0


From 833047a725643eecd9e17c780f1dd551763144d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 27/79] fix: bounds of the absolute value of an always empty
 array reached undefined behaviour

---
 dwave/optimization/src/nodes/mathematical.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 48854aa..bc92c2f 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1788,13 +1788,10 @@ template <>
 double UnaryOpNode<functional::abs<double>>::max() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
+    // min > max can happen for arrays that are always empty, e.g. a list of 0 items
+    if (min >= 0) {
         return max;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
     } else if (max >= 0) {
         return std::max<double>(max, -min);
     } else {
@@ -1838,13 +1835,10 @@ template <>
 double UnaryOpNode<functional::abs<double>>::min() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
+    // min > max can happen for arrays that are always empty, e.g. a list of 0 items
+    if (min >= 0) {
         return min;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
     } else if (max >= 0) {
         return 0;
     } else {
-- 
2.43.0


From 4e199582e6042d7cea3ec145b787fdda4ae6c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:49 +0000
Subject: [PATCH 28/79] fix: bounds of sums over empty arrays of unbounded
 values were NaN

---
 dwave/optimization/src/nodes/mathematical.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index bc92c2f..de6dfcb 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -957,7 +957,7 @@ double PartialReduceNode<BinaryOp>::max() const {
 
     ssize_t axis = axes_[0];
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->max();
+        return this->init.value_or(0) + multiply_bounds(array_ptr_->shape()[axis], array_ptr_->max());
     }
 
     assert(false && "not implemented yet");
@@ -974,7 +974,7 @@ double PartialReduceNode<BinaryOp>::min() const {
 
     ssize_t axis = axes_[0];
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-        return this->init.value_or(0) + array_ptr_->shape()[axis] * array_ptr_->min();
+        return this->init.value_or(0) + multiply_bounds(array_ptr_->shape()[axis], array_ptr_->min());
     }
 
     assert(false && "not implemented yet");
@@ -1359,7 +1359,7 @@ double ReduceNode<BinaryOp>::max() const {
         // if the array has a fixed size, then just multiply the largest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * high;
+            return init + multiply_bounds(size, high);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1378,11 +1378,11 @@ double ReduceNode<BinaryOp>::max() const {
             // default max.
             if (!sizeinfo.max.has_value()) return Array::max();
 
-            return init + sizeinfo.max.value() * high;
+            return init + multiply_bounds(sizeinfo.max.value(), high);
         } else {
             // if high is negative, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * high;
+            return init + multiply_bounds(sizeinfo.min.value_or(0), high);
         }
     }
 
@@ -1448,7 +1448,7 @@ double ReduceNode<BinaryOp>::min() const {
         // if the array has a fixed size, then just multiply the smallest value
         // by that size
         if (const ssize_t size = array_ptr_->size(); size >= 0) {
-            return init + size * low;
+            return init + multiply_bounds(size, low);
         }
 
         // our predecessor array is dynamic. So there are a few more cases
@@ -1467,11 +1467,11 @@ double ReduceNode<BinaryOp>::min() const {
             // default min.
             if (!sizeinfo.max.has_value()) return Array::min();
 
-            return init + sizeinfo.max.value() * low;
+            return init + multiply_bounds(sizeinfo.max.value(), low);
         } else {
             // if low is positive, then we're interested in the minimum size
             // of the array
-            return init + sizeinfo.min.value_or(0) * low;
+            return init + multiply_bounds(sizeinfo.min.value_or(0), low);
         }
     }
 
-- 
2.43.0


From 8043b891c756bcb3e78761bd5c5f250ff7af8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:28 +0000
Subject: [PATCH 29/79] fix: bounds of a product of one unbounded value and
 init 0 were NaN

---
 dwave/optimization/src/nodes/mathematical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de6dfcb..7598adc 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1337,7 +1337,7 @@ double ReduceNode<BinaryOp>::max() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::max(init * low, init * high);
+        if (array_ptr_->size() == 1) return std::max(multiply_bounds(init, low), multiply_bounds(init, high));
 
         const ssize_t size = array_ptr_->size();
 
@@ -1426,7 +1426,7 @@ double ReduceNode<BinaryOp>::min() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::min(init * low, init * high);
+        if (array_ptr_->size() == 1) return std::min(multiply_bounds(init, low), multiply_bounds(init, high));
 
         const ssize_t size = array_ptr_->size();
 
-- 
2.43.0


From dbf0cad27fee7169139ce96ff64c7aa55e5cfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:49 +0000
Subject: [PATCH 30/79] fix: Slice::size() overflowed for slices that start or
 stop at 0

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index a19ea7f..dcaef63 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -146,7 +146,7 @@ struct Slice {
     constexpr std::size_t size() const noexcept {
         if (step < 0) {
             if (stop < start) {
-                if (start > 0) {
+                if (start >= 0) {
                     // we might exceed the range of ssize_t
                     return (static_cast<std::size_t>(start) - stop - 1) / (-step) + 1;
                 }
@@ -155,7 +155,7 @@ struct Slice {
             }
         } else {
             if (start < stop) {
-                if (stop > 0) {
+                if (stop >= 0) {
                     // we might exceed the range of ssize_t
                     return (static_cast<std::size_t>(stop) - start - 1) / step + 1;
                 }
-- 
2.43.0


From adbc3d097559e093ebef71b6bbfd701fd59a6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:49 +0000
Subject: [PATCH 31/79] fix: deduplicate_diff read out of bounds when
 everything had been added and removed

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..ae44ea2 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -63,7 +63,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
         }
 
         // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
+        if (new_index >= 0 && diff[new_index].null()) {
             new_index--;
         }
     }
-- 
2.43.0


From 67bd1c3dd04de7cf32bc6ef1f756de3b2d2c59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:49 +0000
Subject: [PATCH 32/79] fix: is_integer wrote to a variable shared by all
 threads

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index ae44ea2..a5e8eaf 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -78,7 +78,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
 }
 
 bool is_integer(const double& value) {
-    static double dummy = 0;
+    double dummy = 0;
     return std::modf(value, &dummy) == 0.0;
 }
 
-- 
2.43.0


From 5d2d5956c1f465eca3bb48bff9efc32f522cff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 33/79] fix: the statistics of constants were read while other
 threads computed them

---
 .../include/dwave-optimization/nodes/constants.hpp       | 2 ++
 dwave/optimization/src/nodes/constants.cpp               | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/constants.hpp b/dwave/optimization/include/dwave-optimization/nodes/constants.hpp
index eda86a2..754b539 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/constants.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/constants.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <memory>
 #include <optional>
 #include <span>
@@ -128,6 +129,7 @@ class ConstantNode : public ArrayOutputMixin<ArrayNode> {
         double max;
     };
     mutable std::optional<BufferStats> buffer_stats_;
+    mutable std::atomic<bool> buffer_stats_ready_ = false;  // whether buffer_stats_ can be read
 };
 
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/src/nodes/constants.cpp b/dwave/optimization/src/nodes/constants.cpp
index d78d9a8..0f0314a 100644
--- a/dwave/optimization/src/nodes/constants.cpp
+++ b/dwave/optimization/src/nodes/constants.cpp
@@ -49,9 +49,10 @@ bool ConstantNode::integral() const {
     // This only ever happens once, so we do one check outside the mutex for
     // speed, and then another within is to make sure someone else hasn't
     // already constructed it. Subsequent reads are safe
-    if (!buffer_stats_) {
+    if (!buffer_stats_ready_.load(std::memory_order_acquire)) {
         std::lock_guard<std::mutex> guard(buffer_stats_mutex);
         if (!buffer_stats_) buffer_stats_.emplace(values);
+        buffer_stats_ready_.store(true, std::memory_order_release);
     }
 
     // Return the cached value
@@ -75,9 +76,10 @@ double ConstantNode::max() const {
     // This only ever happens once, so we do one check outside the mutex for
     // speed, and then another within is to make sure someone else hasn't
     // already constructed it. Subsequent reads are safe
-    if (!buffer_stats_) {
+    if (!buffer_stats_ready_.load(std::memory_order_acquire)) {
         std::lock_guard<std::mutex> guard(buffer_stats_mutex);
         if (!buffer_stats_) buffer_stats_.emplace(values);
+        buffer_stats_ready_.store(true, std::memory_order_release);
     }
 
     // Return the cached value
@@ -101,9 +103,10 @@ double ConstantNode::min() const {
     // This only ever happens once, so we do one check outside the mutex for
     // speed, and then another within is to make sure someone else hasn't
     // already constructed it. Subsequent reads are safe
-    if (!buffer_stats_) {
+    if (!buffer_stats_ready_.load(std::memory_order_acquire)) {
         std::lock_guard<std::mutex> guard(buffer_stats_mutex);
         if (!buffer_stats_) buffer_stats_.emplace(values);
+        buffer_stats_ready_.store(true, std::memory_order_release);
     }
 
     // Return the cached value
-- 
2.43.0


From e28eb054b362276da864d3b6964611640f6eab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:30 +0000
Subject: [PATCH 34/79] fix: bounds of quotients of unbounded values could be
 NaN

---
 dwave/optimization/src/nodes/mathematical.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 7598adc..8be5796 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -27,6 +27,12 @@ static double multiply_bounds(double lhs, double rhs) {
     return (lhs == 0 || rhs == 0) ? 0 : lhs * rhs;
 }
 
+// Divide two bounds. Either one might be infinite. When both are, the other combinations of
+// bounds determine how large the quotients can get, so we're only interested in the small ones.
+static double divide_bounds(double lhs, double rhs) {
+    return (std::isinf(lhs) && std::isinf(rhs)) ? 0 : lhs / rhs;
+}
+
 // BinaryOpNode ************************************************************
 
 template <class BinaryOp>
@@ -182,8 +188,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         assert(lhs_high != 0);
         assert(rhs_low != 0);
         assert(rhs_high != 0);
-        return std::max(
-                {lhs_low / rhs_low, lhs_low / rhs_high, lhs_high / rhs_low, lhs_high / rhs_high});
+        return std::max({divide_bounds(lhs_low, rhs_low), divide_bounds(lhs_low, rhs_high),
+                         divide_bounds(lhs_high, rhs_low), divide_bounds(lhs_high, rhs_high)});
     }
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
                   std::is_same<BinaryOp, functional::min<double>>::value ||
@@ -235,8 +241,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_high = rhs_ptr->max();
 
         // TODO: How do we want to handle cases where a denominator is zero?
-        return std::min(
-                {lhs_low / rhs_low, lhs_low / rhs_high, lhs_high / rhs_low, lhs_high / rhs_high});
+        return std::min({divide_bounds(lhs_low, rhs_low), divide_bounds(lhs_low, rhs_high),
+                         divide_bounds(lhs_high, rhs_low), divide_bounds(lhs_high, rhs_high)});
     }
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value ||
                   std::is_same<BinaryOp, functional::min<double>>::value ||
-- 
2.43.0


From a7e97206a5b44a409498ee085ea3c61d19eb5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:47 +0000
Subject: [PATCH 35/79] fix: iterating over symbols, constraints or neighbours
 read freed memory when the model changed meanwhile

---
 dwave/optimization/_model.pyx | 44 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..d14e14b 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -24,11 +24,10 @@ import zipfile
 import numpy as np
 
 from cpython cimport Py_buffer
-from cython.operator cimport dereference as deref, preincrement as inc
+from cython.operator cimport dereference as deref
 from cython.operator cimport typeid
 from libcpp cimport bool
 from libcpp.utility cimport move
-from libcpp.vector cimport vector
 
 from dwave.optimization.libcpp.array cimport Array as cppArray
 from dwave.optimization.libcpp.graph cimport DecisionNode as cppDecisionNode
@@ -382,8 +381,10 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> constraints = next(model.iter_constraints())
         """
-        for ptr in self._graph.constraints():
-            yield symbol_from_ptr(self, ptr)
+        # Constraints can be added while we're iterating, which can reallocate
+        # the underlying memory, so look up each one when we get to it.
+        for i in range(self._graph.num_constraints()):
+            yield symbol_from_ptr(self, self._graph.constraints()[i])
 
     def iter_decisions(self):
         """Iterate over all decision variables in the model.
@@ -399,8 +400,10 @@ cdef class _Graph:
             <dwave.optimization.symbols.LessEqual at ...>
             >>> decisions = next(model.iter_decisions())
         """
-        for ptr in self._graph.decisions():
-            yield symbol_from_ptr(self, ptr)
+        # Decisions can be added while we're iterating, which can reallocate
+        # the underlying memory, so look up each one when we get to it.
+        for i in range(self._graph.num_decisions()):
+            yield symbol_from_ptr(self, self._graph.decisions()[i])
 
     def iter_symbols(self):
         """Iterate over all symbols in the model.
@@ -416,9 +419,12 @@ cdef class _Graph:
         """
         # Because nodes() is a span of unique_ptr, we can't just iterate over
         # it cythonically. Cython would try to do a copy/move assignment.
-        nodes = self._graph.nodes()
-        for i in range(nodes.size()):
-            yield symbol_from_ptr(self, nodes[i].get())
+        # Symbols can be added or removed while we're iterating, which can reallocate
+        # the underlying memory, so look up each one when we get to it.
+        for i in range(self._graph.num_nodes()):
+            if i >= self._graph.num_nodes():
+                break
+            yield symbol_from_ptr(self, self._graph.nodes()[i].get())
 
     def lock(self):
         """Lock the model.
@@ -854,11 +860,10 @@ cdef class Symbol:
             >>> a.equals(next(b.iter_predecessors()))
             True
         """
-        cdef vector[cppNode*].const_iterator it = self.node_ptr.predecessors().begin()
-        cdef vector[cppNode*].const_iterator end = self.node_ptr.predecessors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it))
-            inc(it)
+        # Predecessors can be added while we're iterating, which can reallocate
+        # the underlying memory, so look up each one when we get to it.
+        for i in range(self.node_ptr.predecessors().size()):
+            yield symbol_from_ptr(self.model, self.node_ptr.predecessors()[i])
 
     def iter_successors(self):
         """Iterate over a symbol's successors in the model.
@@ -876,11 +881,12 @@ cdef class Symbol:
             >>> lsymbol_lists[0].equals(next(lsymbol.iter_successors()))
             True
         """
-        cdef vector[cppNode.SuccessorView].const_iterator it = self.node_ptr.successors().begin()
-        cdef vector[cppNode.SuccessorView].const_iterator end = self.node_ptr.successors().end()
-        while it != end:
-            yield symbol_from_ptr(self.model, deref(it).ptr)
-            inc(it)
+        # Successors can be added or removed while we're iterating, which can reallocate
+        # the underlying memory, so look up each one when we get to it.
+        for i in range(self.node_ptr.successors().size()):
+            if i >= self.node_ptr.successors().size():
+                break
+            yield symbol_from_ptr(self.model, self.node_ptr.successors()[i].ptr)
 
     def maybe_equals(self, other):
         """Compare to another symbol.
-- 
2.43.0


From 8d3d4d59b8c71707b4a238f374096ec6014dceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:21 +0000
Subject: [PATCH 36/79] fix: partial reductions with an axis out of range
 corrupted memory

---
 dwave/optimization/src/nodes/mathematical.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 8be5796..69e076f 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -777,6 +777,10 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
+
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -823,11 +827,8 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
         throw std::invalid_argument("Partial reduction support only one axis");
     }
 
+    // The value of the axis has already been checked by partial_reduce_shape()
     assert(this->ndim() == array_ptr_->ndim() - 1);
-    ssize_t axis = axes_[0];
-    if (axis < 0 || axis >= array_ptr_->ndim()) {
-        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
-    }
 
     add_predecessor(node_ptr);
 }
@@ -847,11 +848,7 @@ PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, co
 
 template <>
 PartialReduceNode<std::plus<double>>::PartialReduceNode(ArrayNode* array_ptr, std::span<const ssize_t> axes)
-        : PartialReduceNode(array_ptr, nonempty(axes)[0], 0) {
-    if (axes.size() != 1){
-        throw std::invalid_argument("Partial sum supports only one axis");
-    }
-}
+        : PartialReduceNode(array_ptr, axes, 0) {}
 
 template <class BinaryOp>
 PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* array_ptr,
-- 
2.43.0


From b2e2fc19003824b0f279547bbe0be1c0d396514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 37/79] fix: the objective and the constraints could be symbols
 of another model

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index d14e14b..1738f62 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -87,6 +87,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -462,6 +464,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From c8619e194ac22613b301a3ae24d6b6c7f40623a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:36 +0000
Subject: [PATCH 38/79] fix: symbol ids read from a file were used without
 checking their range

---
 dwave/optimization/_model.pyx  | 4 +++-
 dwave/optimization/symbols.pyx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 1738f62..0c23786 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -184,11 +184,13 @@ cdef class _Graph:
             objective_buff = zf.read("objective.json")
             if objective_buff:
                 objective_id = json.loads(objective_buff)
-                if not isinstance(objective_id, int) or objective_id >= model.num_nodes():
+                if not isinstance(objective_id, int) or not 0 <= objective_id < model.num_nodes():
                     raise ValueError("objective must be an integer and a valid node id")
                 model.minimize(symbol_from_ptr(model, model._graph.nodes()[objective_id].get()))
 
             for cid in json.loads(zf.read("constraints.json")):
+                if not isinstance(cid, int) or not 0 <= cid < model.num_nodes():
+                    raise ValueError("constraints must be integers and valid node ids")
                 model.add_constraint(symbol_from_ptr(model, model._graph.nodes()[cid].get()))
 
             # Read any states that have been encoded
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..2f85293 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -515,7 +515,9 @@ cdef class AdvancedIndexing(ArraySymbol):
         with zf.open(directory + "indices.json", "r") as f:
             for index in json.load(f):
                 if isinstance(index, numbers.Integral):
-                    # lower topological index, so must exist
+                    # must have a lower topological index, so must exist
+                    if not 0 <= index < model.num_nodes():
+                        raise ValueError("unexpected index id")
                     ptr = model._graph.nodes()[<Py_ssize_t>(index)].get()
                     indices.append(symbol_from_ptr(model, ptr))
                 elif isinstance(index, list):
-- 
2.43.0


From 5f20bf389778183a4a448a1fbaf67cba5104139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:44 +0000
Subject: [PATCH 39/79] fix: refusing to minimize a dynamic array added a
 symbol to the model

---
 dwave/optimization/_model.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 0c23786..4ec5822 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -468,6 +468,9 @@ cdef class _Graph:
             raise ValueError("value cannot be None")
         if value.model is not self:
             raise ValueError("value must be a symbol of this model")
+        if value.array_ptr.dynamic():
+            # we don't use value.size() here because it would add a symbol to the model
+            raise ValueError("the value of an array with a dynamic size is ambiguous")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From b05413eb67366abf87fbebd842981f19e5efde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:44 +0000
Subject: [PATCH 40/79] fix: in-place addition and multiplication ignored
 locks, changed other symbols and could create cycles

---
 dwave/optimization/_model.pyx  |  9 ++++-----
 dwave/optimization/symbols.pyx | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 4ec5822..22e7dde 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1255,12 +1255,11 @@ cdef class ArraySymbol(Symbol):
             return Square(self)
         # check if exponent is an integer greater than 0
         elif isinstance(exponent, numbers.Real) and exponent > 0 and int(exponent) == exponent:
-            expanded = itertools.repeat(self, int(exponent))
-            out = next(expanded)  # get the first one
+            if exponent == 1:
+                return self
             # multiply self by itself exponent times
-            for symbol in expanded:
-                out *= symbol
-            return out
+            from dwave.optimization.symbols import NaryMultiply  # avoid circular import
+            return NaryMultiply(*itertools.repeat(self, int(exponent)))
         raise ValueError("only integer exponents of 1 or greater are supported")
 
     def __sub__(self, rhs):
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 2f85293..460f6c8 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2163,6 +2163,14 @@ cdef class NaryAdd(ArraySymbol):
 
     def __iadd__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            # We can only extend ourselves in-place when that neither changes the value
+            # of another symbol nor creates a cycle. Otherwise we need a new symbol.
+            if (self.model.is_locked()
+                    or (<ArraySymbol>rhs).model is not self.model
+                    or self.shares_memory(rhs)
+                    or self.ptr.successors().size()):
+                return NaryAdd(*self.iter_predecessors(), rhs)
+
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
@@ -2319,6 +2327,14 @@ cdef class NaryMultiply(ArraySymbol):
 
     def __imul__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            # We can only extend ourselves in-place when that neither changes the value
+            # of another symbol nor creates a cycle. Otherwise we need a new symbol.
+            if (self.model.is_locked()
+                    or (<ArraySymbol>rhs).model is not self.model
+                    or self.shares_memory(rhs)
+                    or self.ptr.successors().size()):
+                return NaryMultiply(*self.iter_predecessors(), rhs)
+
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
-- 
2.43.0


From f11db3a601e0236899b47a1e511e8a68df27426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:00 +0000
Subject: [PATCH 41/79] fix: quadratic models without interactions could not be
 saved

---
 dwave/optimization/symbols.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 460f6c8..0f52da2 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2768,7 +2768,8 @@ cdef class QuadraticModel(ArraySymbol):
             coords[1, i] = i
 
         # this works because each row of coords is contiguous!
-        qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        if num_terms > num_variables:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
-- 
2.43.0


From 8b068002164f5cab80c65d39706d047896979c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:34 +0000
Subject: [PATCH 42/79] fix: coordinates of quadratic models were read out of
 bounds or truncated

---
 dwave/optimization/symbols.pyx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 0f52da2..066848e 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2620,18 +2620,26 @@ cdef class QuadraticModel(ArraySymbol):
             raise ValueError("expected a length 2 tuple")
 
         cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
-        cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
+        indices = np.atleast_2d(quadratic[1])
+        if indices.ndim != 2 or indices.shape[0] != 2:
+            raise ValueError("coords must have exactly two rows")
+
+        # check this before converting to int, because the conversion can change the values
+        if indices.size and not (np.mod(indices, 1) == 0).all():
+            raise ValueError("coords must be integers")
+        if indices.size and indices.min() < 0:
+            # SciPy's error message
+            raise ValueError("negative index found")
+        if indices.size and indices.max() >= num_variables:
+            raise ValueError("index greater than or equal to x.size() found")
+
+        cdef int[:, ::1] coords = np.ascontiguousarray(indices, dtype=np.intc)
 
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
         if data.shape[0] < 1:
             raise ValueError("quadratic must contain at least one interaction")
-        if np.asarray(coords).min() < 0:
-            # SciPy's error message
-            raise ValueError("negative index found")
-        if np.asarray(coords).max() >= num_variables:
-            raise ValueError("index greater than or equal to x.size() found")
 
         # Construct a QuadraticModel temporarily, and then hand ownership over to the node
         cdef cppQuadraticModel* qm
@@ -2684,7 +2692,7 @@ cdef class QuadraticModel(ArraySymbol):
         # Now parse the quadratic
         # names are chosen to be consistent with scipy.sparse.coo_array
         cdef double[::1] data = np.empty(len(quadratic), dtype=np.double)
-        cdef int[:,::1] coords = np.empty((2, len(quadratic)), dtype=np.intc)
+        cdef Py_ssize_t[:,::1] coords = np.empty((2, len(quadratic)), dtype=np.intp)
 
         cdef Py_ssize_t i = 0
         cdef Py_ssize_t u
-- 
2.43.0


From 99c98aab460308987a98a785e11905377d9a2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:34 +0000
Subject: [PATCH 43/79] fix: models with unset states of disjoint lists or
 bit-sets could not be loaded

---
 dwave/optimization/symbols.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 066848e..aba8630 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1176,6 +1176,10 @@ cdef class DisjointBitSets(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        if directory + "set0" not in zf.namelist():
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1429,6 +1433,10 @@ cdef class DisjointLists(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # check if there is any state data saved (it can be sparse)
+        if directory + "list0" not in zf.namelist():
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
-- 
2.43.0


From a09b7c09b72b68ceedcaf200eb4a970c081d373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:55 +0000
Subject: [PATCH 44/79] fix: equals() confused symbols with different
 parameters and different decisions

---
 dwave/optimization/_model.pyx  | 14 +++++++++
 dwave/optimization/symbols.pyx | 55 +++++++++++++++++++++++++++++++---
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 22e7dde..cae77e4 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -713,6 +713,14 @@ cdef class Symbol:
         if maybe != 1:
             return True if maybe else False
 
+        # Any parameters must match
+        if self._parameters() != other._parameters():
+            return False
+
+        # Different decisions in the same model represent different quantities
+        if self.model is other.model and not self.node_ptr.predecessors().size():
+            return False
+
         # todo: caching
         return all(p.equals(q) for p, q in zip(self.iter_predecessors(), other.iter_predecessors()))
 
@@ -962,6 +970,12 @@ cdef class Symbol:
 
         return MAYBE
 
+    def _parameters(self):
+        """Anything besides its type and its predecessors that determines the symbol's
+        value. Used for equality testing.
+        """
+        return None
+
     def reset_state(self, Py_ssize_t index):
         """Reset the state of a symbol and any successor symbols.
 
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index aba8630..fc416dd 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -548,6 +548,10 @@ cdef class AdvancedIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def _parameters(self):
+        # which of the axes are indexed by an array
+        return tuple(holds_alternative[cppArrayNodePtr](variant) for variant in self.ptr.indices())
+
     cdef cppAdvancedIndexingNode* ptr
 
 _register(AdvancedIndexing, typeid(cppAdvancedIndexingNode))
@@ -651,6 +655,9 @@ cdef class BasicIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def _parameters(self):
+        return self._infer_indices()
+
     cdef cppBasicIndexingNode* ptr
 
 _register(BasicIndexing, typeid(cppBasicIndexingNode))
@@ -847,6 +854,9 @@ cdef class Concatenate(ArraySymbol):
     def axis(self):
         return self.ptr.axis()
 
+    def _parameters(self):
+        return self.axis()
+
     cdef cppConcatenateNode* ptr
 
 _register(Concatenate, typeid(cppConcatenateNode))
@@ -1200,6 +1210,9 @@ cdef class DisjointBitSets(Symbol):
         """Return the number of disjoint sets in the symbol."""
         return self.ptr.num_disjoint_sets()
 
+    def _parameters(self):
+        return (self.ptr.primary_set_size(), self.ptr.num_disjoint_sets())
+
     # An observing pointer to the C++ DisjointBitSetsNode
     cdef cppDisjointBitSetsNode* ptr
 
@@ -1304,6 +1317,9 @@ cdef class DisjointBitSet(ArraySymbol):
         """Return the index for the set."""
         return self.ptr.set_index()
 
+    def _parameters(self):
+        return self.set_index()
+
     # An observing pointer to the C++ DisjointBitSetNode
     cdef cppDisjointBitSetNode* ptr
 
@@ -1457,6 +1473,9 @@ cdef class DisjointLists(Symbol):
         """Return the number of disjoint lists in the symbol."""
         return self.ptr.num_disjoint_lists()
 
+    def _parameters(self):
+        return (self.ptr.primary_set_size(), self.ptr.num_disjoint_lists())
+
     # An observing pointer to the C++ DisjointListsNode
     cdef cppDisjointListsNode* ptr
 
@@ -1561,6 +1580,9 @@ cdef class DisjointList(ArraySymbol):
         """Return the index for the list."""
         return self.ptr.list_index()
 
+    def _parameters(self):
+        return self.list_index()
+
     # An observing pointer to the C++ DisjointListNode
     cdef cppDisjointListNode* ptr
 
@@ -1739,6 +1761,9 @@ cdef class IntegerVariable(ArraySymbol):
         """The highest value allowed for the integer symbol."""
         return int(self.ptr.upper_bound())
 
+    def _parameters(self):
+        return (self.lower_bound(), self.upper_bound())
+
     # An observing pointer to the C++ IntegerNode
     cdef cppIntegerNode* ptr
 
@@ -1860,6 +1885,9 @@ cdef class ListVariable(ArraySymbol):
         # The validity of the state is checked in C++
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
+    def _parameters(self):
+        return self.ptr.max()
+
     # An observing pointer to the C++ ListNode
     cdef cppListNode* ptr
 
@@ -2489,6 +2517,9 @@ cdef class PartialSum(ArraySymbol):
         encoder = json.JSONEncoder(separators=(',', ':'))
         zf.writestr(directory + "axes.json", encoder.encode(self.axes()))
 
+    def _parameters(self):
+        return self.axes()
+
     cdef cppPartialSumNode* ptr
 
 _register(PartialSum, typeid(cppPartialSumNode))
@@ -2759,10 +2790,9 @@ cdef class QuadraticModel(ArraySymbol):
         # pass to the constructor
         return cls(predecessors[0], (qdata, coords), ldata)
 
-    def _into_zipfile(self, zf, directory):
-        """Save the QuadraticModel into a zipfile"""
-
-        # Save it in a format that can be reconstructed using _init_coords
+    def _to_coords(self):
+        """The linear biases, the quadratic biases and the coordinates of the latter."""
+        # In a format that can be reconstructed using _init_coords
         # The square terms will be stored as quadratic, which is why we add
         # num_variables to the number of interactions
         cdef Py_ssize_t num_variables = self.num_variables()
@@ -2787,6 +2817,12 @@ cdef class QuadraticModel(ArraySymbol):
         if num_terms > num_variables:
             qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
+        return ldata, qdata, coords
+
+    def _into_zipfile(self, zf, directory):
+        """Save the QuadraticModel into a zipfile"""
+        ldata, qdata, coords = self._to_coords()
+
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
 
@@ -2804,6 +2840,13 @@ cdef class QuadraticModel(ArraySymbol):
         """The number of variables in the quadratic model."""
         return self.ptr.get_quadratic_model().num_variables()
 
+    def _parameters(self):
+        ldata, qdata, coords = self._to_coords()
+        return (
+            np.asarray(ldata).tolist(),
+            {(u, v): bias for u, v, bias in zip(*np.asarray(coords).tolist(), np.asarray(qdata).tolist())},
+        )
+
     cdef cppQuadraticModelNode* ptr
 
 _register(QuadraticModel, typeid(cppQuadraticModelNode))
@@ -2951,6 +2994,10 @@ cdef class SetVariable(ArraySymbol):
         # The validity of the state is checked in C++
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
+    def _parameters(self):
+        cdef cppSizeInfo sizeinfo = self.ptr.sizeinfo()
+        return (self.ptr.max(), sizeinfo.min.value(), sizeinfo.max.value())
+
     # Observing pointer to the node
     cdef cppSetNode* ptr
 
-- 
2.43.0


From 897827d29691ac8c45a6f20f999a68553d59c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:55 +0000
Subject: [PATCH 45/79] fix: states were loaded into models with mismatched
 decisions

---
 dwave/optimization/states.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..1e0faca 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -164,9 +164,10 @@ cdef class States:
         cdef States states = model.states
 
         # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
-            # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
+        if model.num_decisions() != self._model().num_decisions():
+            raise ValueError("cannot load states into a model with mismatched decisions")
+        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
+            if not n0.equals(n1):
                 raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
-- 
2.43.0


From 584815233aedbe957f1deea7d6cc16dbe8d2d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:14 +0000
Subject: [PATCH 46/79] fix: refusing to set a state discarded the present
 state

---
 dwave/optimization/_model.pxd  |  6 ++++
 dwave/optimization/_model.pyx  | 19 ++++++++++++
 dwave/optimization/symbols.pyx | 55 ++++++++++++++++------------------
 3 files changed, 50 insertions(+), 30 deletions(-)

diff --git a/dwave/optimization/_model.pxd b/dwave/optimization/_model.pxd
index 9585d7c..49c61c3 100644
--- a/dwave/optimization/_model.pxd
+++ b/dwave/optimization/_model.pxd
@@ -57,6 +57,12 @@ cdef class Symbol:
     @staticmethod
     cdef Symbol from_ptr(_Graph model, cppNode* ptr)
 
+    # A state that only has room for this symbol and those before it
+    cdef cppState empty_state(self, Py_ssize_t index) except *
+
+    # Replace the symbol's state by the one held by the given state
+    cdef object replace_state(self, Py_ssize_t index, cppState& state)
+
     # Hold on to a reference to the _Graph, both for access but also, importantly,
     # to ensure that the model doesn't get garbage collected unless all of
     # the observers have also been garbage collected.
diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index cae77e4..dd0ba56 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -976,6 +976,25 @@ cdef class Symbol:
         """
         return None
 
+    cdef cppState empty_state(self, Py_ssize_t index) except *:
+        """An empty state that can hold the indexed state of this symbol."""
+        cdef States states = self.model.states
+
+        states.resolve()
+
+        if not 0 <= index < states.size():
+            raise ValueError(f"index out of range: {index}")
+
+        cdef cppState state
+        state.resize(self.node_ptr.topological_index() + 1)
+        return move(state)
+
+    cdef object replace_state(self, Py_ssize_t index, cppState& state):
+        """Replace the indexed state of this symbol by the one held by ``state``."""
+        self.reset_state(index)
+        cdef Py_ssize_t topological_index = self.node_ptr.topological_index()
+        (<States>self.model.states)._states[index][topological_index].swap(state[topological_index])
+
     def reset_state(self, Py_ssize_t index):
         """Reset the state of a symbol and any successor symbols.
 
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index fc416dd..f237b70 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -46,6 +46,7 @@ from dwave.optimization.libcpp.graph cimport (
     ArrayNodePtr as cppArrayNodePtr,
     Node as cppNode,
     )
+from dwave.optimization.libcpp.state cimport State as cppState
 from dwave.optimization.libcpp.nodes cimport (
     AbsoluteNode as cppAbsoluteNode,
     AddNode as cppAddNode,
@@ -775,9 +776,6 @@ cdef class BinaryVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp).flatten()
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[double] items
@@ -786,8 +784,10 @@ cdef class BinaryVariable(ArraySymbol):
         for i in range(arr.size):
             items.push_back(arr[i])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(items))
+        self.replace_state(index, cppstate)
 
     # An observing pointer to the C++ BinaryNode
     cdef cppBinaryNode* ptr
@@ -1165,9 +1165,6 @@ cdef class DisjointBitSets(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
@@ -1182,8 +1179,10 @@ cdef class DisjointBitSets(Symbol):
             for j in range(arr.shape[1]):
                 sets[i].push_back(arr[i, j])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(sets))
+        self.replace_state(index, cppstate)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
         # check if there is any state data saved (it can be sparse)
@@ -1429,9 +1428,6 @@ cdef class DisjointLists(Symbol):
             state:
                 Assignment of values for the state.
         """
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[vector[double]] items
@@ -1445,8 +1441,10 @@ cdef class DisjointLists(Symbol):
             for j in range(len(state[i])):
                 items[i].push_back(arr[j])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(items))
+        self.replace_state(index, cppstate)
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
         # check if there is any state data saved (it can be sparse)
@@ -1743,9 +1741,6 @@ cdef class IntegerVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp).flatten()
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[double] items
@@ -1754,8 +1749,10 @@ cdef class IntegerVariable(ArraySymbol):
         for i in range(arr.size):
             items.push_back(arr[i])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(items))
+        self.replace_state(index, cppstate)
 
     def upper_bound(self):
         """The highest value allowed for the integer symbol."""
@@ -1871,9 +1868,6 @@ cdef class ListVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[double] items
@@ -1882,8 +1876,10 @@ cdef class ListVariable(ArraySymbol):
         for i in range(arr.size):
             items.push_back(arr[i])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(items))
+        self.replace_state(index, cppstate)
 
     def _parameters(self):
         return self.ptr.max()
@@ -2980,9 +2976,6 @@ cdef class SetVariable(ArraySymbol):
         # We go ahead and do the translation to integer now
         cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
-        # Reset our state, and check whether that's possible
-        self.reset_state(index)
-
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
         cdef vector[double] items
@@ -2991,8 +2984,10 @@ cdef class SetVariable(ArraySymbol):
         for i in range(arr.size):
             items.push_back(arr[i])
 
-        # The validity of the state is checked in C++
-        self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
+        # The validity of the state is checked in C++, before replacing the old one
+        cdef cppState cppstate = self.empty_state(index)
+        self.ptr.initialize_state(cppstate, move(items))
+        self.replace_state(index, cppstate)
 
     def _parameters(self):
         cdef cppSizeInfo sizeinfo = self.ptr.sizeinfo()
-- 
2.43.0


From 05563612c4eb7dc1cf1b46b155ad25f1933f42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 47/79] fix: indexing a matrix twice by the same integers or by
 a shorter list was refused

---
 dwave/optimization/symbols.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index f237b70..6207e2f 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -479,7 +479,8 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [x, :][:, x] case
             if (isinstance(i0, slice) and _empty_slice(i0) and
-                    isinstance(i1, ArraySymbol) and
+                    isinstance(i1, ListVariable) and
+                    i1.size() == array.shape()[0] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[0]) and
                     get[cppArrayNodePtr](self.ptr.indices()[0]) == (<ArraySymbol>i1).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[1])):
@@ -488,7 +489,8 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [:, x][x, :] case
             if (isinstance(i1, slice) and _empty_slice(i1) and
-                    isinstance(i0, ArraySymbol) and
+                    isinstance(i0, ListVariable) and
+                    i0.size() == array.shape()[0] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[1]) and
                     get[cppArrayNodePtr](self.ptr.indices()[1]) == (<ArraySymbol>i0).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[0])):
-- 
2.43.0


From 8a95c0d27065ce4f33953a64fa7913580fdacd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 48/79] fix: large integer constants were converted to
 undefined integers

---
 dwave/optimization/symbols.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 6207e2f..9908b8a 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -923,7 +923,7 @@ cdef class Constant(ArraySymbol):
             # https://github.com/numpy/numpy/blob/66e1e3/numpy/_core/src/multiarray/number.c#L833
             raise TypeError("only integer scalar constants can be converted to a scalar index")
 
-        return <Py_ssize_t>deref(self.ptr.buff())
+        return int(deref(self.ptr.buff()))
 
     def __richcmp__(self, rhs, int op):
         # __richcmp__ is a special Cython method
-- 
2.43.0


From 3103c0b4745830071467a76512950684a7f994c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:41 +0000
Subject: [PATCH 49/79] fix: None in place of a symbol or model crashed the
 interpreter

---
 dwave/optimization/_model.pyx  | 2 ++
 dwave/optimization/states.pyx  | 2 ++
 dwave/optimization/symbols.pyx | 1 +
 3 files changed, 5 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index dd0ba56..2426d94 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1,3 +1,5 @@
+# cython: nonecheck=True
+
 # Copyright 2024 D-Wave Inc.
 #
 #    Licensed under the Apache License, Version 2.0 (the "License");
diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index 1e0faca..e2e65ac 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -1,3 +1,5 @@
+# cython: nonecheck=True
+
 # Copyright 2024 D-Wave
 #
 #    Licensed under the Apache License, Version 2.0 (the "License");
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 9908b8a..91b49d9 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1,4 +1,5 @@
 # distutils: language = c++
+# cython: nonecheck=True
 
 # Copyright 2024 D-Wave Systems Inc.
 #
-- 
2.43.0


From 21385c149e5141b0be4d2ba50dc5c17222b5bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:23 +0000
Subject: [PATCH 50/79] fix: mixing an integer, a slice and an array in an
 index ordered the axes differently from NumPy

---
 dwave/optimization/_model.pyx | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 2426d94..299fc33 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1113,6 +1113,22 @@ cdef class Symbol:
         index = self.node_ptr.topological_index()
         return index if index >= 0 else None
 
+def _moves_axes(indices):
+    """Whether treating the integers as arrays, rather than dropping their axes
+    first, changes the axes of the result.
+    """
+    def adjacent(axes):
+        return axes[-1] - axes[0] == len(axes) - 1
+
+    if all(isinstance(i, (slice, numbers.Integral)) or not i.ndim() for i in indices):
+        return False
+
+    slices = [i for i in indices if not isinstance(i, numbers.Integral)]
+    arrays = [axis for axis, i in enumerate(slices) if not isinstance(i, slice)]
+    return (arrays[0] > 0 and adjacent(arrays)
+            and not adjacent([axis for axis, i in enumerate(indices) if not isinstance(i, slice)]))
+
+
 def _split_indices(indices):
     """Given a set of indices, made up of slices, integers, and array symbols,
     create two consecutive indexing operations that can be passed to
@@ -1222,6 +1238,18 @@ cdef class ArraySymbol(Symbol):
                 # We handle this by doing basic and then advanced indexing. In principal the other
                 # order may be more efficient in some cases, but for now let's do the simple thing
 
+                # NumPy treats integers like arrays when there are arrays present. This
+                # matters when a slice separates them: the axes of the arrays come first.
+                if _moves_axes(index):
+                    for axis, idx in enumerate(index):
+                        if isinstance(idx, numbers.Integral):
+                            if not -self.shape()[axis] <= idx < self.shape()[axis]:
+                                raise IndexError(f"index {idx} is out of bounds for axis {axis} "
+                                                 f"with size {self.shape()[axis]}")
+                            shape = next(i.shape() for i in index if isinstance(i, ArraySymbol))
+                            index[axis] = dwave.optimization.symbols.Constant(
+                                self.model, np.full(shape, idx % self.shape()[axis]))
+
                 basic_indices, advanced_indices = _split_indices(index)
                 basic = dwave.optimization.symbols.BasicIndexing(self, *basic_indices)
                 return dwave.optimization.symbols.AdvancedIndexing(basic, *advanced_indices)
-- 
2.43.0


From 5bcaf1ddac7b13657b79e66dcaf24a34b8e1304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 51/79] fix: element-wise operations and where on dynamic
 arrays did not limit their size, so models with them could not be saved

---
 .../include/dwave-optimization/nodes/flow.hpp       |  1 +
 .../dwave-optimization/nodes/mathematical.hpp       |  1 +
 dwave/optimization/src/nodes/flow.cpp               | 13 +++++++++++++
 dwave/optimization/src/nodes/mathematical.cpp       |  5 +++++
 4 files changed, 20 insertions(+)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
index 5004cb7..439e3c5 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
@@ -44,6 +44,7 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     using Array::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
  private:
     // these are redundant, but convenient
diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 900db5f..15de19a 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -353,6 +353,7 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     using ArrayOutputMixin::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
     void commit(State& state) const override;
     void revert(State& state) const override;
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 73d527f..b08d806 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -258,4 +258,17 @@ ssize_t WhereNode::size_diff(const State& state) const {
     return data_ptr<WhereNodeData>(state)->size_diff();
 }
 
+SizeInfo WhereNode::sizeinfo() const {
+    if (!dynamic()) return SizeInfo(size());
+
+    // We're always the size of one of x and y
+    const SizeInfo x_size = x_ptr_->sizeinfo().substitute(100);
+    const SizeInfo y_size = y_ptr_->sizeinfo().substitute(100);
+
+    std::optional<ssize_t> max;
+    if (x_size.max && y_size.max) max = std::max(*x_size.max, *y_size.max);
+
+    return SizeInfo(this, std::min(x_size.min.value_or(0), y_size.min.value_or(0)), max);
+}
+
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 69e076f..fee5111 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1927,6 +1927,11 @@ ssize_t UnaryOpNode<UnaryOp>::size_diff(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->size_diff();
 }
 
+template <class UnaryOp>
+SizeInfo UnaryOpNode<UnaryOp>::sizeinfo() const {
+    return dynamic() ? SizeInfo(array_ptr_) : SizeInfo(size());
+}
+
 template class UnaryOpNode<functional::abs<double>>;
 template class UnaryOpNode<functional::logical<double>>;
 template class UnaryOpNode<functional::square<double>>;
-- 
2.43.0


From 261e920ab89a3af192fb378d678b23fd853e6655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:39 +0000
Subject: [PATCH 52/79] fix: indices of slices were reconstructed wrongly from
 the strides, so loaded models could differ or saving could crash

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 73 +++++--------------
 2 files changed, 21 insertions(+), 55 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 557ab0b..9d03ed6 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -250,6 +250,9 @@ class BasicIndexingNode : public ArrayNode {
     // is dynamic
     const std::optional<Slice> axis0_slice_;
 
+    // The indices, fitted to the fixed dimensions of the predecessor array
+    const std::vector<slice_or_int> indices_;
+
     const bool contiguous_;
 };
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c2e0960..30c5d3c 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -998,6 +998,7 @@ struct BasicIndexingNode::IndexParser_ {
                     this->strides[view_dim] = slice.step * array_strides[array_dim];
 
                     this->axis0_slice = slice;
+                    this->fitted_indices.emplace_back(slice);
 
                     // Skip start for dynamic axis 0 as it will be adjusted later with
                     // the predecessor's state
@@ -1020,6 +1021,15 @@ struct BasicIndexingNode::IndexParser_ {
                     // of bytes, so we have to be careful
                     // We
                     this->start += fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+
+                    // Save the slice, stopping at the first value past the end of the view
+                    ssize_t stop = fitted.start;
+                    if (fitted.size()) {
+                        const ssize_t last = fitted.start + (fitted.size() - 1) * fitted.step;
+                        const ssize_t remaining = array_shape[array_dim] - last;
+                        stop = last + std::min<ssize_t>(fitted.step, remaining);
+                    }
+                    this->fitted_indices.emplace_back(Slice(fitted.start, stop, fitted.step));
                 }
 
                 ++view_dim;
@@ -1044,6 +1054,8 @@ struct BasicIndexingNode::IndexParser_ {
                 // Integer indices only affect the start, they drop the dimension
                 // so there is no strides/shape to worry about for this axis
                 this->start += idx * array_strides[array_dim] / array_ptr->itemsize();
+
+                this->fitted_indices.emplace_back(idx);
             }
 
             ++array_dim;  // we are always stepping through the array
@@ -1057,6 +1069,8 @@ struct BasicIndexingNode::IndexParser_ {
     ssize_t start = 0;
 
     std::optional<Slice> axis0_slice;
+
+    std::vector<slice_or_int> fitted_indices;
 };
 
 BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, std::vector<slice_or_int> indices)
@@ -1070,6 +1084,7 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
           start_(parser.start),
           size_(Array::shape_to_size(ndim_, shape_.get())),
           axis0_slice_(parser.axis0_slice),
+          indices_(std::move(parser.fitted_indices)),
           contiguous_(Array::is_contiguous(ndim_, shape_.get(), strides_.get())) {
     add_predecessor(array_ptr);
 }
@@ -1148,61 +1163,9 @@ std::span<const Update> BasicIndexingNode::diff(const State& state) const {
 }
 
 std::vector<BasicIndexingNode::slice_or_int> BasicIndexingNode::infer_indices() const {
-    std::vector<slice_or_int> indices;
-
-    ssize_t view_dim = 0;
-    const ssize_t view_ndim = this->ndim();
-
-    ssize_t array_dim = 0;
-    const ssize_t array_ndim = array_ptr_->ndim();
-
-    if (dynamic()) {
-        indices.emplace_back(*axis0_slice_);
-
-        view_dim += 1;
-        array_dim += 1;
-    }
-
-    auto array_strides = array_ptr_->strides();
-    auto view_strides = this->strides();
-
-    auto array_shape = array_ptr_->shape();
-    auto view_shape = this->shape();
-
-    ssize_t flat_start = start_;
-
-    // we don't currently have support for views with a greater number of dimensions
-    // than their viewed array. Once we do, the logic here will need to be revisted
-    assert(view_ndim <= array_ndim && "not implemented yet");
-    if (view_ndim > array_ndim) throw std::logic_error("not implemented (yet)");
-
-    // ok, let's traverse the remaining dimensions to find the strides
-    for (; array_dim < array_ndim; ++array_dim) {
-        // calculate the start of this dimension.
-        const ssize_t num_per_row = array_strides[array_dim] / itemsize();
-        const ssize_t start = flat_start / num_per_row;
-        flat_start %= num_per_row;
-
-        if (view_dim >= view_ndim || view_strides[view_dim] < array_strides[array_dim]) {
-            // The strides are smaller in the view, or not present at all, which
-            // means we have a constant index.
-            assert(view_ndim < array_ndim);
-            indices.emplace_back(start);
-
-        } else {
-            // Otherwise we must be a slice
-            assert(view_dim < view_ndim);  // still within range
-
-            const ssize_t step = view_strides[view_dim] / array_strides[array_dim];
-            const ssize_t stop = start + view_shape[view_dim] * step;
-            Slice slice = Slice(start, stop, step).fit(array_shape[array_dim]);
-            indices.emplace_back(slice);
-
-            ++view_dim;
-        }
-    }
-
-    return indices;
+    // The indices cannot be reconstructed from the shape and the strides of the view. E.g.,
+    // large steps and dimensions of size 0 or 1 are ambiguous. So we saved them.
+    return indices_;
 }
 
 void BasicIndexingNode::initialize_state(State& state) const {
-- 
2.43.0


From 6c5a48a11d4e370daaba74b1094a2266988acfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:10 +0000
Subject: [PATCH 53/79] fix: a slice with a step of 0 aborted the process

---
 dwave/optimization/libcpp/array.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/libcpp/array.pxd b/dwave/optimization/libcpp/array.pxd
index abea195..4fb62e1 100644
--- a/dwave/optimization/libcpp/array.pxd
+++ b/dwave/optimization/libcpp/array.pxd
@@ -54,7 +54,7 @@ cdef extern from "dwave-optimization/array.hpp" namespace "dwave::optimization"
         Slice()
         Slice(optional[Py_ssize_t] stop)
         Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except +
 
         Py_ssize_t start
         Py_ssize_t stop
-- 
2.43.0


From f6fcb8133c57b0b61b8cf6fbfb04253ac18ae542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:10 +0000
Subject: [PATCH 54/79] fix: loading a file with abstract symbols could access
 nodes that don't exist

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 299fc33..de7bac3 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -183,6 +183,10 @@ cdef class _Graph:
 
                     cls._from_zipfile(zf, directory, model, predecessors=predecessors)
 
+                    # the later nodes rely on each line having made exactly one node
+                    if model.num_nodes() != node_id + 1:
+                        raise ValueError("encoded model has an unsupported node type")
+
             objective_buff = zf.read("objective.json")
             if objective_buff:
                 objective_id = json.loads(objective_buff)
-- 
2.43.0


From 84a7f93005cbd47ebebf9039dad2a5388782cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 55/79] fix: shapes whose size overflows were accepted

---
 dwave/optimization/symbols.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 91b49d9..81dad50 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -19,6 +19,7 @@
 
 import collections.abc
 import json
+import math
 import numbers
 
 cimport cpython.object
@@ -216,6 +217,10 @@ cdef vector[Py_ssize_t] _as_cppshape(object shape):
     if any(x < 0 for x in shape):
         raise ValueError("negative dimensions are not allowed")
 
+    # the size and the strides (in bytes) must not overflow
+    if math.prod(int(x) for x in shape if x) * sizeof(double) > np.iinfo(np.intp).max:
+        raise ValueError("array is too big")
+
     return shape
 
 
-- 
2.43.0


From 14a64c1d771a3ce2aa6846a25978740d7841bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:08 +0000
Subject: [PATCH 56/79] fix: states of partitions without (all of) their
 successors were not saved

---
 .../dwave-optimization/nodes/collections.hpp     |  6 ++++++
 dwave/optimization/libcpp/nodes.pxd              |  2 ++
 dwave/optimization/src/nodes/collections.cpp     | 16 +++++++++++++++-
 dwave/optimization/symbols.pyx                   | 16 ++++++++++++++--
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/collections.hpp b/dwave/optimization/include/dwave-optimization/nodes/collections.hpp
index fec8366..0f8c610 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/collections.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/collections.hpp
@@ -141,6 +141,9 @@ class DisjointBitSetsNode : public DecisionNode {
 
     ssize_t get_containing_set_index(State& state, ssize_t element_i) const;
 
+    // The given disjoint set, as a bit-set. There may not be a successor for it.
+    std::vector<double> get_disjoint_set(const State& state, ssize_t set_index) const;
+
     ssize_t primary_set_size() const { return primary_set_size_; }
 
     ssize_t num_disjoint_sets() const { return num_disjoint_sets_; }
@@ -223,6 +226,9 @@ class DisjointListsNode : public DecisionNode {
     // Disjoint-list-specific methods ********************************************
     ssize_t get_disjoint_list_size(State& state, ssize_t list_index) const;
 
+    // The given disjoint list. There may not be a successor for it.
+    std::vector<double> get_disjoint_list(const State& state, ssize_t list_index) const;
+
     void rotate_in_list(State& state, ssize_t list_index, ssize_t dest_idx, ssize_t src_idx) const;
 
     void swap_in_list(State& state, ssize_t disjoint_list, ssize_t element_i,
diff --git a/dwave/optimization/libcpp/nodes.pxd b/dwave/optimization/libcpp/nodes.pxd
index 048afd3..92c3195 100644
--- a/dwave/optimization/libcpp/nodes.pxd
+++ b/dwave/optimization/libcpp/nodes.pxd
@@ -31,6 +31,7 @@ cdef extern from "dwave-optimization/nodes/collections.hpp" namespace "dwave::op
         void initialize_state(State&, vector[vector[double]]) except+
         Py_ssize_t primary_set_size() const
         Py_ssize_t num_disjoint_sets() const
+        vector[double] get_disjoint_set(const State&, Py_ssize_t) except+
 
     cdef cppclass DisjointBitSetNode(ArrayNode):
         Py_ssize_t set_index()
@@ -39,6 +40,7 @@ cdef extern from "dwave-optimization/nodes/collections.hpp" namespace "dwave::op
         void initialize_state(State&, vector[vector[double]]) except+
         Py_ssize_t num_disjoint_lists() const
         Py_ssize_t primary_set_size() const
+        vector[double] get_disjoint_list(const State&, Py_ssize_t) except+
 
     cdef cppclass DisjointListNode(ArrayNode):
         Py_ssize_t list_index()
diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 1b11c2b..c6af06c 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -309,7 +309,9 @@ struct DisjointBitSetsNodeData : NodeStateData {
         }
     }
 
-    double const* get_data(ssize_t set_index) { return data.data() + set_index * primary_set_size; }
+    double const* get_data(ssize_t set_index) const {
+        return data.data() + set_index * primary_set_size;
+    }
 
     ssize_t primary_set_size;
     ssize_t num_disjoint_sets;
@@ -362,6 +364,12 @@ ssize_t DisjointBitSetsNode::get_containing_set_index(State& state, ssize_t elem
     return data_ptr<DisjointBitSetsNodeData>(state)->get_containing_set_index(element);
 }
 
+std::vector<double> DisjointBitSetsNode::get_disjoint_set(const State& state,
+                                                          ssize_t set_index) const {
+    const double* data = data_ptr<DisjointBitSetsNodeData>(state)->get_data(set_index);
+    return std::vector<double>(data, data + primary_set_size_);
+}
+
 double const* DisjointBitSetNode::buff(const State& state) const {
     int index = disjoint_bit_sets_node->topological_index();
     DisjointBitSetsNodeData* pred_data = static_cast<DisjointBitSetsNodeData*>(state[index].get());
@@ -644,6 +652,12 @@ ssize_t DisjointListsNode::get_disjoint_list_size(State& state, ssize_t list_ind
     return size;
 }
 
+std::vector<double> DisjointListsNode::get_disjoint_list(const State& state,
+                                                         ssize_t list_index) const {
+    const auto& list = data_ptr<DisjointListStateData>(state)->lists[list_index];
+    return std::vector<double>(list.begin(), list.end());
+}
+
 void DisjointListsNode::rotate_in_list(State& state, ssize_t list_index, ssize_t src_idx,
                                        ssize_t dest_idx) const {
     if (src_idx == dest_idx) return;
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 81dad50..d31e0f9 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1207,7 +1207,13 @@ cdef class DisjointBitSets(Symbol):
     def _state_into_zipfile(self, zf, directory, Py_ssize_t state_index):
         # do this first to get any potential error messages out of the way
         # todo: use a view not a copy
-        arrays = [np.asarray(s.state(state_index), dtype=np.int8) for s in self.iter_successors()]
+        # We don't rely on our successors because they might not (all) be in the model.
+        cdef States states = self.model.states
+        cdef vector[double] data
+        arrays = []
+        for i in range(self.num_disjoint_sets()):
+            data = self.ptr.get_disjoint_set(states._states.at(state_index), i)
+            arrays.append(np.asarray(data, dtype=np.int8))
 
         for i, arr in enumerate(arrays):
             with zf.open(directory+f"set{i}", mode="w", force_zip64=True) as f:
@@ -1469,7 +1475,13 @@ cdef class DisjointLists(Symbol):
     def _state_into_zipfile(self, zf, directory, Py_ssize_t state_index):
         # do this first to get any potential error messages out of the way
         # todo: use a view not a copy
-        arrays = [li.state(state_index) for li in self.iter_successors()]
+        # We don't rely on our successors because they might not (all) be in the model.
+        cdef States states = self.model.states
+        cdef vector[double] data
+        arrays = []
+        for i in range(self.num_disjoint_lists()):
+            data = self.ptr.get_disjoint_list(states._states.at(state_index), i)
+            arrays.append(np.asarray(data, dtype=np.double))
 
         for i, arr in enumerate(arrays):
             with zf.open(directory+f"list{i}", mode="w", force_zip64=True) as f:
-- 
2.43.0


From bf85fc7b56ad47e46e5d57959b31b00676891aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 57/79] fix: huge steps and positions in slices overflowed

---
 dwave/optimization/src/nodes/indexing.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 30c5d3c..bd9b16b 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -15,6 +15,7 @@
 #include "dwave-optimization/nodes/indexing.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <ranges>
 #include <unordered_set>
 
@@ -945,6 +946,8 @@ ssize_t AdvancedIndexingNode::size_diff(const State& state) const {
 // Helper class for determining the shape/strides/start of the view induced by
 // the given indices
 struct BasicIndexingNode::IndexParser_ {
+    static constexpr ssize_t MAX_POSITION = ssize_t(1) << 40;
+
     IndexParser_(Array* array_ptr, std::vector<slice_or_int>&& indices) {
         // some input validation
         assert(array_ptr->ndim() >= 0);  // should always be true
@@ -980,11 +983,20 @@ struct BasicIndexingNode::IndexParser_ {
             assert(array_dim >= view_dim);  // view.ndim <= array.ndim
 
             if (std::holds_alternative<Slice>(index)) {
-                const Slice& slice = std::get<Slice>(index);
+                Slice slice = std::get<Slice>(index);
 
                 if (slice.step == 0) {
                     throw std::invalid_argument("step cannot be 0");
                 }
+
+                // Positions and steps far beyond the end of any array are equivalent. Limiting
+                // them lets us calculate with them later without overflowing.
+                slice.step = std::min(slice.step, MAX_POSITION);
+                slice.start = std::clamp(slice.start, -MAX_POSITION, MAX_POSITION);
+                if (slice.stop != std::numeric_limits<ssize_t>::max()) {  // i.e. unlimited
+                    slice.stop = std::clamp(slice.stop, -MAX_POSITION, MAX_POSITION);
+                }
+
                 if (slice.step < 0) {
                     // todo: only disallow this on dynamic arrays
                     throw std::invalid_argument("step cannot be negative");
-- 
2.43.0


From 0b2042778bd545e07633c54bf0d94d2494229797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 58/79] fix: the size of disjoint bit-sets could overflow

---
 dwave/optimization/src/nodes/collections.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index c6af06c..17b0d89 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <ranges>
 #include <unordered_set>
 #include <utility>
@@ -323,6 +324,9 @@ DisjointBitSetsNode::DisjointBitSetsNode(ssize_t primary_set_size, ssize_t num_d
         : primary_set_size_(primary_set_size), num_disjoint_sets_(num_disjoint_sets) {
     if (primary_set_size < 0) throw std::invalid_argument("primary_set_size must be non-negative");
     if (num_disjoint_sets < 1) throw std::invalid_argument("num_disjoint_sets must be positive");
+    if (primary_set_size > std::numeric_limits<ssize_t>::max() / num_disjoint_sets) {
+        throw std::invalid_argument("primary_set_size and num_disjoint_sets are too large");
+    }
 }
 
 void DisjointBitSetsNode::initialize_state(State& state) const {
-- 
2.43.0


From dcb24c1ae8e82f7f1251eba75b141cf80cdaf98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:02 +0000
Subject: [PATCH 59/79] fix: in-place addition and multiplication changed the
 objective or a constraint

---
 dwave/optimization/libcpp/graph.pxd |  1 +
 dwave/optimization/symbols.pyx      | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/libcpp/graph.pxd b/dwave/optimization/libcpp/graph.pxd
index 6c9d561..a60e83c 100644
--- a/dwave/optimization/libcpp/graph.pxd
+++ b/dwave/optimization/libcpp/graph.pxd
@@ -60,6 +60,7 @@ cdef extern from "dwave-optimization/graph.hpp" namespace "dwave::optimization"
         void recursive_reset(State&, Node*) except+
         void reset_topological_sort()
         void set_objective(ArrayNode*) except+
+        ArrayNode* objective()
         void add_constraint(ArrayNode*) except+
         void topological_sort()
         bool topologically_sorted() const
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index d31e0f9..0c1c3d3 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2169,6 +2169,16 @@ cdef class Multiply(ArraySymbol):
 _register(Multiply, typeid(cppMultiplyNode))
 
 
+cdef bool _is_goal(ArraySymbol symbol):
+    """Whether the symbol is the objective or a constraint of its model."""
+    if symbol.model._graph.objective() == symbol.array_ptr:
+        return True
+    for ptr in symbol.model._graph.constraints():
+        if ptr == symbol.array_ptr:
+            return True
+    return False
+
+
 cdef class NaryAdd(ArraySymbol):
     """Addition element-wise of `N` symbols.
 
@@ -2220,7 +2230,8 @@ cdef class NaryAdd(ArraySymbol):
             if (self.model.is_locked()
                     or (<ArraySymbol>rhs).model is not self.model
                     or self.shares_memory(rhs)
-                    or self.ptr.successors().size()):
+                    or self.ptr.successors().size()
+                    or _is_goal(self)):
                 return NaryAdd(*self.iter_predecessors(), rhs)
 
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
@@ -2384,7 +2395,8 @@ cdef class NaryMultiply(ArraySymbol):
             if (self.model.is_locked()
                     or (<ArraySymbol>rhs).model is not self.model
                     or self.shares_memory(rhs)
-                    or self.ptr.successors().size()):
+                    or self.ptr.successors().size()
+                    or _is_goal(self)):
                 return NaryMultiply(*self.iter_predecessors(), rhs)
 
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
-- 
2.43.0


From 36ee340ccc7d9d364b0ba8f4f32cb3021f66f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 60/79] fix: fractional bounds of integer symbols were
 truncated, so values outside the bounds were allowed

---
 dwave/optimization/symbols.pyx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 0c1c3d3..26c9454 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -198,6 +198,17 @@ cdef object symbol_from_ptr(_Graph model, cppNode* node_ptr):
     return cls._from_symbol(Symbol.from_ptr(model, node_ptr))
 
 
+cdef int _as_bound(object bound) except? -1:
+    """Convert a bound of an integer symbol to a C++ integer."""
+    cdef double value = bound
+    cdef double whole
+    if modf(value, &whole) != 0:  # also true for NaN
+        raise ValueError(f"bounds of integer symbols must be integers, got {bound}")
+    if not -2147483647 <= value <= 2147483647:
+        raise ValueError("range provided for integers exceeds supported range")
+    return <int>value
+
+
 cdef vector[Py_ssize_t] _as_cppshape(object shape):
     """Convert a shape specified as a python object to a C++ vector."""
 
@@ -1701,11 +1712,11 @@ cdef class IntegerVariable(ArraySymbol):
         if lower_bound is None and upper_bound is None:
             self.ptr = model._graph.emplace_node[cppIntegerNode](vshape)
         elif lower_bound is None:
-            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, nullopt, <double>upper_bound)
+            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, nullopt, _as_bound(upper_bound))
         elif upper_bound is None:
-            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, <double>lower_bound)
+            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, _as_bound(lower_bound))
         else:
-            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, <double>lower_bound, <double>upper_bound)
+            self.ptr = model._graph.emplace_node[cppIntegerNode](vshape, _as_bound(lower_bound), _as_bound(upper_bound))
 
         self.initialize_arraynode(model, self.ptr)
 
-- 
2.43.0


From 061a2b9027283e0468e0fc8fa10d027e5c40dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 61/79] fix: saving a model ignored some errors of pending
 results and left out the states

---
 dwave/optimization/_model.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index de7bac3..084f4ff 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -227,9 +227,9 @@ cdef class _Graph:
     def _header_data(self, *, only_decision, max_num_states=float('inf')):
         """The header data associated with the model (but not the states)."""
         num_nodes = self.num_decisions() if only_decision else self.num_nodes()
-        try:
+        if hasattr(self, "states"):
             num_states = max(0, min(self.states.size(), max_num_states))
-        except AttributeError:
+        else:
             num_states = 0
 
         decision_state_size = self.decision_state_size()
-- 
2.43.0


From eeb9274b18b158f17e6a62922215e45117955a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 62/79] fix: routing with time windows failed for most numbers
 of customers per vehicle

---
 dwave/optimization/generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2948659..bc9fa0a 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -581,7 +581,9 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         num_clients_in_route[f'route{i}'] = routes[i].size()
 
     # Constrain the number of locations per route
-    max_loc_per_route_constant = model.constant(3 * int(num_customers / number_of_vehicles))
+    max_loc_per_route = 3 * max(1, int(num_customers / number_of_vehicles))
+    # range_helper must have an element for each of the locations
+    max_loc_per_route_constant = model.constant(min(max_loc_per_route, num_customers + 1))
     max_loc_per_route_constraints = [(num_clients_in_route[f'route{v}'] <= max_loc_per_route_constant)
                                      for v in range(number_of_vehicles)]
     for mlpr in max_loc_per_route_constraints:
-- 
2.43.0


From b32aa3a81323241a39fc9f608a20d7091b23a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 63/79] fix: the objective of routing with time windows used
 the distances of the reversed route

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index bc9fa0a..6d66e40 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -648,7 +648,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     for r in range(number_of_vehicles):
         route_costs.append(t_from_depo[routes[r][:1]].sum())
         route_costs.append(t_to_depo[routes[r][-1:]].sum())
-        route_costs.append(t_cust[routes[r][1:], routes[r][:-1]].sum())
+        route_costs.append(t_cust[routes[r][:-1], routes[r][1:]].sum())
 
     model.minimize(add(*route_costs))
 
-- 
2.43.0


From 4559dba81257af3b4c91563ac267826e14a76764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 64/79] fix: routing with time windows was infeasible for times
 beyond a million

---
 dwave/optimization/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 6d66e40..d1827c8 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -547,7 +547,8 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
 
     time_close_ext = np.zeros(num_customers + 1)
     time_close_ext[:num_customers] = time_window_close[1:]
-    time_close_ext[-1] = 1e6
+    # the extra location must never be closed, so use a bound on the time of any route
+    time_close_ext[-1] = max(1e6, time_window_open.max() + service_time.sum() + time_distances_array.sum())
     t_close = model.constant(time_close_ext)
 
     service_time_ext = np.zeros(num_customers + 1)
-- 
2.43.0


From 1f10632d6f9c1f426fb0ff800f99a8b82dc1a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 65/79] fix: routing with time windows accepted a service time
 of the depot and ignored it

---
 dwave/optimization/generators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index d1827c8..0d14674 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -510,6 +510,9 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     if demand[0] != 0:
         raise ValueError("`demand[0]` must be zero.")
 
+    if service_time[0] != 0:
+        raise ValueError("`service_time[0]` must be zero.")
+
     customer_demand = demand[1:]
 
     if (customer_demand == 0).any():
-- 
2.43.0


From 4866228ae03fb692a674181fc5a70cff38d3e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 66/79] fix: job_shop_scheduling changed the given machines

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 0d14674..8e77fa3 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -821,7 +821,7 @@ def job_shop_scheduling(times: numpy.typing.ArrayLike, machines: numpy.typing.Ar
         # In that case we reindex to 0. This is OK because we know from our earlier
         # checking that we're non-negative, so combined with .all() we must be
         # strictly positive
-        machines -= 1
+        machines = machines - 1  # not in-place, this might be the caller's array
 
         # the validity will be checked in the next for-loop
 
-- 
2.43.0


From bd2a49fb74345f78ee6c836923a07ac007aafdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 67/79] fix: fractional times of job_shop_scheduling were
 truncated

---
 dwave/optimization/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 8e77fa3..be48460 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -57,6 +57,10 @@ def _require(argname: str,
     if not np.issubdtype(array.dtype, np.number) or np.issubdtype(array.dtype, np.complexfloating):
         raise ValueError(f"`{argname}` must be an array-like of numbers")
 
+    # Don't silently drop the fractional parts
+    if dtype is not None and np.issubdtype(dtype, np.integer) and (array != np.asarray(array_like)).any():
+        raise ValueError(f"`{argname}` must be an array-like of integers")
+
     # Disallow inf and NaN. We could make this toggleable with a kwarg if there
     # is eventually a reason for it
     try:
-- 
2.43.0


From 53d0ad1e5c431c39aea24e278859a63cdecc8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 68/79] fix: routing with locations in small integer types
 computed wrong distances

---
 dwave/optimization/generators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index be48460..6f412bf 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -339,14 +339,14 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                                  f" be at least 2 when `demand[0]=0`.")
 
             customer_demand = demand[1:]
-            customer_locations_x = locations_x[1:]
-            customer_locations_y = locations_y[1:]
+            customer_locations_x = x[1:]
+            customer_locations_y = y[1:]
 
             if depot_x_y is not None:
                 raise ValueError("`depot_x_y` cannot be provided when "
                                  "`demand[0]` is zero.")
 
-            depot_x_y = np.asarray([locations_x[0], locations_y[0]])
+            depot_x_y = np.asarray([x[0], y[0]])
 
         else:
 
@@ -354,9 +354,13 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                 raise ValueError("`depot_x_y` must be provided when `demand[0]` is not"
                                  " 0 and `locations_x` and `locations_y` are specified.")
             customer_demand = demand
-            customer_locations_x = locations_x
-            customer_locations_y = locations_y
-            depot_x_y = np.asarray([depot_x_y[0], depot_x_y[1]])
+            customer_locations_x = x
+            customer_locations_y = y
+
+            depot_x_y = _require("depot_x_y", depot_x_y, ndim=1, dtype=float)
+            if len(depot_x_y) != 2:
+                raise ValueError("`depot_x_y` must have exactly two elements."
+                                 f" Got {len(depot_x_y)}.")
 
         customer_locations_x = customer_locations_x - depot_x_y[0]
         customer_locations_y = customer_locations_y - depot_x_y[1]
-- 
2.43.0


From b019a94792a35bb4d5b2759ee348ab6454e918b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 69/79] fix: generators accepted a capacity of NaN

---
 dwave/optimization/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 6f412bf..ff83471 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -180,7 +180,7 @@ def bin_packing(weights: numpy.typing.ArrayLike,
     if weights.shape[0] == 0:
         raise ValueError("the number of items must be positive")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     if any(weight > capacity for weight in weights):
@@ -283,7 +283,7 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -475,7 +475,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         raise ValueError("`number_of_vehicles` must be at least 1."
                          f" Got {number_of_vehicles}.")
 
-    if vehicle_capacity <= 0:
+    if not vehicle_capacity > 0:
         raise ValueError("`vehicle_capacity` must be a positive number."
                          f" Got {vehicle_capacity}.")
 
@@ -939,7 +939,7 @@ def knapsack(values: numpy.typing.ArrayLike,
     if weights.shape != values.shape:
         raise ValueError("`weights` and `values` must be equal in length")
 
-    if capacity <= 0:
+    if not capacity > 0:
         raise ValueError("`capacity` must be a positive number")
 
     # Construct the model
-- 
2.43.0


From 3a843bcaddaa757d26a0db3d8367c53a464388c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 70/79] fix: read-only arrays were refused as constants,
 coefficients and states

---
 dwave/optimization/symbols.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 26c9454..d782362 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -902,10 +902,10 @@ cdef class Constant(ArraySymbol):
         cdef vector[Py_ssize_t] strides = array.strides  # not used because contiguous for now
 
         # Get a pointer to the first element
-        cdef double[:] flat = array.ravel()
+        cdef const double[:] flat = array.ravel()
         cdef double* start = NULL
         if flat.size:
-            start = &flat[0]
+            start = <double*>&flat[0]  # never written to by the node
 
         # Get an observing pointer to the C++ ConstantNode
         self.ptr = model._graph.emplace_node[cppConstantNode](start, shape)
@@ -1187,7 +1187,7 @@ cdef class DisjointBitSets(Symbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef bool[:, :] arr = np.asarray(state, dtype=np.bool_)
+        cdef const bool[:, :] arr = np.asarray(state, dtype=np.bool_)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1458,7 +1458,7 @@ cdef class DisjointLists(Symbol):
         cdef vector[vector[double]] items
         items.resize(len(state))
         cdef Py_ssize_t i, j
-        cdef Py_ssize_t[:] arr
+        cdef const Py_ssize_t[:] arr
         for i in range(len(state)):
             items[i].reserve(len(state[i]))
             # Convert to a numpy array for type checking, coercion, etc.
@@ -1897,7 +1897,7 @@ cdef class ListVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -2685,7 +2685,7 @@ cdef class QuadraticModel(ArraySymbol):
         if linear is None:
             linear = []
         # Let NumPy handle type checking
-        cdef double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
+        cdef const double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
 
         if ldata.shape[0] > num_variables:
             raise ValueError("linear index out of range of x")
@@ -2697,7 +2697,7 @@ cdef class QuadraticModel(ArraySymbol):
         if len(quadratic) != 2:
             raise ValueError("expected a length 2 tuple")
 
-        cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
+        cdef const double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
         indices = np.atleast_2d(quadratic[1])
         if indices.ndim != 2 or indices.shape[0] != 2:
             raise ValueError("coords must have exactly two rows")
@@ -2711,7 +2711,7 @@ cdef class QuadraticModel(ArraySymbol):
         if indices.size and indices.max() >= num_variables:
             raise ValueError("index greater than or equal to x.size() found")
 
-        cdef int[:, ::1] coords = np.ascontiguousarray(indices, dtype=np.intc)
+        cdef const int[:, ::1] coords = np.ascontiguousarray(indices, dtype=np.intc)
 
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
@@ -3017,7 +3017,7 @@ cdef class SetVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
-- 
2.43.0


From eb9c84767848a641fd2bd229672e8bf2a3862831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 71/79] fix: advanced indexing updated the wrong values when a
 slice came before separated index arrays

---
 dwave/optimization/src/nodes/indexing.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index bd9b16b..cc481ce 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -688,11 +688,12 @@ std::pair<ssize_t, ssize_t> get_mapped_index(
         const std::vector<AdvancedIndexingNode::array_or_slice>& indices,
         const std::span<const ssize_t>& strides, const std::span<const ssize_t>& item_strides,
         const std::span<const ssize_t>& shape, const std::span<const ssize_t>& mapped_item_strides,
-        ssize_t itemsize, ssize_t index) {
+        ssize_t itemsize, ssize_t index, ssize_t leading_array_axes) {
     ssize_t offset = 0;
     ssize_t subspace_index = 0;
-    ssize_t mapped_axis = 0;
-    bool hit_first_array = false;
+    // In bullet 1 mode the axes of the indexing arrays always come first
+    ssize_t mapped_axis = leading_array_axes;
+    bool hit_first_array = leading_array_axes > 0;
     assert(indices.size() == strides.size());
     assert(indices.size() == item_strides.size());
     assert(indices.size() == shape.size());
@@ -837,7 +838,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     indexing_arrays_ndim_);
             // This will return a nullptr if there currently are no mapped offsets
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
@@ -912,7 +914,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     0);
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
                 for (const auto& idx : *idxs) {
-- 
2.43.0


From 9338dced5f301056ccbae60e7b82d44da23e3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 72/79] fix: bounds on the sizes of slices with huge steps
 overflowed and crashed

---
 dwave/optimization/src/array.cpp          | 12 ++++++++++--
 dwave/optimization/src/nodes/indexing.cpp |  8 ++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index 338087b..c54fbb4 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -45,7 +45,9 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 // The smallest integer not smaller than multiplier * n, for nonnegative values.
 static ssize_t ceil_multiply(const fraction& multiplier, const ssize_t n) {
     const fraction product = multiplier * n;
-    return (product.numerator() + product.denominator() - 1) / product.denominator();
+    // rounds up without adding to the numerator, which could overflow
+    return product.numerator() / product.denominator() +
+           (product.numerator() % product.denominator() != 0);
 }
 
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
@@ -61,13 +63,19 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
     assert(this->array_ptr);
     const SizeInfo array_size = this->array_ptr->sizeinfo();
 
+    auto overflows = [](ssize_t lhs, ssize_t rhs) {
+        return lhs > std::numeric_limits<ssize_t>::max() / rhs;
+    };
+
     // Check whether we can express ourselves in terms of the array that our array gets
     // its size from.
     const bool composable =
             (array_size.array_ptr && array_size.array_ptr != this->array_ptr &&
              array_size.multiplier != 0 && this->offset <= 0 &&
              (this->multiplier * array_size.offset).denominator() == 1 &&
-             (this->multiplier.numerator() == 1 || array_size.multiplier.denominator() == 1));
+             (this->multiplier.numerator() == 1 || array_size.multiplier.denominator() == 1) &&
+             !overflows(this->multiplier.numerator(), array_size.multiplier.numerator()) &&
+             !overflows(this->multiplier.denominator(), array_size.multiplier.denominator()));
 
     if (composable) {
         SizeInfo sizeinfo = array_size;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index cc481ce..e4ccc9a 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1522,12 +1522,16 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     const ssize_t stop = axis0_slice_->stop;
     const ssize_t step = axis0_slice_->step;
 
+    // the number of rows that are kept of the first n, n + step could overflow
+    auto num_kept = [&step](ssize_t n) { return n / step + (n % step != 0); };
+
     // This is where having Slice's values be optional<ssize_t> would be useful.
     // For now let's just hard code it.
     const bool has_stop = stop != std::numeric_limits<ssize_t>::max();
 
     if ((start < 0 && has_stop && stop >= 0) ||                // combines both ends
         (step > 1 && num_per_row > 1) ||                       // rounds to a number of rows
+        (step > std::numeric_limits<ssize_t>::max() / array_num_per_row) ||  // overflows
         (start > 0 && start % step) || (stop < 0 && stop % step)) {  // rounds twice
         // We cannot express our size in terms of the size of the array
         const SizeInfo array_size = array_ptr_->sizeinfo().substitute(100);
@@ -1539,7 +1543,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
         if (start < 0) max_num_rows = std::min(max_num_rows.value_or(-start), -start);
 
         if (!max_num_rows) return SizeInfo(this, 0, std::nullopt);
-        return SizeInfo(this, 0, num_per_row * ((*max_num_rows + step - 1) / step));
+        return SizeInfo(this, 0, num_per_row * num_kept(*max_num_rows));
     }
 
     auto sizeinfo = SizeInfo(array_ptr_);
@@ -1548,7 +1552,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     sizeinfo.multiplier /= step;
 
     // the number of elements in the first n rows
-    auto num_elements = [&](ssize_t n) { return num_per_row * ((n + step - 1) / step); };
+    auto num_elements = [&](ssize_t n) { return num_per_row * num_kept(n); };
 
     if (start > 0) {
         // having a positive start imposes a size offset
-- 
2.43.0


From 2a36a3262acbf57638942e8e371c0293f108202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 73/79] fix: strides of chained slices with huge steps
 overflowed

---
 dwave/optimization/src/nodes/indexing.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index e4ccc9a..99329e5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1008,6 +1008,13 @@ struct BasicIndexingNode::IndexParser_ {
                 if (array_dim == 0 && array_ptr->dynamic()) {
                     // Handle the dynamic case
 
+                    // The array can itself be a slice with a huge step, in which case only
+                    // its first few positions can exist. Avoid overflowing the strides.
+                    if (const ssize_t stride = array_strides[array_dim]; stride > 0) {
+                        const ssize_t max_bytes = MAX_POSITION * array_ptr->itemsize();
+                        slice.step = std::min(slice.step, std::max<ssize_t>(max_bytes / stride, 1));
+                    }
+
                     // First dimension is dynamic
                     this->shape[view_dim] = DYNAMIC_SIZE;
                     this->strides[view_dim] = slice.step * array_strides[array_dim];
@@ -1028,8 +1035,11 @@ struct BasicIndexingNode::IndexParser_ {
                     this->shape[view_dim] = fitted.size();
 
                     // For the strides, we only care about the slice's step times the
-                    // array's strides
-                    this->strides[view_dim] = fitted.step * array_strides[array_dim];
+                    // array's strides. Any step past the end of the array is equivalent, so
+                    // use the smallest one to avoid overflowing when slices are chained.
+                    const ssize_t max_step = std::max<ssize_t>(array_shape[array_dim], 1);
+                    this->strides[view_dim] =
+                            std::min(fitted.step, max_step) * array_strides[array_dim];
 
                     // For the start, it's defined by the (fitted) slice's start
                     // Note that the start is in terms of doubles, but strides are in terms
-- 
2.43.0


From 365c52fce9237476e142e8af5c69d30febfbdcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 74/79] fix: an integer index out of range could leave
 constants behind when the axes are reordered

---
 dwave/optimization/_model.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 084f4ff..7324820 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1245,11 +1245,14 @@ cdef class ArraySymbol(Symbol):
                 # NumPy treats integers like arrays when there are arrays present. This
                 # matters when a slice separates them: the axes of the arrays come first.
                 if _moves_axes(index):
+                    # check all of them before adding any symbol
+                    for axis, idx in enumerate(index):
+                        if (isinstance(idx, numbers.Integral)
+                                and not -self.shape()[axis] <= idx < self.shape()[axis]):
+                            raise IndexError(f"index {idx} is out of bounds for axis {axis} "
+                                             f"with size {self.shape()[axis]}")
                     for axis, idx in enumerate(index):
                         if isinstance(idx, numbers.Integral):
-                            if not -self.shape()[axis] <= idx < self.shape()[axis]:
-                                raise IndexError(f"index {idx} is out of bounds for axis {axis} "
-                                                 f"with size {self.shape()[axis]}")
                             shape = next(i.shape() for i in index if isinstance(i, ArraySymbol))
                             index[axis] = dwave.optimization.symbols.Constant(
                                 self.model, np.full(shape, idx % self.shape()[axis]))
-- 
2.43.0


From 0c7f2f37b9a52775d00424c25c213b3b5da03c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 75/79] fix: n-ary sums and products recover after large
 intermediate values

NaryOpNode updates its values by undoing the contribution of the old operand.
Beyond 2^53 (and for infinities and underflow) that does not give back what
was there before, so a wrong value stayed until the state was reinitialized.
Recompute from the operands in those cases.
---
 dwave/optimization/src/nodes/mathematical.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index fee5111..9182d9b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -444,6 +444,18 @@ template class BinaryOpNode<functional::logical_xor<double>>;
 template class BinaryOpNode<functional::max<double>>;
 template class BinaryOpNode<functional::min<double>>;
 
+// Whether a running sum or product with the given value can be updated by undoing
+// and redoing the contribution of one of the elements. Beyond 2^53 not every integer
+// is representable so contributions may have been lost. Likewise nothing can be
+// recovered from infinity, NaN, or from a product that has underflowed.
+template <class BinaryOp>
+bool can_update(double value) {
+    if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
+        if (!std::isnormal(value)) return false;
+    }
+    return std::abs(value) <= 9007199254740992.0;  // false for NaN
+}
+
 // NaryOpNode *****************************************************************
 
 template <class BinaryOp>
@@ -732,7 +744,7 @@ void NaryOpNode<BinaryOp>::propagate(State& state) const {
                 for (const auto& [index, old_val, new_val] : input->diff(state)) {
                     double new_reduced_val = values[index];
                     new_reduced_val = inv_func.op(new_reduced_val, old_val);
-                    if (std::isnan(new_reduced_val) || std::isinf(new_reduced_val)) {
+                    if (!can_update<op>(values[index]) || !can_update<op>(new_reduced_val)) {
                         // calling the inverse has failed (such as divide by zero),
                         // need to fully recompute this index
                         recompute_indices.push_back(index);
@@ -742,6 +754,8 @@ void NaryOpNode<BinaryOp>::propagate(State& state) const {
                     double old_reduced = values[index];
                     values[index] = func(new_reduced_val, new_val);
                     changes.emplace_back(index, old_reduced, values[index]);
+
+                    if (!can_update<op>(values[index])) recompute_indices.push_back(index);
                 }
             }
         }
-- 
2.43.0


From af23c02ba91247429b32f8834e9e90ca7f7f57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 76/79] fix: partial sums recover after large intermediate
 values

---
 dwave/optimization/src/nodes/mathematical.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 9182d9b..cbe802a 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1005,11 +1005,24 @@ void PartialReduceNode<std::plus<double>>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
+    std::vector<ssize_t> recompute_indices;
+
     for (const auto& [p_index, old, value] : array_ptr_->diff(state)) {
         const ssize_t index = map_parent_index(state, p_index);
         const double previous = values[index];
         values[index] += (value - old);
         changes.emplace_back(index, previous, values[index]);
+
+        if (!can_update<std::plus<double>>(previous) ||
+            !can_update<std::plus<double>>(values[index])) {
+            recompute_indices.push_back(index);
+        }
+    }
+
+    for (const ssize_t index : recompute_indices) {
+        const double previous = values[index];
+        values[index] = reduce(state, index);
+        if (values[index] != previous) changes.emplace_back(index, previous, values[index]);
     }
 
     if (ptr->updates.size()) Node::propagate(state);
-- 
2.43.0


From 0710a65f7c0ae3297152b45205a5eed029434203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 77/79] fix: products recover after overflow, underflow and
 inexact values

---
 dwave/optimization/src/nodes/mathematical.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index cbe802a..c481c0c 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1652,6 +1652,8 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
 
     assert(num_zero == 0 || ptr->values.value == 0);
 
+    bool recompute = !can_update<op>(nonzero);
+
     // count the change in the num_zero
     for (const Update& update : array_ptr_->diff(state)) {
         if (update.placed() && update.value == 0) {
@@ -1682,6 +1684,15 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             nonzero /= update.old;
             nonzero *= update.value;
         }
+
+        recompute |= !can_update<op>(nonzero);
+    }
+
+    if (recompute) {
+        nonzero = init.value_or(1);
+        for (const double& value : array_ptr_->view(state)) {
+            if (value != 0) nonzero *= value;
+        }
     }
 
     ptr->values.value = num_zero > 0 ? 0 : nonzero;
-- 
2.43.0


From 36bef28552a5dda9902b59571dc1df5e3f291633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 78/79] fix: sums recover after large intermediate values

---
 dwave/optimization/src/nodes/mathematical.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index c481c0c..a83835f 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1707,6 +1707,8 @@ void ReduceNode<std::plus<double>>::propagate(State& state) const {
 
     auto& value = ptr->values.value;
 
+    bool recompute = !can_update<op>(value);
+
     for (const Update& update : array_ptr_->diff(state)) {
         if (update.placed()) {
             value += update.value;
@@ -1715,8 +1717,12 @@ void ReduceNode<std::plus<double>>::propagate(State& state) const {
         } else {
             value += update.value - update.old;
         }
+
+        recompute |= !can_update<op>(value);
     }
 
+    if (recompute) value = reduce(state);
+
     Node::propagate(state);
 }
 
-- 
2.43.0


From 2ae5c5600778e4d7319ea8b1c47e4ca8ab16faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:23 +0000
Subject: [PATCH 79/79] fix: quadratic models recover after large intermediate
 values

---
 dwave/optimization/src/nodes/quadratic_model.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dwave/optimization/src/nodes/quadratic_model.cpp b/dwave/optimization/src/nodes/quadratic_model.cpp
index 1f9a49b..cff8887 100644
--- a/dwave/optimization/src/nodes/quadratic_model.cpp
+++ b/dwave/optimization/src/nodes/quadratic_model.cpp
@@ -13,6 +13,9 @@
 //    limitations under the License.
 
 #include "dwave-optimization/nodes/quadratic_model.hpp"
+
+#include <cmath>
+
 #include "dwave-optimization/utils.hpp"
 
 namespace dwave::optimization {
@@ -311,6 +314,11 @@ void QuadraticModelNode::propagate(State& state) const {
         auto& effective_changes = node_data_ptr->effective_changes_;
         auto& value = node_data_ptr->value;
 
+        // Beyond 2^53 the contributions of some of the variables may have been lost, and nothing
+        // can be recovered from infinity or NaN. In those cases we recompute from scratch.
+        auto can_update = [](double value) { return std::abs(value) <= 9007199254740992.0; };
+        bool recompute = !can_update(value.value());
+
         if (state_node_ptr->contiguous()) {
             auto current_state =
                     std::span(state_node_ptr->buff(state), state_node_ptr->size(state));
@@ -327,6 +335,7 @@ void QuadraticModelNode::propagate(State& state) const {
                              (quadratic_model_.get_quadratic(index) * (neo + old) +
                               quadratic_model_.get_effective_linear_bias(index, previous_state));
                     previous_state[index] = neo;
+                    recompute |= !can_update(value.value());
                 }
             }
         } else {
@@ -344,10 +353,13 @@ void QuadraticModelNode::propagate(State& state) const {
                              (quadratic_model_.get_quadratic(index) * (neo + old) +
                               quadratic_model_.get_effective_linear_bias(index, previous_state));
                     previous_state[index] = neo;
+                    recompute |= !can_update(value.value());
                 }
             }
         }
 
+        if (recompute) value = quadratic_model_.compute_value(previous_state);
+
         Node::propagate(state);
     }
 }
-- 
2.43.0

