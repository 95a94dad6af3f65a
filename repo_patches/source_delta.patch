From fa699731eb01343fad0a82403960183caba370ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 001/110] fix: DiscreteSpace::erase did nothing if no range
 starts at or before the target

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..7207cd1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1275,6 +1275,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) {
+    n = this->head(); // no range starts at or before the target, so start with the first range.
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From f4e67b5ceffe2d2f04628878cc9bb3b1566ca1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 002/110] fix: painting a DiscreteSpace with an empty range
 changed the space

---
 code/include/swoc/DiscreteRange.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7207cd1..06e4da7 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1274,6 +1274,10 @@ DiscreteSpace<METRIC, PAYLOAD>::insert_after(DiscreteSpace::Node *spot, Discrete
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
+  if (range.empty()) {
+    return *this;
+  }
+
   Node *n = this->lower_node(range.min()); // current node.
   if (nullptr == n) {
     n = this->head(); // no range starts at or before the target, so start with the first range.
@@ -1308,6 +1312,10 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
+
   Node *n = this->lower_node(range.min()); // current node.
   Node *x = nullptr;                       // New node, gets set if we re-use an existing one.
   Node *y = nullptr;                       // Temporary for removing and advancing.
@@ -1429,6 +1437,10 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
+
   // Rightmost node of interest with n->min() <= min.
   Node *n = this->lower_node(range.min());
   Node *x = nullptr; // New node (if any).
@@ -1548,6 +1560,10 @@ template <typename METRIC, typename PAYLOAD>
 template <typename F, typename U>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U const &color, F &&blender) -> self_type & {
+  if (range.empty()) {
+    return *this;
+  }
+
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-- 
2.43.0


From 09867f242dd035d5e739e6020c91bef03e6d73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 003/110] fix: DiscreteSpace::blend wrapped around at the
 maximum metric value

---
 code/include/swoc/DiscreteRange.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 06e4da7..968e8b6 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1622,6 +1622,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
           }
           n = fn; // skip to use new node as current node.
         }
+        if (n->max() == detail::maximum<METRIC>()) { // nothing can be past this, and can't increment.
+          return *this;
+        }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
@@ -1709,7 +1712,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    // Check for being done due to the end of the metric, because in that case can't increment.
+    bool metric_max_p = fill->max() == detail::maximum<METRIC>();
+    remaining.assign_min(++METRIC{fill->max()}); // Update what is left to fill.
 
     // Clean up the range for @a n
     if (fill_p) {
@@ -1746,6 +1751,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       this->remove(n);
     }
 
+    if (metric_max_p) {
+      return *this;
+    }
     // Everything up to @a n.max is correct, time to process next node.
     n = next_n;
   }
-- 
2.43.0


From 8f9cdc89db5a04516fc4257992d3ee6c310cdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 004/110] fix: DiscreteSpace::blend colored values outside the
 range or blended twice when filling a gap

---
 code/include/swoc/DiscreteRange.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 968e8b6..5adfa01 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1686,22 +1686,13 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      // Do not extend @a n to cover this, it has yet to be blended.
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
-- 
2.43.0


From fa8495d6effd5abb964081752789f83268f4a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 005/110] fix: DiscreteSpace::blend extended a range with a
 default payload when the blend rejected it

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 5adfa01..4c61748 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1665,7 +1665,8 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p =
+        plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From 57254036d6c0439e4dad51fbf069407f33c55df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:27 +0000
Subject: [PATCH 006/110] fix: DiscreteSpace::blend leaked a payload when
 splitting a cleared range

---
 code/include/swoc/DiscreteRange.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 4c61748..ad2b403 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1629,7 +1629,6 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       } else {                                         // clear, don't fill.
         auto n_r = n->range();                         // cache to avoid ordering requirements.
         if (n_r.max() > remaining.max()) {             // overhang on the right, must split.
-          fill.release();                              // not going to use it,
           n->assign_min(++metric_type(remaining.max()));
           this->insert_before(n, _fa.make(n_r.min(), --metric_type(remaining.min()), n->payload()));
           return *this;
-- 
2.43.0


From 1f83da8421388eda04b7b09ebd2ae09c1ed91f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 007/110] fix: DiscreteSpace lower_bound and upper_bound could
 not be instantiated

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index ad2b403..b21bc20 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1170,14 +1170,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From 32929129d6cc40c31913ea350ada91d127398536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 008/110] fix: DiscreteRange relationship, has_union and
 operator ^ could not be instantiated

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index b21bc20..4e66302 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 5a7c1b87b0661c856466c4dbaf8cdc4eb41ad37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 009/110] fix: DiscreteRange::left_edge_relationship checked
 the wrong edge

---
 code/include/swoc/DiscreteRange.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 4e66302..89d2d27 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,11 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    metric_type max(_max); // some built in integer types don't support increment on rvalues.
+    return ++max < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return that._min < _min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From d993703b07c62778c5aa4a44d2be577a90fc89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 010/110] fix: DiscreteRange intersection and adjacency were
 wrong for empty ranges

---
 code/include/swoc/DiscreteRange.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 89d2d27..ecf07f3 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -582,7 +582,8 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return !this->empty() && !that.empty() &&
+         ((that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max));
 }
 
 template <typename T>
@@ -607,13 +608,14 @@ DiscreteRange<T>::is_left_adjacent_to(DiscreteRange::self_type const &that) cons
    * t0 then ++t0 > t0.
    */
   metric_type max(_max); // some built in integer types don't support increment on rvalues.
-  return _max < that._min && ++max == that._min;
+  return !this->empty() && !that.empty() && _max < that._min && ++max == that._min;
 }
 
 template <typename T>
 DiscreteRange<T>
 DiscreteRange<T>::intersection(DiscreteRange::self_type const &that) const {
-  return {std::max(_min, that._min), std::min(_max, that._max)};
+  self_type zret{std::max(_min, that._min), std::min(_max, that._max)};
+  return zret.empty() ? self_type{} : zret;
 }
 
 template <typename T>
-- 
2.43.0


From 64a270ed7067ff8a809558687f077bb2dd711580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 011/110] fix: TextView::split_suffix modified the view for an
 excessive count and split_suffix_if used an index as a count

---
 code/include/swoc/TextView.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..6125385 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n < this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
@@ -1472,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From c46599fb82ff257548ec0169fd1c77b57bf3b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 012/110] fix: TextView::take_suffix used its count as an
 offset from the front

---
 code/include/swoc/TextView.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 6125385..dde6c18 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(std::min(n + 1, this->size()));
   return zret;
 }
 
@@ -1491,18 +1492,21 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  auto idx = this->rfind(c);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  auto idx = this->find_last_of(delimiters);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return this->take_suffix(npos == idx ? npos : this->size() - (idx + 1));
 }
 
 template <typename F>
-- 
2.43.0


From 40f2f1dbdb4eadac9f849fb8176a728a5a816020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 013/110] fix: TextView::clip_suffix_of clipped the wrong part
 and read before the start of the view

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index dde6c18..fec3fba 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1763,8 +1763,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*(spot - 1)); --spot, ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From 121c6b505da0d4769f9c3bf1e4d717fb71eb7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 014/110] fix: TextView::LessThan functors required the
 comparison result to be exactly -1

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index fec3fba..261a5d0 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -947,7 +947,7 @@ public:
     /// @return Case sensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcmp(lhs, rhs);
+      return strcmp(lhs, rhs) < 0;
     }
   };
 
@@ -956,7 +956,7 @@ public:
     /// @return Case insensitive ordering.
     bool
     operator()(self_type const &lhs, self_type const &rhs) const noexcept {
-      return -1 == strcasecmp(lhs, rhs);
+      return strcasecmp(lhs, rhs) < 0;
     }
   };
 
-- 
2.43.0


From 60e349d9a85997723ac9313963e60c6d789bf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 015/110] fix: caseless comparison of views stopped at an
 embedded nul

---
 code/include/swoc/TextView.h |  4 ++--
 code/src/string_view_util.cc | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 261a5d0..468e625 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1685,7 +1685,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(super_type(this->data(), prefix.size()), prefix);
 }
 
 inline bool
@@ -1695,7 +1695,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(super_type(this->data_end() - suffix.size(), suffix.size()), suffix);
 }
 
 inline bool
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..089cf55 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -5,6 +5,7 @@
     Additional handy utilities for @c string_view and hence also @c TextView.
 */
 
+#include <cctype>
 #include "swoc/string_view_util.h"
 
 int
@@ -41,7 +42,12 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
+  for (size_t i = 0; i < n; ++i) { // must not stop at a nul character.
+    int r = tolower(static_cast<unsigned char>(lhs[i])) - tolower(static_cast<unsigned char>(rhs[i]));
+    if (r) {
+      return r;
+    }
+  }
 
-  return r ? r : zret;
+  return zret;
 }
-- 
2.43.0


From 8d55825ba8fc47c347105d3d302e6b8a552f76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 016/110] fix: memcmp and strcasecmp of views ordered a proper
 prefix after the longer view

---
 code/src/string_view_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 089cf55..72a1dda 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -15,10 +15,10 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
@@ -34,10 +34,10 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
-- 
2.43.0


From 25559a6ba3a37b54ff2ba622c58968264abbbf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 017/110] fix: the digit 'T' had the wrong value in radix
 conversion

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From 5db4e361064f7f35fb6ac4add523e67c67afaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 018/110] fix: svtoi negated the minimum integer, which
 overflows

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..9de4345 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -63,7 +63,7 @@ svtoi(TextView src, TextView *out, int base) {
         out->assign(start, parsed.data_end());
       }
       if (neg) {
-        zret = -intmax_t(std::min<uintmax_t>(n, ABS_MIN));
+        zret = intmax_t(0 - std::min<uintmax_t>(n, ABS_MIN));
       } else {
         zret = std::min(n, ABS_MAX);
       }
-- 
2.43.0


From 6932b14d88f98a97fcf959a2d2a8c3aaf5830341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 019/110] fix: svtoi left the parsed text unset on failure and
 accepted space after the sign

---
 code/src/TextView.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 9de4345..e5568c2 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
@@ -57,7 +61,7 @@ svtoi(TextView src, TextView *out, int base) {
     } else if ('+' == *src) {
       ++src;
     }
-    auto n = svtou(src, &parsed, base);
+    auto n = (src.empty() || isspace(static_cast<unsigned char>(*src))) ? 0 : svtou(src, &parsed, base);
     if (!parsed.empty()) {
       if (out) {
         out->assign(start, parsed.data_end());
-- 
2.43.0


From b51637fd6943e365c49ce3ed6a95e17b1dbaa7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 020/110] fix: svtou consumed a radix prefix that has no digits

---
 code/src/TextView.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index e5568c2..015c065 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -92,17 +92,22 @@ svtou(TextView src, TextView *out, int base) {
       if ('0' == *src) {
         ++src;
         base = 8;
-        if (src) {
+        if (src.size() > 1) { // the radix character is part of the number only if followed by a digit.
+          auto digit = svtoi_convert[static_cast<unsigned char>(src[1])];
           switch (*src) {
           case 'x':
           case 'X':
-            ++src;
-            base = 16;
+            if (0 <= digit && digit < 16) {
+              ++src;
+              base = 16;
+            }
             break;
           case 'b':
           case 'B':
-            ++src;
-            base = 2;
+            if (0 <= digit && digit < 2) {
+              ++src;
+              base = 2;
+            }
             break;
           }
         }
-- 
2.43.0


From 0b6fd5df89b4a00dc41fb96f96827b7d866c4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 021/110] fix: svtod mishandled negatives, large values and
 exponents, and reported text without digits as parsed

---
 code/src/TextView.cc | 111 +++++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 47 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 015c065..7040859 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -10,6 +10,7 @@
 */
 
 #include "swoc/TextView.h"
+#include <algorithm>
 #include <cctype>
 #include <sstream>
 
@@ -156,81 +157,97 @@ svtou(TextView src, TextView *out, int base) {
 
 double
 svtod(swoc::TextView text, swoc::TextView *parsed) {
-  // @return 10^e
-  auto pow10 = [](int e) -> double {
-    double zret  = 1.0;
-    double scale = 10.0;
-    if (e < 0) { // flip the scale and make @a e positive.
-      e     = -e;
-      scale = 0.1;
-    }
+  // Largest useful magnitude of the decimal exponent - past this the value is always zero or infinite.
+  static constexpr intmax_t MAX_EXP = 10000;
+
+  // @return 10^e - extended precision so that rounding errors do not accumulate.
+  auto pow10 = [](intmax_t e) -> long double {
+    long double zret  = 1.0L;
+    long double scale = 10.0L;
 
     // Walk the bits in the exponent @a e and multiply the scale for set bits.
     while (e) {
       if (e & 1) {
         zret *= scale;
       }
-      scale  *= scale;
-      e     >>= 1;
+      e >>= 1;
+      if (e) {
+        scale *= scale;
+      }
     }
     return zret;
   };
 
-  if (text.empty()) {
-    return 0;
+  if (parsed) {
+    parsed->clear();
   }
-
   auto org_text = text; // save this to update @a parsed.
-  // Check just once and dump to a local copy if needed.
-  TextView local_parsed;
-  if (!parsed) {
-    parsed = &local_parsed;
-  }
 
   // Handle leading sign.
-  int sign = 1;
+  bool neg = false;
   if (*text == '-') {
     ++text;
-    sign = -1;
+    neg = true;
   } else if (*text == '+') {
     ++text;
   }
-  // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
-  parsed->assign(org_text.data(), text.data());
 
-  if (text.empty()) {
-    return whole;
+  // Parse the digits as an integer, tracking the location of the decimal point.
+  static constexpr uintmax_t DIGIT_LIMIT = (std::numeric_limits<uintmax_t>::max() - 9) / 10;
+  uintmax_t n     = 0;
+  intmax_t exp    = 0; // Scaling for @a n from the position of the decimal point.
+  bool has_digits = false;
+  bool has_point  = false;
+  for (; text; ++text) {
+    if ('.' == *text && !has_point) {
+      has_point = true;
+    } else if (isdigit(static_cast<unsigned char>(*text))) {
+      has_digits = true;
+      if (n <= DIGIT_LIMIT) {
+        n    = n * 10 + (*text - '0');
+        exp -= has_point;
+      } else { // Digits past the precision only scale the value.
+        exp += !has_point;
+      }
+    } else {
+      break;
+    }
+  }
+  if (!has_digits) {
+    return 0;
   }
+  auto end = text.data();
 
-  double frac = 0.0;
-  if (*text == '.') { // fractional part.
+  // Optional exponent, which is part of the number only if it has digits.
+  if ('e' == *text || 'E' == *text) {
     ++text;
-    double scale = 0.1;
-    while (text && isdigit(*text)) {
-      frac  += scale * (*text++ - '0');
-      scale /= 10.0;
+    bool exp_neg = '-' == *text;
+    if (exp_neg || '+' == *text) {
+      ++text;
+    }
+    if (isdigit(static_cast<unsigned char>(*text))) {
+      auto exp_part  = intmax_t(std::min<uintmax_t>(svto_radix<10>(text), std::numeric_limits<int32_t>::max()));
+      exp           += exp_neg ? -exp_part : exp_part;
+      end            = text.data();
     }
   }
 
-  double exp = 1.0;
-  if (text.starts_with_nocase("e")) {
-    int exp_sign = 1;
-    ++text;
-    if (text) {
-      if (*text == '+') {
-        ++text;
-      } else if (*text == '-') {
-        ++text;
-        exp_sign = -1;
-      }
-    }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+  if (parsed) {
+    parsed->assign(org_text.data(), end);
   }
 
-  parsed->assign(org_text.data(), text.data());
-  return sign * (whole + frac) * exp;
+  long double zret = n;
+  exp              = std::clamp(exp, -MAX_EXP, MAX_EXP);
+  if (n == 0) { // avoid scaling, which could be infinite.
+  } else if (exp >= 0) {
+    zret *= pow10(exp);
+  } else {
+    // Keep the divisor finite and lossless results for large negative scaling.
+    auto half  = -exp / 2;
+    zret      /= pow10(half);
+    zret      /= pow10(-exp - half);
+  }
+  return static_cast<double>(neg ? -zret : zret);
 }
 
 // Do the template instantiations.
-- 
2.43.0


From faec5dccea47b9882dc573735b32094452801d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 022/110] fix: TransformView::end could not be instantiated or
 read past the source view

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 468e625..f30b512 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1873,7 +1873,7 @@ protected:
   source_iterator _limit; ///< End of source view.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  TransformView(transform_type &&xf, source_iterator &&limit) : _xf(xf), _spot(limit), _limit(limit) {}
+  TransformView(transform_type const &xf, source_iterator const &limit) : _xf(xf), _spot(limit), _limit(limit) {}
 };
 
 template <typename X, typename V>
@@ -2006,7 +2006,7 @@ protected:
   source_iterator _limit; ///< End marker.
 
   /// Special constructor for making an empty instance to serve as the @c end iterator.
-  explicit TransformView(source_iterator &&limit) : _spot(limit), _limit(limit) {}
+  explicit TransformView(source_iterator const &limit) : _spot(limit), _limit(limit) {}
 };
 
 template <typename V>
-- 
2.43.0


From 13244510bac43e36d208adfb7424facfbe8e9049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 023/110] fix: IP4Addr::load accepted empty octets

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..163c007 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -313,7 +313,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From 24267ccabc2aa58b366b980611c85e95347588cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 024/110] fix: IP6Addr::load accepted signed, oversized and non
 numeric quads

---
 code/src/swoc_ip.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 163c007..5ebc03b 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -465,12 +465,12 @@ IP6Addr::load(std::string_view const &str) {
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
-        quad[QUAD_IDX[n++]] = x;
-      } else {
-        break;
+      auto x = svtou(token, &r, 16);
+      if (r.size() != token.size() || x > QUAD_MASK) { // not a valid quad.
+        this->clear();
+        return false;
       }
+      quad[QUAD_IDX[n++]] = x;
     }
   }
 
-- 
2.43.0


From de455046e34ca421a0536d4fb4e551ff8ec60d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 025/110] fix: IP6Addr::load accepted a trailing single colon

---
 code/src/swoc_ip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 5ebc03b..d809168 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -434,6 +434,11 @@ IP6Addr::load(std::string_view const &str) {
     return false;
   }
 
+  // A trailing ':' must be part of a trailing "::".
+  if (src.back() == ':' && src[src.size() - 2] != ':') {
+    return false;
+  }
+
   // If the first character is ':' then it is an error for it not to be followed by another ':'.
   // Special case the empty address and loopback, otherwise just make a note of the leading '::'.
   if (src[0] == ':') {
-- 
2.43.0


From dc9fbd4a76a0e26faa174aac08b373b47868fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 026/110] fix: IP6Addr shifts by 0 or by the full width were
 undefined

---
 code/src/swoc_ip.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index d809168..b5a9d90 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -373,7 +373,11 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) {
+    // No change, and the general case would shift by the full word width.
+  } else if (n >= WIDTH) {
+    this->clear();
+  } else if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
     _addr._store[LSW] <<= n;
@@ -388,7 +392,11 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
-  if (n < WORD_WIDTH) {
+  if (n == 0) {
+    // No change, and the general case would shift by the full word width.
+  } else if (n >= WIDTH) {
+    this->clear();
+  } else if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
     _addr._store[MSW] >>= n;
-- 
2.43.0


From d8eda49bd9d5cbdf0a178c17672983fa0376a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 027/110] fix: IP4Addr shift by the full width was undefined

---
 code/include/swoc/IPAddr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPAddr.h b/code/include/swoc/IPAddr.h
index 4964129..a38c246 100644
--- a/code/include/swoc/IPAddr.h
+++ b/code/include/swoc/IPAddr.h
@@ -777,13 +777,13 @@ IP4Addr::family() const {
 
 inline auto
 IP4Addr::operator<<=(unsigned n) -> self_type & {
-  _addr <<= n;
+  _addr = n < WIDTH ? _addr << n : 0;
   return *this;
 }
 
 inline auto
 IP4Addr::operator>>=(unsigned n) -> self_type & {
-  _addr >>= n;
+  _addr = n < WIDTH ? _addr >> n : 0;
   return *this;
 }
 
-- 
2.43.0


From 9d5830891bb7934c49ef404d605d479d09dab718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 028/110] fix: IPAddr operator < ordered IPv6 before IPv4 and
 IPv4 before IPv6

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index b5a9d90..2fd41e4 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -601,7 +601,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 103313321557367410e07fe2eba449699c9e58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 029/110] fix: IPMask::load truncated large widths and accepted
 empty text

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 2fd41e4..4dd1ef9 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -675,11 +675,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
+  auto n = swoc::svtou(text, &parsed);
+  if (text.empty() || parsed.size() != text.size() || n > IP6Addr::WIDTH) {
     _cidr = 0;
     return false;
   }
+  _cidr = n;
   return true;
 }
 
-- 
2.43.0


From 0886c5ab9624e758b363b41c9a3d9e834c17bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 030/110] fix: IPv4 range and network texts accepted mask
 widths over 32

---
 code/src/swoc_ip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 4dd1ef9..59d3b2c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -873,7 +873,7 @@ IP4Net::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(addr, mask);
         return true;
       }
@@ -931,7 +931,7 @@ IPNet::load(TextView text) {
           mask_p = (m == mask.as_ip4()); // must be an actual mask like address.
         }
       }
-      if (mask_p) {
+      if (mask_p && mask.width() <= IP4Addr::WIDTH) {
         this->assign(a4, mask);
         return true;
       }
@@ -975,7 +975,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= IP4Addr::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From e752e59157854a418ffd4932e29e7f4310d58ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 031/110] fix: IPRange::load kept a stale family if the text is
 invalid

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 59d3b2c..3bcbb0c 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1133,6 +1133,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From 131e24e204cfbb84befe43497052892ff44c985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 032/110] fix: IPRange::contains treated IPv6 ranges as IPv4

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 9819c8fdbf6943d9c4741832bb68e3b0bba28300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 033/110] fix: IPEndpoint constructed from an invalid address
 was uninitialized

---
 code/include/swoc/IPEndpoint.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..9354da7 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -282,10 +282,12 @@ inline IPEndpoint::IPEndpoint() {
 }
 
 inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+  this->invalidate();
   this->assign(addr);
 }
 
 inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+  this->invalidate();
   this->assign(srv);
 }
 
-- 
2.43.0


From 8d76fce8d5fa96d63f4315ddb92e136b1d66f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 034/110] fix: IPEndpoint constructors for sockaddr_in and
 sockaddr_in6 were not defined

---
 code/include/swoc/IPEndpoint.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 9354da7..6e700e5 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -295,6 +295,14 @@ inline IPEndpoint::IPEndpoint(sockaddr const *addr) {
   this->assign(addr);
 }
 
+inline IPEndpoint::IPEndpoint(sockaddr_in const *sin) {
+  this->assign(sin);
+}
+
+inline IPEndpoint::IPEndpoint(sockaddr_in6 const *sin6) {
+  this->assign(sin6);
+}
+
 inline IPEndpoint::IPEndpoint(IPEndpoint::self_type const &that) : self_type(&that.sa) {}
 
 inline IPEndpoint &
-- 
2.43.0


From d89215e07960b3d014e3d6dcc0164c393d3976d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 035/110] fix: endpoint text with an unmatched opening bracket
 was accepted

---
 code/src/swoc_ip.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 3bcbb0c..b76e16d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -169,6 +169,10 @@ IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_v
     src.ltrim_if(&isspace);
     // Check for brackets.
     if ('[' == *src) {
+      if (src.find(']') == TextView::npos) { // unmatched bracket, no address.
+        *rest = src;
+        return false;
+      }
       ++src; // skip bracket.
       *addr = src.take_prefix_at(']');
       if (':' == *src) {
-- 
2.43.0


From d8a8d4b63ddea02d4bfb40211976fd9c16f6386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 036/110] fix: IPAddr family extension printed the numeric
 value instead of the name

---
 code/src/bw_ip_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_ip_format.cc b/code/src/bw_ip_format.cc
index 2fd66fb..25cb07c 100644
--- a/code/src/bw_ip_format.cc
+++ b/code/src/bw_ip_format.cc
@@ -289,7 +289,7 @@ bwformat(BufferWriter &w, Spec const &spec, IPAddr const &addr) {
     if (spec.has_numeric_type()) {
       bwformat(w, local_spec, static_cast<uintmax_t>(addr.family()));
     } else {
-      swoc::bwformat(w, local_spec, addr.family());
+      swoc::bwformat(w, local_spec, IPEndpoint::family_name(addr.family()));
     }
   }
   return w;
-- 
2.43.0


From 5dab6cb574104b8a081814bb7e1e514e9dda0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 037/110] fix: network source post increment for IPv6 and
 generic ranges was not defined

---
 code/src/swoc_ip.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index b76e16d..28ea439 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1239,6 +1239,20 @@ IP6Range::NetSource::operator++() -> self_type & {
   return *this;
 }
 
+auto
+IP6Range::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
+auto
+IPRange::NetSource::operator++(int) -> self_type {
+  auto zret{*this};
+  ++*this;
+  return zret;
+}
+
 void
 IP6Range::NetSource::search_wider() {
   while (_mask.width() > 0) {
-- 
2.43.0


From 9a32545353f1e19545c9f01c31602045a3d0d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 038/110] fix: DiscreteSpace::intersection with an empty range
 returned an invalid pair of iterators

---
 code/include/swoc/DiscreteRange.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index ecf07f3..625e6d2 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1187,7 +1187,8 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::intersection(DiscreteSpace::range_type const &range) -> std::pair<iterator, iterator> {
   // Quick checks for null intersection
-  if (this->head() == nullptr ||                  // empty
+  if (range.empty() ||                            // nothing to intersect
+      this->head() == nullptr ||                  // empty
       this->head()->_range.min() > range.max() || // before first range
       this->tail()->_range.max() < range.min()    // after last range
   ) {
-- 
2.43.0


From 97d6ff2e361a8136bcf2d0b06cf407ed0ce036a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 039/110] fix: IPEndpoint::tokenize without an address argument
 returned the wrong result

---
 code/src/swoc_ip.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 28ea439..20a66f7 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -147,10 +147,11 @@ bool
 IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_view *port, std::string_view *rest) {
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
-  // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  // it doesn't matter if the port and rest are the same, the results will be thrown away. The address
+  // must be distinct because it determines the result.
+  std::string_view local, local_addr;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
     port = &local;
-- 
2.43.0


From cdaf5379b8fad726d39b34950de2580f8ca90bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 040/110] fix: MemArena move assignment did not move the static
 block, which was then freed

---
 code/src/MemArena.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..b7b086b 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -64,8 +64,9 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_frozen_allocated, that._frozen_allocated);
   std::swap(_frozen_reserved, that._frozen_reserved);
   std::swap(_reserve_hint, that._reserve_hint);
-  _active = std::move(that._active);
-  _frozen = std::move(that._frozen);
+  _active       = std::move(that._active);
+  _frozen       = std::move(that._frozen);
+  _static_block = std::exchange(that._static_block, nullptr);
   return *this;
 }
 
-- 
2.43.0


From 445b55cd21f21ac3c00e1261d74425277c99f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 041/110] fix: MemArena allocations with large alignment could
 fail in a new block

---
 code/include/swoc/MemArena.h | 5 +++--
 code/src/MemArena.cc         | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..c6b4232 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -463,9 +463,10 @@ protected:
   /** Internally allocates a new block of memory of size @a n bytes.
    *
    * @param n Size of block to allocate.
-   * @return
+   * @param align Alignment of the space of size @a n in the block.
+   * @return The new block.
    */
-  Block *make_block(size_t n);
+  Block *make_block(size_t n, size_t align);
 
   /// Clean up the frozen list.
   void destroy_frozen();
diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index b7b086b..0d7effd 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -71,7 +71,11 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
 }
 
 MemArena::Block *
-MemArena::make_block(size_t n) {
+MemArena::make_block(size_t n, size_t align) {
+  // Storage in the block is aligned only for the block header, provide space for stronger alignment.
+  if (align > alignof(Block)) {
+    n += align - alignof(Block);
+  }
   // If there's no reservation hint, use the extent. This is transient because the hint is cleared.
   if (_reserve_hint == 0) {
     if (_active_reserved) {
@@ -163,7 +167,7 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    block = this->make_block(n, align);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From e02a2f8f7745727e1feaec2858ec0ab2df435f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 042/110] fix: MemArena aligned remnants were not aligned and
 typed remnants had the wrong size

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index c6b4232..8cab14a 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -697,8 +697,7 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
-  auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
 }
 
 template <>
@@ -709,7 +708,8 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  return span.remove_prefix(Block::align_padding(span.data(), align)).prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From eaa334f5a4eeb7b1663f6f85460029e09fb280a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 043/110] fix: MemArena::thaw recycled a static block that was
 still active

---
 code/src/MemArena.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 0d7effd..90dfdfd 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -138,7 +138,7 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  if (_static_block && !_active.contains(_static_block)) { // recycle only if not in use.
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 85f9340e6ae0cb07e7842e63fd838f29e411c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 044/110] fix: MemArena::localize_c read past the source and
 included the terminator in the view

---
 code/include/swoc/MemArena.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 8cab14a..0548035 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -685,9 +685,9 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0


From c35f7720c04258522ccd9bcb1808382bb7758415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 045/110] fix: FixedArena free list items could be misaligned

---
 code/include/swoc/MemArena.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 0548035..b0b7838 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -7,6 +7,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <mutex>
 #include <memory>
 #include <utility>
@@ -770,7 +771,8 @@ FixedArena<T>::make(Args... args) {
     _list._next = _list._next->_next;
     return new (t) T(std::forward<Args>(args)...);
   }
-  return _arena.template make<T>(std::forward<Args>(args)...);
+  // Must be suitably aligned to be on the free list.
+  return new (_arena.alloc(sizeof(T), std::max(alignof(T), alignof(Item))).data()) T(std::forward<Args>(args)...);
 }
 
 template <typename T>
-- 
2.43.0


From a3512e43adb80b93c9b2c7c289139035fb0bd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 046/110] fix: MemArena static block header could be misaligned

---
 code/src/MemArena.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 90dfdfd..337f1b3 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -20,6 +20,8 @@ MemArena::Block::satisfies(size_t n, size_t align) const {
 
 MemArena::MemArena(MemSpan<void> static_block) {
   static constexpr Scalar<16, size_t> MIN_BLOCK_SIZE = round_up(sizeof(Block) + Block::MIN_FREE_SPACE);
+  // The block header must be aligned.
+  static_block.remove_prefix(Block::align_padding(static_block.data(), alignof(Block)));
   if (static_block.size() < MIN_BLOCK_SIZE) {
     throw std::domain_error("MemArena static block is too small.");
   }
-- 
2.43.0


From 59393e3fe89609db998e2ebdbee61b9827fbbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 047/110] fix: MemSpan::rebind to void scaled the size by the
 element size twice

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..dbb6c8a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // already in bytes.
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size; // already in bytes.
 }
 /// @endcond
 
-- 
2.43.0


From d4c74683237f81bc69c6ba64118be00347426ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 048/110] fix: ArenaWriter lost capacity restrictions when
 growing, restore then overflowed the buffer

---
 code/include/swoc/ArenaWriter.h |  9 ++++++++-
 code/src/ArenaWriter.cc         | 20 +++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/ArenaWriter.h b/code/include/swoc/ArenaWriter.h
index 6f32fc4..2d4bb6f 100644
--- a/code/include/swoc/ArenaWriter.h
+++ b/code/include/swoc/ArenaWriter.h
@@ -48,8 +48,15 @@ public:
    */
   bool commit(size_t n) override;
 
+  /// Reduce the capacity by @a n.
+  ArenaWriter &restrict(size_t n) override;
+
+  /// Restore @a n of restricted capacity.
+  ArenaWriter &restore(size_t n) override;
+
 protected:
-  MemArena &_arena; ///< Arena for the buffer.
+  MemArena &_arena;       ///< Arena for the buffer.
+  size_t _restricted = 0; ///< Capacity in the buffer that is currently restricted.
 
   /** Reallocate the buffer to increase the capacity.
    *
diff --git a/code/src/ArenaWriter.cc b/code/src/ArenaWriter.cc
index c25265e..df1a3a9 100644
--- a/code/src/ArenaWriter.cc
+++ b/code/src/ArenaWriter.cc
@@ -35,12 +35,26 @@ ArenaWriter::commit(size_t n) {
   return this->super_type::commit(n);
 }
 
+ArenaWriter &
+ArenaWriter::restrict(size_t n) {
+  this->super_type::restrict(n);
+  _restricted += n;
+  return *this;
+}
+
+ArenaWriter &
+ArenaWriter::restore(size_t n) {
+  this->super_type::restore(n);
+  _restricted -= n;
+  return *this;
+}
+
 void
 ArenaWriter::realloc(size_t n) {
-  auto text                    = this->view(); // Current data.
-  auto span                    = _arena.require(n).remnant().rebind<char>();
+  TextView text{_buffer, std::min(_attempted, _capacity + _restricted)}; // Current data.
+  auto span                    = _arena.require(n + _restricted).remnant().rebind<char>();
   const_cast<char *&>(_buffer) = span.data();
-  _capacity                    = span.size();
+  _capacity                    = span.size() - _restricted; // any restriction is still in effect.
   memcpy(_buffer, text.data(), text.size());
 }
 
-- 
2.43.0


From 00546877e24fe8b867613d0d71c8c0ee1a9a0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 049/110] fix: FixedBufferWriter::copy clipped to the wrong
 size and wrote past the buffer

---
 code/include/swoc/BufferWriter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..279c739 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,10 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (auto offset = std::max(dst, src); offset < limit) {
+    // Clip the region so that neither end extends past the limit.
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - offset));
+  }
   return *this;
 }
 
-- 
2.43.0


From 3a2c8155178dfe530168c94577eaee5afca11879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 050/110] fix: format specifier parsing indexed out of bounds
 for characters with the high bit set

---
 code/include/swoc/bwf_base.h | 10 +++++-----
 code/src/bw_format.cc        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..77dc30c 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -474,27 +474,27 @@ extern ExternalNames Global_Names;
 
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..77b48cc 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -91,7 +91,7 @@ Spec::parse(TextView fmt) {
         if (Align::NONE == (_align = align_of(sz[3]))) {
           throw std::invalid_argument("Fill URI without alignment mark");
         }
-        char d1 = sz[1], d0 = sz[2];
+        unsigned char d1 = sz[1], d0 = sz[2];
         if (!isxdigit(d0) || !isxdigit(d1)) {
           throw std::invalid_argument("URI encoding with non-hex characters");
         }
-- 
2.43.0


From 3adf55a9fd9e3efec5811064386235a6d5517df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 051/110] fix: numbers in format specifiers wrapped instead of
 being clamped

---
 code/src/bw_format.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 77b48cc..0c769cc 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -65,6 +65,14 @@ Spec::Spec(const TextView &fmt) {
   this->parse(fmt);
 }
 
+namespace {
+/// Parse the leading digits of @a src, removing them. Values too large for the specifier are clamped.
+int
+parse_number(TextView &src) {
+  return static_cast<int>(std::min<uintmax_t>(svto_radix<10>(src), std::numeric_limits<int>::max()));
+}
+} // namespace
+
 /// Parse a format specification.
 bool
 Spec::parse(TextView fmt) {
@@ -73,9 +81,9 @@ Spec::parse(TextView fmt) {
   _name = fmt.take_prefix_at(':');
   // if it's parsable as a number, treat it as an index.
   num    = _name;
-  auto n = svto_radix<10>(num);
+  auto n = parse_number(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    _idx = n;
   }
 
   if (fmt.size()) {
@@ -130,9 +138,9 @@ Spec::parse(TextView fmt) {
         ++sz;
       }
       num = sz;
-      n   = svto_radix<10>(num);
+      n   = parse_number(num);
       if (num.size() < sz.size()) {
-        _min = static_cast<decltype(_min)>(n);
+        _min = n;
         sz   = num;
         if (!sz.size()) {
           return true;
@@ -141,9 +149,9 @@ Spec::parse(TextView fmt) {
       // precision
       if ('.' == *sz) {
         num = ++sz;
-        n   = svto_radix<10>(num);
+        n   = parse_number(num);
         if (num.size() < sz.size()) {
-          _prec = static_cast<decltype(_prec)>(n);
+          _prec = n;
           sz    = num;
           if (!sz.size()) {
             return true;
@@ -162,9 +170,9 @@ Spec::parse(TextView fmt) {
       // maximum width
       if (',' == *sz) {
         num = ++sz;
-        n   = svto_radix<10>(num);
+        n   = parse_number(num);
         if (num.size() < sz.size()) {
-          _max = static_cast<decltype(_max)>(n);
+          _max = n;
           sz   = num;
           if (!sz.size()) {
             return true;
-- 
2.43.0


From 392dbf6bd7bf817a8891f0afb54930f9cf87d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 052/110] fix: formatting the minimum value of a signed type
 overflowed

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 77dc30c..b407088 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = 0 - n; // negate as unsigned, @a i may be the minimum value.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From afd762975f29dcc21b1200ecf9a3d96c7429a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 053/110] fix: short name of E2BIG had a trailing space

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 0c769cc..8131fc3 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -757,7 +757,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
-- 
2.43.0


From d38310b8cb0db86eb8543e02c6bab2222b0b033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 054/110] fix: minimum width larger than the maximum width
 exposed uninitialized output

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 8131fc3..7975ce1 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -281,7 +281,7 @@ Err_Bad_Arg_Index(BufferWriter &w, int i, size_t n) {
 void
 Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
   size_t extent = aux.extent();
-  size_t min    = spec._min;
+  size_t min    = std::min(spec._min, spec._max); // maximum width takes precedence.
   if (extent < min) {
     size_t delta      = min - extent;
     size_t left_delta = 0, right_delta = delta; // left justify values
-- 
2.43.0


From 79d14cbf75b7323d204df128c83fb383086ba687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 055/110] fix: negative pattern count generated unbounded
 output

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 7975ce1..dba4fdb 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -896,7 +896,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Pattern const &pattern) {
   if (!pattern._text.empty()) { // If there's no text, no point in looping.
-    auto limit        = std::min<size_t>(spec._max, pattern._text.size() * pattern._n);
+    auto limit        = std::min<size_t>(spec._max, pattern._text.size() * std::max(pattern._n, 0));
     decltype(limit) n = 0;
     while (n < limit) {
       w.write(pattern._text);
-- 
2.43.0


From 6bbf2bcace859222186431a9f5974e8dbc6952b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 056/110] fix: negative infinity was formatted without the sign

---
 code/src/bw_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index dba4fdb..e680079 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -530,6 +530,9 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       unnormal = unknown_bwf;
     }
 
+    if (negative_p && std::isinf(f)) {
+      w.write('-');
+    }
     w.write(unnormal);
     return w;
   }
-- 
2.43.0


From 2562ca609fa6d96f4b040aafa7dd58987ef932ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 057/110] fix: floating point output lost leading fraction
 zeros and rounding carry, overflowed for large values and precisions

---
 code/src/bw_format.cc | 84 +++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index e680079..9fd4791 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -537,63 +537,85 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     return w;
   }
 
-  auto whole_part = static_cast<uint64_t>(f);
-  if (whole_part == f || spec._prec == 0) { // integral
+  // Values at least this large are integral but not representable as a @c uint64_t.
+  static constexpr double WHOLE_LIMIT = 18446744073709551616.0; // 2^64
+
+  auto whole_part = f < WHOLE_LIMIT ? static_cast<uint64_t>(f) : 0;
+  if (f < WHOLE_LIMIT && (whole_part == f || spec._prec == 0)) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
   }
 
   static constexpr char dec = '.';
-  double frac               = NAN;
-  size_t l                  = 0;
-  size_t r                  = 0;
-  char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
+  // Limits for formatting via integer arithmetic, beyond these the fraction isn't exactly representable.
+  static constexpr unsigned MAX_FAST_PRECISION = std::numeric_limits<double>::digits10;
+  // No finite value has more fraction digits than this.
+  static constexpr unsigned MAX_PRECISION = std::numeric_limits<double>::digits - std::numeric_limits<double>::min_exponent;
+
   char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
-  frac = f - whole_part; // split the number
-
   if (negative_p) {
     neg = '-';
   } else if (spec._sign != '-') {
     neg = spec._sign;
   }
 
-  // Shift the floating point based on the precision. Used to convert
-  //  trailing fraction into an integer value.
-  uint64_t shift = 0;
-  if (precision < POWERS_OF_TEN.size()) {
-    shift = POWERS_OF_TEN[precision];
-  } else { // not precomputed.
-    shift = POWERS_OF_TEN.back();
-    for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
-      shift *= 10;
+  char whole[std::numeric_limits<double>::max_exponent10 + 2];
+  char fraction[MAX_PRECISION + 3]; // leading "0.", terminating nul.
+  std::string_view whole_digits, frac_digits;
+
+  if (f >= WHOLE_LIMIT) { // integral
+    whole_digits = {whole, size_t(snprintf(whole, sizeof(whole), "%.0f", f))};
+  } else {
+    double frac = f - whole_part; // split the number
+    if (precision <= MAX_FAST_PRECISION) {
+      // Shift the floating point based on the precision. Used to convert
+      // trailing fraction into an integer value.
+      uint64_t shift = 1;
+      for (auto n = precision; n > 0;) {
+        auto k  = std::min<unsigned>(n, POWERS_OF_TEN.size() - 1);
+        shift  *= POWERS_OF_TEN[k];
+        n      -= k;
+      }
+      auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+      if (frac_part >= shift) { // rounded up to the next whole number.
+        frac_part -= shift;
+        ++whole_part;
+      }
+      auto r = bwf::To_Radix<10>(frac_part, fraction, precision, bwf::LOWER_DIGITS);
+      memset(fraction, '0', precision - r); // leading zeros in the fraction.
+      frac_digits = {fraction, precision};
+    } else {
+      precision = std::min(precision, MAX_PRECISION);
+      snprintf(fraction, sizeof(fraction), "%.*f", int(precision), frac);
+      if (fraction[0] == '1') { // rounded up to the next whole number.
+        ++whole_part;
+      }
+      frac_digits = {fraction + 2, precision}; // skip the leading "0."
     }
+    auto l       = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
+    whole_digits = {whole + sizeof(whole) - l, l};
   }
 
-  auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
-
-  l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
-  r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
-
   // Clip fill width
   if (neg) {
     --width;
   }
-  width -= static_cast<int>(l);
-  --width; // '.'
-  width -= static_cast<int>(r);
-
-  std::string_view whole_digits{whole + sizeof(whole) - l, l};
-  std::string_view frac_digits{fraction + sizeof(fraction) - r, r};
+  width -= static_cast<int>(whole_digits.size());
+  if (!frac_digits.empty()) {
+    --width; // '.'
+    width -= static_cast<int>(frac_digits.size());
+  }
 
   Write_Aligned(
     w,
     [&]() {
       w.write(whole_digits);
-      w.write(dec);
-      w.write(frac_digits);
+      if (!frac_digits.empty()) {
+        w.write(dec);
+        w.write(frac_digits);
+      }
     },
     spec._align, width, spec._fill, neg);
 
-- 
2.43.0


From 00db1a613e89b178d909df428bd5f66434f2adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 058/110] fix: radix prefix of a hex dump was separated from
 the digits by the fill

---
 code/src/bw_format.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 9fd4791..0fdc646 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -732,14 +732,28 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
     digits   = bwf::LOWER_DIGITS;
   }
 
-  int width = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  int width   = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  auto prefix = [&]() {
+    if (spec._radix_lead_p) {
+      w.write('0');
+      w.write(fmt_type);
+    }
+  };
   if (spec._radix_lead_p) {
-    w.write('0');
-    w.write(fmt_type);
     width -= 2;
   }
+  if (spec._align == bwf::Spec::Align::SIGN) { // fill goes between the prefix and the digits.
+    prefix();
+  }
   bwf::Write_Aligned(
-    w, [&w, &hex, digits]() { bwf::Format_As_Hex(w, hex._view, digits); }, spec._align, width, spec._fill, 0);
+    w,
+    [&]() {
+      if (spec._align != bwf::Spec::Align::SIGN) {
+        prefix();
+      }
+      bwf::Format_As_Hex(w, hex._view, digits);
+    },
+    spec._align, width, spec._fill, 0);
   return w;
 }
 
-- 
2.43.0


From 0d6fec9ecb03cdb17446a280c1c02709fc2e0295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 059/110] fix: date formatting read before an empty format and
 dropped long output

---
 code/src/bw_format.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 0fdc646..24fb6f0 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -902,6 +902,9 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
     bwformat(w, spec, date._epoch);
   } else {
     struct tm t {};
+    if (date._fmt.empty()) {
+      return w;
+    }
     auto r = w.remaining();
     size_t n{0};
     // Verify @a fmt is null terminated, even outside the bounds of the view.
@@ -924,9 +927,15 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::Date const &date) {
       // Direct write didn't work. Unfortunately need to write to a temporary
       // buffer or the sizing isn't correct if @a w is clipped because @c
       // strftime returns 0 if the buffer isn't large enough.
-      char buff[256]; // hope for the best - no real way to resize appropriately on failure.
-      n = strftime(buff, sizeof(buff), date._fmt.data(), &t);
-      w.write(buff, n);
+      // The output can legitimately be empty, therefore force it to have at least one character
+      // so that failure can be distinguished and the buffer resized.
+      std::string fmt{date._fmt.data()};
+      std::string buff(256, '\0');
+      fmt += ' ';
+      while (0 == (n = strftime(buff.data(), buff.size(), fmt.c_str(), &t))) {
+        buff.resize(buff.size() * 2);
+      }
+      w.write(buff.data(), n - 1);
     }
   }
   return w;
-- 
2.43.0


From 49d8bcea9071c71bfb73be744412a419563c06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 060/110] fix: empty argument output was not padded to the
 minimum width

---
 code/include/swoc/bwf_base.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index b407088..30f0d01 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,11 +903,9 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
-          bwf::Adjust_Alignment(lw, spec);
-          if (!this->commit(lw.extent())) {
-            continue;
-          }
+        bwf::Adjust_Alignment(lw, spec);
+        if (lw.extent() && !this->commit(lw.extent())) {
+          continue;
         }
         break;
       }
-- 
2.43.0


From 1a0cdf18b034eda0390aab7c59302ef915f8f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 061/110] fix: printing an Errata note without a severity read
 an empty optional

---
 code/src/Errata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 4ffd875..3d28d8c 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -152,7 +152,7 @@ bwformat(BufferWriter &bw, bwf::Spec const &, Errata const &errata) {
   for (auto &note : errata) {
     if (note.text()) {
       bw.print("{}{}{}{}", swoc::bwf::If(trailing_p, "{}", glue), swoc::bwf::Pattern{int(note.level()), id_txt},
-               swoc::bwf::If(note.has_severity(), "{}{}", note.severity(), a_s_glue), note.text());
+               swoc::bwf::If(note.has_severity(), "{}{}", note.severity(Errata::DEFAULT_SEVERITY), a_s_glue), note.text());
       trailing_p = true;
     }
   }
-- 
2.43.0


From 9fb4256e29d9ca092f55ef77b2278ee563c30b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 062/110] fix: Errata code was lost if there were no
 annotations

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From b9640a09ca210f7afed31fa066d9201265bce822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 063/110] fix: noting an Errata on itself did not terminate

---
 code/src/Errata.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/src/Errata.cc b/code/src/Errata.cc
index 3d28d8c..9eafcbc 100644
--- a/code/src/Errata.cc
+++ b/code/src/Errata.cc
@@ -103,8 +103,10 @@ Errata::note(const self_type &that) {
     if (that.has_severity()) {
       this->update(that.severity());
     }
-    for (auto const &annotation : that) {
-      d->_notes.append(d->_arena.make<Annotation>(d->localize(annotation._text), annotation._severity, annotation._level + 1));
+    // Count the source annotations in advance in case @a that is @a this.
+    auto n = that.length();
+    for (auto spot = that.begin(); n > 0; ++spot, --n) {
+      d->_notes.append(d->_arena.make<Annotation>(d->localize(spot->_text), spot->_severity, spot->_level + 1));
     }
   }
   return *this;
-- 
2.43.0


From 7eab217882d125dfe058fb7492677f949d5f9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 064/110] fix: short name of EL2HLT was misspelled

---
 code/src/bw_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 24fb6f0..ee19c2a 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -818,7 +818,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From 377707627c9314d54ae28422ba3bebde251cd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 065/110] fix: constructing an IPSrv from an IP4Srv or IP6Srv
 dropped the port

---
 code/include/swoc/IPSrv.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/include/swoc/IPSrv.h b/code/include/swoc/IPSrv.h
index d4f245b..a16f50d 100644
--- a/code/include/swoc/IPSrv.h
+++ b/code/include/swoc/IPSrv.h
@@ -232,6 +232,10 @@ public:
   explicit IPSrv(IP6Addr addr, in_port_t port = 0) : _srv(IP6Srv{addr, port}), _family(addr.family()) {}
   /// Construct from generic address and port.
   explicit IPSrv(IPAddr addr, in_port_t port = 0);
+  /// Construct from IPv4 service.
+  explicit IPSrv(IP4Srv const &srv) : _srv(srv), _family(srv.family()) {}
+  /// Construct from IPv6 service.
+  explicit IPSrv(IP6Srv const &srv) : _srv(srv), _family(srv.family()) {}
   /// Construct from socket address.
   explicit IPSrv(sockaddr const *sa);
   /// Construct IPv4 service from socket address.
-- 
2.43.0


From 50aa9faa377f950a506b50929c2616102bb5a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 066/110] fix: IntrusiveDList range erase did not compile and
 did not update the count

---
 code/include/swoc/IntrusiveDList.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..cb83c0a 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,32 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
+  value_type *spot = first._v;
+  if (spot == limit._v) { // empty range, nothing to remove.
+    return limit;
+  }
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
-    L::next_ptr(prev) = limit;
+    L::next_ptr(prev) = limit._v;
   }
   if (spot == _head) {
-    _head = limit;
+    _head = limit._v;
   }
   // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
+  if (nullptr == limit._v) {
     _tail = prev;
   } else {
-    L::prev_ptr(limit) = prev;
+    L::prev_ptr(limit._v) = prev;
   }
   // Clear links in removed elements.
-  while (spot != limit) {
+  while (spot != limit._v) {
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+    --_count;
   };
 
-  return {limit._v, this};
+  return this->iterator_for(limit._v);
 }
 
 template <typename L>
-- 
2.43.0


From 6fe8a574299a208b8bb2afbf91c616153e3d8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 067/110] fix: IntrusiveHashMap erase counted only the first
 element of a bucket

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..231788b 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From ce770db713e4af534a6f28bdf56ed2aa8d40ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 068/110] fix: IntrusiveHashMap range erase did not compile and
 did not maintain the buckets

---
 code/include/swoc/IntrusiveHashMap.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 231788b..94e61b6 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -577,21 +577,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot); // maintains the bucket of each element.
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From ce7758fc0799deeb26b3cc328d8b80d16f8617be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:03 +0000
Subject: [PATCH 069/110] fix: IntrusiveHashMap const equal_range conversion
 was not defined

---
 code/include/swoc/IntrusiveHashMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 94e61b6..4c803bf 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -158,7 +158,7 @@ public:
     using super_type = std::pair<const_iterator, const_iterator>; ///< Super type.
 
     /// Allow implicit conversion of range to const_range.
-    const_range(range const &r);
+    const_range(range const &r) : super_type(r.first, r.second) {}
 
     using super_type::super_type; ///< Use super type constructors.
 
-- 
2.43.0


From c864df564bc791b7e967c4cb0f50938bfb3d0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 070/110] fix: IntrusiveLinkDescriptor link access was not
 defined

---
 code/include/swoc/IntrusiveDList.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index cb83c0a..b546d0a 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -562,6 +562,18 @@ template <typename T, IntrusiveLinks<T>(T::*links)> struct IntrusiveLinkDescript
   static T *&prev_ptr(T *thing); ///< Retrive reference to previous pointer.
 };
 
+template <typename T, IntrusiveLinks<T>(T::*links)>
+T *&
+IntrusiveLinkDescriptor<T, links>::next_ptr(T *thing) {
+  return (thing->*links)._next;
+}
+
+template <typename T, IntrusiveLinks<T>(T::*links)>
+T *&
+IntrusiveLinkDescriptor<T, links>::prev_ptr(T *thing) {
+  return (thing->*links)._prev;
+}
+
 // --- Implementation ---
 
 template <typename L> IntrusiveDList<L>::const_iterator::const_iterator() {}
-- 
2.43.0


From a1757f2e021d397986b40405989ef38c650e3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 071/110] fix: Vectray fixed storage treated unused slots as
 valid elements

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..4818774 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From 93947f6246b7b2f6d6627886e72e56f37eb1131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 072/110] fix: Vectray data and constant element access did not
 compile

---
 code/include/swoc/Vectray.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 4818774..91808d7 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -266,6 +269,12 @@ Vectray<T, N, A>::FixedStore::span() {
   return {this->data(), _count};
 }
 
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
+}
+
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::FixedStore::data() {
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -404,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +421,13 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
-                    _store);
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }}, _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From ab8ba05b137f154261e3e9c52fd9e579e34f1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 073/110] fix: Vectray pop_back did not compile

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 91808d7..6b5b08e 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -350,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 7e0831128516aa47b761c1ec8e3321bb9d235196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 074/110] fix: Vectray fixed storage was not aligned for the
 element type

---
 code/include/swoc/Vectray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 6b5b08e..75bbaa7 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,9 +52,9 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
-    size_t _count = 0;                         ///< Number of valid elements.
-    allocator_type _a;                         ///< Allocator instance - used for construction.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    size_t _count = 0;                                    ///< Number of valid elements.
+    allocator_type _a;                                    ///< Allocator instance - used for construction.
 
     FixedStore() = default; ///< Default construct - empty.
 
-- 
2.43.0


From 7d3c1aa3f0ee883a53fc6f9d5537d7f58ca644d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 075/110] fix: copying or moving a Vectray with fixed storage
 copied the raw memory of the elements

---
 code/include/swoc/Vectray.h | 62 +++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 75bbaa7..620201f 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <variant>
 #include <new>
+#include <memory>
 #include <cstddef>
 
 #include <swoc/MemSpan.h>
@@ -64,8 +65,20 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy the elements.
+    FixedStore(FixedStore const &that);
+    /// Move the elements, leaving @a that with elements in a moved from state.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+    /// Replace the elements with copies.
+    FixedStore &operator=(FixedStore const &that);
+    /// Replace the elements by moving, leaving @a that with elements in a moved from state.
+    FixedStore &operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
     ~FixedStore();
 
+    /// Destroy all elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -103,6 +116,11 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  Vectray(self_type const &that)            = default; ///< Copy constructor.
+  Vectray(self_type &&that)                 = default; ///< Move constructor.
+  self_type &operator=(self_type const &that) = default; ///< Copy assignment.
+  self_type &operator=(self_type &&that)      = default; ///< Move assignment.
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
@@ -257,10 +275,48 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
-  for (auto &item : this->span()) {
-    std::destroy_at(std::addressof(item));
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+  std::uninitialized_copy_n(that.data(), that._count, this->data());
+  _count = that._count;
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>)
+  : _a(that._a) {
+  std::uninitialized_move_n(that.data(), that._count, this->data());
+  _count = that._count;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    std::uninitialized_copy_n(that.data(), that._count, this->data());
+    _count = that._count;
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    std::uninitialized_move_n(that.data(), that._count, this->data());
+    _count = that._count;
   }
+  return *this;
+}
+
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
+  std::destroy_n(this->data(), _count);
+  _count = 0;
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From cac3578bc7372695ec11a203536db51328e0dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 076/110] fix: moving a Vectray to a different static size did
 not compile and dropped elements

---
 code/include/swoc/Vectray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 620201f..63ac26c 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -35,6 +35,8 @@ namespace swoc { inline namespace SWOC_VERSION_NS {
  * The interface is designed to mimic that of @c std::vector.
  */
 template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
+  template <typename, size_t, class> friend class Vectray; // Access to storage for moving between sizes.
+
   using self_type   = Vectray;           ///< Self reference type.
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
 
@@ -266,11 +268,9 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    this->reserve(span.size());
+    for (auto &&item : span) {
+      this->emplace_back(std::move(item));
     }
   }
 }
-- 
2.43.0


From 0f7cd03eef13b17cfb7841648617ffdaed6a6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 077/110] fix: Vectray allocator was ignored or not supported
 by the constructors

---
 code/include/swoc/Vectray.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 63ac26c..2708f3f 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -255,13 +255,24 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
   }
 }
 
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : _store(std::in_place_type_t<FixedStore>{}, a) {
+  if (DYNAMIC == that._store.index()) {
+    _store.template emplace<DYNAMIC>(std::move(std::get<DYNAMIC>(that._store)), a);
+  } else {
+    for (auto &&item : that.items()) {
+      this->emplace_back(std::move(item));
+    }
+  }
+}
+
 template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::Vectray(Vectray<T, M, A> &&that) {
   // If @a that is already a vector, always move that here.
   if (DYNAMIC == that._store.index()) {
-- 
2.43.0


From eff2648712a2383bfe0a23730aef42a1678d6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 078/110] fix: appending to a Vectray failed for its own
 elements and for throwing constructors

---
 code/include/swoc/Vectray.h | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 2708f3f..7a5d6f9 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -369,33 +369,13 @@ Vectray<T, N, A>::operator[](size_type idx) const {
 template <typename T, size_t N, typename A>
 auto
 Vectray<T, N, A>::push_back(const T &t) -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
-                                if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
-                                } else {
-                                  this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
-                                }
-                              },
-                              [&](DynamicStore &ds) -> void { ds.push_back(t); }},
-             _store);
-  return *this;
+  return this->emplace_back(t);
 }
 
 template <typename T, size_t N, typename A>
 auto
 Vectray<T, N, A>::push_back(T &&t) -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void {
-                                if (fs._count < N) {
-                                  new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
-                                } else {
-                                  this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
-                                }
-                              },
-                              [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
-             _store);
-  return *this;
+  return this->emplace_back(std::move(t));
 }
 
 template <typename T, size_t N, class A>
@@ -405,10 +385,14 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
   if (_store.index() == FIXED) {
     auto &fs{std::get<FIXED>(_store)};
     if (fs._count < N) {
-      new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
+      new (fs.data() + fs._count) T(std::forward<Args>(args)...); // A::traits ?
+      ++fs._count;                                                // only if the construction succeeded.
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // must be before the transfer in case @a args are in this container.
+    this->transfer();
+    std::get<DYNAMIC>(_store).emplace_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From 65d88df501082d51d376e26f9b6440c9fa0f7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:57 +0000
Subject: [PATCH 079/110] fix: Vectray reference and pointer types were not for
 the element type

---
 code/include/swoc/Vectray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 7a5d6f9..45a5a42 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -42,10 +42,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;              ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;         ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;              ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;         ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
-- 
2.43.0


From 44887b1e6fbcd9eb86cd67c0a385a9ddf7f8deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 080/110] fix: Lexicon iterators could not be decremented

---
 code/include/swoc/Lexicon.h | 39 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..04c382d 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -275,9 +275,10 @@ protected:
     bool operator!=(self_type const &that) const;
 
   protected:
-    explicit base_iterator(Item const *item) : _item(item) {}
+    base_iterator(Lexicon const *lexicon, Item const *item) : _lexicon(lexicon), _item(item) {}
 
-    const Item *_item{nullptr}; ///< Current location in the container.
+    Lexicon const *_lexicon{nullptr}; ///< Container, needed to decrement from the end position.
+    const Item *_item{nullptr};       ///< Current location in the container.
   };
 
 public:
@@ -318,7 +319,7 @@ public:
     self_type operator--(int);
 
   protected:
-    value_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    value_iterator(Lexicon const *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -354,7 +355,7 @@ public:
     self_type operator--(int);
 
   protected:
-    name_iterator(const Item *item) : super_type(item){}; ///< Internal constructor.
+    name_iterator(Lexicon const *lexicon, const Item *item) : super_type(lexicon, item){}; ///< Internal constructor.
 
     friend Lexicon;
   };
@@ -374,12 +375,12 @@ public:
   /// Iteration over names - every value/name pair.
   name_iterator
   begin_names() const {
-    return {_by_name.begin()};
+    return {this, _by_name.begin()};
   }
   /// Iteration over names - every value/name pair.
   name_iterator
   end_names() const {
-    return {_by_name.end()};
+    return {this, _by_name.end()};
   }
 
   /// @cond INTERNAL
@@ -717,13 +718,13 @@ Lexicon<E>::count() const {
 template <typename E>
 auto
 Lexicon<E>::begin() const -> const_iterator {
-  return const_iterator{static_cast<const Item *>(_by_value.begin())};
+  return {this, _by_value.begin()};
 }
 
 template <typename E>
 auto
 Lexicon<E>::end() const -> const_iterator {
-  return {};
+  return {this, _by_value.end()};
 }
 
 // Iterators
@@ -770,15 +771,20 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_value_link._prev;
+  } else {
+    auto spot         = super_type::_lexicon->_by_value.end();
+    super_type::_item = --spot;
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +806,20 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  if (super_type::_item) {
+    super_type::_item = super_type::_item->_name_link._prev;
+  } else {
+    auto spot         = super_type::_lexicon->_by_name.end();
+    super_type::_item = --spot;
+  }
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From 909889bc2c950197b1c8ff7e1397d945c11dd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 081/110] fix: Lexicon did not keep a copy of the default name

---
 code/include/swoc/Lexicon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index 04c382d..3c6cafb 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -700,7 +700,7 @@ Lexicon<E>::set_default(Default const &handler) -> self_type & {
     _value_default = std::get<3>(handler);
     break;
   case 2:
-    _name_default = std::get<2>(handler);
+    _name_default = this->localize(std::get<2>(handler));
     break;
   case 4:
     _name_default = std::get<4>(handler);
-- 
2.43.0


From e1f86b2139e8e92c159e08187bde4d679b12f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 082/110] fix: MemSpan comparison examined too few bytes for
 multi-byte elements

---
 code/include/swoc/MemSpan.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index dbb6c8a..d15df92 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,18 +959,18 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
-  int r = std::memcmp(lhs.data(), rhs.data(), n);
+  int r = (n == 0) ? 0 : std::memcmp(lhs.data(), rhs.data(), n);
   if (0 != r) { // If we got a not-equal, override the size based result.
     zret = r;
   }
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_count == 0 || _ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
@@ -1374,7 +1374,7 @@ MemSpan<void const>::is_same(self_type const &that) const {
 
 inline bool
 MemSpan<void const>::operator==(self_type const &that) const {
-  return _size == that._size && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, _size));
+  return _size == that._size && (_size == 0 || _ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, _size));
 }
 
 inline bool
-- 
2.43.0


From c1440a1cf28e2daa48f665dcd8acadac25e74aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 083/110] fix: memcpy with MemSpan copied too few bytes for
 multi-byte elements

---
 code/include/swoc/MemSpan.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index d15df92..1bd6fc9 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,20 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  size_t n = std::min(dst.data_size(), src.data_size());
+  return n == 0 ? dst.data() : static_cast<T *>(std::memcpy(dst.data(), src.data(), n));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return dst.empty() ? dst.data() : static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return src.empty() ? dst : static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From 6ee050fc907eff717932e0b2c06a29cbc15f1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 084/110] fix: memcpy of a view to a MemSpan could write past
 the end of the span

---
 code/include/swoc/MemSpan.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 1bd6fc9..b90a2e8 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1001,12 +1001,14 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  size_t n = std::min(span.size(), view.size());
+  return n == 0 ? span.data() : static_cast<char *>(std::memcpy(span.data(), view.data(), n));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  size_t n = std::min(span.size(), view.size());
+  return n == 0 ? span.data() : std::memcpy(span.data(), view.data(), n);
 }
 
 using std::memcpy;
-- 
2.43.0


From bcfb036c9eb3b8b9b2c36cf9d056e5261d47fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 085/110] fix: MemSpan align used the misalignment as the
 padding

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index b90a2e8..f15947a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1618,7 +1618,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1635,7 +1635,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = -p & (alignment - 1); // distance to the next aligned address.
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From fe25f88cce4414aef4cc29a0ccc80d09a599ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:46 +0000
Subject: [PATCH 086/110] fix: a span of constant elements could not be
 assigned to MemSpan<void const>

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index f15947a..0eb32a6 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1402,7 +1402,7 @@ MemSpan<void const>::empty() const {
 template <typename U>
 auto
 MemSpan<void const>::operator=(MemSpan<U> const &that) -> self_type & {
-  _ptr  = that._ptr;
+  _ptr  = const_cast<std::remove_const_t<U> *>(that._ptr);
   _size = sizeof(U) * that.size();
   return *this;
 }
-- 
2.43.0


From eace4111dd86222923a90fb6e243fcf61ffa671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 087/110] fix: Scalar plus and minus could not be used

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..4ea39b4 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -988,13 +988,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From 5b648c6491edec8f50157bb6bb488da24a3c8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 088/110] fix: rounded scalars of the same scale could not be
 added or subtracted

---
 code/include/swoc/Scalar.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 4ea39b4..09fa08f 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -732,25 +732,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -855,7 +855,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
-- 
2.43.0


From 441a54d28d8887ccbe0a366ebbbe40c71ce671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 089/110] fix: multiplication of a tagged int Scalar was
 ambiguous

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 09fa08f..1044da4 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -946,16 +946,16 @@ operator*(int n, Scalar<N, C, T> const &rhs) {
   return Scalar<N, C, T>(rhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(Scalar<N, int> const &lhs, int n) {
-  return Scalar<N, int>(lhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(Scalar<N, int, T> const &lhs, int n) {
+  return Scalar<N, int, T>(lhs) *= n;
 }
 
-template <intmax_t N>
-Scalar<N, int>
-operator*(int n, Scalar<N, int> const &rhs) {
-  return Scalar<N, int>(rhs) *= n;
+template <intmax_t N, typename T>
+Scalar<N, int, T>
+operator*(int n, Scalar<N, int, T> const &rhs) {
+  return Scalar<N, int, T>(rhs) *= n;
 }
 
 template <intmax_t N, typename C, typename T>
-- 
2.43.0


From f2acea46623dfe6ebbeb32ee5386f8ee10e8e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 090/110] fix: inequality of Scalars compared truncated values

---
 code/include/swoc/Scalar.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 1044da4..86af57b 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -625,6 +625,12 @@ operator<=(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
 }
 
 // Derived compares.
+template <intmax_t N, typename C, intmax_t S, typename I, typename T>
+bool
+operator!=(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
+  return !(lhs == rhs);
+}
+
 template <intmax_t N, typename C, intmax_t S, typename I, typename T>
 bool
 operator>(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
-- 
2.43.0


From dbe97035d4337f714185674d3050ab2e36512ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 091/110] fix: rounding conversion of Scalars truncated to the
 source counter type

---
 code/include/swoc/Scalar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 86af57b..a440739 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -41,7 +41,7 @@ namespace detail {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+constexpr std::common_type_t<C, intmax_t>
 scale_conversion_round_up(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
@@ -56,7 +56,7 @@ scale_conversion_round_up(C c) {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+constexpr std::common_type_t<C, intmax_t>
 scale_conversion_round_down(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
-- 
2.43.0


From 80d33a582a2a784c92b34502d7a9e3f14f981fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:02 +0000
Subject: [PATCH 092/110] fix: Scalar rounding of negative values was in the
 wrong direction

---
 code/include/swoc/Scalar.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index a440739..3be248b 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,12 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (c % R::num > 0); // N is a multiple of S.
+    // Division truncates, which is already rounded up for negative values.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (c % R::num > 0);
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +63,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - (c % R::num < 0); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - (c % R::num < 0);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +105,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (_n % N > 0));
   }
 };
 
@@ -115,7 +116,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - (_n % N < 0));
   }
 };
 
-- 
2.43.0


From 1b42b0effb696c14750d5d76d501af16d0e82e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:09 +0000
Subject: [PATCH 093/110] fix: FNV hash sign extended characters with the high
 bit set

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..f4ea586 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // hash is over octets - don't sign extend.
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // hash is over octets - don't sign extend.
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From ae98d4189592c7252da7741c8f0333e9c4407211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 094/110] fix: parent of a single element relative path was the
 path itself

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..337bb39 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -22,8 +22,9 @@ namespace file {
 path
 path::parent_path() const {
   TextView parent{_path};
-  parent.split_suffix_at(SEPARATOR);
-  return parent ? parent : "/"_tv;
+  parent.take_suffix_at(SEPARATOR); // clears @a parent if there is no separator.
+  // Only an absolute path has the root as a parent, a relative path with one element has an empty parent.
+  return parent || this->is_relative() ? parent : "/"_tv;
 }
 
 path
-- 
2.43.0


From 853aa74c25eec87c392f45fdb451380bf68b2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 095/110] fix: relative_path was absolute for a path with
 repeated leading separators

---
 code/src/swoc_file.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 337bb39..493b284 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -29,10 +29,9 @@ path::parent_path() const {
 
 path
 path::relative_path() const {
-  if (!_path.empty() && _path.front() == SEPARATOR) {
-    return _path.substr(1);
-  }
-  return *this;
+  TextView text{_path};
+  text.ltrim(SEPARATOR); // more than one leading separator is still the root.
+  return text;
 }
 
 auto
-- 
2.43.0


From f01dc01a90604eeafd6eb69bd35fa2daf54407e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 096/110] fix: appending a path to itself used freed memory

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 493b284..a1ae2cb 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <functional>
 #include <variant>
 
 #include <fcntl.h>
@@ -45,6 +46,8 @@ path::operator/=(std::string_view that) {
   if (!that.empty()) { // don't waste time appending nothing.
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
+    } else if (std::less_equal<>{}(_path.data(), that.data()) && std::less_equal<>{}(that.data(), _path.data() + _path.size())) {
+      return *this /= self_type(that); // view of this path, which can be invalidated by the append.
     } else {
       if (_path.back() == SEPARATOR) {
         _path.reserve(_path.size() + that.size());
-- 
2.43.0


From 3f59988ed41d419be28457ceb935e22815779947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 097/110] fix: canonical kept a stale error code and leaked
 long paths

---
 code/src/swoc_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index a1ae2cb..03b370d 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -259,12 +259,14 @@ canonical(const path &p, std::error_code &ec) {
 
   char buf[PATH_MAX + 1];
 
+  ec.clear();
+
   if (auto rp = ::realpath(p.c_str(), buf); rp) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From ef4d242decd97e55f14115d423e295bdeabde6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 098/110] fix: file copy left old content in the target and
 reported success on failure

---
 code/src/swoc_file.cc | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 03b370d..8e27736 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -348,6 +348,10 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
   auto src_fs = file::status(from, local_ec);
+  if (is_dir(src_fs)) {
+    ec = std::error_code(EISDIR, std::system_category());
+    return false;
+  }
 
   path final_to;
   if (auto fs = file::status(to, local_ec); !(local_ec && ENOENT == local_ec.value()) && is_dir(fs)) {
@@ -362,17 +366,39 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t total = 0;
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
+    auto n = read(src_fd, span.data(), span.size());
+    if (n == 0) {
+      break;
+    } else if (n < 0) {
+      if (EINTR == errno) {
+        continue;
+      }
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    }
+
+    for (TextView data{span.data(), static_cast<size_t>(n)}; data;) {
+      auto k = ::write(dst_fd, data.data(), data.size());
+      if (k < 0) {
+        if (EINTR == errno) {
+          continue;
+        }
         ec = std::error_code(errno, std::system_category());
-        break;
+        return false;
       }
-    } else {
-      break;
+      data.remove_prefix(k);
+      total += k;
     }
   }
 
+  // Drop any previous content past the copied data. This is done last in case @a to is @a from.
+  if (struct ::stat s {}; 0 != ::fstat(dst_fd, &s) || (S_ISREG(s.st_mode) && s.st_size > total && 0 != ::ftruncate(dst_fd, total))) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From d47d1d977afc29d2eb0663119d7d97f32a5c98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 099/110] fix: remove_all followed symbolic links and
 misreported errors and removals

---
 code/src/swoc_file.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 8e27736..42bd656 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -402,22 +402,23 @@ copy(const path &from, const path &to, std::error_code &ec) {
   return true;
 }
 
+namespace {
+// Remove @a p and anything in it. @a ec is set only if there is an error.
 uintmax_t
-remove_all(const path &p, std::error_code &ec) {
+remove_tree(const path &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   DIR *dir             = nullptr;
   struct dirent *entry = nullptr;
-  std::error_code err;
-  uintmax_t zret = 0;
+  uintmax_t zret       = 0;
 
   struct ::stat s {};
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) { // do not follow links, only the link should be removed.
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (!S_ISDIR(s.st_mode)) { // not a directory, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -425,9 +426,6 @@ remove_all(const path &p, std::error_code &ec) {
       ++zret;
     }
     return zret;
-  } else if (!S_ISDIR(s.st_mode)) { // not a directory
-    ec = std::error_code(ENOTDIR, std::system_category());
-    return zret;
   }
   // Invariant - @a p is a directory.
 
@@ -445,17 +443,25 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_tree(child, ec);
   }
 
   if (0 != rmdir(p.c_str())) {
     ec = std::error_code(errno, std::system_category());
+  } else {
+    ++zret;
   }
-  ++zret;
 
   closedir(dir);
   return zret;
 }
+} // namespace
+
+uintmax_t
+remove_all(const path &p, std::error_code &ec) {
+  ec.clear();
+  return remove_tree(p, ec);
+}
 
 bool
 remove(path const &p, std::error_code &ec) {
-- 
2.43.0


From 6f57145824b3b525d67e3445f2075a6ff75edefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 100/110] fix: file remove failed for links and after an
 earlier error

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 42bd656..9fecda9 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -467,11 +467,12 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) { // do not follow links, only the link should be removed.
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 5f9f22e955fd5a05985e68b0b650f7a363c1d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 101/110] fix: file load depended on the reported size and a
 single read

---
 code/src/swoc_file.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 9fecda9..3999a1f 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -499,12 +499,27 @@ load(const path &p, std::error_code &ec) {
     if (0 != ::fstat(fd, &info)) {
       ec = std::error_code(errno, std::system_category());
     } else {
-      auto n = info.st_size;
-      zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
-        ec = std::error_code(errno, std::system_category());
+      size_t n = 0; // amount read.
+      zret.resize(info.st_size);
+      while (true) {
+        if (n == zret.size()) {
+          if (!S_ISREG(info.st_mode)) {
+            break;
+          }
+          zret.resize(n + 4096); // the size can be wrong (e.g. growing, /proc) - check for the actual end of file.
+        }
+        auto k = ::read(fd, zret.data() + n, zret.size() - n);
+        if (k > 0) {
+          n += k;
+        } else if (k == 0) {
+          break;
+        } else if (EINTR != errno) {
+          ec = std::error_code(errno, std::system_category());
+          n  = 0;
+          break;
+        }
       }
+      zret.resize(n);
     }
   }
   return zret;
-- 
2.43.0


From 74f81541c64677b54ff0bc66883d61a8be9a4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 102/110] fix: temp_directory_path did not check TEMP

---
 code/src/swoc_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 3999a1f..a89486b 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -228,7 +228,7 @@ temp_directory_path() {
   /* ISO/IEC 9945 (POSIX): The path supplied by the first environment variable found in the list TMPDIR, TMP, TEMP, TEMPDIR.
    * If none of these are found, "/tmp"
    * */
-  for (char const *tp : {"TMPDIR", "TMP", "TEMPDIR"}) {
+  for (char const *tp : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) {
     if (auto v = ::getenv(tp); v) {
       return path(v);
     }
-- 
2.43.0


From ca75b2921149491570c0c1dee3671958ee7d2461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 103/110] fix: size, mode and times of a missing file were not
 initialized

---
 code/include/swoc/swoc_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/swoc_file.h b/code/include/swoc/swoc_file.h
index 7e94239..d85fc6a 100644
--- a/code/include/swoc/swoc_file.h
+++ b/code/include/swoc/swoc_file.h
@@ -210,7 +210,7 @@ public:
   mode_t mode() const;
 
 protected:
-  struct ::stat _stat; ///< File information.
+  struct ::stat _stat{}; ///< File information.
   file_type _type = file_type::none;
 
   void init();
-- 
2.43.0


From f2c346a671bff76e3d0cc0f344310d7113d30719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 104/110] fix: hash map without buckets divided by zero on find
 and insert

---
 code/include/swoc/IntrusiveHashMap.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4c803bf..845b66c 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -432,6 +432,9 @@ IntrusiveHashMap<H>::clear() -> self_type & {
 template <typename H>
 auto
 IntrusiveHashMap<H>::find(key_type key) -> iterator {
+  if (_table.empty()) { // Constructed without buckets or moved from.
+    return this->end();
+  }
   Bucket *b         = this->bucket_for(key);
   value_type *v     = b->_v;
   value_type *limit = b->limit();
@@ -482,6 +485,9 @@ IntrusiveHashMap<H>::iterator_for(value_type *v) -> iterator {
 template <typename H>
 auto
 IntrusiveHashMap<H>::find(value_type *v) -> iterator {
+  if (_table.empty()) {
+    return this->end();
+  }
   Bucket *b = this->bucket_for(H::key_of(v));
   return b->contains(v) ? _list.iterator_for(v) : this->end();
 }
@@ -495,6 +501,9 @@ IntrusiveHashMap<H>::find(value_type const *v) const -> const_iterator {
 template <typename H>
 void
 IntrusiveHashMap<H>::insert(value_type *v) {
+  if (_table.empty()) { // Constructed without buckets or moved from.
+    _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), DEFAULT_BUCKET_COUNT));
+  }
   auto key         = H::key_of(v);
   Bucket *bucket   = this->bucket_for(key);
   value_type *spot = bucket->_v;
-- 
2.43.0


From 0909101f2a0f7706dcdbecce928c49b1bde0a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 105/110] fix: DiscreteSpace mark, fill and blend when the
 payload argument is stored in the space

---
 code/include/swoc/DiscreteRange.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 625e6d2..dd718be 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1415,6 +1415,7 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 
   // At this point, @a x has the node for this span and all existing spans of
   // interest start at or past this span.
+  // Note - do not use @a payload after this, it can be in a node that is removed.
   while (n) {
     if (n->max() <= range.max()) { // completely covered, drop span, continue
       y = n;
@@ -1422,7 +1423,7 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
       this->remove(y);
     } else if (max_plus_1 < n->min()) { // no overlap, done.
       break;
-    } else if (n->payload() == payload) { // skew overlap or adj., same payload
+    } else if (n->payload() == x->payload()) { // skew overlap or adj., same payload
       x->assign_max(n->max());
       y = n;
       n = next(n);
@@ -1451,6 +1452,8 @@ DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAY
   // Need copies because we will modify these.
   auto min = range.min();
   auto max = range.max();
+  // @a payload can be in a node that is removed, this must be updated in that case.
+  PAYLOAD const *color = &payload;
 
   // Handle cases involving a node of interest to the left of the
   // range.
@@ -1489,8 +1492,9 @@ DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAY
      - we must have either x != 0 or adjust min but not both for each loop iteration.
   */
   while (n) {
-    if (n->payload() == payload) {
+    if (n->payload() == *color) {
       if (x) {
+        color = &x->payload(); // same payload, and @a x is not removed.
         if (n->max() <= max) { // next range is covered, so we can remove and continue.
           this->remove(n);
           n = next(x);
@@ -1513,7 +1517,7 @@ DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAY
           n->assign_min(min);
           return *this;
         } else { // no overlap, space to complete range.
-          this->insert_before(n, _fa.make(min, max, payload));
+          this->insert_before(n, _fa.make(min, max, *color));
           return *this;
         }
       }
@@ -1534,11 +1538,11 @@ DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAY
         }
       } else {                // no carry node.
         if (max < n->min()) { // entirely before next span.
-          this->insert_before(n, _fa.make(min, max, payload));
+          this->insert_before(n, _fa.make(min, max, *color));
           return *this;
         } else {
           if (min < n->min()) { // leading section, need node.
-            auto y = _fa.make(min, --metric_type(n->min()), payload);
+            auto y = _fa.make(min, --metric_type(n->min()), *color);
             this->insert_before(n, y);
           }
           if (max <= n->max()) { // nothing past node
@@ -1555,7 +1559,7 @@ DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAY
   if (x) {
     x->assign_max(max);
   } else {
-    this->append(_fa.make(min, max, payload));
+    this->append(_fa.make(min, max, *color));
   }
   return *this;
 }
@@ -1568,10 +1572,13 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     return *this;
   }
 
+  // The color can be a payload in this space, in a node that is changed or removed - need a copy for that.
+  std::conditional_t<std::is_same_v<U, PAYLOAD>, PAYLOAD const, U const &> tint = color;
+
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-  bool plain_color_p = blender(plain_color, color); // start with default and blend in @a color.
+  bool plain_color_p = blender(plain_color, tint); // start with default and blend in @a color.
 
   auto node_cleaner = [&](Node *ptr) -> void { _fa.destroy(ptr); };
   // Used to hold a temporary blended node - @c release if put in space, otherwise cleaned up.
@@ -1607,7 +1614,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       // @a fill is inserted iff n->max() < remaining.max(), in which case the max is correct.
       // This is needed in other cases only for the color blending result.
       unique_node fill{_fa.make(remaining.min(), n->max(), n->payload()), node_cleaner};
-      bool fill_p = blender(fill->payload(), color); // fill or clear?
+      bool fill_p = blender(fill->payload(), tint); // fill or clear?
 
       if (fill_p) {
         bool same_color_p = fill->payload() == n->payload();
@@ -1705,7 +1712,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // Create a node with the blend for the overlap and then update / replace @a n as needed.
     auto max{right_ext_p ? remaining.max() : n->max()}; // smallest boundary of range and @a n.
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
-    bool fill_p = blender(fill->payload(), color); // fill or clear?
+    bool fill_p = blender(fill->payload(), tint); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
     // Check for being done due to the end of the metric, because in that case can't increment.
     bool metric_max_p = fill->max() == detail::maximum<METRIC>();
-- 
2.43.0


From 584a9e1d329b58c6db8b1d80cbcf09b0ac39618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 106/110] fix: MemArena allocations of 2 GB and more

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index b0b7838..92460c6 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -475,9 +475,9 @@ protected:
   /// Clean up the active list
   void destroy_active();
 
-  using Page        = Scalar<4096>;            ///< Size for rounding block sizes.
-  using QuarterPage = Scalar<Page::SCALE / 4>; ///< Quarter page - unit for sub page sizes.
-  using Paragraph   = Scalar<16>;              ///< Minimum unit of memory allocation.
+  using Page        = Scalar<4096, size_t>;            ///< Size for rounding block sizes.
+  using QuarterPage = Scalar<Page::SCALE / 4, size_t>; ///< Quarter page - unit for sub page sizes.
+  using Paragraph   = Scalar<16, size_t>;              ///< Minimum unit of memory allocation.
 
   static constexpr size_t ALLOC_HEADER_SIZE = 16; ///< Guess of overhead of @c malloc
   /// Initial block size to allocate if not specified via API.
-- 
2.43.0


From 1aafadb69e5247de6a5d2e33f7cade82486f0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 107/110] fix: MemArena requests that can't be satisfied

---
 code/include/swoc/MemArena.h |  7 +++++++
 code/src/MemArena.cc         | 21 +++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 92460c6..c76f119 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <mutex>
 #include <memory>
 #include <utility>
@@ -665,6 +666,9 @@ inline MemArena::MemArena(size_t n) : _reserve_hint(n) {}
 template <typename T>
 MemSpan<T>
 MemArena::alloc_span(size_t n) {
+  if (n > std::numeric_limits<size_t>::max() / sizeof(T)) {
+    throw std::bad_array_new_length();
+  }
   return this->alloc(sizeof(T) * n, alignof(T)).rebind<T>();
 }
 
@@ -698,6 +702,9 @@ inline MemSpan<char> MemArena::localize_c(char const * s) {
 template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
+  if (n > std::numeric_limits<size_t>::max() / sizeof(T)) {
+    throw std::bad_array_new_length();
+  }
   return this->remnant(sizeof(T) * n, alignof(T)).template rebind<T>();
 }
 
diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 337f1b3..2a5ad9b 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -7,9 +7,15 @@
  */
 #include "swoc/MemArena.h"
 #include <algorithm>
+#include <limits>
 
 namespace swoc { inline namespace SWOC_VERSION_NS {
 
+namespace {
+// Sizes past this can't be allocated, such requests are rejected so that size computations do not overflow.
+constexpr size_t MAX_SIZE = std::numeric_limits<size_t>::max() / 4;
+} // namespace
+
 void (*MemArena::destroyer)(MemArena *) = std::destroy_at<MemArena>;
 
 inline bool
@@ -88,6 +94,9 @@ MemArena::make_block(size_t n, size_t align) {
   }
   n             = std::max<size_t>(n, _reserve_hint);
   _reserve_hint = 0; // did this, clear for next time.
+  if (n > MAX_SIZE) {
+    throw std::bad_alloc();
+  }
   // Add in overhead and round up to paragraph units.
   n = Paragraph{round_up(n + ALLOC_HEADER_SIZE + sizeof(Block))};
   // If more than a page or withing a quarter page of a full page,
@@ -101,9 +110,13 @@ MemArena::make_block(size_t n, size_t align) {
   // Allocate space for the Block instance and the request memory and construct a Block at the front.
   // In theory this could use ::operator new(n) but this causes a size mismatch during ::operator delete.
   // Easier to use malloc and override @c delete.
-  auto free_space   = n - sizeof(Block);
+  auto free_space = n - sizeof(Block);
+  auto ptr        = ::malloc(n);
+  if (ptr == nullptr) {
+    throw std::bad_alloc();
+  }
   _active_reserved += free_space;
-  return new (::malloc(n)) Block(free_space);
+  return new (ptr) Block(free_space);
 }
 
 MemSpan<void>
@@ -157,6 +170,10 @@ MemArena::contains(const void *ptr) const {
 
 MemArena &
 MemArena::require(size_t n, size_t align) {
+  if (n > MAX_SIZE || align > MAX_SIZE) {
+    throw std::bad_alloc();
+  }
+
   auto spot = _active.begin();
   Block *block{nullptr};
 
-- 
2.43.0


From d9aae652ba6019c1996f4ae725f9428662df95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 108/110] fix: formatted texts longer than 2 GB were padded

---
 code/src/bw_format.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index ee19c2a..2ef39ab 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -678,7 +678,6 @@ NameBinding::~NameBinding() = default;
 
 BufferWriter &
 bwformat(BufferWriter &w, bwf::Spec const &spec, std::string_view sv) {
-  auto width = int(spec._min); // amount to fill.
   if (spec._prec > 0) {
     sv = sv.substr(0, spec._prec);
   }
@@ -689,7 +688,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, std::string_view sv) {
   } else if ('S' == spec._type) {
     bwformat(w, spec, transform_view_of(&toupper, sv));
   } else {
-    width -= sv.size();
+    auto width = sv.size() < spec._min ? int(spec._min - sv.size()) : 0; // amount to fill.
     bwf::Write_Aligned(
       w, [&w, &sv]() { w.write(sv); }, spec._align, width, spec._fill, 0);
   }
@@ -732,7 +731,8 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, bwf::HexDump const &hex) {
     digits   = bwf::LOWER_DIGITS;
   }
 
-  int width   = int(spec._min) - hex._view.size() * 2; // amount left to fill.
+  auto n      = hex._view.size() * 2;
+  int width   = n < spec._min ? int(spec._min - n) : 0; // amount left to fill.
   auto prefix = [&]() {
     if (spec._radix_lead_p) {
       w.write('0');
-- 
2.43.0


From 1d3d5d64d3f818523933b236c488afab07c1ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 109/110] fix: formatted output without a maximum width was cut
 at 4 GB

---
 code/include/swoc/bwf_base.h | 2 +-
 code/src/bw_format.cc        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 30f0d01..5ef8c9b 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -884,7 +884,7 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
 
       while (true) {
         size_t width = this->remaining();
-        if (spec._max < width) {
+        if (spec._max < width && spec._max != bwf::Spec::DEFAULT._max) {
           width = spec._max;
         }
 
diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2ef39ab..7e80894 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -308,7 +308,7 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
 
   } else {
     size_t max = spec._max;
-    if (max < extent) {
+    if (max < extent && spec._max != Spec::DEFAULT._max) {
       aux.discard(extent - max);
     }
   }
-- 
2.43.0


From 691c02ea814f324843a890150a119b3108bad97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 110/110] fix: IntrusiveHashMap bucket counts past the largest
 table size

---
 code/include/swoc/IntrusiveHashMap.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 845b66c..325aa8e 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -13,6 +13,7 @@
 #include <vector>
 #include <array>
 #include <algorithm>
+#include <stdexcept>
 
 #include "swoc/swoc_version.h"
 #include "swoc/IntrusiveDList.h"
@@ -383,7 +384,11 @@ IntrusiveHashMap<H>::const_range::end() const -> const_iterator const & {
 
 template <typename H> IntrusiveHashMap<H>::IntrusiveHashMap(size_t n) {
   if (n) {
-    _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), n));
+    auto spot = std::lower_bound(PRIME.begin(), PRIME.end(), n);
+    if (spot == PRIME.end()) {
+      throw std::length_error("IntrusiveHashMap - too many buckets");
+    }
+    _table.resize(*spot);
   }
 }
 
@@ -639,6 +644,10 @@ IntrusiveHashMap<H>::expand() {
   value_type *old                      = _list.head();      // save for repopulating.
   auto old_size                        = _table.size();
 
+  if (old_size >= PRIME.back()) { // already the maximum size.
+    return;
+  }
+
   // Reset to empty state.
   this->clear();
   _table.resize(*std::lower_bound(PRIME.begin(), PRIME.end(), old_size + 1));
-- 
2.43.0

