From 5a2e5936f496156ae842c7548250f19b3f5402e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 01/42] fix: enumerate all rows of SiQAD boxes without a second
 dot layer

---
 include/fiction/layouts/coordinates.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/coordinates.hpp b/include/fiction/layouts/coordinates.hpp
index 25a60e7..ae5a935 100644
--- a/include/fiction/layouts/coordinates.hpp
+++ b/include/fiction/layouts/coordinates.hpp
@@ -665,8 +665,16 @@ struct coord_t
         if (x > aspect_ratio.x)
         {
             x = 0;
-            y += z;
-            z = !z;
+
+            if (z < aspect_ratio.z)
+            {
+                ++z;
+            }
+            else
+            {
+                z = 0;
+                ++y;
+            }
         }
 
         if (z > aspect_ratio.z)
-- 
2.43.0


From 0763e1a7e9aa0b93bef583959f33a4e1014d5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 02/42] fix: keep copies of an aspect_ratio_iterator
 independent of the original

---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..ced216a 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (**this == *other);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && **this < *other);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num <= other.num) || (num == other.num && **this <= *other);
     }
 
   private:
@@ -130,9 +131,9 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor. An index instead of an iterator so that copies do not refer to the original.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +159,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From 406c5c803f836617af466a2332e854f4560cf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 03/42] fix: order iterators over aspect ratios and Gray codes
 by their position

---
 include/fiction/algorithms/iter/aspect_ratio_iterator.hpp | 6 +++---
 include/fiction/algorithms/iter/gray_code_iterator.hpp    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index ced216a..4a04462 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -88,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (**this == *other);
+        return (num == other.num) && (pos == other.pos);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -108,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && **this < *other);
+        return (num < other.num) || (num == other.num && pos < other.pos);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -118,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && **this <= *other);
+        return (num < other.num) || (num == other.num && pos <= other.pos);
     }
 
   private:
diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From ea94dba536fdf9520691a30a4530b3807aaaa0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 04/42] fix: avoid intermediate overflows in
 binomial_coefficient

---
 include/fiction/utils/math_utils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..c65039f 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -65,14 +65,17 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        const auto factor = n + 1 - i;
+
+        // result * factor / i, without overflowing in the intermediate product
+        result = (result / i) * factor + (result % i) * factor / i;
     }
 
     return result;
-- 
2.43.0


From a1bf449c10df72dd40c85dc9911185f06ccc8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 05/42] fix: handle empty ranges in find_first_two_of

---
 include/fiction/utils/stl_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..59facb2 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,12 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    // empty ranges have no 2-element sub-sequence (and nothing precedes their end)
+    if (first == last || s_first == s_last)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From 7bb2c38405a0bef1590e2315493b4cf9791f7fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 06/42] fix: do not share the random number generator between
 threads in simulated_annealing

---
 .../fiction/algorithms/optimization/simulated_annealing.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..9c489d4 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,9 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    static thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    static thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From b4f8648f26b91d957a696ddbcb2eedab971039de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 07/42] fix: discard the coloring of a previous graph when the
 graph changes

---
 vendors/graph-coloring/Header/coloring_algorithm.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vendors/graph-coloring/Header/coloring_algorithm.hpp b/vendors/graph-coloring/Header/coloring_algorithm.hpp
index c5beaba..3e488e6 100644
--- a/vendors/graph-coloring/Header/coloring_algorithm.hpp
+++ b/vendors/graph-coloring/Header/coloring_algorithm.hpp
@@ -19,6 +19,16 @@ class GraphColor
     map<string, vector<string>> graph;
     map<string, int>            graph_colors;
 
+    // A coloring of a previous graph does not carry over to a changed one
+    void reset_coloring()
+    {
+        this->graph_colors.clear();
+        for (const auto& node : this->graph)
+        {
+            this->graph_colors[node.first] = -1;
+        }
+    }
+
   public:
     /* Constructors */
     GraphColor();
@@ -31,11 +41,13 @@ class GraphColor
     void set_graph(map<string, vector<string>> new_graph)
     {
         this->graph = std::move(new_graph);
+        this->reset_coloring();
     }
 
     void modify_graph(const string& node, const vector<string>& neighbors)
     {
         this->graph[node] = neighbors;
+        this->reset_coloring();
     }
 
     /* Accessors */
-- 
2.43.0


From 458dda046659419df01040de6695f29abdd49826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 08/42] fix: clone of a clocked layout owns its clocking scheme

The copied storage shared the scheme, so that clock numbers assigned to the
clone were assigned to the original as well.
---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..db3ac13 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,7 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From ff64dff10b5bd878651cd9558d1e7f100256b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 09/42] fix: count crossings of a gate-level layout independent
 of the placement order

A gate placed over or under a wire was not counted, but removing the wire
reduced the number of crossings, which could wrap around.
---
 include/fiction/layouts/gate_level_layout.hpp | 51 ++++++++++---------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..69fc0f5 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -800,24 +800,17 @@ class gate_level_layout : public ClockedLayout
 
             if (!t.is_dead())
             {
+                // decrease crossing count
+                if (is_crossing_with(n, t))
+                {
+                    strg->data.num_crossings--;
+                }
+
                 // decrease wire count
                 if (is_wire(n))
                 {
                     strg->data.num_wires--;
 
-                    // decrease crossing count
-                    if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
-                    if (ClockedLayout::is_ground_layer(t) &&
-                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                        !is_empty_tile(ClockedLayout::above(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
                     // find PO entry and remove it if present
                     if (const auto po_it = std::ranges::find_if(strg->outputs, [this, &n](const auto& p)
                                                                 { return this->get_node(p.index) == n; });
@@ -1747,6 +1740,21 @@ class gate_level_layout : public ClockedLayout
         create_and_cache(lit_maj, 3);
     }
 
+    /**
+     * Checks whether node `n` on tile `t` forms a crossing with the node on the other layer, i.e., whether both tiles are
+     * occupied and at least one of the nodes is a wire.
+     *
+     * @param n Node assigned to `t`.
+     * @param t Tile to check.
+     * @return `true` iff `n` on `t` and the node on the other layer form a crossing.
+     */
+    [[nodiscard]] bool is_crossing_with(const node n, const tile& t) const noexcept
+    {
+        const auto other_t = ClockedLayout::is_crossing_layer(t) ? ClockedLayout::below(t) : ClockedLayout::above(t);
+
+        return other_t != t && !is_empty_tile(other_t) && (is_wire(n) || is_wire_tile(other_t));
+    }
+
     void assign_node(const tile& t, const node n)
     {
         if (!t.is_dead())
@@ -1761,22 +1769,17 @@ class gate_level_layout : public ClockedLayout
             if (is_wire(n))
             {
                 strg->data.num_wires++;
-
-                if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                {
-                    strg->data.num_crossings++;
-                }
-
-                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                    !is_empty_tile(ClockedLayout::above(t)))
-                {
-                    strg->data.num_crossings++;
-                }
             }
             else  // is gate
             {
                 strg->data.num_gates++;
             }
+
+            // keep track of number of crossings
+            if (is_crossing_with(n, t))
+            {
+                strg->data.num_crossings++;
+            }
         }
     }
 
-- 
2.43.0


From 90465938522f034ec1c200978b68bec4ad13a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 10/42] fix: keep the PO entry of a node that replaces a wire

Creating a PO on a tile that hosts a wire, or moving a PO there, removed the
output of the new node together with the old one.
---
 include/fiction/layouts/gate_level_layout.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 69fc0f5..b3bf68e 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -272,9 +272,9 @@ class gate_level_layout : public ClockedLayout
         const auto n = static_cast<node>(strg->nodes.size());
         strg->nodes.emplace_back();     // empty node data
         strg->nodes[n].data[1].h1 = 2;  // assign identity function
+        assign_node(t, n);
         strg->outputs.emplace_back(static_cast<signal>(t));
         strg->data.node_names[n] = name.empty() ? fmt::format("po{}", num_pos()) : name;
-        assign_node(t, n);
 
         /* increase ref-count to child */
         strg->nodes[get_node(s)].data[0].h1++;
@@ -745,6 +745,8 @@ class gate_level_layout : public ClockedLayout
         {
             if (!t.is_dead())
             {
+                // remove a node that occupies t before n's PO entry refers to it
+                clear_tile(t);
                 // if n lived on a tile that was marked as PO, update it with the new tile t
                 std::ranges::replace(strg->outputs, static_cast<signal>(old_t), static_cast<signal>(t));
             }
-- 
2.43.0


From 80ec0f7cb1b3b2e97792ba3b4646d78e99498fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 11/42] fix: moving a node never marks its former children as
 dead

The reference count of a child that was connected later or that replaced the
counted one was decreased below zero, which set the dead flag.
---
 include/fiction/layouts/gate_level_layout.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index b3bf68e..43f1bcb 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -736,7 +736,17 @@ class gate_level_layout : public ClockedLayout
         // n's children
         auto& children = strg->nodes[n].children;
         // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        std::ranges::for_each(children,
+                              [this](const auto& c)
+                              {
+                                  // a child's tile might host a different node by now that was never counted; prevent
+                                  // its ref-count from wrapping around into the dead flag
+                                  if (auto& data = strg->nodes[get_node(c.index)].data[0];
+                                      (data.h1 & UINT32_C(0x7FFFFFFF)) != 0)
+                                  {
+                                      data.h1--;
+                                  }
+                              });
         // clear n's children
         children.clear();
 
-- 
2.43.0


From 43629c30e14ff3d7a478e4f02d78b19c853f928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 12/42] fix: truth tables of less-than-or-equal and
 greater-than-or-equal

The literals were decimal values with a hexadecimal prefix, so that the
functions returned NOR and NOT.
---
 include/fiction/utils/truth_table_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/truth_table_utils.hpp b/include/fiction/utils/truth_table_utils.hpp
index 1ec2733..406df2a 100644
--- a/include/fiction/utils/truth_table_utils.hpp
+++ b/include/fiction/utils/truth_table_utils.hpp
@@ -166,7 +166,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_le_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x11;
+    constexpr const uint64_t lit = 0xb;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -180,7 +180,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_ge_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x13;
+    constexpr const uint64_t lit = 0xd;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
-- 
2.43.0


From e4a290831214dc494aad5f2c1251c40301581b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 13/42] fix: initialize gate-level layouts constructed from
 clocked layouts

Their constant nodes and gate functions were missing, so that the first
created node was taken for a constant.
---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 43f1bcb..2942811 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From d4453181c8e2190dea683c8cfc0eadf70620aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 14/42] fix: keep bounding boxes tight around SiQAD defects and
 empty layouts

---
 include/fiction/layouts/bounding_box.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..1c369d1 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -52,6 +52,9 @@ class bounding_box_2d
         min = {0, 0, 0};
         max = {0, 0, 0};
 
+        x_size = 0;
+        y_size = 0;
+
         // empty layouts don't need further computation
         if (layout.is_empty())
         {
@@ -116,8 +119,8 @@ class bounding_box_2d
                                            { update_min_max(min_defect, max_defect, defect.first); });
 
                 // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                min = min_defect;
+                max = max_defect;
             }
         }
         else
-- 
2.43.0


From 3c08522932c69096ad51fa91bc145e68f9a5239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 15/42] fix: do not lose a defect that is moved onto another
 one or itself

---
 include/fiction/technology/sidb_defect_surface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..b784e6f 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,12 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
             // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+
+            // replace any defect at the new coordinate
+            strg->defective_coordinates.erase(target);
+            strg->defective_coordinates.insert({target, defect});
         }
     }
     /**
-- 
2.43.0


From b422b8cc3b93689f3d401857dc98de96cc928cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 16/42] fix: keep the layer of cells when normalizing layouts

---
 include/fiction/utils/layout_utils.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..d507508 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -260,6 +260,12 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     static_assert(is_cartesian_layout_v<Lyt>, "Lyt is not a Cartesian layout");
     static_assert(is_cell_level_layout_v<Lyt>, "Lyt is not a cell-level layout");
 
+    // there is nothing to shift in empty layouts
+    if (lyt.is_empty())
+    {
+        return lyt.clone();
+    }
+
     auto x_offset = std::numeric_limits<decltype(lyt.x())>::max();
     auto y_offset = std::numeric_limits<decltype(lyt.y())>::max();
 
@@ -291,9 +297,9 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     lyt.foreach_cell(
         [&lyt_new, &lyt, &x_offset, &y_offset](const auto& c)
         {
-            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset}, lyt.get_cell_type(c));
-            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset}, lyt.get_cell_mode(c));
-            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset}, lyt.get_cell_name(c));
+            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_type(c));
+            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_mode(c));
+            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_name(c));
         });
 
     return lyt_new;
-- 
2.43.0


From 30853c70801304c840ec875ce076bfb94ebca781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 17/42] fix: keep a layout's own obstructions when computing k
 shortest paths

---
 .../algorithms/path_finding/k_shortest_paths.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..dd42a06 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -95,18 +95,22 @@ class yen_k_shortest_paths_impl
                     if (p.size() > static_cast<std::size_t>(i) + 1 &&
                         std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
                     {
-                        // block the connection that was already used in the previous shortest path
-                        layout.obstruct_connection(p[i], p[i + 1]);
-                        // store connection for later clearing
-                        temporarily_obstructed_connections.push_back({p[i], p[i + 1]});
+                        // do not touch (and later clear) connections that were blocked to begin with
+                        if (!layout.is_obstructed_connection(p[i], p[i + 1]))
+                        {
+                            // block the connection that was already used in the previous shortest path
+                            layout.obstruct_connection(p[i], p[i + 1]);
+                            // store connection for later clearing
+                            temporarily_obstructed_connections.push_back({p[i], p[i + 1]});
+                        }
                     }
                 }
 
                 // for all coordinates in the root path...
                 for (const auto& root : root_path)
                 {
-                    // ... that are not the spur
-                    if (root != spur)
+                    // ... that are not the spur and that were not blocked to begin with
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0


From 5d60b5a8d51cf81629873349b41862c5f867f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 18/42] fix: only block connections behind the current spur
 when computing k shortest paths

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index dd42a06..8161113 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,9 +90,9 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path and the spur are equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
-                    if (p.size() > static_cast<std::size_t>(i) + 1 &&
+                    if (p.size() > static_cast<std::size_t>(i) + 1 && p[i] == spur &&
                         std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
                     {
                         // do not touch (and later clear) connections that were blocked to begin with
-- 
2.43.0


From 7e6b6e6a386a993242f7e810c64b48ab7c9bb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 19/42] fix: weigh internal and external potentials equally in
 hops between SiDBs

---
 include/fiction/technology/charge_distribution_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..be60ed0 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1272,8 +1272,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         const auto hop_del =
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
-            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] + strg->local_int_pot[c1] -
+                   strg->local_int_pot[c2] - strg->pot_mat[c1][c2];
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From f863e0552de24351405969f4ef5e181dd681cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 20/42] fix: ignore external potentials at positions without an
 SiDB

---
 include/fiction/technology/charge_distribution_surface.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index be60ed0..cc5cfbd 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -988,7 +988,11 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             if (strg->defects.find(c) == strg->defects.cend())
             {
                 // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
+                // potentials assigned to positions without an SiDB have no effect
+                if (const auto index = cell_to_index(c); index != -1)
+                {
+                    strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+                }
             }
             else
             {
-- 
2.43.0


From 2921e0f24462e7304cb91633d49c3b678a521758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 21/42] fix: copy the layout when assigning charge distribution
 surfaces

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index cc5cfbd..a55e3f6 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From 97e33d3aeeaa1f4f5518abf2643cfcabaf222df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 22/42] fix: consider external potentials in QuickExact's
 initial charge distribution

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..7d49e5d 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -491,6 +491,8 @@ class quickexact_impl
 
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
+        // external potentials change the energy and validity of the initial charge distribution
+        charge_lyt.update_after_charge_change();
 
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
-- 
2.43.0


From 44ca1e79fcaaf2413c7dcf4e7d61be1412ba0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 23/42] fix: let QuickExact's dependent SiDB be positive
 whenever three states are required

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 7d49e5d..0cfe63a 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -352,6 +352,7 @@ class quickexact_impl
         static_assert(has_sidb_technology_v<ChargeLyt>, "ChargeLyt is not an SiDB layout");
         static_assert(is_charge_distribution_surface_v<ChargeLyt>, "ChargeLyt is not a charge distribution surface");
 
+        charge_layout.assign_base_number(3);
         charge_layout.assign_all_charge_states(sidb_charge_state::NEGATIVE);
         charge_layout.update_after_charge_change();
         // Not executed to detect if 3-state simulation is required, but to detect the SiDBs that could be positively
-- 
2.43.0


From 0c96a97bc6a8505717d16ccd8393d9b63889566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 24/42] fix: do not share the random number generator between
 the threads of QuickSim

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index a55e3f6..cd78b55 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1602,7 +1602,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        static thread_local std::mt19937_64     generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From d349328c0bdc6155504939ce52227f200a4f7ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 25/42] fix: return the degeneracy of an energy instead of its
 position in the energy distribution

---
 .../simulation/sidb/energy_distribution.hpp   |  5 +---
 .../simulation/sidb/operational_domain.hpp    | 24 +++++++++++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
index 704032a..542be12 100644
--- a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
@@ -89,15 +89,12 @@ class energy_distribution
      */
     [[nodiscard]] std::optional<uint64_t> degeneracy(const double energy) const noexcept
     {
-        uint64_t degeneracy = 0;
-
         for (const auto& [key, value] : distribution)
         {
             if (std::abs(key - energy) < constants::ERROR_MARGIN)
             {
-                return degeneracy;
+                return value;
             }
-            ++degeneracy;
         }
 
         return std::nullopt;
diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1011e2e..447089e 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -1151,16 +1151,30 @@ class operational_domain_impl
                     const auto energy_dist = calculate_energy_distribution(sim_results.charge_distributions);
 
                     lyt.assign_physical_parameters(simulation_parameters);
-                    const auto degeneracy_of_layout_energy =
-                        energy_dist.degeneracy(lyt.get_electrostatic_potential_energy());
+                    const auto layout_energy = lyt.get_electrostatic_potential_energy();
 
-                    if (!degeneracy_of_layout_energy.has_value())
+                    // the position of the layout's energy in the energy distribution is its excited state number
+                    std::optional<uint64_t> excited_state_number{};
+                    uint64_t                state_number{0};
+
+                    energy_dist.for_each(
+                        [&excited_state_number, &state_number,
+                         layout_energy](const double energy, [[maybe_unused]] const uint64_t degeneracy)
+                        {
+                            if (!excited_state_number.has_value() &&
+                                std::abs(energy - layout_energy) < constants::ERROR_MARGIN)
+                            {
+                                excited_state_number = state_number;
+                            }
+                            ++state_number;
+                        });
+
+                    if (!excited_state_number.has_value())
                     {
                         return;
                     }
 
-                    const auto excited_state_number = degeneracy_of_layout_energy.value();
-                    suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number));
+                    suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number.value()));
                 }
             });
 
-- 
2.43.0


From e7379ecd86e06a58d62fbd7bd7691d06f0c4f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 26/42] fix: let copies of BDL input iterators have layouts of
 their own

---
 .../algorithms/iter/bdl_input_iterator.hpp    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/fiction/algorithms/iter/bdl_input_iterator.hpp b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
index 4e29056..e06754f 100644
--- a/include/fiction/algorithms/iter/bdl_input_iterator.hpp
+++ b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
@@ -120,6 +120,26 @@ class bdl_input_iterator
         static_assert(has_sidb_technology_v<Lyt>, "Lyt is not an SiDB layout");
         set_all_inputs();
     }
+    /**
+     * Copy constructor. Layouts share their storage when copied. Hence, the layout is cloned such that moving one of
+     * the iterators does not alter the input state of the other.
+     *
+     * @param other The iterator to copy.
+     */
+    bdl_input_iterator(const bdl_input_iterator& other) noexcept :
+            layout{other.layout.clone()},
+            input_pairs{other.input_pairs},
+            num_inputs{other.num_inputs},
+            input_bdl_wires{other.input_bdl_wires},
+            last_bdl_for_each_wire{other.last_bdl_for_each_wire},
+            upper_input_closer_to_wire_end{other.upper_input_closer_to_wire_end},
+            current_input_index{other.current_input_index},
+            params{other.params}
+    {}
+    /**
+     * Move constructor.
+     */
+    bdl_input_iterator(bdl_input_iterator&&) noexcept = default;
     /**
      * Dereference operator. Returns a reference to the layout with the current input state.
      *
-- 
2.43.0


From b8e7dc8d71259792171a98597d1338a8dfc67eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 27/42] fix: count primary outputs as fanouts of the buffers
 inserted by substitute_po_signals

---
 include/fiction/networks/technology_network.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/networks/technology_network.hpp b/include/fiction/networks/technology_network.hpp
index 7f75b10..f2401a8 100644
--- a/include/fiction/networks/technology_network.hpp
+++ b/include/fiction/networks/technology_network.hpp
@@ -393,6 +393,8 @@ class technology_network : public mockturtle::klut_network
                     const auto b = create_buf(po);
                     // bend PO signal to point to the new node
                     _storage->outputs[index] = b;
+                    // increase the new node's ref-count
+                    _storage->nodes[b].data[0].h1++;
                 }
             });
     }
-- 
2.43.0


From 8fcf0b6dcafbdc4662a7867767fe1858428b2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 28/42] fix: balance networks without primary outputs

---
 .../algorithms/network_transformation/network_balancing.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/network_balancing.hpp b/include/fiction/algorithms/network_transformation/network_balancing.hpp
index 00f2b4f..9329836 100644
--- a/include/fiction/algorithms/network_transformation/network_balancing.hpp
+++ b/include/fiction/algorithms/network_transformation/network_balancing.hpp
@@ -100,7 +100,7 @@ class network_balancing_impl
 
         // gather PO levels
         const auto po_levels    = get_po_levels(ntk_depth);
-        const auto max_po_level = *std::ranges::max_element(po_levels);
+        const auto max_po_level = po_levels.empty() ? 0u : *std::ranges::max_element(po_levels);
 
         // add primary outputs to finalize the network
         ntk_topo.foreach_po(
-- 
2.43.0


From bdb263a17913277872742d0ce8eb177acc8fa8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 29/42] fix: do not overload buffers with gates that have the
 same fanin twice during fanout substitution

---
 .../network_transformation/fanout_substitution.hpp  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index d9b2ede..2caa31c 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -145,7 +145,7 @@ class fanout_substitution_impl
                                            // constants do not need fanout trees
                                            if (!ntk_topo.is_constant(fn))
                                            {
-                                               child = get_fanout(substituted, fn, child);
+                                               child = get_fanout(substituted, fn, child, children);
                                            }
 
                                            children.push_back(child);
@@ -255,9 +255,14 @@ class fanout_substitution_impl
     }
 
     mockturtle::signal<NtkDest> get_fanout(const NtkDest& substituted, const mockturtle::node<NtkSrc>& n,
-                                           mockturtle::signal<NtkDest>& child)
+                                           mockturtle::signal<NtkDest>&                    child,
+                                           const std::vector<mockturtle::signal<NtkDest>>& pending = {})
     {
-        if (substituted.fanout_size(substituted.get_node(child)) >= ps.threshold)
+        // fanins that have been selected for the same node already do not yet contribute to the fanout size
+        const auto fanout_size = [&substituted, &pending](const auto& s)
+        { return substituted.fanout_size(substituted.get_node(s)) + std::ranges::count(pending, s); };
+
+        if (fanout_size(child) >= ps.threshold)
         {
             if (auto fanouts = available_fanouts[n]; !fanouts.empty())
             {
@@ -265,7 +270,7 @@ class fanout_substitution_impl
                 while (true)
                 {
                     child = fanouts.front();
-                    if (substituted.fanout_size(substituted.get_node(child)) >= ps.degree)
+                    if (fanout_size(child) >= ps.degree)
                     {
                         fanouts.pop();
                     }
-- 
2.43.0


From 0eccfc0509324c81bccdf67d8c69cbbb6e0ac495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 30/42] fix: keep outputs at virtual PIs and the names of real
 PIs when deleting virtual PIs

---
 .../delete_virtual_pis.hpp                    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index 9dd9dcf..41a207b 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -134,7 +134,23 @@ class delete_virtual_pis_impl
             });
 
         // restore signal names if applicable
-        restore_names(ntk, ntk_dest, old2new);
+        restore_network_name(ntk, ntk_dest);
+        restore_signal_names(ntk, ntk_dest, old2new);
+        restore_output_names(ntk, ntk_dest);
+
+        // the positions of the real PIs change when virtual PIs are removed, their names must follow
+        if constexpr (mockturtle::has_has_name_v<Ntk> && mockturtle::has_get_name_v<Ntk> &&
+                      mockturtle::has_set_name_v<Ntk>)
+        {
+            ntk.foreach_real_pi(
+                [this, &ntk_dest, &old2new](const auto& pi)
+                {
+                    if (const auto pi_signal = ntk.make_signal(pi); ntk.has_name(pi_signal))
+                    {
+                        ntk_dest.set_name(old2new[pi], ntk.get_name(pi_signal));
+                    }
+                });
+        }
 
         return ntk_dest;
     }
@@ -206,6 +222,9 @@ class delete_virtual_pis_impl
                 });
         }
 
+        // virtual PIs are represented by their real PIs
+        src.foreach_virtual_pi([&](auto const& n) { old2new[n] = old2new[src.get_real_pi(n)]; });
+
         return {dest, old2new};
     }
 };
-- 
2.43.0


From 8134716a4bd46c79f81604055130c12923f8c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 31/42] fix: do not omit gates with duplicated fanins in
 bfs_topo_view

---
 include/fiction/networks/views/bfs_topo_view.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fiction/networks/views/bfs_topo_view.hpp b/include/fiction/networks/views/bfs_topo_view.hpp
index ced2421..fa70deb 100644
--- a/include/fiction/networks/views/bfs_topo_view.hpp
+++ b/include/fiction/networks/views/bfs_topo_view.hpp
@@ -210,9 +210,12 @@ class bfs_topo_view<Ntk, false> : public mockturtle::immutable_view<Ntk>
             [&](auto n)
             {
                 unvisited_fanin_count[n] = 0;
-                fanout_ntk.foreach_fanin(n, [&](const auto& /*f*/) { ++unvisited_fanin_count[n]; });
             });
 
+        // each node is listed only once among the fanouts of a node, even if it has multiple fanins from there
+        fanout_ntk.foreach_node([&](auto n)
+                                { fanout_ntk.foreach_fanout(n, [&](const auto& fo) { ++unvisited_fanin_count[fo]; }); });
+
         fanout_ntk.foreach_ci(
             [&](auto n)
             {
-- 
2.43.0


From 944cd9298ac2ef3b2069ca146096f40786a5c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 32/42] fix: provide levels and ranks of nodes that are not
 connected to outputs

---
 include/fiction/networks/views/mutable_rank_view.hpp | 5 +++++
 include/fiction/networks/views/static_depth_view.hpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/include/fiction/networks/views/mutable_rank_view.hpp b/include/fiction/networks/views/mutable_rank_view.hpp
index 852b27d..36b84c6 100644
--- a/include/fiction/networks/views/mutable_rank_view.hpp
+++ b/include/fiction/networks/views/mutable_rank_view.hpp
@@ -589,6 +589,11 @@ class mutable_rank_view<Ntk, false> : public fiction::static_depth_view<Ntk>
      */
     void insert_in_rank(const node& n)
     {
+        if (this->level(n) >= ranks.size())
+        {
+            ranks.resize(this->level(n) + 1);
+        }
+
         auto& rank  = ranks[this->level(n)];
         rank_pos[n] = static_cast<uint32_t>(rank.size());
         rank.push_back(n);
diff --git a/include/fiction/networks/views/static_depth_view.hpp b/include/fiction/networks/views/static_depth_view.hpp
index 0473156..2feb069 100644
--- a/include/fiction/networks/views/static_depth_view.hpp
+++ b/include/fiction/networks/views/static_depth_view.hpp
@@ -401,6 +401,9 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
                 });
         }
 
+        // nodes that are not connected to any output have a level, too, but do not contribute to the depth
+        this->foreach_node([this](auto const& n) { compute_levels(n); });
+
         this->foreach_po(
             [&](auto const& f)
             {
-- 
2.43.0


From 2992aad499ade70472a1d3a86b7c18b65ebf530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 33/42] fix: keep the order of fanins in orthogonal physical
 design

---
 .../algorithms/physical_design/orthogonal.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..f2364ae 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -330,15 +330,20 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
                                           tile<Lyt> pre1_t, tile<Lyt> pre2_t,
-                                          const std::optional<bool>& c = std::nullopt)
+                                          const std::optional<bool>& c = std::nullopt, bool swapped = false)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    const auto north = wire_south(lyt, pre1_t, t);
+    const auto west  = wire_east(lyt, pre2_t, t);
+
+    // n might not be symmetric, its fanins must be connected in their original order
+    return swapped ? place(lyt, t, ntk, n, west, north, c) : place(lyt, t, ntk, n, north, west, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -562,6 +567,9 @@ class orthogonal_impl
                         auto pre1_t = static_cast<tile<Lyt>>(node2pos[pre1]),
                              pre2_t = static_cast<tile<Lyt>>(node2pos[pre2]);
 
+                        // keep track of whether the predecessors are in reverse order
+                        bool swapped{false};
+
                         tile<Lyt> t{};
 
                         // n is colored east
@@ -571,6 +579,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +597,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +616,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             t = latest_pos;
@@ -618,7 +629,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin,
+                                                        swapped);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
-- 
2.43.0


From 8d55515595043f0c342539a12d255ab90cc98c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:46 +0000
Subject: [PATCH 34/42] fix: keep the order of fanins in post-layout
 optimization

---
 .../post_layout_optimization.hpp              | 73 +++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..a4796e4 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -451,6 +451,9 @@ class post_layout_optimization_impl
         // create an obstruction layout based on the original layout
         auto layout = obstruction_layout<Lyt>(plyt);
 
+        // gates are disconnected and reconnected during optimization, but the order of their fanins must not change
+        const auto first_fanins = get_first_fanins(layout);
+
         // initialize flags to control the optimization loop
         bool moved_at_least_one_gate = true;
         bool reduced_wiring          = true;
@@ -559,6 +562,8 @@ class post_layout_optimization_impl
             optimize_output_positions(layout);
         }
 
+        restore_fanin_order(layout, first_fanins);
+
         // final bounding box calculation and layout resizing
         const auto final_bounding_box = bounding_box_2d(layout);
         layout.resize({final_bounding_box.get_max().x, final_bounding_box.get_max().y, layout.z()});
@@ -619,6 +624,74 @@ class post_layout_optimization_impl
      * Wiring reduction stats.
      */
     fiction::wiring_reduction_stats wiring_reduction_stats{};
+    /**
+     * Traces a signal back through wires and fanouts to the gate or PI that drives it.
+     *
+     * @param lyt Gate-level layout.
+     * @param t Tile to start from.
+     * @return The node that drives the signal at tile `t`.
+     */
+    [[nodiscard]] mockturtle::node<ObstrLyt> get_driver(const ObstrLyt& lyt, tile<ObstrLyt> t) const noexcept
+    {
+        while (lyt.is_wire_tile(t) && !lyt.is_pi_tile(t))
+        {
+            const auto in_flow = lyt.incoming_data_flow(t);
+
+            if (in_flow.empty())
+            {
+                break;
+            }
+
+            t = in_flow.front();
+        }
+
+        return lyt.get_node(t);
+    }
+    /**
+     * Collects the drivers of the first fanins of all gates with two fanins.
+     *
+     * @param lyt Gate-level layout.
+     * @return Pairs of gates and the drivers of their first fanins.
+     */
+    [[nodiscard]] std::vector<std::pair<mockturtle::node<ObstrLyt>, mockturtle::node<ObstrLyt>>>
+    get_first_fanins(const ObstrLyt& lyt) const noexcept
+    {
+        std::vector<std::pair<mockturtle::node<ObstrLyt>, mockturtle::node<ObstrLyt>>> first_fanins{};
+
+        lyt.foreach_gate(
+            [this, &lyt, &first_fanins](const auto& n)
+            {
+                if (const auto in_flow = lyt.incoming_data_flow(lyt.get_tile(n)); in_flow.size() == 2)
+                {
+                    first_fanins.emplace_back(n, get_driver(lyt, in_flow.front()));
+                }
+            });
+
+        return first_fanins;
+    }
+    /**
+     * Exchanges the fanins of gates whose first fanin is no longer driven by its original driver.
+     *
+     * @param lyt Gate-level layout.
+     * @param first_fanins Pairs of gates and the original drivers of their first fanins.
+     */
+    void restore_fanin_order(
+        ObstrLyt& lyt, const std::vector<std::pair<mockturtle::node<ObstrLyt>, mockturtle::node<ObstrLyt>>>&
+                           first_fanins) const noexcept
+    {
+        for (const auto& [n, driver] : first_fanins)
+        {
+            const auto t = lyt.get_tile(n);
+
+            if (const auto in_flow = lyt.incoming_data_flow(t);
+                in_flow.size() == 2 && get_driver(lyt, in_flow.front()) != driver)
+            {
+                lyt.move_node(n, t,
+                              {lyt.make_signal(lyt.get_node(in_flow.back())),
+                               lyt.make_signal(lyt.get_node(in_flow.front()))});
+            }
+        }
+    }
     /**
      * Utility function to move wires that cross over empty tiles down one layer. This can happen if the wiring of a
      * gate is deleted.
-- 
2.43.0


From df9ba75ba1bab32df78758facc9c46444faa8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:14 +0000
Subject: [PATCH 35/42] fix: escape names in FGL layout files

---
 include/fiction/io/write_fgl_layout.hpp | 48 +++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 4f123ba..39fb0b8 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -79,6 +79,46 @@ inline constexpr const char* SIGNAL         = "        <signal>\n"
                                               "          <z>{}</z>\n"
                                               "        </signal>\n";
 
+/**
+ * Replaces the characters that have a special meaning in XML by their entities.
+ *
+ * @param text Text to be written as the content of an XML element.
+ * @return The text with all special characters escaped.
+ */
+[[nodiscard]] inline std::string escape_xml(const std::string_view text)
+{
+    std::string escaped{};
+    escaped.reserve(text.size());
+
+    for (const auto c : text)
+    {
+        switch (c)
+        {
+            case '&':
+            {
+                escaped += "&amp;";
+                break;
+            }
+            case '<':
+            {
+                escaped += "&lt;";
+                break;
+            }
+            case '>':
+            {
+                escaped += "&gt;";
+                break;
+            }
+            default:
+            {
+                escaped += c;
+            }
+        }
+    }
+
+    return escaped;
+}
+
 }  // namespace fcn
 
 template <typename Lyt>
@@ -143,7 +183,7 @@ class write_fgl_layout_impl
             }
         }
 
-        os << fmt::format(fcn::LAYOUT_METADATA, layout_name, topology, lyt.x(), lyt.y(), lyt.z());
+        os << fmt::format(fcn::LAYOUT_METADATA, fcn::escape_xml(layout_name), topology, lyt.x(), lyt.y(), lyt.z());
 
         os << fcn::OPEN_CLOCKING;
         const auto clocking_scheme = lyt.get_clocking_scheme();
@@ -178,7 +218,8 @@ class write_fgl_layout_impl
             {
                 const auto coord = lyt.get_tile(gate);
                 os << fcn::OPEN_GATE;
-                os << fmt::format(fcn::GATE, gate_id, "PI", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                os << fmt::format(fcn::GATE, gate_id, "PI", fcn::escape_xml(lyt.get_name(gate)), coord.x, coord.y,
+                                  coord.z);
                 os << fcn::CLOSE_GATE;
                 gate_id++;
             });
@@ -195,7 +236,8 @@ class write_fgl_layout_impl
 
                     if (lyt.is_po(gate))
                     {
-                        os << fmt::format(fcn::GATE, gate_id, "PO", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                        os << fmt::format(fcn::GATE, gate_id, "PO", fcn::escape_xml(lyt.get_name(gate)), coord.x,
+                                          coord.y, coord.z);
                     }
                     else if (lyt.is_wire(gate))
                     {
-- 
2.43.0


From 1ff7414a1089f0872e8e891975e63b36976dd4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 36/42] fix: write the number of clock phases to FGL layout
 files

---
 include/fiction/io/write_fgl_layout.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 39fb0b8..1a9857f 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -5,6 +5,7 @@
 #ifndef FICTION_WRITE_FGL_LAYOUT_HPP
 #define FICTION_WRITE_FGL_LAYOUT_HPP
 
+#include "fiction/layouts/clocking_scheme.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
@@ -186,8 +187,17 @@ class write_fgl_layout_impl
         os << fmt::format(fcn::LAYOUT_METADATA, fcn::escape_xml(layout_name), topology, lyt.x(), lyt.y(), lyt.z());
 
         os << fcn::OPEN_CLOCKING;
-        const auto clocking_scheme = lyt.get_clocking_scheme();
-        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme.name);
+        const auto  clocking_scheme = lyt.get_clocking_scheme();
+        std::string clocking_scheme_name{clocking_scheme.name};
+
+        // some schemes share their name over different numbers of clock phases; make the name unambiguous
+        if (const auto named_scheme = get_clocking_scheme<Lyt>(clocking_scheme_name);
+            named_scheme.has_value() && named_scheme->num_clocks != clocking_scheme.num_clocks)
+        {
+            clocking_scheme_name += std::to_string(clocking_scheme.num_clocks);
+        }
+
+        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme_name);
 
         // if clocking scheme is irregular, overwrite clock zones
         if (!clocking_scheme.is_regular())
-- 
2.43.0


From deedfe01947da90e4ca8cc7699b972e493bc01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 37/42] fix: keep arsenic defects in SQD files

---
 include/fiction/io/read_sqd_layout.hpp  | 1 +
 include/fiction/io/write_sqd_layout.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index 4fb4202..9a931a1 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -348,6 +348,7 @@ class read_sqd_layout_impl
              {"etch_pit", sidb_defect_type::ETCH_PIT},
              {"step_edge", sidb_defect_type::STEP_EDGE},
              {"gunk", sidb_defect_type::GUNK},
+             {"arsenic", sidb_defect_type::ARSENIC},
              {"unknown", sidb_defect_type::UNKNOWN}}};
 
         std::string name{label};
diff --git a/include/fiction/io/write_sqd_layout.hpp b/include/fiction/io/write_sqd_layout.hpp
index 846116f..2caf1d2 100644
--- a/include/fiction/io/write_sqd_layout.hpp
+++ b/include/fiction/io/write_sqd_layout.hpp
@@ -177,6 +177,7 @@ inline const std::unordered_map<sidb_defect_type, const char*> defect_type_to_na
      {sidb_defect_type::ETCH_PIT, "Etch_Pit"},
      {sidb_defect_type::STEP_EDGE, "Step_Edge"},
      {sidb_defect_type::GUNK, "Gunk"},
+     {sidb_defect_type::ARSENIC, "Arsenic"},
      {sidb_defect_type::UNKNOWN, "Unknown"}}};
 
 }  // namespace siqad
-- 
2.43.0


From b4ec31507e2d6eb5920a7d4057e7da4a51cb72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 38/42] fix: clock all layers of zones read from FGL layout
 files

---
 include/fiction/io/read_fgl_layout.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/read_fgl_layout.hpp b/include/fiction/io/read_fgl_layout.hpp
index 4aa43db..46dcb8e 100644
--- a/include/fiction/io/read_fgl_layout.hpp
+++ b/include/fiction/io/read_fgl_layout.hpp
@@ -298,7 +298,11 @@ class read_fgl_layout_impl
                                 throw fgl_parsing_error("Error parsing FGL file: no element 'clock' in 'zone'");
                             }
 
-                            lyt.assign_clock_number({x_coord, y_coord}, clock);
+                            // zones span all layers
+                            for (decltype(lyt.z()) z_coord = 0; z_coord <= lyt.z(); ++z_coord)
+                            {
+                                lyt.assign_clock_number({x_coord, y_coord, z_coord}, clock);
+                            }
                         }
                     }
                     else if (std::ranges::find(open_clocking_schemes,
-- 
2.43.0


From b004d34be5c59e1d697f68b291740ca719f0d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 39/42] fix: determine clockings of layouts with fanouts
 regardless of existing clock numbers

---
 .../physical_design/determine_clocking.hpp      | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/determine_clocking.hpp b/include/fiction/algorithms/physical_design/determine_clocking.hpp
index 1667edc..11192e8 100644
--- a/include/fiction/algorithms/physical_design/determine_clocking.hpp
+++ b/include/fiction/algorithms/physical_design/determine_clocking.hpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <functional>
 #include <iostream>
+#include <optional>
 #include <ostream>
 #include <unordered_map>
 #include <utility>
@@ -276,13 +277,21 @@ class sat_clocking_handler
             // pre-assign tile t to clock number clk
             solver.add_clause(variables[{t, clk++ % number_of_clocks}]);
 
+            // follow only one fanout; the return value of the functor does not terminate foreach_fanout
+            std::optional<mockturtle::node<Lyt>> next{};
             layout.foreach_fanout(n,
-                                  [&recurse](auto const& fon)
+                                  [&next](auto const& fon)
                                   {
-                                      recurse(fon);
-
-                                      return false;  // terminate after one iteration
+                                      if (!next.has_value())
+                                      {
+                                          next = fon;
+                                      }
                                   });
+
+            if (next.has_value())
+            {
+                recurse(*next);
+            }
         };
 
         // only for the first PI
-- 
2.43.0


From 8e5d0628ca6fbaa1a390e97aa6774879ddc2e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 40/42] fix: detect intersections of shortest paths in edge
 intersection graphs

---
 .../graph/generate_edge_intersection_graph.hpp           | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
index 31ea0e4..394e614 100644
--- a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
+++ b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
@@ -186,6 +186,14 @@ class generate_edge_intersection_graph_impl
             path_elements.insert(c);
             layout_coordinate_path<Lyt>::append(c);
         }
+        /**
+         * Stores all coordinates of the path in the set. This is necessary for paths that were not created via append,
+         * e.g., by shortest path algorithms.
+         */
+        void store_path_elements() noexcept
+        {
+            path_elements.insert(this->cbegin(), this->cend());
+        }
         /**
          * Given another path, this function checks if they are not disjoint, i.e., it looks for at least one coordinate
          * that both paths share.
@@ -280,6 +288,7 @@ class generate_edge_intersection_graph_impl
                               [this, &clique](auto& p)
                               {
                                   p.label = node_id++;
+                                  p.store_path_elements();
                                   graph.insert_vertex(p.label, p);
                                   clique.push_back(p.label);
                               });
-- 
2.43.0


From d5dcc77ff655e6daaa3b0b2300a60514f1411555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:26 +0000
Subject: [PATCH 41/42] fix: trace complete contours of operational domains and
 stop at isolated points

---
 .../simulation/sidb/operational_domain.hpp    | 136 +++++-------------
 1 file changed, 33 insertions(+), 103 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 447089e..35c90c2 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -28,6 +28,7 @@
 #include <mockturtle/utils/stopwatch.hpp>
 
 #include <algorithm>
+#include <array>
 #include <atomic>
 #include <cassert>
 #include <cmath>
@@ -841,20 +842,6 @@ class operational_domain_impl
 
         simulate_operational_status_in_parallel(step_point_samples);
 
-        const auto next_clockwise_point = [](std::vector<step_point>& neighborhood,
-                                             const step_point&        backtrack) noexcept -> step_point
-        {
-            assert(std::ranges::find(neighborhood, backtrack) != neighborhood.cend() &&
-                   "The backtrack point must be part of the neighborhood");
-
-            while (neighborhood.back() != backtrack)
-            {
-                std::ranges::rotate(neighborhood, neighborhood.begin() + 1);
-            }
-
-            return neighborhood.front();
-        };
-
         // for each sampled point
         for (const auto& starting_point : step_point_samples)
         {
@@ -883,40 +870,31 @@ class operational_domain_impl
             // operational area `starting_point` is located in
             phmap::btree_set<step_point> contour{contour_starting_point};
 
-            const auto x = current_contour_point.step_values.at(0);
-            const auto y = current_contour_point.step_values.at(1);
-
-            auto backtrack_point = x == 0 ? current_contour_point : step_point{{x - 1, y}};
-
-            auto current_neighborhood = moore_neighborhood_2d(current_contour_point);
+            // the left neighbor is either non-operational or outside of the parameter space, so start behind it
+            std::size_t direction = 5;
 
-            auto next_point = contour_starting_point;
+            // the contour is closed once the same neighbor of the same contour point is to be examined again. Reaching
+            // the first contour point is not sufficient, since the contour can pass it several times, and not
+            // necessary, since it can be the only point of the contour
+            phmap::btree_set<std::pair<step_point, std::size_t>> examined{};
 
-            if (!current_neighborhood.empty())
+            while (examined.emplace(current_contour_point, direction).second)
             {
-                next_point = current_contour_point == backtrack_point ?
-                                 current_neighborhood.front() :
-                                 next_clockwise_point(current_neighborhood, backtrack_point);
-            }
-
-            while (next_point != contour_starting_point)
-            {
-                const auto operational_status = is_step_point_operational(next_point);
-
-                if (operational_status == operational_status::OPERATIONAL)
+                if (const auto next_point = moore_neighbor_2d(current_contour_point, direction);
+                    next_point.has_value() &&
+                    is_step_point_operational(next_point.value()) == operational_status::OPERATIONAL)
                 {
-                    backtrack_point       = current_contour_point;
-                    current_contour_point = next_point;
+                    current_contour_point = next_point.value();
 
                     contour.insert(current_contour_point);
+
+                    // continue behind the neighbor that was examined before the new contour point
+                    direction = (direction + (direction % 2 == 0 ? 7 : 6)) % 8;
                 }
                 else
                 {
-                    backtrack_point = next_point;
+                    direction = (direction + 1) % 8;
                 }
-
-                current_neighborhood = moore_neighborhood_2d(current_contour_point);
-                next_point           = next_clockwise_point(current_neighborhood, backtrack_point);
             }
 
             infer_operational_status_in_enclosing_contour(starting_point, contour);
@@ -1716,80 +1694,32 @@ class operational_domain_impl
         return latest_operational_point;
     }
     /**
-     * Returns the 2D Moore neighborhood of the step point at `sp = (x, y)`. The 2D Moore neighborhood is the set of all
-     * points that are adjacent to `(x, y)` in the plane including the diagonals. Thereby, the 2D Moore neighborhood
-     * contains up to 8 points as points outside of the parameter range are not gathered. The points are returned in
-     * clockwise order starting from the right neighbor.
+     * Returns the neighbor of the step point at `sp = (x, y)` in one of the eight directions of its 2D Moore
+     * neighborhood. The directions form a cyclic order starting from the right neighbor.
      *
-     * @param sp Step point to get the 2D Moore neighborhood of.
-     * @return The 2D Moore neighborhood of the step point at `sp = (x, y)`.
+     * @param sp Step point to get the neighbor of.
+     * @param direction Direction between `0` and `7`.
+     * @return The neighbor of `sp` in the given direction or `std::nullopt` if it is outside of the parameter range.
      */
-    [[nodiscard]] std::vector<step_point> moore_neighborhood_2d(const step_point& sp) const noexcept
+    [[nodiscard]] std::optional<step_point> moore_neighbor_2d(const step_point& sp,
+                                                              const std::size_t direction) const noexcept
     {
         assert(num_dimensions == 2 && "2D Moore neighborhood is only supported for 2 dimensions");
         assert(sp.step_values.size() == 2 && "Given step point must have 2 dimensions");
 
-        std::vector<step_point> neighbors{};
-        neighbors.reserve(8);
-
-        const auto emplace = [&neighbors](const auto x, const auto y) noexcept
-        { neighbors.emplace_back(std::vector<std::size_t>{x, y}); };
-
-        const auto x = sp.step_values.at(0);
-        const auto y = sp.step_values.at(1);
+        static constexpr const std::array<std::pair<int64_t, int64_t>, 8> directions{
+            {{1, 0}, {1, -1}, {0, -1}, {-1, -1}, {-1, 0}, {-1, 1}, {0, 1}, {1, 1}}};
 
-        const auto num_x_indices = indices.at(0).size();
-        const auto num_y_indices = indices.at(1).size();
+        const auto x = static_cast<int64_t>(sp.step_values.at(0)) + directions.at(direction).first;
+        const auto y = static_cast<int64_t>(sp.step_values.at(1)) + directions.at(direction).second;
 
-        const auto decr_x = (x > 0) ? x - 1 : x;
-        const auto incr_x = (x + 1 < num_x_indices) ? x + 1 : x;
-        const auto decr_y = (y > 0) ? y - 1 : y;
-        const auto incr_y = (y + 1 < num_y_indices) ? y + 1 : y;
-
-        // add neighbors in clockwise direction
-
-        // right
-        if (x != incr_x)
+        if (x < 0 || y < 0 || std::cmp_greater_equal(x, indices.at(0).size()) ||
+            std::cmp_greater_equal(y, indices.at(1).size()))
         {
-            emplace(incr_x, y);
-        }
-        // lower-right
-        if (x != incr_x && y != decr_y)
-        {
-            emplace(incr_x, decr_y);
-        }
-        // down
-        if (y != decr_y)
-        {
-            emplace(x, decr_y);
-        }
-        // lower-left
-        if (x != decr_x && y != decr_y)
-        {
-            emplace(decr_x, decr_y);
-        }
-        // left
-        if (x != decr_x)
-        {
-            emplace(decr_x, y);
-        }
-        // upper-left
-        if (x != decr_x && y != incr_y)
-        {
-            emplace(decr_x, incr_y);
-        }
-        // up
-        if (y != incr_y)
-        {
-            emplace(x, incr_y);
-        }
-        // upper-right
-        if (x != incr_x && y != incr_y)
-        {
-            emplace(incr_x, incr_y);
+            return std::nullopt;
         }
 
-        return neighbors;
+        return step_point{{static_cast<std::size_t>(x), static_cast<std::size_t>(y)}};
     }
     /**
      * Returns the von Neumann neighborhood of the given step point. The von Neumann neighborhood is the set of all
@@ -1833,8 +1763,8 @@ class operational_domain_impl
      * contains up to `3^n - 1` points for `n` sweep dimensions, as points outside of the parameter range are not
      * gathered. The points are returned in no particular order.
      *
-     * `moore_neighborhood_2d` returns the same set for two dimensions, but in clockwise order, which the 2D contour
-     * trace depends on. This function cannot replace it: there is no canonical cyclic ordering of the neighbors in
+     * `moore_neighbor_2d` yields the same set for two dimensions, but in cyclic order, which the 2D contour trace
+     * depends on. This function cannot replace it: there is no canonical cyclic ordering of the neighbors in
      * three or more dimensions.
      *
      * @param sp Step point to get the Moore neighborhood of.
-- 
2.43.0


From c55d87e2c93349eaba5d5272856f6ea66ab0ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:58 +0000
Subject: [PATCH 42/42] fix: keep white space in cell labels when reading FQCA
 files

---
 include/fiction/io/read_fqca_layout.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/read_fqca_layout.hpp b/include/fiction/io/read_fqca_layout.hpp
index 6afa7aa..adb0fd7 100644
--- a/include/fiction/io/read_fqca_layout.hpp
+++ b/include/fiction/io/read_fqca_layout.hpp
@@ -74,7 +74,8 @@ inline const std::regex RE_WHITE_SPACE{R"(\s)"};
 inline const std::regex RE_COMMENT{R"(\[.*\]$)"};
 inline const std::regex RE_LAYER_SEPARATOR{R"(^=+$)"};
 inline const std::regex RE_CELL_DEFINITION_ID{R"(^(\w)\:$)"};              // group 1 is the id
-inline const std::regex RE_CELL_DEFINITION_LABEL{R"(^-label=\"(.*)\"$)"};  // group 1 is the label
+inline const std::regex RE_CELL_DEFINITION_LABEL{
+    R"(^\s*-\s*label\s*=\s*\"(.*)\"\s*$)"};                             // group 1 is the label (may contain white space)
 inline const std::regex RE_CELL_DEFINITION_CLOCK{R"(^-clock=(\d)$)"};      // group 1 is the clock number
 inline const std::regex RE_CELL_DEFINITION_NUMBER{R"(^-number=(\d+)$)"};   // group 1 is the number
 inline const std::regex RE_CELL_DEFINITION_OFFSET{
@@ -176,7 +177,7 @@ class read_fqca_layout_impl
                             lyt.assign_cell_type(current_labeled_cell, technology<Lyt>::cell_type::OUTPUT);
                         }
                         // if line indicates a cell label
-                        else if (std::regex_match(substituted_line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
+                        else if (std::regex_match(line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
                         {
                             // the cell label is captured in the first regex group
                             const auto cell_label = sm.str(1);
-- 
2.43.0

