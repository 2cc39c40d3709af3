From e17d53025158f6ac075e1c638c836855e60c4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/80] fix: integral_abs (and with it area and volume) for the
 smallest signed value

---
 include/fiction/utils/math_utils.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..5f9fb49 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -37,17 +37,22 @@ template <typename T>
  * compiler warning when taking the absolute value of an unsigned number.
  * @tparam T The type of the number to take the absolute value of. Must be integral.
  * @param n The number to take the absolute value of.
- * @return |n|.
+ * @return |n|, as an unsigned number.
  */
 template <std::integral T>
-[[nodiscard]] inline T integral_abs(const T n) noexcept
+[[nodiscard]] inline auto integral_abs(const T n) noexcept
 {
     if constexpr (std::is_unsigned_v<T>)
     {
         return n;
     }
+    else
+    {
+        // the magnitude of the smallest signed value is only representable in the corresponding unsigned type
+        using unsigned_t = std::make_unsigned_t<T>;
 
-    return static_cast<T>(std::abs(static_cast<int64_t>(n)));  // needed to solve ambiguity of std::abs
+        return static_cast<unsigned_t>(n < 0 ? unsigned_t{0} - static_cast<unsigned_t>(n) : static_cast<unsigned_t>(n));
+    }
 }
 /**
  * Calculates the binomial coefficient \f$\binom{n}{k}\f$.
-- 
2.43.0


From 19c1edf7a8893cfc854905b705cc1af1433aa031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 02/80] fix: aspect_ratio_iterator copies no longer refer to
 the original's factors

---
 .../algorithms/iter/aspect_ratio_iterator.hpp   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..834bb95 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -51,7 +52,7 @@ class aspect_ratio_iterator
         ++it;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (it == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[it];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (factors[it] == other.factors[other.it]);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && factors[it] < other.factors[other.it]);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num <= other.num) || (num == other.num && factors[it] <= other.factors[other.it]);
     }
 
   private:
@@ -130,9 +131,9 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t it{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +159,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        it = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From 6ce17b86afc16c82744b38d19496d6b08841166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 03/80] fix: relational operators of the aspect ratio and Gray
 code iterators follow the iteration order

---
 include/fiction/algorithms/iter/aspect_ratio_iterator.hpp | 4 ++--
 include/fiction/algorithms/iter/gray_code_iterator.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 834bb95..38d92ba 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -108,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && factors[it] < other.factors[other.it]);
+        return (num < other.num) || (num == other.num && it < other.it);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -118,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && factors[it] <= other.factors[other.it]);
+        return (num < other.num) || (num == other.num && it <= other.it);
     }
 
   private:
diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From 0765bad755e63ff8fc40f1aa13924d9dee933f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 04/80] fix: binomial_coefficient overflows although the result
 is representable

---
 include/fiction/utils/math_utils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 5f9fb49..1419ee2 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <numeric>
 #include <stdexcept>
 #include <type_traits>
 #include <vector>
@@ -70,14 +71,16 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // dividing by common factors first keeps every intermediate value within the range of the result
+        const auto common = std::gcd(result, i);
+        result            = (result / common) * ((n + 1 - i) / (i / common));
     }
 
     return result;
-- 
2.43.0


From 9e8eec8da587a763b11d6fc6027ad41437cbd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 05/80] fix: find_first_two_of runs past the end of empty
 ranges

---
 include/fiction/utils/stl_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..cd22c46 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,12 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    // empty ranges do not contain any sub-sequence, and decrementing their end is not defined
+    if (first == last || s_first == s_last)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From bcf4dddec2c289d08e4cfac020e4aa0fe0d35283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 06/80] fix: data race on the random generator in
 multi_simulated_annealing

---
 .../fiction/algorithms/optimization/simulated_annealing.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..31a3578 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,10 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    // multi_simulated_annealing calls this function concurrently; each thread needs its own generator
+    thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From f14c4f2e25091e28c8f52786ec2298a12863c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 07/80] fix: reversible circular permutations of no elements
 step past the end of the range

---
 vendors/combinations/combinations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vendors/combinations/combinations.h b/vendors/combinations/combinations.h
index f3a6626..0d7d88a 100644
--- a/vendors/combinations/combinations.h
+++ b/vendors/combinations/combinations.h
@@ -854,7 +854,7 @@ class reverse_circular_permutation
 
     bool operator()(BidirIter first, BidirIter last)
     {
-        if (s_ == 1)
+        if (s_ <= 1)
             return f_(first, last);
         typedef bound_range<Function, BidirIter> BoundFunc;
         BoundFunc                                f(f_, first, last);
-- 
2.43.0


From 77e4bbd177fb7d7de631194b53cdf61ab42b9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 08/80] fix: LMXRLF graph coloring does not terminate when
 colored vertices outscore the remaining ones

---
 vendors/graph-coloring/Source/lmxrlf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vendors/graph-coloring/Source/lmxrlf.cpp b/vendors/graph-coloring/Source/lmxrlf.cpp
index e7e350b..f7f4658 100644
--- a/vendors/graph-coloring/Source/lmxrlf.cpp
+++ b/vendors/graph-coloring/Source/lmxrlf.cpp
@@ -198,7 +198,9 @@ vector<string> GraphColoring::Lmxrlf::uncolored_neighbor(const vector<string>& n
                 initf = 0;
             }
         }
-        if (!initf)
+        // Vertices that already have a color must not be considered, or the search keeps selecting them over the
+        // remaining uncolored ones and never ends
+        if (!initf && this->graph_colors[i.first] == -1)
         {
             int count = 0;
             for (auto& j : i.second)
-- 
2.43.0


From 741abf2f8ec05176e340ddf60f818df5ee6cc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 09/80] fix: Tabucol pops from its empty tabu list when the
 list has size zero

---
 vendors/graph-coloring/Source/tabucol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendors/graph-coloring/Source/tabucol.cpp b/vendors/graph-coloring/Source/tabucol.cpp
index 107aa67..b807380 100644
--- a/vendors/graph-coloring/Source/tabucol.cpp
+++ b/vendors/graph-coloring/Source/tabucol.cpp
@@ -155,10 +155,10 @@ map<string, int> GraphColoring::Tabucol::color()
             this->graph_colors = map<string, int>();
             return this->graph_colors;
         }
-        tabu_color.pop();
         tabu_color.push(best_color);
-        tabu_vertex.pop();
+        tabu_color.pop();
         tabu_vertex.push(best_vertex);
+        tabu_vertex.pop();
         this->graph_colors[best_vertex] = best_color;
         nbiter += 1;
     }
-- 
2.43.0


From 812aaf8dd5decf0f617e553568b2057f7867c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 10/80] fix: undirected_graph uses an erased id when erasing by
 an id stored in the graph

---
 vendors/undirected_graph/source/undirected_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendors/undirected_graph/source/undirected_graph.h b/vendors/undirected_graph/source/undirected_graph.h
index 299b3a5..e8222ec 100644
--- a/vendors/undirected_graph/source/undirected_graph.h
+++ b/vendors/undirected_graph/source/undirected_graph.h
@@ -354,7 +354,7 @@ class undirected_graph
      * @param vertex_id Id of the vertex that should be removed.
      * @return Returns whether the vertex was removed.
      */
-    bool erase_vertex(const vertex_id_type& vertex_id)
+    bool erase_vertex(const vertex_id_type vertex_id)  // by value: the id may lie within the graph
     {
         // Try to remove vertex
         auto count = vertices.erase(vertex_id);
@@ -422,7 +422,7 @@ class undirected_graph
      * @param edge_id Id of the edge that should be removed.
      * @return Returns whether the edge was removed.
      */
-    bool erase_edge(const edge_id_type& edge_id)
+    bool erase_edge(const edge_id_type edge_id)  // by value: the id may lie within the graph
     {
         // Try to remove edge
         auto count = edges.erase(edge_id);
-- 
2.43.0


From fca541c5882f58c29b1756968105b4684e91a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 11/80] fix: clones of clocked layouts share the clocking
 scheme with the original

---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..db3ac13 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,7 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From 399f3630d88daaccebe3ea4a2e883e86cf85b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 12/80] fix: gate_level_layout::compute on Boolean values does
 not compile and reverses the order of the fanins

---
 include/fiction/layouts/gate_level_layout.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..c4f27a1 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1276,13 +1276,13 @@ class gate_level_layout : public ClockedLayout
     mockturtle::iterates_over_t<Iterator, bool> compute(const node n, Iterator begin, Iterator end) const
     {
         uint32_t index{0};
-        while (begin != end)
+        // the first fanin is the least significant bit, as in the computation over truth tables
+        for (uint32_t i = 0; begin != end; ++i)
         {
-            index <<= 1u;
-            index ^= *begin++ ? 1 : 0;
+            index |= (*begin++ ? 1u : 0u) << i;
         }
 
-        return kitty::get_bit(strg->data.cache[strg->nodes[n].data[1].h1], index);
+        return kitty::get_bit(strg->data.fn_cache[strg->nodes[n].data[1].h1], index);
     }
 
     template <typename Iterator>
-- 
2.43.0


From 075231139a76c05ae6d4b51d98f6ad456e7bf256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 13/80] fix: gate-level layouts constructed from a clocked
 layout lack the constant nodes and the known functions

---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index c4f27a1..8419d66 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From 5ab9663620d5d10fe30929bcaa56c65a21731f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:10 +0000
Subject: [PATCH 14/80] fix: a primary output that replaces another wire tile
 is lost

---
 include/fiction/layouts/gate_level_layout.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 8419d66..ab420a9 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -274,9 +274,10 @@ class gate_level_layout : public ClockedLayout
         const auto n = static_cast<node>(strg->nodes.size());
         strg->nodes.emplace_back();     // empty node data
         strg->nodes[n].data[1].h1 = 2;  // assign identity function
+        // assign the node first because that might remove another PO, previously located at t
+        assign_node(t, n);
         strg->outputs.emplace_back(static_cast<signal>(t));
         strg->data.node_names[n] = name.empty() ? fmt::format("po{}", num_pos()) : name;
-        assign_node(t, n);
 
         /* increase ref-count to child */
         strg->nodes[get_node(s)].data[0].h1++;
@@ -747,6 +748,8 @@ class gate_level_layout : public ClockedLayout
         {
             if (!t.is_dead())
             {
+                // clear n's new position first because that might remove another PO
+                clear_tile(t);
                 // if n lived on a tile that was marked as PO, update it with the new tile t
                 std::ranges::replace(strg->outputs, static_cast<signal>(old_t), static_cast<signal>(t));
             }
-- 
2.43.0


From 4a48fb1993ce16a8e0a65d1066338b1396be9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 15/80] fix: crossings of wires with gates are counted
 depending on the order of placement

---
 include/fiction/layouts/gate_level_layout.hpp | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index ab420a9..6ece8da 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -805,24 +805,17 @@ class gate_level_layout : public ClockedLayout
 
             if (!t.is_dead())
             {
+                // decrease crossing count
+                if (is_part_of_crossing(t, n))
+                {
+                    strg->data.num_crossings--;
+                }
+
                 // decrease wire count
                 if (is_wire(n))
                 {
                     strg->data.num_wires--;
 
-                    // decrease crossing count
-                    if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
-                    if (ClockedLayout::is_ground_layer(t) &&
-                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                        !is_empty_tile(ClockedLayout::above(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
                     // find PO entry and remove it if present
                     if (const auto po_it = std::ranges::find_if(strg->outputs, [this, &n](const auto& p)
                                                                 { return this->get_node(p.index) == n; });
@@ -1766,23 +1759,40 @@ class gate_level_layout : public ClockedLayout
             if (is_wire(n))
             {
                 strg->data.num_wires++;
-
-                if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                {
-                    strg->data.num_crossings++;
-                }
-
-                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                    !is_empty_tile(ClockedLayout::above(t)))
-                {
-                    strg->data.num_crossings++;
-                }
             }
             else  // is gate
             {
                 strg->data.num_gates++;
             }
+
+            // keep track of number of crossings
+            if (is_part_of_crossing(t, n))
+            {
+                strg->data.num_crossings++;
+            }
+        }
+    }
+    /**
+     * Checks whether node `n` on tile `t` forms a crossing with the node above or below it, i.e., whether that tile is
+     * not empty and at least one of the two nodes is a wire.
+     *
+     * @param t Tile that `n` is assigned to.
+     * @param n Node to check.
+     * @return `true` iff `n` on `t` is part of a crossing.
+     */
+    [[nodiscard]] bool is_part_of_crossing(const tile& t, const node n) const noexcept
+    {
+        const auto crosses = [this, &n](const tile& other) noexcept
+        { return !is_empty_tile(other) && (is_wire(n) || is_wire_tile(other)); };
+
+        if (ClockedLayout::is_crossing_layer(t))
+        {
+            return crosses(ClockedLayout::below(t));
         }
+
+        const auto above_t = ClockedLayout::above(t);
+
+        return ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(above_t) && crosses(above_t);
     }
 
     void kill_node(const node n)
-- 
2.43.0


From 8d501f023c8b63484c6337d223be2707ab9f3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 16/80] fix: reference counts of layout nodes underflow and
 mark placed nodes as dead

---
 include/fiction/layouts/gate_level_layout.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 6ece8da..0b9d140 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -739,7 +739,7 @@ class gate_level_layout : public ClockedLayout
         // n's children
         auto& children = strg->nodes[n].children;
         // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        std::ranges::for_each(children, [this](const auto& c) { decr_ref_count(get_node(c.index)); });
         // clear n's children
         children.clear();
 
@@ -783,6 +783,8 @@ class gate_level_layout : public ClockedLayout
         if (!is_constant(n))
         {
             strg->nodes[n].children.push_back(s);
+            // increase ref-count to child
+            strg->nodes[get_node(s)].data[0].h1++;
         }
 
         return make_signal(n);
@@ -1795,6 +1797,20 @@ class gate_level_layout : public ClockedLayout
         return ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(above_t) && crosses(above_t);
     }
 
+    /**
+     * Decreases the reference count of node `n`. A count of 0 is kept since children are stored as tiles, which may have
+     * been reassigned to other nodes in the meantime. Otherwise, an underflow would mark `n` as dead.
+     *
+     * @param n Node whose reference count is to be decreased.
+     */
+    void decr_ref_count(const node n) noexcept
+    {
+        if ((strg->nodes[n].data[0].h1 & ~UINT32_C(0x80000000)) != 0)
+        {
+            strg->nodes[n].data[0].h1--;
+        }
+    }
+
     void kill_node(const node n)
     {
         if (!is_constant(n))
-- 
2.43.0


From 468e60faa1ccb0927bcf35bb4cf43a7d02da7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 17/80] fix: bounding boxes of SiQAD surfaces with defects mix
 up dimer rows

---
 include/fiction/layouts/bounding_box.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..6c284e0 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -103,22 +103,15 @@ class bounding_box_2d
 
             layout.foreach_cell([&](const auto& c) { update_min_max(min_cell, max_cell, c); });
 
-            min = min_cell;
-            max = max_cell;
-
             if constexpr (is_sidb_defect_surface_v<Lyt>)
             {
-                // Defect handling for SiDB defect surfaces
-                auto min_defect = min_cell;
-                auto max_defect = max_cell;
-
+                // Defect handling for SiDB defect surfaces: extend the box around the cells
                 layout.foreach_sidb_defect([&](const auto& defect)
-                                           { update_min_max(min_defect, max_defect, defect.first); });
-
-                // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                                           { update_min_max(min_cell, max_cell, defect.first); });
             }
+
+            min = min_cell;
+            max = max_cell;
         }
         else
         {
-- 
2.43.0


From 835732c8fa0d01a284b77d2d3502263ed2aada3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 18/80] fix: moving a defect onto another one or onto itself
 loses it

---
 include/fiction/technology/sidb_defect_surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..fc605da 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,11 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
             // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+
+            // a defect that is already present at the target coordinate is replaced
+            strg->defective_coordinates.insert_or_assign(target, defect);
         }
     }
     /**
-- 
2.43.0


From 2ddadf86c5f31fa7136a8eab4613d53b748d4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 19/80] fix: buffers that substitute_po_signals inserts have a
 fan-out size of 0

---
 include/fiction/networks/technology_network.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/networks/technology_network.hpp b/include/fiction/networks/technology_network.hpp
index 7f75b10..53c728e 100644
--- a/include/fiction/networks/technology_network.hpp
+++ b/include/fiction/networks/technology_network.hpp
@@ -393,6 +393,8 @@ class technology_network : public mockturtle::klut_network
                     const auto b = create_buf(po);
                     // bend PO signal to point to the new node
                     _storage->outputs[index] = b;
+                    // increase ref-count of the new node
+                    _storage->nodes[b].data[0].h1++;
                 }
             });
     }
-- 
2.43.0


From 7cccdb0d64851f3adc8be2e5e96594fac7df1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 20/80] fix: delete_virtual_pis ties outputs that are virtual
 inputs to constant 0

---
 .../network_transformation/delete_virtual_pis.hpp        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index 9dd9dcf..bf055bd 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -127,7 +127,14 @@ class delete_virtual_pis_impl
         ntk.foreach_po(
             [this, &ntk_dest, &old2new](const auto& po)
             {
-                const auto tgt_signal = old2new[ntk.get_node(po)];
+                auto pn = ntk.get_node(po);
+
+                if (ntk.is_virtual_pi(pn))
+                {
+                    pn = ntk.get_real_pi(pn);
+                }
+
+                const auto tgt_signal = old2new[pn];
                 const auto tgt_po     = ntk.is_complemented(po) ? ntk_dest.create_not(tgt_signal) : tgt_signal;
 
                 ntk_dest.create_po(tgt_po);
-- 
2.43.0


From e1d38d3ec37827460cd2f326d8cd53ad41127122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 21/80] fix: bfs_topo_view drops gates that use the same fanin
 twice

---
 include/fiction/networks/views/bfs_topo_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/networks/views/bfs_topo_view.hpp b/include/fiction/networks/views/bfs_topo_view.hpp
index ced2421..70ffde0 100644
--- a/include/fiction/networks/views/bfs_topo_view.hpp
+++ b/include/fiction/networks/views/bfs_topo_view.hpp
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <queue>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 namespace fiction
@@ -209,8 +210,10 @@ class bfs_topo_view<Ntk, false> : public mockturtle::immutable_view<Ntk>
         fanout_ntk.foreach_node(
             [&](auto n)
             {
-                unvisited_fanin_count[n] = 0;
-                fanout_ntk.foreach_fanin(n, [&](const auto& /*f*/) { ++unvisited_fanin_count[n]; });
+                // a fanin node that is connected more than once lists n as its fanout only once
+                std::unordered_set<node> distinct_fanins{};
+                fanout_ntk.foreach_fanin(n, [&](const auto& f) { distinct_fanins.insert(fanout_ntk.get_node(f)); });
+                unvisited_fanin_count[n] = static_cast<uint32_t>(distinct_fanins.size());
             });
 
         fanout_ntk.foreach_ci(
-- 
2.43.0


From 60e945d1bcff0a6b78bed338ad8ee5e4099009b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 22/80] fix: adding a primary input to an empty
 static_depth_view makes its depth 1

---
 include/fiction/networks/views/static_depth_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/networks/views/static_depth_view.hpp b/include/fiction/networks/views/static_depth_view.hpp
index 0473156..c59c290 100644
--- a/include/fiction/networks/views/static_depth_view.hpp
+++ b/include/fiction/networks/views/static_depth_view.hpp
@@ -330,7 +330,7 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
         {
             levels[n] = level + cost_fn(*this, n);
         }
-        ntk_depth = std::max(ntk_depth, level + cost_fn(*this, n));
+        ntk_depth = std::max(ntk_depth, levels[n]);
     }
 
   private:
-- 
2.43.0


From 59f7f6c98fe05ddc5253c24750e5b16c23eb0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 23/80] fix: update_ranks keeps the width of the previous ranks

---
 include/fiction/networks/views/mutable_rank_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/networks/views/mutable_rank_view.hpp b/include/fiction/networks/views/mutable_rank_view.hpp
index 852b27d..06a3c86 100644
--- a/include/fiction/networks/views/mutable_rank_view.hpp
+++ b/include/fiction/networks/views/mutable_rank_view.hpp
@@ -546,6 +546,7 @@ class mutable_rank_view<Ntk, false> : public fiction::static_depth_view<Ntk>
         rank_pos.rehash(this->size());
         ranks.clear();
         ranks.resize(this->depth() + 1);
+        max_rank_width = 0;
         init_ranks();
     }
 
-- 
2.43.0


From 9afa949fa0b0aea9e9d248d1afd04cdebcaebac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 24/80] fix: levels and ranks of nodes that do not reach any
 output end the program

---
 include/fiction/networks/views/mutable_rank_view.hpp | 12 ++++++++++++
 include/fiction/networks/views/static_depth_view.hpp |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/include/fiction/networks/views/mutable_rank_view.hpp b/include/fiction/networks/views/mutable_rank_view.hpp
index 06a3c86..3edb543 100644
--- a/include/fiction/networks/views/mutable_rank_view.hpp
+++ b/include/fiction/networks/views/mutable_rank_view.hpp
@@ -590,6 +590,12 @@ class mutable_rank_view<Ntk, false> : public fiction::static_depth_view<Ntk>
      */
     void insert_in_rank(const node& n)
     {
+        // nodes that do not reach any output can lie beyond the depth of the network
+        if (this->level(n) >= ranks.size())
+        {
+            ranks.resize(this->level(n) + 1);
+        }
+
         auto& rank  = ranks[this->level(n)];
         rank_pos[n] = static_cast<uint32_t>(rank.size());
         rank.push_back(n);
@@ -636,6 +642,12 @@ class mutable_rank_view<Ntk, false> : public fiction::static_depth_view<Ntk>
      */
     void init_ranks(const std::vector<std::vector<node>>& input_ranks)
     {
+        // nodes that do not reach any output can lie beyond the depth of the network
+        if (input_ranks.size() > ranks.size())
+        {
+            ranks.resize(input_ranks.size());
+        }
+
         for (std::size_t i = 0; i < input_ranks.size(); ++i)
         {
             auto const& rank_nodes = input_ranks[i];
diff --git a/include/fiction/networks/views/static_depth_view.hpp b/include/fiction/networks/views/static_depth_view.hpp
index c59c290..567083b 100644
--- a/include/fiction/networks/views/static_depth_view.hpp
+++ b/include/fiction/networks/views/static_depth_view.hpp
@@ -106,6 +106,7 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
         static_assert(mockturtle::has_is_complemented_v<Ntk>, "Ntk does not implement the is_complemented method");
         static_assert(mockturtle::has_visited_v<Ntk>, "Ntk does not implement the visited method");
         static_assert(mockturtle::has_set_visited_v<Ntk>, "Ntk does not implement the set_visited method");
+        static_assert(mockturtle::has_foreach_node_v<Ntk>, "Ntk does not implement the foreach_node method");
         static_assert(mockturtle::has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method");
         static_assert(mockturtle::has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method");
 
@@ -134,6 +135,7 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
         static_assert(mockturtle::has_is_complemented_v<Ntk>, "Ntk does not implement the is_complemented method");
         static_assert(mockturtle::has_visited_v<Ntk>, "Ntk does not implement the visited method");
         static_assert(mockturtle::has_set_visited_v<Ntk>, "Ntk does not implement the set_visited method");
+        static_assert(mockturtle::has_foreach_node_v<Ntk>, "Ntk does not implement the foreach_node method");
         static_assert(mockturtle::has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method");
         static_assert(mockturtle::has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method");
 
@@ -401,6 +403,9 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
                 });
         }
 
+        // nodes that do not reach any output have a level, too, but do not contribute to the depth
+        this->foreach_node([this](auto const& n) { compute_levels(n); });
+
         this->foreach_po(
             [&](auto const& f)
             {
-- 
2.43.0


From b4e3d25ab3b1c25778ed97127bffc6ea6589d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 25/80] fix: balancing a network without outputs dereferences
 the end of an empty vector

---
 .../algorithms/network_transformation/network_balancing.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/network_balancing.hpp b/include/fiction/algorithms/network_transformation/network_balancing.hpp
index 00f2b4f..9329836 100644
--- a/include/fiction/algorithms/network_transformation/network_balancing.hpp
+++ b/include/fiction/algorithms/network_transformation/network_balancing.hpp
@@ -100,7 +100,7 @@ class network_balancing_impl
 
         // gather PO levels
         const auto po_levels    = get_po_levels(ntk_depth);
-        const auto max_po_level = *std::ranges::max_element(po_levels);
+        const auto max_po_level = po_levels.empty() ? 0u : *std::ranges::max_element(po_levels);
 
         // add primary outputs to finalize the network
         ntk_topo.foreach_po(
-- 
2.43.0


From 57077d03ad76cd795543b767dec349552cf1aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 26/80] fix: fanout substitution overloads a fanout node when a
 gate uses one signal twice

---
 .../fanout_substitution.hpp                      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index d9b2ede..23c0d33 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -145,7 +145,7 @@ class fanout_substitution_impl
                                            // constants do not need fanout trees
                                            if (!ntk_topo.is_constant(fn))
                                            {
-                                               child = get_fanout(substituted, fn, child);
+                                               child = get_fanout(substituted, fn, child, children);
                                            }
 
                                            children.push_back(child);
@@ -255,9 +255,17 @@ class fanout_substitution_impl
     }
 
     mockturtle::signal<NtkDest> get_fanout(const NtkDest& substituted, const mockturtle::node<NtkSrc>& n,
-                                           mockturtle::signal<NtkDest>& child)
+                                           mockturtle::signal<NtkDest>&                    child,
+                                           const std::vector<mockturtle::signal<NtkDest>>& pending = {})
     {
-        if (substituted.fanout_size(substituted.get_node(child)) >= ps.threshold)
+        // signals that have been picked for the same node already do not count towards their fanout size, yet
+        const auto fanout_size = [&substituted, &pending](const auto& s)
+        {
+            return substituted.fanout_size(substituted.get_node(s)) +
+                   static_cast<uint32_t>(std::ranges::count(pending, s));
+        };
+
+        if (fanout_size(child) >= ps.threshold)
         {
             if (auto fanouts = available_fanouts[n]; !fanouts.empty())
             {
@@ -265,7 +273,7 @@ class fanout_substitution_impl
                 while (true)
                 {
                     child = fanouts.front();
-                    if (substituted.fanout_size(substituted.get_node(child)) >= ps.degree)
+                    if (fanout_size(child) >= ps.degree)
                     {
                         fanouts.pop();
                     }
-- 
2.43.0


From 1525981cabf68f671e8a03a0a9fa407f0898e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 27/80] fix: converting gates to networks without arbitrary
 functions yields constant 0

---
 .../network_conversion.hpp                    | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/include/fiction/algorithms/network_transformation/network_conversion.hpp b/include/fiction/algorithms/network_transformation/network_conversion.hpp
index e2e54b7..61f1ef8 100644
--- a/include/fiction/algorithms/network_transformation/network_conversion.hpp
+++ b/include/fiction/algorithms/network_transformation/network_conversion.hpp
@@ -8,13 +8,16 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/name_utils.hpp"
 
+#include <kitty/bit_operations.hpp>
 #include <mockturtle/algorithms/cleanup.hpp>
 #include <mockturtle/traits.hpp>
 #include <mockturtle/utils/node_map.hpp>
 #include <mockturtle/views/topo_view.hpp>
 
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <type_traits>
 #include <vector>
 
@@ -160,6 +163,12 @@ class convert_network_impl<NtkDest, NtkSrc, false>
                     old2new[g] = ntk_dest.create_node(children, ntk.node_function(g));
                     return true;
                 }
+                else if constexpr (mockturtle::has_node_function_v<TopoNtkSrc>)
+                {
+                    // the destination network cannot represent arbitrary functions
+                    old2new[g] = create_from_function(ntk_dest, children, ntk.node_function(g));
+                    return true;
+                }
 
                 return true;
             });
@@ -182,6 +191,44 @@ class convert_network_impl<NtkDest, NtkSrc, false>
   private:
     using TopoNtkSrc = mockturtle::topo_view<NtkSrc>;
     TopoNtkSrc ntk;
+
+    /**
+     * Creates the given function of the given children via Shannon expansion.
+     *
+     * @tparam TT Truth table type.
+     * @param ntk_dest Network to create the function in.
+     * @param children Inputs of the function.
+     * @param function Function to create.
+     * @return Signal that computes `function`.
+     */
+    template <typename TT>
+    [[nodiscard]] static typename NtkDest::signal
+    create_from_function(NtkDest& ntk_dest, const std::vector<typename NtkDest::signal>& children, const TT& function)
+    {
+        const std::function<typename NtkDest::signal(std::size_t, uint64_t)> expand =
+            [&](const std::size_t num_vars, const uint64_t minterm) -> typename NtkDest::signal
+        {
+            if (num_vars == 0)
+            {
+                return ntk_dest.get_constant(kitty::get_bit(function, minterm));
+            }
+
+            const auto& child = children[num_vars - 1];
+
+            const auto negative = expand(num_vars - 1, minterm);
+            const auto positive = expand(num_vars - 1, minterm | (uint64_t{1} << (num_vars - 1)));
+
+            if (negative == positive)
+            {
+                return negative;
+            }
+
+            return ntk_dest.create_or(ntk_dest.create_and(child, positive),
+                                      ntk_dest.create_and(ntk_dest.create_not(child), negative));
+        };
+
+        return expand(children.size(), 0);
+    }
 };
 }  // namespace detail
 
-- 
2.43.0


From eeaaa54579709c77346137d69384d292d01441bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 28/80] fix: Yen's algorithm blocked connections of other root
 paths and missed paths

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..8dd2b18 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,10 +90,11 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path including the spur is equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
                     if (p.size() > static_cast<std::size_t>(i) + 1 &&
-                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
+                        std::ranges::equal(latest_path.cbegin(), latest_path.cbegin() + i + 1, p.cbegin(),
+                                           p.cbegin() + i + 1))
                     {
                         // block the connection that was already used in the previous shortest path
                         layout.obstruct_connection(p[i], p[i + 1]);
-- 
2.43.0


From 67532a8b14a5fea3bdcac565e00cd3f31228314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 29/80] fix: distance maps of layouts with several layers wrote
 out of bounds

---
 .../fiction/algorithms/path_finding/distance_map.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/distance_map.hpp b/include/fiction/algorithms/path_finding/distance_map.hpp
index 563acb4..ee63230 100644
--- a/include/fiction/algorithms/path_finding/distance_map.hpp
+++ b/include/fiction/algorithms/path_finding/distance_map.hpp
@@ -21,8 +21,9 @@ namespace fiction
 /**
  * A distance map is a two-dimensional array of distances between coordinates. The distance map is accessed via the
  * indices of the coordinates in the associated layout. A coordinate index \f$i\f$ is calculated as follows:
- * \f$i = y \cdot W + x\f$, with \f$W\f$ being the width of the layout. As an example, in a layout of size
- * \f$3 \times 3\f$, the coordinate index of the coordinate \f$(2, 1)\f$ has index \f$1 \cdot 3 + 2 = 5\f$.
+ * \f$i = (z \cdot H + y) \cdot W + x\f$, with \f$W\f$ and \f$H\f$ being the width and the height of the layout. As an
+ * example, in a layout of size \f$3 \times 3\f$, the coordinate index of the coordinate \f$(2, 1)\f$ has index
+ * \f$1 \cdot 3 + 2 = 5\f$.
  *
  * The `distance_map` is to be preferred over the `sparse_distance_map` in most cases when performance is the main goal.
  */
@@ -56,8 +57,11 @@ template <typename Lyt, typename Dist>
 {
     static_assert(is_coordinate_layout_v<Lyt>, "Lyt is not a coordinate layout");
 
+    // number of coordinates in all layers
+    const auto num_coordinates = static_cast<std::size_t>(lyt.area()) * (static_cast<std::size_t>(lyt.z()) + 1);
+
     // initialize distance map
-    distance_map<Dist> dist_map(lyt.area(), std::vector<Dist>(lyt.area(), Dist{}));
+    distance_map<Dist> dist_map(num_coordinates, std::vector<Dist>(num_coordinates, Dist{}));
 
     // compute distances and store them via coordinate index
     lyt.foreach_coordinate(
@@ -157,7 +161,7 @@ class distance_map_functor : public distance_functor<Lyt, Dist>
      */
     [[nodiscard]] static constexpr std::size_t coordinate_index(const Lyt& lyt, const coordinate<Lyt>& c) noexcept
     {
-        return (c.y * (lyt.x() + 1)) + c.x;
+        return (((static_cast<std::size_t>(c.z) * (lyt.y() + 1)) + c.y) * (lyt.x() + 1)) + c.x;
     }
 };
 /**
-- 
2.43.0


From a71fc1daead28a25b20ea40fae6b920e5693609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 30/80] fix: A* updated its priority queue in place and missed
 cheapest paths

---
 .../algorithms/path_finding/a_star.hpp        | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 8080766..3283831 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -77,8 +77,11 @@ class a_star_impl
             {
                 return reconstruct_path();
             }
-            // don't examine the current coordinate again
-            closed_list.insert(current);
+            // don't examine the current coordinate again; skip obsolete entries of the open list
+            if (!closed_list.insert(current).second)
+            {
+                continue;
+            }
 
             // expand from current coordinate
             expand(current);
@@ -257,17 +260,9 @@ class a_star_impl
             // compute new f-value
             const auto f = tentative_g + static_cast<g_f_type>(distance(layout, successor, objective.target));
 
-            // if successor is contained in the open list (frontier)
-            if (it != open_list.end())
-            {
-                // update its f-value
-                it->f = f;
-            }
-            else
-            {
-                // add successor to the open list
-                open_list.push({successor, f});
-            }
+            // add successor to the open list; if it is already contained with a higher f-value, that obsolete entry will
+            // be skipped because successor is closed by then (updating it in place would corrupt the priority queue)
+            open_list.push({successor, f});
         };
 
         if constexpr (is_clocked_layout_v<Lyt>)
-- 
2.43.0


From ca2db33f98ba64dcbb376289196691c109b6e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 31/80] fix: Yen's algorithm cleared obstructions of the given
 layout

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 8dd2b18..707c912 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -106,8 +106,8 @@ class yen_k_shortest_paths_impl
                 // for all coordinates in the root path...
                 for (const auto& root : root_path)
                 {
-                    // ... that are not the spur
-                    if (root != spur)
+                    // ... that are not the spur (and not obstructed anyway, which must outlive this function)
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0


From 5ed003f15a82e01bfda92d15cedb138f4292e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 32/80] fix: shortest paths on hexagonal and shifted layouts
 used an overestimating heuristic

---
 include/fiction/algorithms/path_finding/a_star.hpp   |  2 +-
 include/fiction/algorithms/path_finding/distance.hpp | 12 ++++++++++++
 .../algorithms/path_finding/k_shortest_paths.hpp     |  7 ++++---
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 3283831..b9410d9 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -393,7 +393,7 @@ class a_star_impl
 template <typename Path, typename Lyt, typename Dist = uint64_t, typename Cost = uint8_t>
     requires is_coordinate_layout_v<Lyt>
 [[nodiscard]] Path a_star(const Lyt& layout, const routing_objective<Lyt>& objective,
-                          const distance_functor<Lyt, Dist>& dist_fn = manhattan_distance_functor<Lyt, uint64_t>(),
+                          const distance_functor<Lyt, Dist>& dist_fn = admissible_distance_functor<Lyt>(),
                           const cost_functor<Lyt, Cost>&     cost_fn = unit_cost_functor<Lyt, uint8_t>(),
                           const a_star_params&               params  = {}) noexcept
 {
diff --git a/include/fiction/algorithms/path_finding/distance.hpp b/include/fiction/algorithms/path_finding/distance.hpp
index d6682fa..ad16075 100644
--- a/include/fiction/algorithms/path_finding/distance.hpp
+++ b/include/fiction/algorithms/path_finding/distance.hpp
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <functional>
 #include <limits>
+#include <type_traits>
 
 namespace fiction
 {
@@ -246,6 +247,17 @@ class chebyshev_distance_functor : public distance_functor<Lyt, Dist>
   public:
     chebyshev_distance_functor() : distance_functor<Lyt, Dist>(&chebyshev_distance<Lyt, Dist>) {}
 };
+/**
+ * The closest pre-defined integral distance functor that never overestimates the number of steps between two
+ * coordinates: the Manhattan distance on Cartesian layouts and the Chebyshev distance on layouts whose adjacency
+ * includes diagonal steps, i.e., shifted Cartesian and hexagonal ones.
+ *
+ * @tparam Lyt Coordinate layout type.
+ */
+template <typename Lyt>
+using admissible_distance_functor =
+    std::conditional_t<is_cartesian_layout_v<Lyt>, manhattan_distance_functor<Lyt, uint64_t>,
+                       chebyshev_distance_functor<Lyt, uint64_t>>;
 
 }  // namespace fiction
 
diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 707c912..bc31c43 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -50,7 +50,7 @@ class yen_k_shortest_paths_impl
     {
         // start by determining the shortest path between source and target
         k_shortest_paths.push_back(
-            a_star<Path>(layout, objective, manhattan_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
+            a_star<Path>(layout, objective, admissible_distance_functor<obstruction_layout<Lyt>>(),
                          unit_cost_functor<obstruction_layout<Lyt>, uint8_t>(), params.astar_params));
     }
 
@@ -119,7 +119,7 @@ class yen_k_shortest_paths_impl
                 // find an alternative path from the spur coordinate to the target and check that it is not empty
                 if (const auto spur_path =
                         a_star<Path>(layout, {spur, objective.target},
-                                     manhattan_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
+                                     admissible_distance_functor<obstruction_layout<Lyt>>(),
                                      unit_cost_functor<obstruction_layout<Lyt>, uint8_t>(), params.astar_params);
                     !spur_path.empty())
                 {
@@ -233,7 +233,8 @@ class yen_k_shortest_paths_impl
  * \f$k\f$ is larger than the number of possible paths from source to target, the size of the returned path collection
  * will be smaller than \f$k\f$.
  *
- * This implementation uses the A* algorithm with the Manhattan distance function internally.
+ * This implementation uses the A* algorithm with the Manhattan distance function internally (or the Chebyshev distance
+ * function on layouts that allow for diagonal steps).
  *
  * This function automatically detects whether the given layout implements a clocking interface (see `clocked_layout`)
  * and respects the underlying information flow imposed by `layout`'s clocking scheme. This algorithm does neither
-- 
2.43.0


From 8e91230a3ad5d3b8f2eb97df5dbd409a0f0fd704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 33/80] fix: intersection graphs of path-limited routing
 objectives lacked all intersection edges

---
 .../algorithms/graph/generate_edge_intersection_graph.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
index 31ea0e4..71285d6 100644
--- a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
+++ b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
@@ -186,6 +186,13 @@ class generate_edge_intersection_graph_impl
             path_elements.insert(c);
             layout_coordinate_path<Lyt>::append(c);
         }
+        /**
+         * Stores all coordinates of the path in the set. This is necessary if the path was not created via `append`.
+         */
+        void index_path_elements() noexcept
+        {
+            path_elements.insert(this->cbegin(), this->cend());
+        }
         /**
          * Given another path, this function checks if they are not disjoint, i.e., it looks for at least one coordinate
          * that both paths share.
@@ -280,6 +287,7 @@ class generate_edge_intersection_graph_impl
                               [this, &clique](auto& p)
                               {
                                   p.label = node_id++;
+                                  p.index_path_elements();
                                   graph.insert_vertex(p.label, p);
                                   clique.push_back(p.label);
                               });
-- 
2.43.0


From d1d049be81c2f544586a0a8f33985f977d786e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 34/80] fix: the descending SAT coloring dereferenced a null
 instance when nothing was satisfiable

---
 include/fiction/algorithms/graph/graph_coloring.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/fiction/algorithms/graph/graph_coloring.hpp b/include/fiction/algorithms/graph/graph_coloring.hpp
index 5243a78..19df6d1 100644
--- a/include/fiction/algorithms/graph/graph_coloring.hpp
+++ b/include/fiction/algorithms/graph/graph_coloring.hpp
@@ -262,21 +262,22 @@ class sat_coloring_handler
 
     std::optional<k_instance> determine_min_coloring_with_linearly_descending_search() const noexcept
     {
-        k_instance most_recent_sat_instance{};
+        std::optional<k_instance> most_recent_sat_instance{};
 
-        for (std::size_t k = graph.size_vertices(); k >= q - 1; --k)
+        // the largest clique size q >= 1 is a lower bound
+        for (std::size_t k = graph.size_vertices(); k >= q; --k)
         {
             const auto [sat, instance] = check_k_coloring(k);
 
             if (sat == bill::result::states::unsatisfiable)
             {
-                return most_recent_sat_instance;
+                break;
             }
 
-            most_recent_sat_instance = {k, instance};
+            most_recent_sat_instance = k_instance{k, instance};
         }
 
-        return std::nullopt;
+        return most_recent_sat_instance;
     }
 
     std::optional<k_instance> determine_min_coloring_with_binary_search() const noexcept
-- 
2.43.0


From 379ef9a1687d887aa4ed67db01f3ddbd004f4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 35/80] fix: clearing the routing removed fanout nodes
 depending on the order of nodes

---
 include/fiction/utils/routing_utils.hpp | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/fiction/utils/routing_utils.hpp b/include/fiction/utils/routing_utils.hpp
index 598269d..de3f1b2 100644
--- a/include/fiction/utils/routing_utils.hpp
+++ b/include/fiction/utils/routing_utils.hpp
@@ -288,8 +288,12 @@ void clear_routing(Lyt& lyt) noexcept
     static_assert(has_is_fanout_v<Lyt>, "Lyt does not implement the is_fanout function");
     static_assert(mockturtle::has_foreach_node_v<Lyt>, "Lyt does not implement the foreach_node function");
 
+    // clearing tiles alters fan-out counts; hence, decide on all tiles before clearing any of them
+    std::vector<tile<Lyt>> wires{};
+    std::vector<tile<Lyt>> gates{};
+
     lyt.foreach_node(
-        [&lyt](const auto& g)
+        [&lyt, &wires, &gates](const auto& g)
         {
             // skip constants
             if (lyt.is_constant(g))
@@ -299,16 +303,27 @@ void clear_routing(Lyt& lyt) noexcept
 
             const auto t = lyt.get_tile(g);
 
-            if (lyt.is_buf(g) && !lyt.is_fanout(g) && !lyt.is_pi(g) &&
-                !lyt.is_po(g))  // remove all wires that are not fan-outs or primary I/Os
+            if (lyt.is_buf(g) && !lyt.is_fanout(g) && !lyt.is_pi(g) && !lyt.is_po(g))
             {
-                lyt.clear_tile(t);
+                wires.push_back(t);
             }
-            else  // delete children pointers of gates by re-placing them
+            else
             {
-                lyt.move_node(g, t);
+                gates.push_back(t);
             }
         });
+
+    // remove all wires that are not fan-outs or primary I/Os
+    for (const auto& t : wires)
+    {
+        lyt.clear_tile(t);
+    }
+
+    // delete children pointers of gates by re-placing them
+    for (const auto& t : gates)
+    {
+        lyt.move_node(lyt.get_node(t), t);
+    }
 }
 
 }  // namespace fiction
-- 
2.43.0


From 74cc5fc0e65eef83a4613103009ba965f0890da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 36/80] fix: orthogonal physical design swapped the operands of
 asymmetric gates

---
 .../algorithms/physical_design/orthogonal.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..cd3838e 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -329,16 +329,21 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
-                                          tile<Lyt> pre1_t, tile<Lyt> pre2_t,
+                                          tile<Lyt> pre1_t, tile<Lyt> pre2_t, bool swapped = false,
                                           const std::optional<bool>& c = std::nullopt)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    const auto west  = wire_east(lyt, pre2_t, t);
+    const auto north = wire_south(lyt, pre1_t, t);
+
+    // maintain the fanin order because n's function might not be symmetric
+    return swapped ? place(lyt, t, ntk, n, west, north, c) : place(lyt, t, ntk, n, north, west, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -564,6 +569,9 @@ class orthogonal_impl
 
                         tile<Lyt> t{};
 
+                        // keeps track of whether pre1_t and pre2_t do not follow n's fanin order anymore
+                        bool swapped = false;
+
                         // n is colored east
                         if (const auto clr = ctn.color_ntk.color(n); clr == ctn.color_east)
                         {
@@ -571,6 +579,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +597,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +616,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             t = latest_pos;
@@ -618,7 +629,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, swapped,
+                                                        fc.constant_fanin);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
-- 
2.43.0


From 4fc406e8ed84539e99b89bbf858eef7d87e538ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 37/80] fix: orthogonal physical design routed outputs through
 rows that other wires use

---
 .../algorithms/physical_design/orthogonal.hpp   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index cd3838e..11c002c 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <optional>
 #include <ostream>
+#include <unordered_map>
 #include <vector>
 
 #if (PROGRESS_BARS)
@@ -382,15 +383,18 @@ mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Nt
  * @param po_counter Counter for POs.
  * @param node2pos Mapping from network nodes to layout signals, i.e., a pointer to their position in the layout. The
  * map is used to fetch location of the fanins. The `mockturtle::node_map` is not updated by this function.
+ * @param po_rows Mapping from network nodes to the layout rows that were kept free for those of their POs that cannot be
+ * placed to the east.
  */
 template <typename Ntk, typename Lyt>
 void place_outputs(Lyt& layout, const coloring_container<Ntk>& ctn, uint32_t po_counter,
-                   const mockturtle::node_map<mockturtle::signal<Lyt>, decltype(ctn.color_ntk)>& node2pos)
+                   const mockturtle::node_map<mockturtle::signal<Lyt>, decltype(ctn.color_ntk)>& node2pos,
+                   const std::unordered_map<mockturtle::node<Ntk>, decltype(tile<Lyt>{}.y)>&     po_rows)
 {
     std::vector<mockturtle::node<Ntk>> output_nodes{};
 
     ctn.color_ntk.foreach_po(
-        [&po_counter, &output_nodes, &node2pos, &ctn, &layout](const auto& po)
+        [&po_counter, &output_nodes, &node2pos, &po_rows, &ctn, &layout](const auto& po)
         {
             if (!ctn.color_ntk.is_constant(po))
             {
@@ -402,7 +406,7 @@ void place_outputs(Lyt& layout, const coloring_container<Ntk>& ctn, uint32_t po_
                 // determine PO orientation
                 if (!is_eastern_po_orientation_available(ctn, po) || multi_output_node)
                 {
-                    po_tile = static_cast<tile<Lyt>>(wire_south(layout, po_tile, {po_tile.x, po_tile.y + 2}));
+                    po_tile = static_cast<tile<Lyt>>(wire_south(layout, po_tile, {po_tile.x, po_rows.at(po) + 1}));
                 }
 
                 // check if PO position is located at the border
@@ -495,6 +499,9 @@ class orthogonal_impl
         // reserve PI nodes without positions
         auto pi2node = reserve_input_nodes(layout, ctn.color_ntk);
 
+        // rows that are kept free for POs
+        std::unordered_map<mockturtle::node<decltype(ntk)>, decltype(tile<Lyt>{}.y)> po_rows{};
+
         // first x-pos to use for gates is 1 because PIs take up the 0th column
         tile<Lyt> latest_pos{1, 0};
 
@@ -637,6 +644,8 @@ class orthogonal_impl
                         (!is_eastern_po_orientation_available(ctn, n) ||
                          std::ranges::find(multi_output_nodes, n) != multi_output_nodes.cend()))
                     {
+                        // keep this row free for the PO
+                        po_rows[n] = latest_pos.y;
                         ++latest_pos.y;
                     }
                 }
@@ -648,7 +657,7 @@ class orthogonal_impl
             });
 
         // place outputs after the main algorithm to handle possible multi-output or unordered nodes
-        place_outputs(layout, ctn, po_counter, node2pos);
+        place_outputs(layout, ctn, po_counter, node2pos, po_rows);
 
         // restore possibly set signal names
         restore_names(ctn.color_ntk, layout, node2pos);
-- 
2.43.0


From 1af06b3b837e95dd869dc9d68078f322fa54212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 38/80] fix: orthogonal physical design coloured edges from
 constants and overlaid wires of majority gates

---
 include/fiction/algorithms/physical_design/orthogonal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 11c002c..de0336d 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -92,8 +92,8 @@ template <typename Ntk>
 void recursively_paint_edges(const coloring_container<Ntk>&                             ctn,
                              const mockturtle::edge<out_of_place_edge_color_view<Ntk>>& e, const uint32_t c) noexcept
 {
-    // exit condition: edge is already painted
-    if (ctn.color_ntk.edge_color(e) != ctn.color_null)
+    // exit condition: edge is already painted or comes from a constant, which has no location in the layout
+    if (ctn.color_ntk.edge_color(e) != ctn.color_null || ctn.color_ntk.is_constant(e.source))
     {
         return;
     }
-- 
2.43.0


From 371616882e4eb52ed7db2f9e3ec0c3b16395eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 39/80] fix: post-layout optimization swapped the operands of
 asymmetric gates

---
 .../post_layout_optimization.hpp              | 96 ++++++++++++-------
 1 file changed, 61 insertions(+), 35 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..8281e63 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -181,6 +181,11 @@ struct fanin_fanout_data
      * the second fan-out within the layout.
      */
     layout_coordinate_path<Lyt> route_gate_to_fanout_2;
+
+    /**
+     * For each fan-out, this vector stores whether the connection from the gate is the fan-out's first fan-in.
+     */
+    std::vector<bool> is_first_fanin_of_fanout;
 };
 /**
  * Utility function that moves outputs from the last row to the previous row, and from the last column to the previous
@@ -640,10 +645,12 @@ class post_layout_optimization_impl
                 const auto incoming_tile = lyt.incoming_data_flow(above).front();
                 const auto outgoing_tile = lyt.outgoing_data_flow(above).front();
 
+                const auto is_first_fanin = lyt.incoming_data_flow(outgoing_tile).front() == above;
+
                 // move wire from z=1 to z=0
                 lyt.move_node(lyt.get_node(above), ground, {lyt.make_signal(lyt.get_node(incoming_tile))});
 
-                // if outgoing tile has other incoming signals (e.g. AND), update children
+                // if outgoing tile has other incoming signals (e.g. AND), update children while keeping their order
                 if (const auto in_flow = lyt.incoming_data_flow(outgoing_tile); !in_flow.empty())
                 {
                     const auto front = in_flow.front();
@@ -651,8 +658,12 @@ class post_layout_optimization_impl
                     if (std::ranges::find(deleted_coords, front) == deleted_coords.cend() ||
                         std::ranges::find(moved_tiles, front) != moved_tiles.cend())
                     {
+                        const auto wire_signal  = lyt.make_signal(lyt.get_node(ground));
+                        const auto front_signal = lyt.make_signal(lyt.get_node(front));
+
                         lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile,
-                                      {lyt.make_signal(lyt.get_node(ground)), lyt.make_signal(lyt.get_node(front))});
+                                      {is_first_fanin ? wire_signal : front_signal,
+                                       is_first_fanin ? front_signal : wire_signal});
                     }
                 }
                 // otherwise, the wire is the only incoming signal
@@ -810,10 +821,14 @@ class post_layout_optimization_impl
         if (!fanout1.is_dead())
         {
             ffd.fanouts.push_back(fanout1);
+            ffd.is_first_fanin_of_fanout.push_back(lyt.incoming_data_flow(fanout1).front() ==
+                                                   ffd.route_gate_to_fanout_1.end()[-2]);
         }
         if (!fanout2.is_dead())
         {
             ffd.fanouts.push_back(fanout2);
+            ffd.is_first_fanin_of_fanout.push_back(lyt.incoming_data_flow(fanout2).front() ==
+                                                   ffd.route_gate_to_fanout_2.end()[-2]);
         }
 
         return ffd;
@@ -846,6 +861,39 @@ class post_layout_optimization_impl
 
         return path;
     }
+    /**
+     * Updates the children of the given fan-outs after the connections from a gate to them were re-established. The
+     * new connections are always the last fan-ins. Hence, they are put first where they have been first originally.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param is_first_fanin_of_fanout Whether the gate is connected to the first fan-in of each fanout.
+     */
+    void update_fanout_children(ObstrLyt& lyt, const std::vector<tile<ObstrLyt>>& fanouts,
+                                const std::vector<bool>& is_first_fanin_of_fanout) noexcept
+    {
+        for (std::size_t i = 0; i < fanouts.size(); ++i)
+        {
+            const auto& fanout = fanouts[i];
+
+            std::vector<mockturtle::signal<ObstrLyt>> signals{};
+            signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
+
+            lyt.foreach_fanin(lyt.get_node(fanout),
+                              [&lyt, &signals](const auto& fin)
+                              {
+                                  auto fanin = static_cast<tile<ObstrLyt>>(fin);
+                                  signals.push_back(lyt.make_signal(lyt.get_node(fanin)));
+                              });
+
+            if (is_first_fanin_of_fanout[i])
+            {
+                std::ranges::reverse(signals);
+            }
+
+            lyt.move_node(lyt.get_node(fanout), fanout, signals);
+        }
+    }
     /**
      * Calculates the elapsed milliseconds since the `start` time, sets the `timeout_limit_reached` flag
      * if the timeout is exceeded, and returns the remaining time.
@@ -870,6 +918,7 @@ class post_layout_optimization_impl
      * upon successful relocation.
      * @param fanins               Vector containing the tile positions of all fan-in connections to the gate.
      * @param fanouts              Vector containing the tile positions of all fan-out connections from the gate.
+     * @param is_first_fanin_of_fanout Whether the gate is connected to the first fan-in of each fanout.
      * @param moved_gate           Reference to a boolean flag that will be set to `true` if the gate is successfully
      * moved.
      * @param old_pos              The original tile position of the gate before the relocation attempt.
@@ -879,7 +928,8 @@ class post_layout_optimization_impl
      */
     bool check_new_position(ObstrLyt& lyt, const tile<ObstrLyt>& new_pos, uint64_t& num_gate_relocations,
                             tile<ObstrLyt>& current_pos, const std::vector<tile<Lyt>>& fanins,
-                            const std::vector<tile<Lyt>>& fanouts, bool& moved_gate,
+                            const std::vector<tile<Lyt>>& fanouts,
+                            const std::vector<bool>& is_first_fanin_of_fanout, bool& moved_gate,
                             const tile<ObstrLyt>& old_pos) noexcept
     {
         if (lyt.is_empty_tile(new_pos) && lyt.is_empty_tile({new_pos.x, new_pos.y, 1}))
@@ -952,20 +1002,7 @@ class post_layout_optimization_impl
                 }
 
                 // update children of fanouts
-                for (const auto& fanout : fanouts)
-                {
-                    std::vector<mockturtle::signal<ObstrLyt>> signals{};
-                    signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-                    lyt.foreach_fanin(lyt.get_node(fanout),
-                                      [&lyt, &signals](const auto& i)
-                                      {
-                                          auto fout = static_cast<tile<ObstrLyt>>(i);
-                                          signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                                      });
-
-                    lyt.move_node(lyt.get_node(fanout), fanout, signals);
-                }
+                update_fanout_children(lyt, fanouts, is_first_fanin_of_fanout);
 
                 if (new_pos == old_pos)
                 {
@@ -1004,13 +1041,15 @@ class post_layout_optimization_impl
      * @param current_pos Current position of the gate after relocation attempt.
      * @param old_pos Original position of the gate before relocation attempt.
      * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param is_first_fanin_of_fanout Whether the gate is connected to the first fan-in of each fanout.
      */
     void restore_original_wiring(ObstrLyt& lyt, const layout_coordinate_path<ObstrLyt> old_path_from_fanin_1_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_fanin_2_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_1,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_2,
                                  const tile<ObstrLyt>& current_pos, const tile<ObstrLyt>& old_pos,
-                                 const std::vector<tile<Lyt>> fanouts) noexcept
+                                 const std::vector<tile<Lyt>> fanouts,
+                                 const std::vector<bool>&     is_first_fanin_of_fanout) noexcept
     {
         lyt.move_node(lyt.get_node(current_pos), old_pos, {});
 
@@ -1047,20 +1086,7 @@ class post_layout_optimization_impl
         lyt.move_node(lyt.get_node(old_pos), old_pos, signals);
 
         // update children of fanouts
-        for (const auto& fanout : fanouts)
-        {
-            std::vector<mockturtle::signal<ObstrLyt>> fout_signals{};
-            fout_signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-            lyt.foreach_fanin(lyt.get_node(fanout),
-                              [&lyt, &fout_signals](const auto& i)
-                              {
-                                  auto fout = static_cast<tile<ObstrLyt>>(i);
-                                  fout_signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                              });
-
-            lyt.move_node(lyt.get_node(fanout), fanout, fout_signals);
-        }
+        update_fanout_children(lyt, fanouts, is_first_fanin_of_fanout);
     }
     /**
      * Utility function that moves gates to new coordinates and checks if routing is possible.
@@ -1080,7 +1106,7 @@ class post_layout_optimization_impl
     bool improve_gate_location(ObstrLyt& lyt, const tile<ObstrLyt>& old_pos) noexcept
     {
         const auto& [fanins, fanouts, to_clear, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
-                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2] =
+                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, is_first_fanin_of_fanout] =
             get_fanin_and_fanouts(lyt, old_pos);
 
         uint64_t min_x = 0;
@@ -1175,7 +1201,7 @@ class post_layout_optimization_impl
                 {
                     new_pos = tile<ObstrLyt>{x, y};
                     if (!check_new_position(lyt, new_pos, num_gate_relocations, current_pos, fanins, fanouts,
-                                            moved_gate, old_pos))
+                                            is_first_fanin_of_fanout, moved_gate, old_pos))
                     {
                         return false;
                     }
@@ -1193,7 +1219,7 @@ class post_layout_optimization_impl
         {
             restore_original_wiring(lyt, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
                                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, current_pos,
-                                    old_pos, fanouts);
+                                    old_pos, fanouts, is_first_fanin_of_fanout);
             return false;
         }
 
-- 
2.43.0


From 564e8fcbaea3fd733222891278cf8fe7ba792937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 40/80] fix: post-layout optimization merged the two
 connections between a pair of nodes

---
 .../physical_design/post_layout_optimization.hpp   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 8281e63..0bf4958 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -739,7 +739,8 @@ class post_layout_optimization_impl
         lyt.foreach_fanin(lyt.get_node(op),
                           [&lyt, &fanins_set, &op, &fanin1, &fanin2, &ffd, this](const auto& fin)
                           {
-                              auto fanin = static_cast<tile<ObstrLyt>>(fin);
+                              auto       fanin      = static_cast<tile<ObstrLyt>>(fin);
+                              const auto connection = fanin;
                               if (fanins_set.find(fanin) == fanins_set.cend())
                               {
 
@@ -768,14 +769,15 @@ class post_layout_optimization_impl
                                       fanin2 = fanin;
                                   }
 
-                                  fanins_set.insert(fanin);
+                                  fanins_set.insert(connection);
                               }
                           });
         // same for fanouts
         lyt.foreach_fanout(lyt.get_node(op),
                            [&lyt, &fanouts_set, &op, &fanout1, &fanout2, &ffd, this](const auto& fout)
                            {
-                               tile<ObstrLyt> fanout = lyt.get_tile(fout);
+                               tile<ObstrLyt> fanout     = lyt.get_tile(fout);
+                               const auto     connection = fanout;
 
                                if (fanouts_set.find(fanout) == fanouts_set.cend())
                                {
@@ -805,7 +807,7 @@ class post_layout_optimization_impl
                                        fanout2 = fanout;
                                    }
 
-                                   fanouts_set.insert(fanout);
+                                   fanouts_set.insert(connection);
                                }
                            });
 
@@ -969,7 +971,9 @@ class post_layout_optimization_impl
             if (!(!fanins.empty() && new_path_from_fanin_1_to_gate.empty()) &&
                 !(fanins.size() == 2 && new_path_from_fanin_2_to_gate.empty()) &&
                 !(!fanouts.empty() && new_path_from_gate_to_fanout_1.empty()) &&
-                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_2.empty()))
+                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_2.empty()) &&
+                !(fanins.size() == 2 && new_path_from_fanin_1_to_gate == new_path_from_fanin_2_to_gate) &&
+                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_1 == new_path_from_gate_to_fanout_2))
             {
                 for (const auto& path : {new_path_from_fanin_1_to_gate, new_path_from_fanin_2_to_gate,
                                          new_path_from_gate_to_fanout_1, new_path_from_gate_to_fanout_2})
-- 
2.43.0


From 1793830c6a0dd8300d3b30953905cbd34d93ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 41/80] fix: moving outputs to the border overwrote the nodes
 placed there

---
 .../algorithms/physical_design/post_layout_optimization.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 0bf4958..e83ea10 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -258,7 +258,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last row and move them one row down
     for (uint64_t x = 0; x < lyt.x(); ++x)
     {
-        if (lyt.is_po_tile({x, lyt.y() - 1, 0}))
+        if (lyt.is_po_tile({x, lyt.y() - 1, 0}) && lyt.is_empty_tile({x, lyt.y(), 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
@@ -281,7 +281,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last column and move them one column to the right
     for (uint64_t y = 0; y < lyt.y(); ++y)
     {
-        if (lyt.is_po_tile({lyt.x() - 1, y, 0}))
+        if (lyt.is_po_tile({lyt.x() - 1, y, 0}) && lyt.is_empty_tile({lyt.x(), y, 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
-- 
2.43.0


From 42c13701c18df54bc4be7e18c6f7622327d8abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 42/80] fix: outputs were left off the border by post-layout
 optimization although their way was free

---
 .../post_layout_optimization.hpp              | 65 ++++++++++---------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index e83ea10..bfe937d 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -346,8 +346,8 @@ void optimize_output_positions(Lyt& lyt) noexcept
 
 /**
  * Utility function that checks and optimizes PO positions after each gate relocation iteration.
- * This function moves POs that are not optimally positioned (e.g., in second rightmost or second bottom positions)
- * to the optimal border positions by inserting buffer gates where the POs were.
+ * This function moves POs that are not positioned at the rightmost or bottom border to these borders by inserting buffer
+ * gates where the POs were, if the tiles in between are empty.
  *
  * @tparam Lyt Cartesian gate-level layout type.
  * @param lyt Gate-level layout.
@@ -360,45 +360,50 @@ void check_and_optimize_po_positions(Lyt& lyt, uint64_t& moved_gates) noexcept
     lyt.foreach_po(
         [&lyt, &moved_gates](const auto& po) noexcept
         {
-            if (const auto tile = lyt.get_tile(lyt.get_node(po));
-                !(lyt.is_at_eastern_border(tile) || lyt.is_at_southern_border(tile)))
+            if (const auto po_tile = lyt.get_tile(lyt.get_node(po));
+                !(lyt.is_at_eastern_border(po_tile) || lyt.is_at_southern_border(po_tile)))
             {
-                if ((tile.x == lyt.x() - 1) && (lyt.is_empty_tile({lyt.x(), tile.y})))
+                // collect the tiles from the PO to the rightmost and to the bottom border
+                std::vector<tile<Lyt>> to_right{};
+                for (uint64_t x = po_tile.x + 1ull; x <= lyt.x(); ++x)
                 {
-                    // get fanin signal of the PO
-                    std::vector<mockturtle::signal<Lyt>> signals{};
-                    lyt.foreach_fanin(lyt.get_node(tile), [&signals](const auto& fanin) { signals.push_back(fanin); });
-
-                    // move PO to the rightmost border
-                    lyt.move_node(lyt.get_node(tile), {lyt.x(), tile.y, 0}, {});
+                    to_right.emplace_back(x, po_tile.y, 0);
+                }
+                std::vector<tile<Lyt>> to_bottom{};
+                for (uint64_t y = po_tile.y + 1ull; y <= lyt.y(); ++y)
+                {
+                    to_bottom.emplace_back(po_tile.x, y, 0);
+                }
 
-                    // create a buffer at the previous location of the PO and connect it with its fanin
-                    lyt.create_buf(signals[0], {lyt.x() - 1, tile.y});
+                const auto is_empty = [&lyt](const auto& t) { return lyt.is_empty_tile(t); };
 
-                    // connect the PO with the new buffer
-                    lyt.move_node(lyt.get_node({lyt.x(), tile.y}), {lyt.x(), tile.y, 0},
-                                  {lyt.make_signal(lyt.get_node({lyt.x() - 1, tile.y}))});
+                const auto extend_to_right = std::ranges::all_of(to_right, is_empty);
 
-                    --moved_gates;
-                }
-                else if ((tile.y == lyt.y() - 1) && (lyt.is_empty_tile({tile.x, lyt.y()})))
+                if (!extend_to_right && !std::ranges::all_of(to_bottom, is_empty))
                 {
-                    // get fanin signal of the PO
-                    std::vector<mockturtle::signal<Lyt>> signals{};
-                    lyt.foreach_fanin(lyt.get_node(tile), [&signals](const auto& fanin) { signals.push_back(fanin); });
+                    return;
+                }
 
-                    // move PO to the bottom border
-                    lyt.move_node(lyt.get_node(tile), {tile.x, lyt.y(), 0}, {});
+                const auto& extension = extend_to_right ? to_right : to_bottom;
 
-                    // create a buffer at the previous location of the PO and connect it with its fanin
-                    lyt.create_buf(signals[0], {tile.x, lyt.y() - 1});
+                // get fanin signal of the PO
+                std::vector<mockturtle::signal<Lyt>> signals{};
+                lyt.foreach_fanin(lyt.get_node(po_tile), [&signals](const auto& fanin) { signals.push_back(fanin); });
 
-                    // connect the PO with the new buffer
-                    lyt.move_node(lyt.get_node({tile.x, lyt.y()}), {tile.x, lyt.y(), 0},
-                                  {lyt.make_signal(lyt.get_node({tile.x, lyt.y() - 1}))});
+                // move PO to the border
+                lyt.move_node(lyt.get_node(po_tile), extension.back(), {});
 
-                    --moved_gates;
+                // create buffers from the previous location of the PO to the border and connect them with its fanin
+                auto signal = lyt.create_buf(signals[0], po_tile);
+                for (auto it = extension.cbegin(); it != extension.cend() - 1; ++it)
+                {
+                    signal = lyt.create_buf(signal, *it);
                 }
+
+                // connect the PO with the new buffers
+                lyt.move_node(lyt.get_node(extension.back()), extension.back(), {signal});
+
+                --moved_gates;
             }
         });
 
-- 
2.43.0


From 3c486bba9ca74df2f3cf4f647377b8c0af6f88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 43/80] fix: charge distribution surface wrote out of bounds
 for an external potential at a cell that is neither SiDB nor defect

---
 .../technology/charge_distribution_surface.hpp       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..63d6021 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -985,16 +985,16 @@ class charge_distribution_surface<Lyt, false> : public Lyt
 
         for (const auto& [c, external_pot] : strg->local_external_potential_map)
         {
-            if (strg->defects.find(c) == strg->defects.cend())
-            {
-                // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
-            }
-            else
+            if (strg->defects.find(c) != strg->defects.cend())
             {
                 // c is a defect
                 strg->local_ext_pot_at_defect[c] = external_pot;
             }
+            else if (const auto index = cell_to_index(c); index != -1)
+            {
+                // c is an SiDB
+                strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+            }
         }
     }
     /**
-- 
2.43.0


From d51f08b2b9c399a8559c974ee895b5e0a9163240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 44/80] fix: configuration stability weighted the internal
 potential by one half but the external one fully

---
 include/fiction/technology/charge_distribution_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 63d6021..8fdd3be 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1272,8 +1272,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         const auto hop_del =
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
-            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] + strg->local_int_pot[c1] -
+                   strg->local_int_pot[c2] - strg->pot_mat[c1][c2];
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From cd9ae292b084efda583e7220d26c34efc5146313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 45/80] fix: copy assignment of a charge distribution surface
 kept the old layout

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 8fdd3be..83ba668 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From abef49206c1023f2fedcfd9dbd7e2220fc2892d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 46/80] fix: QuickSim threads shared one random number
 generator without synchronization (data race, out-of-bounds state)

---
 include/fiction/technology/charge_distribution_surface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 83ba668..ae13a4d 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1598,7 +1598,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        // one generator per thread because this function is called concurrently, e.g., by *QuickSim*
+        thread_local std::mt19937_64            generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From 3238132d1eae8ef04a27d5b765e03d0829b8ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 47/80] fix: QuickExact reported stale energies and validity of
 the all-negative distribution under external potentials or other parameters

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..c00edbb 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -491,6 +491,7 @@ class quickexact_impl
 
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
+        charge_lyt.update_after_charge_change();
 
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
-- 
2.43.0


From 25eb27b915072b06306063f6073de3e3cf0a55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 48/80] fix: QuickExact missed distributions with positive
 charges when three-state simulation was detected but base 2 was given

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index c00edbb..c3c7045 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -286,6 +286,7 @@ class quickexact_impl
         else
         {
             result.additional_simulation_parameters.emplace("base_number", uint64_t{3});
+            charge_layout.assign_base_number(3);
             three_state_simulation(charge_layout);
         }
     }
-- 
2.43.0


From 617271f4fe8b4bc8cc40747e7369fa6d6e8c1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 49/80] fix: gate was reported as non-operational only due to
 kinks although another input pattern yields a wrong output

---
 .../simulation/sidb/is_operational.hpp        | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index c4f786e..df2ba33 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -1669,10 +1669,19 @@ template <typename Lyt, typename TT>
 
     detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks};
 
-    const auto [op_status, non_op_reason] = p.run();
+    if (p.run().first == operational_status::OPERATIONAL)
+    {
+        return false;
+    }
 
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    // the layout is non-operational if kinks are rejected. Kinks are the only reason for that if it is operational for
+    // all input patterns when they are tolerated
+    is_operational_params params_with_tolerating_kinks = params;
+    params_with_tolerating_kinks.op_condition          = is_operational_params::operational_condition::TOLERATE_KINKS;
+
+    detail::is_operational_impl<Lyt, TT> p_tolerating_kinks{lyt, spec, params_with_tolerating_kinks};
+
+    return p_tolerating_kinks.run().first == operational_status::OPERATIONAL;
 }
 
 /**
@@ -1720,18 +1729,29 @@ template <typename Lyt, typename TT>
         detail::is_operational_impl<Lyt, TT> p{
             lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire, canvas_lyt.value()};
 
-        const auto [op_status, non_op_reason] = p.run();
+        if (p.run().first == operational_status::OPERATIONAL)
+        {
+            return false;
+        }
+    }
+    else
+    {
+        detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire};
 
-        return op_status == operational_status::NON_OPERATIONAL &&
-               non_op_reason == detail::non_operationality_reason::KINKS;
+        if (p.run().first == operational_status::OPERATIONAL)
+        {
+            return false;
+        }
     }
 
-    detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire};
+    // the layout is non-operational if kinks are rejected. Kinks are the only reason for that if it is operational for
+    // all input patterns when they are tolerated
+    is_operational_params params_with_tolerating_kinks = params;
+    params_with_tolerating_kinks.op_condition          = is_operational_params::operational_condition::TOLERATE_KINKS;
 
-    const auto [op_status, non_op_reason] = p.run();
+    detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_tolerating_kinks, input_bdl_wire, output_bdl_wire};
 
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    return p.run().first == operational_status::OPERATIONAL;
 }
 
 }  // namespace fiction
-- 
2.43.0


From 719180f7f730791a0219cef3f4aa936eb8280bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 50/80] fix: input pattern with degenerate ground states was
 reported as non-operational only due to kinks although one of them yields a
 wrong output

---
 .../simulation/sidb/is_operational.hpp           | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index df2ba33..0ac5151 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -588,14 +588,28 @@ class is_operational_impl
 
             const auto ground_states = simulation_results.groundstates();
 
+            auto reason = non_operationality_reason::NONE;
+
             for (const auto& gs : ground_states)
             {
                 const auto [op_status, non_op_reason] = verify_logic_match_of_cds(gs, i);
                 if (op_status == operational_status::NON_OPERATIONAL)
                 {
-                    non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, non_op_reason);
+                    reason = non_op_reason;
+
+                    // degenerate ground states may be non-operational for different reasons. Kinks are only the reason
+                    // if none of the ground states violates the logic
+                    if (reason != non_operationality_reason::KINKS)
+                    {
+                        break;
+                    }
                 }
             }
+
+            if (reason != non_operationality_reason::NONE)
+            {
+                non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, reason);
+            }
         }
 
         // if we made it here, the layout is operational
-- 
2.43.0


From 8b45d4ccc7684f27eed56d5859c4e2c0f35ea939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 51/80] fix: time to solution ignored QuickSim runs without any
 result instead of counting them as failures

---
 .../simulation/sidb/time_to_solution.hpp           | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
index a7591f7..1c2f9c6 100644
--- a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
@@ -145,17 +145,9 @@ void time_to_solution(const Lyt& lyt, const quicksim_params& quicksim_params,
 
     for (auto i = 0u; i < tts_params.repetitions; ++i)
     {
-        if (const auto result = quicksim<Lyt>(lyt, quicksim_params))
-        {
-            if (!result.has_value())
-            {
-                simulation_results_quicksim.push_back(sidb_simulation_result<Lyt>{});
-            }
-            else
-            {
-                simulation_results_quicksim.push_back(*result);
-            }
-        }
+        // a run that does not find any physically valid charge distribution did not find the ground state either
+        simulation_results_quicksim.push_back(
+            quicksim<Lyt>(lyt, quicksim_params).value_or(sidb_simulation_result<Lyt>{}));
     }
 
     time_to_solution_for_given_simulation_results(simulation_result, simulation_results_quicksim,
-- 
2.43.0


From ffe41869b187ea38e78bf7e21c2ae9957e9b5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 52/80] fix: critical temperature from input pattern layouts
 aborted for absence-encoded inputs

---
 .../algorithms/simulation/sidb/critical_temperature.hpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
index 2280e71..82899af 100644
--- a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
+++ b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
@@ -187,7 +187,8 @@ class critical_temperature_impl
             return;
         }
 
-        assert(layout.num_pis() > 0 && "gate needs input cells");
+        // with absence-encoded inputs, the layout for input pattern 0 does not have any input cells
+        assert((layout.num_pis() > 0 || input_pattern_layouts != nullptr) && "gate needs input cells");
         assert(layout.num_pos() > 0 && "gate needs output cells");
 
         if (layout.num_cells() > 1)
-- 
2.43.0


From f8dca08b40ca8a6534adcf6205ba36bc442665c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 53/80] fix: tt_reader does not access memory out of bounds if
 there is nothing to read

---
 include/fiction/io/tt_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 6361a5f..83e3c74 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -58,7 +58,7 @@ class tt_reader
      */
     std::optional<TT> next()
     {
-        if (pos >= elements.size() - 1)
+        if (pos + 1 >= elements.size())
         {
             return std::nullopt;
         }
-- 
2.43.0


From 35432be72733b300d55f4730867a5e33fed5f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 54/80] fix: write_fgl_layout keeps the number of clocks of the
 clocking scheme

---
 include/fiction/io/write_fgl_layout.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 4f123ba..8ad18c4 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -5,6 +5,9 @@
 #ifndef FICTION_WRITE_FGL_LAYOUT_HPP
 #define FICTION_WRITE_FGL_LAYOUT_HPP
 
+// NOLINTBEGIN(misc-include-cleaner): get_clocking_scheme is looked up via two-phase name lookup
+#include "fiction/layouts/clocked_layout.hpp"
+// NOLINTEND(misc-include-cleaner)
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
@@ -147,7 +150,16 @@ class write_fgl_layout_impl
 
         os << fcn::OPEN_CLOCKING;
         const auto clocking_scheme = lyt.get_clocking_scheme();
-        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme.name);
+        std::string clocking_scheme_name{clocking_scheme.name};
+
+        // the plain name of a clocking scheme stands for its default number of clocks; all others need a suffix
+        if (const auto default_scheme = get_clocking_scheme<Lyt>(clocking_scheme_name);
+            default_scheme.has_value() && default_scheme->num_clocks != clocking_scheme.num_clocks)
+        {
+            clocking_scheme_name += fmt::format("{}", static_cast<unsigned>(clocking_scheme.num_clocks));
+        }
+
+        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme_name);
 
         // if clocking scheme is irregular, overwrite clock zones
         if (!clocking_scheme.is_regular())
-- 
2.43.0


From 8c67d792ebc6d7fbef74288e1c5ea4c91f2beca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 55/80] fix: write_fgl_layout escapes special characters in
 names

---
 include/fiction/io/write_fgl_layout.hpp |  8 ++--
 include/fiction/utils/xml_utils.hpp     | 63 +++++++++++++++++++++++++
 2 files changed, 68 insertions(+), 3 deletions(-)
 create mode 100644 include/fiction/utils/xml_utils.hpp

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 8ad18c4..25b2f23 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -11,6 +11,7 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/chrono.h>
 #include <fmt/format.h>
@@ -99,7 +100,7 @@ class write_fgl_layout_impl
         os << fmt::format(fcn::FICTION_METADATA, FICTION_VERSION, FICTION_REPO, time_str);
 
         os << fcn::OPEN_LAYOUT_METADATA;
-        const std::string layout_name{get_name(lyt)};
+        const std::string layout_name{escape_xml(get_name(lyt))};
 
         // check if topology matches Lyt
         std::string topology{};
@@ -190,7 +191,7 @@ class write_fgl_layout_impl
             {
                 const auto coord = lyt.get_tile(gate);
                 os << fcn::OPEN_GATE;
-                os << fmt::format(fcn::GATE, gate_id, "PI", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                os << fmt::format(fcn::GATE, gate_id, "PI", escape_xml(lyt.get_name(gate)), coord.x, coord.y, coord.z);
                 os << fcn::CLOSE_GATE;
                 gate_id++;
             });
@@ -207,7 +208,8 @@ class write_fgl_layout_impl
 
                     if (lyt.is_po(gate))
                     {
-                        os << fmt::format(fcn::GATE, gate_id, "PO", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                        os << fmt::format(fcn::GATE, gate_id, "PO", escape_xml(lyt.get_name(gate)), coord.x, coord.y,
+                                          coord.z);
                     }
                     else if (lyt.is_wire(gate))
                     {
diff --git a/include/fiction/utils/xml_utils.hpp b/include/fiction/utils/xml_utils.hpp
new file mode 100644
index 0000000..914268f
--- /dev/null
+++ b/include/fiction/utils/xml_utils.hpp
@@ -0,0 +1,63 @@
+#ifndef FICTION_XML_UTILS_HPP
+#define FICTION_XML_UTILS_HPP
+
+#include <string>
+#include <string_view>
+
+namespace fiction
+{
+
+/**
+ * Replaces all characters that have a special meaning in XML documents by their predefined entities such that the
+ * result can be used as the text of an element or as the value of an attribute.
+ *
+ * @param str The string to escape.
+ * @return The escaped string.
+ */
+[[nodiscard]] inline std::string escape_xml(const std::string_view& str)
+{
+    std::string escaped{};
+    escaped.reserve(str.size());
+
+    for (const auto c : str)
+    {
+        switch (c)
+        {
+            case '&':
+            {
+                escaped += "&amp;";
+                break;
+            }
+            case '<':
+            {
+                escaped += "&lt;";
+                break;
+            }
+            case '>':
+            {
+                escaped += "&gt;";
+                break;
+            }
+            case '"':
+            {
+                escaped += "&quot;";
+                break;
+            }
+            case '\'':
+            {
+                escaped += "&apos;";
+                break;
+            }
+            default:
+            {
+                escaped += c;
+            }
+        }
+    }
+
+    return escaped;
+}
+
+}  // namespace fiction
+
+#endif  // FICTION_XML_UTILS_HPP
-- 
2.43.0


From 122350ffe2a4eb73338dfef4913f6c62b31787f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 56/80] fix: read_fqca_layout keeps the white space of cell
 labels

---
 include/fiction/io/read_fqca_layout.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fiction/io/read_fqca_layout.hpp b/include/fiction/io/read_fqca_layout.hpp
index 6afa7aa..328bfeb 100644
--- a/include/fiction/io/read_fqca_layout.hpp
+++ b/include/fiction/io/read_fqca_layout.hpp
@@ -74,7 +74,8 @@ inline const std::regex RE_WHITE_SPACE{R"(\s)"};
 inline const std::regex RE_COMMENT{R"(\[.*\]$)"};
 inline const std::regex RE_LAYER_SEPARATOR{R"(^=+$)"};
 inline const std::regex RE_CELL_DEFINITION_ID{R"(^(\w)\:$)"};              // group 1 is the id
-inline const std::regex RE_CELL_DEFINITION_LABEL{R"(^-label=\"(.*)\"$)"};  // group 1 is the label
+inline const std::regex RE_CELL_DEFINITION_LABEL{
+    R"(^\s*-\s*label\s*=\s*\"(.*)\"\s*$)"};                                // group 1 is the label incl. white space
 inline const std::regex RE_CELL_DEFINITION_CLOCK{R"(^-clock=(\d)$)"};      // group 1 is the clock number
 inline const std::regex RE_CELL_DEFINITION_NUMBER{R"(^-number=(\d+)$)"};   // group 1 is the number
 inline const std::regex RE_CELL_DEFINITION_OFFSET{
@@ -175,8 +176,8 @@ class read_fqca_layout_impl
                         {
                             lyt.assign_cell_type(current_labeled_cell, technology<Lyt>::cell_type::OUTPUT);
                         }
-                        // if line indicates a cell label
-                        else if (std::regex_match(substituted_line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
+                        // if line indicates a cell label (white space is part of the label and, thus, must not be removed)
+                        else if (std::regex_match(line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
                         {
                             // the cell label is captured in the first regex group
                             const auto cell_label = sm.str(1);
-- 
2.43.0


From c950e7a8fe869a6c2b63094717465dd451d1187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 57/80] fix: arsenic defects survive being written to and read
 from SQD files

---
 include/fiction/io/read_sqd_layout.hpp  | 1 +
 include/fiction/io/write_sqd_layout.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index 4fb4202..9a931a1 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -348,6 +348,7 @@ class read_sqd_layout_impl
              {"etch_pit", sidb_defect_type::ETCH_PIT},
              {"step_edge", sidb_defect_type::STEP_EDGE},
              {"gunk", sidb_defect_type::GUNK},
+             {"arsenic", sidb_defect_type::ARSENIC},
              {"unknown", sidb_defect_type::UNKNOWN}}};
 
         std::string name{label};
diff --git a/include/fiction/io/write_sqd_layout.hpp b/include/fiction/io/write_sqd_layout.hpp
index 846116f..2caf1d2 100644
--- a/include/fiction/io/write_sqd_layout.hpp
+++ b/include/fiction/io/write_sqd_layout.hpp
@@ -177,6 +177,7 @@ inline const std::unordered_map<sidb_defect_type, const char*> defect_type_to_na
      {sidb_defect_type::ETCH_PIT, "Etch_Pit"},
      {sidb_defect_type::STEP_EDGE, "Step_Edge"},
      {sidb_defect_type::GUNK, "Gunk"},
+     {sidb_defect_type::ARSENIC, "Arsenic"},
      {sidb_defect_type::UNKNOWN, "Unknown"}}};
 
 }  // namespace siqad
-- 
2.43.0


From 2830155139bdb8f185aee36802d2caa9f2bb038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 58/80] fix: read_fgl_layout assigns the clock zones of
 irregular clocking schemes to crossing layers, too

---
 include/fiction/io/read_fgl_layout.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/read_fgl_layout.hpp b/include/fiction/io/read_fgl_layout.hpp
index 4aa43db..9582ca9 100644
--- a/include/fiction/io/read_fgl_layout.hpp
+++ b/include/fiction/io/read_fgl_layout.hpp
@@ -298,7 +298,11 @@ class read_fgl_layout_impl
                                 throw fgl_parsing_error("Error parsing FGL file: no element 'clock' in 'zone'");
                             }
 
-                            lyt.assign_clock_number({x_coord, y_coord}, clock);
+                            // clock zones extend through all layers such that crossings belong to them, too
+                            for (int z_coord = 0; z_coord <= static_cast<int>(lyt.z()); ++z_coord)
+                            {
+                                lyt.assign_clock_number({x_coord, y_coord, z_coord}, clock);
+                            }
                         }
                     }
                     else if (std::ranges::find(open_clocking_schemes,
-- 
2.43.0


From c81d38b0a77d3f0030ccc5e99355d6800e6c9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:32 +0000
Subject: [PATCH 59/80] fix: apply_gate_library keeps the number of clocks of
 the clocking scheme

---
 .../physical_design/apply_gate_library.hpp        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/apply_gate_library.hpp b/include/fiction/algorithms/physical_design/apply_gate_library.hpp
index e758fe4..454d9fb 100644
--- a/include/fiction/algorithms/physical_design/apply_gate_library.hpp
+++ b/include/fiction/algorithms/physical_design/apply_gate_library.hpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <string>
 #include <type_traits>
 
 // data types cannot properly be converted to bit field types
@@ -55,8 +56,18 @@ class apply_gate_library_impl
         // otherwise, try to find a matching clocking scheme (this will discard overwritten clock numbers)
         else
         {
-            if (const auto clk_scheme = get_clocking_scheme<CellLyt>(gate_lyt.get_clocking_scheme().name);
-                clk_scheme.has_value())
+            const auto gate_lyt_clk_scheme = gate_lyt.get_clocking_scheme();
+
+            std::string clk_scheme_name{gate_lyt_clk_scheme.name};
+
+            // the plain name of a clocking scheme stands for its default number of clocks; all others need a suffix
+            if (const auto default_clk_scheme = get_clocking_scheme<CellLyt>(clk_scheme_name);
+                default_clk_scheme.has_value() && default_clk_scheme->num_clocks != gate_lyt_clk_scheme.num_clocks)
+            {
+                clk_scheme_name += std::to_string(gate_lyt_clk_scheme.num_clocks);
+            }
+
+            if (const auto clk_scheme = get_clocking_scheme<CellLyt>(clk_scheme_name); clk_scheme.has_value())
             {
                 cell_lyt.replace_clocking_scheme(clk_scheme.value());
             }
-- 
2.43.0


From c8eb24d9092a9a6206011cd00e6d049f7a75b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:32 +0000
Subject: [PATCH 60/80] fix: magcad_magnet_count counts chains of four
 inverters as a single magnet

---
 include/fiction/technology/magcad_magnet_count.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/magcad_magnet_count.hpp b/include/fiction/technology/magcad_magnet_count.hpp
index 78bf58d..597141b 100644
--- a/include/fiction/technology/magcad_magnet_count.hpp
+++ b/include/fiction/technology/magcad_magnet_count.hpp
@@ -39,7 +39,7 @@ uint64_t magcad_magnet_count(const Lyt& lyt) noexcept
             }
         });
 
-    return lyt.num_cells() + (num_inv_cells / 4);
+    return lyt.num_cells() - num_inv_cells + (num_inv_cells / 4);
 }
 
 }  // namespace fiction
-- 
2.43.0


From aeecedef0520ea5bc0c56369921711284691f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 61/80] fix: contour tracing follows the whole contour of thin
 operational areas and of areas at the border of the parameter range

---
 .../simulation/sidb/operational_domain.hpp    | 51 +++++++++----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1011e2e..334318d 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -883,40 +883,39 @@ class operational_domain_impl
             // operational area `starting_point` is located in
             phmap::btree_set<step_point> contour{contour_starting_point};
 
-            const auto x = current_contour_point.step_values.at(0);
-            const auto y = current_contour_point.step_values.at(1);
-
-            auto backtrack_point = x == 0 ? current_contour_point : step_point{{x - 1, y}};
-
             auto current_neighborhood = moore_neighborhood_2d(current_contour_point);
 
-            auto next_point = contour_starting_point;
-
             if (!current_neighborhood.empty())
             {
-                next_point = current_contour_point == backtrack_point ?
-                                 current_neighborhood.front() :
-                                 next_clockwise_point(current_neighborhood, backtrack_point);
-            }
+                const auto x = current_contour_point.step_values.at(0);
+                const auto y = current_contour_point.step_values.at(1);
 
-            while (next_point != contour_starting_point)
-            {
-                const auto operational_status = is_step_point_operational(next_point);
+                // the trace enters the contour from the left. If there is no point to the left, it enters from the last
+                // point that precedes the left neighbor in clockwise order
+                const auto initial_backtrack_point = x > 0 ? step_point{{x - 1, y}} :
+                                                     y > 0 ? step_point{{x, y - 1}} :
+                                                             current_neighborhood.front();
 
-                if (operational_status == operational_status::OPERATIONAL)
-                {
-                    backtrack_point       = current_contour_point;
-                    current_contour_point = next_point;
+                auto backtrack_point = initial_backtrack_point;
 
-                    contour.insert(current_contour_point);
-                }
-                else
-                {
-                    backtrack_point = next_point;
-                }
+                // the contour can pass through its starting point several times. It is only complete when the starting
+                // point is entered in the same way as initially (Jacob's stopping criterion)
+                do {
+                    const auto next_point = next_clockwise_point(current_neighborhood, backtrack_point);
+
+                    if (is_step_point_operational(next_point) == operational_status::OPERATIONAL)
+                    {
+                        backtrack_point       = current_contour_point;
+                        current_contour_point = next_point;
+                        current_neighborhood  = moore_neighborhood_2d(current_contour_point);
 
-                current_neighborhood = moore_neighborhood_2d(current_contour_point);
-                next_point           = next_clockwise_point(current_neighborhood, backtrack_point);
+                        contour.insert(current_contour_point);
+                    }
+                    else
+                    {
+                        backtrack_point = next_point;
+                    }
+                } while (current_contour_point != contour_starting_point || backtrack_point != initial_backtrack_point);
             }
 
             infer_operational_status_in_enclosing_contour(starting_point, contour);
-- 
2.43.0


From 09c1260dbda178d201b0d13dbeca8ab7e068e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 62/80] fix: parameter points given to operational_domain_ratio
 are matched to the closest step

---
 .../simulation/sidb/operational_domain.hpp    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 334318d..0a30acf 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -1320,16 +1320,23 @@ class operational_domain_impl
 
         for (auto d = 0u; d < num_dimensions; ++d)
         {
-            // Ensure the parameter is within the valid range
-            [[maybe_unused]] const auto min_val = values.at(d).front();
-            [[maybe_unused]] const auto max_val = values.at(d).back();
+            const auto& dim_values = values.at(d);
+            const auto  val        = pp.get_parameters().at(d);
 
-            assert(pp.get_parameters().at(d) >= min_val && pp.get_parameters().at(d) <= max_val &&
+            // Ensure the parameter is within the valid range; the step values are subject to rounding
+            assert(val >= dim_values.front() - (params.sweep_dimensions.at(d).step / 2) &&
+                   val <= dim_values.back() + (params.sweep_dimensions.at(d).step / 2) &&
                    "Parameter point is outside of the value range");
 
-            const auto it = std::ranges::lower_bound(values.at(d), pp.get_parameters().at(d));
+            // find the closest step value
+            auto it = std::ranges::lower_bound(dim_values, val);
 
-            const auto dis = std::distance(values.at(d).cbegin(), it);
+            if (it == dim_values.cend() || (it != dim_values.cbegin() && val - *std::prev(it) < *it - val))
+            {
+                --it;
+            }
+
+            const auto dis = std::distance(dim_values.cbegin(), it);
 
             step_values.push_back(static_cast<std::size_t>(dis));
         }
-- 
2.43.0


From 2b49ea865e7f5915d1e6d3f4575dd7426f863c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 63/80] fix: foreach_fanout of gate-level layouts ignored a
 functor's request to stop and always passed index 0

---
 include/fiction/layouts/gate_level_layout.hpp | 32 +++++++------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 0b9d140..c5ebb86 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1161,14 +1161,9 @@ class gate_level_layout : public ClockedLayout
      * @param n Node whose fanouts are desired.
      * @param fn Functor to apply to each of `n`'s fanouts.
      */
-    // fn is captured by reference into fanout_collector, which may be invoked up to three times below (once per
-    // adjacent tile); it is forwarded on each of those calls
     template <typename Fn, bool RespectClocking = true>
-    // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
     void foreach_fanout(const node n, Fn&& fn) const
     {
-        // `fn` is captured by reference into nested lambdas invoked zero to several times (once per fanout tile); it
-        // is forwarded exactly once at its actual call site further down, not at this outer parameter.
         if (n <= 1)
         {  // const-0 or const-1
             return;
@@ -1176,35 +1171,28 @@ class gate_level_layout : public ClockedLayout
 
         const auto nt = get_tile(n);
 
-        auto fanout_collector = [this, &fn, &nt](const auto& out_t)
-        {
-            const auto apply_functor = [this, &fn](const auto& parent_t)
-            {
-                const auto parent_index = node_to_index(parent_t);
-                auto       parents      = mockturtle::range(parent_index, parent_index + 1);
-                using iterator_type     = decltype(parents.begin());
-                mockturtle::detail::foreach_element_transform<iterator_type, node>(
-                    parents.begin(), parents.end(), [this](const auto& p) -> node { return index_to_node(p); },
-                    std::forward<Fn>(fn));
-            };
+        // gather the fanouts first so that `fn` is called with consecutive indices and can terminate the iteration
+        std::vector<node> fanouts{};
 
-            const auto apply_if_parent = [this, &nt, &apply_functor](const auto& adj_t)
+        auto fanout_collector = [this, &fanouts, &nt](const auto& out_t)
+        {
+            const auto collect_if_parent = [this, &fanouts, &nt](const auto& adj_t)
             {
                 if (const auto adj_n = get_node(adj_t); is_child(adj_n, static_cast<signal>(nt)))
                 {
-                    apply_functor(adj_n);
+                    fanouts.push_back(adj_n);
                 }
             };
 
-            apply_if_parent(out_t);
+            collect_if_parent(out_t);
 
             if (const auto above_t = ClockedLayout::above(out_t); above_t != out_t)
             {
-                apply_if_parent(above_t);
+                collect_if_parent(above_t);
             }
             if (const auto below_t = ClockedLayout::below(out_t); below_t != out_t)
             {
-                apply_if_parent(below_t);
+                collect_if_parent(below_t);
             }
         };
 
@@ -1216,6 +1204,8 @@ class gate_level_layout : public ClockedLayout
         {
             ClockedLayout::foreach_adjacent_coordinate(nt, std::move(fanout_collector));
         }
+
+        mockturtle::detail::foreach_element(fanouts.cbegin(), fanouts.cend(), std::forward<Fn>(fn));
     }
     /**
      * Returns a container that contains all tiles that accept information from the given one. Thereby,
-- 
2.43.0


From dd457af47ab3da559687f997b891553cbf6c0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 64/80] fix: symmetry breaking made clock assignments of
 layouts with fan-outs unsatisfiable

---
 .../physical_design/determine_clocking.hpp    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/determine_clocking.hpp b/include/fiction/algorithms/physical_design/determine_clocking.hpp
index 1667edc..4c33ed9 100644
--- a/include/fiction/algorithms/physical_design/determine_clocking.hpp
+++ b/include/fiction/algorithms/physical_design/determine_clocking.hpp
@@ -268,20 +268,26 @@ class sat_clocking_handler
      */
     void symmetry_breaking() noexcept
     {
-        const std::function<void(const mockturtle::node<Lyt>& n)> recurse =
-            [this, &recurse, clk = 0](const auto& n) mutable
+        const std::function<void(const mockturtle::node<Lyt>& n, const unsigned clk)> recurse =
+            [this, &recurse](const auto& n, const auto clk)
         {
             const auto t = layout.get_tile(n);
 
             // pre-assign tile t to clock number clk
-            solver.add_clause(variables[{t, clk++ % number_of_clocks}]);
+            solver.add_clause(variables[{t, static_cast<typename Lyt::clock_number_t>(clk % number_of_clocks)}]);
+
+            bool first_fanout = true;
 
             layout.foreach_fanout(n,
-                                  [&recurse](auto const& fon)
+                                  [&recurse, &clk, &first_fanout](auto const& fon)
                                   {
-                                      recurse(fon);
+                                      // only follow a single path; all others are constrained by the information flow
+                                      if (first_fanout)
+                                      {
+                                          first_fanout = false;
 
-                                      return false;  // terminate after one iteration
+                                          recurse(fon, clk + 1);
+                                      }
                                   });
         };
 
@@ -289,7 +295,7 @@ class sat_clocking_handler
         layout.foreach_pi(
             [&recurse](const auto& pi)
             {
-                recurse(pi);
+                recurse(pi, 0u);
 
                 return false;  // terminate after one iteration
             });
-- 
2.43.0


From d032e8710bed11b23a55a3f99cab21546c37df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 65/80] fix: exact's area bound overflowed for the default
 upper bounds in x and y

---
 include/fiction/algorithms/physical_design/exact.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index baedbd9..8e3d03d 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -195,7 +195,7 @@ class exact_impl
         // NOLINTNEXTLINE(*-prefer-member-initializer)
         ari = aspect_ratio_iterator<typename Lyt::aspect_ratio>{
             ps.fixed_size ? std::min(static_cast<uint64_t>(ps.upper_bound_area),
-                                     static_cast<uint64_t>(ps.upper_bound_x * ps.upper_bound_y)) :
+                                     static_cast<uint64_t>(ps.upper_bound_x) * static_cast<uint64_t>(ps.upper_bound_y)) :
                             static_cast<uint64_t>(lower_bound)};
     }
 
@@ -3095,7 +3095,7 @@ class exact_impl
         smt_handler handler{std::make_shared<z3::context>(), layout, *ntk, ps, black_list};
 
         const auto upper_bound = std::min(static_cast<uint64_t>(ps.upper_bound_area),
-                                          static_cast<uint64_t>(ps.upper_bound_x * ps.upper_bound_y));
+                                          static_cast<uint64_t>(ps.upper_bound_x) * static_cast<uint64_t>(ps.upper_bound_y));
 
         for (; ari <= upper_bound; ++ari)  // <= to prevent overflow
         {
-- 
2.43.0


From 780dbcd7f10b0a60de20a2b29848ca040fd159e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 66/80] fix: exact skipped rotated aspect ratios for hexagonal
 layouts and black-listed tiles, which are not symmetric

---
 include/fiction/algorithms/physical_design/exact.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 8e3d03d..8457aa4 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -302,10 +302,13 @@ class exact_impl
             // OPEN clocking optimization
             if (!layout.is_regularly_clocked())
             {
-                // rotated aspect ratios don't need to be explored
-                if (ar.x != ar.y && ar.x == layout.y() && ar.y == layout.x())
+                // rotated aspect ratios don't need to be explored if the topology is symmetric and no tile is special
+                if constexpr (is_cartesian_layout_v<Lyt>)
                 {
-                    return true;
+                    if (black_list.empty() && ar.x != ar.y && ar.x == layout.y() && ar.y == layout.x())
+                    {
+                        return true;
+                    }
                 }
             }
             // Columnar clocking optimization
-- 
2.43.0


From 5823de2b3ebeebceb8ca04a72e75f1ff603114a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 67/80] fix: a black-listed orientation of a gate excluded all
 orientations that share a port with it

---
 include/fiction/algorithms/physical_design/exact.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index 8457aa4..5b21c25 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -2446,7 +2446,7 @@ class exact_impl
                                         for (const auto& p : ports)
                                         {
                                             solver->add(
-                                                z3::implies(get_tn(t, n), z3::mk_and(gather_black_list_expr(p, t))));
+                                                z3::implies(get_tn(t, n), z3::mk_or(gather_black_list_expr(p, t))));
                                         }
                                     }
                                 }
@@ -2468,7 +2468,7 @@ class exact_impl
                                              for (const auto& p : ports)
                                              {
                                                  solver->add(z3::implies(get_te(t, e),
-                                                                         z3::mk_and(gather_black_list_expr(p, t))));
+                                                                         z3::mk_or(gather_black_list_expr(p, t))));
                                              }
                                          }
                                      });
-- 
2.43.0


From f011e2cf284a700fc685ef7d76815727de65ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 68/80] fix: randomized PI spacing did not depend on the seed
 in later runs and never used small distances

---
 .../graph_oriented_layout_design.hpp          | 44 +++++++------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index ea67f70..04c8547 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -502,6 +502,11 @@ struct search_space_graph
      */
     graph_oriented_layout_design_params::cost_objective cost =
         graph_oriented_layout_design_params::cost_objective::AREA;
+    /**
+     * Random number generator for the number of tiles to skip between PIs. Each search space graph has its own one
+     * because they might be expanded by different threads.
+     */
+    std::mt19937 rng{};
 };
 /**
  * @brief Custom view class derived from mockturtle::topo_view.
@@ -1111,29 +1116,6 @@ class graph_oriented_layout_design_impl
      * Thread pool for multithreaded execution to avoid thread creation overhead.
      */
     mutable std::vector<std::future<std::optional<Lyt>>> futures_pool{};
-    /**
-     * Get thread-local random number generator for `tiles_to_skip_between_pis` randomization.
-     * Each thread will have its own RNG to avoid mutex contention.
-     *
-     * @return Reference to a thread-local Mersenne Twister random number generator.
-     */
-    [[nodiscard]] std::mt19937& get_thread_local_rng() const
-    {
-        thread_local std::mt19937 rng{seed};
-        return rng;
-    }
-    /**
-     * Get thread-local distribution for generating random `tiles_to_skip_between_pis` values.
-     *
-     * @return Reference to a thread-local uniform integer distribution for generating random skip values.
-     */
-    [[nodiscard]] std::uniform_int_distribution<uint64_t>& get_thread_local_dist() const
-    {
-        // Handle edge case where tiles_to_skip_between_pis is 0
-        const auto min_val = ps.tiles_to_skip_between_pis > 0 ? ps.tiles_to_skip_between_pis - 1 : 0;
-        thread_local std::uniform_int_distribution<uint64_t> dist{min_val, ps.tiles_to_skip_between_pis};
-        return dist;
-    }
     /**
      * Determines the number of search space graphs to generate based on the selected effort mode and cost objective.
      *
@@ -1235,10 +1217,12 @@ class graph_oriented_layout_design_impl
      * @param layout The layout in which to find the possible positions for PIs.
      * @param pi_locs Struct indicating if PIs are allowed at the top or left side of the layout.
      * @param num_expansions The maximum number of positions to be returned (is doubled for PIs).
+     * @param rng Random number generator for the number of tiles to skip.
      * @return A vector of tiles representing the possible positions for PIs.
      */
     [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions_pis(ObstrLyt& layout, const pi_locations& pi_locs,
-                                                                      const uint64_t num_expansions) noexcept
+                                                                      const uint64_t num_expansions,
+                                                                      std::mt19937&  rng) noexcept
     {
         uint64_t count_expansions = 0ul;
 
@@ -1250,8 +1234,8 @@ class graph_oriented_layout_design_impl
         {
             if (ps.randomize_tiles_to_skip_between_pis)
             {
-                // generate random skip_tiles for each PI placement using thread-local RNG
-                skip_tiles = get_thread_local_dist()(get_thread_local_rng());
+                // generate random skip_tiles for each PI placement
+                skip_tiles = std::uniform_int_distribution<uint64_t>{0ull, ps.tiles_to_skip_between_pis}(rng);
             }
             else
             {
@@ -1559,15 +1543,15 @@ class graph_oriented_layout_design_impl
      * @param ssg The search space graph.
      * @return A vector of tiles representing the possible positions for the current node.
      */
-    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                           layout,
-                                                                  const search_space_graph<ObstrLyt>& ssg,
+    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                       layout,
+                                                                  search_space_graph<ObstrLyt>&   ssg,
                                                                   const placement_info<ObstrLyt>& place_info) noexcept
     {
         const auto fc = fanins(ssg.network, ssg.nodes_to_place[place_info.current_node]);
 
         if (ssg.network.is_pi(ssg.nodes_to_place[place_info.current_node]))
         {
-            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis());
+            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis(), ssg.rng);
         }
         if (ssg.network.is_po(ssg.nodes_to_place[place_info.current_node]))
         {
@@ -2202,6 +2186,8 @@ class graph_oriented_layout_design_impl
             ++idx;  // move to next pattern element
 
             graph.cost_so_far[graph.current_vertex] = 0;
+
+            graph.rng.seed(seed);
         }
     }
     /**
-- 
2.43.0


From 58c4da8631ae45af4768b62e862fc6a0dbcbe228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 69/80] fix: relocating outputs bent inverters that are
 connected to them by wires although straight inverters were requested

---
 .../physical_design/graph_oriented_layout_design.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index 04c8547..28cf7da 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -2051,8 +2051,16 @@ class graph_oriented_layout_design_impl
                     layout.foreach_po(
                         [&layout, &apply_plo](const auto& gate)
                         {
-                            if (const auto coord = layout.get_tile(layout.get_node(gate));
-                                layout.is_inv(layout.get_node(layout.incoming_data_flow(coord).front())))
+                            auto coord = layout.incoming_data_flow(layout.get_tile(layout.get_node(gate))).front();
+
+                            // relocating the PO would reroute the entire wire segment back to its driver
+                            while (layout.is_wire_tile(coord) && !layout.is_fanout(layout.get_node(coord)) &&
+                                   !layout.is_pi_tile(coord))
+                            {
+                                coord = layout.incoming_data_flow(coord).front();
+                            }
+
+                            if (layout.is_inv(layout.get_node(coord)))
                             {
                                 apply_plo = false;
                             }
-- 
2.43.0


From 67a9208765f7181064f42e11299a021560f95035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 70/80] fix: layouts with empty columns could not be written as
 QLL/QCC files although their pins are at the borders

---
 include/fiction/io/write_qcc_layout.hpp | 2 +-
 include/fiction/io/write_qll_layout.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_qcc_layout.hpp b/include/fiction/io/write_qcc_layout.hpp
index a4e813a..3a50e08 100644
--- a/include/fiction/io/write_qcc_layout.hpp
+++ b/include/fiction/io/write_qcc_layout.hpp
@@ -186,7 +186,7 @@ class write_qcc_layout_impl
         lyt.foreach_po(
             [this, &all_border_pins](const auto& po)
             {
-                if (bb_x(po) != lyt.x())
+                if (bb_x(po) != bb.get_x_size())
                 {
                     all_border_pins = false;
                     return false;  // break iteration
diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 85bdd64..7cbcf4f 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -205,7 +205,7 @@ class write_qll_layout_impl
         lyt.foreach_po(
             [this, &all_border_pins](const auto& po)
             {
-                if (bb_x(po) != lyt.x())
+                if (bb_x(po) != bb.get_x_size())
                 {
                     all_border_pins = false;
                     return false;  // break iteration
-- 
2.43.0


From 31ae7e220ed47f4a6a9eee2911f655346e269828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 71/80] fix: QLL files placed the I/O pins of crossing layers
 in via layers

---
 include/fiction/io/write_qll_layout.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 7cbcf4f..fd40768 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -261,15 +261,29 @@ class write_qll_layout_impl
         os << qll::CLOSE_COMPONENTS;
     }
 
+    /**
+     * Returns the layer of the given I/O cell in the QLL file, where the (mol)QCA layers are interleaved with layers for
+     * via cells.
+     *
+     * @param c I/O cell.
+     * @return Layer of `c` in the QLL file.
+     */
+    [[nodiscard]] static auto pin_layer(const cell<Lyt>& c) noexcept
+    {
+        return has_inml_technology_v<Lyt> ? c.z : c.z * 2;
+    }
+
     void write_pins()
     {
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi), pi.z);
+            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi),
+                              pin_layer(pi));
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po), po.z);
+            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po),
+                              pin_layer(po));
         }
     }
 
-- 
2.43.0


From c50d43eff270858aacf826c7281bf219584bdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 72/80] fix: names with special characters made QLL and QCC
 files malformed

---
 include/fiction/io/write_qcc_layout.hpp | 10 ++++++----
 include/fiction/io/write_qll_layout.hpp |  5 +++--
 include/fiction/utils/xml_utils.hpp     |  8 ++------
 3 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/fiction/io/write_qcc_layout.hpp b/include/fiction/io/write_qcc_layout.hpp
index 3a50e08..396d06b 100644
--- a/include/fiction/io/write_qcc_layout.hpp
+++ b/include/fiction/io/write_qcc_layout.hpp
@@ -11,6 +11,7 @@
 #include "fiction/traits.hpp"
 #include "fiction/types.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/format.h>
 
@@ -236,8 +237,9 @@ class write_qcc_layout_impl
     {
         os << fmt::format(qcc::VERSION_HEADER, FICTION_VERSION, FICTION_REPO);
         os << fmt::format(qcc::OPEN_QCA_COMPONENT, tech_impl_name<technology<Lyt>>, qcc::LIBRARY_NAME,
-                          ps.use_filename_as_component_name ? std::filesystem::path{ps.filename}.stem().string() :
-                                                              lyt.get_layout_name(),
+                          escape_xml(ps.use_filename_as_component_name ?
+                                         std::filesystem::path{ps.filename}.stem().string() :
+                                         lyt.get_layout_name()),
                           generate_layout_id_hash(), bb.get_x_size(), bb.get_y_size(), num_magnets);
     }
 
@@ -247,11 +249,11 @@ class write_qcc_layout_impl
 
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, lyt.get_cell_name(pi), 0, bb_x(pi), bb_y(pi));
+            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, escape_xml(lyt.get_cell_name(pi)), 0, bb_x(pi), bb_y(pi));
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, lyt.get_cell_name(po), 1, bb_x(po), bb_y(po));
+            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, escape_xml(lyt.get_cell_name(po)), 1, bb_x(po), bb_y(po));
         }
         os << qcc::CLOSE_ENTITY;
     }
diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index fd40768..4d848a3 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -9,6 +9,7 @@
 #include "fiction/technology/cell_technologies.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/format.h>
 
@@ -277,12 +278,12 @@ class write_qll_layout_impl
     {
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi),
+            os << fmt::format(qll::PIN, tech_name, escape_xml(lyt.get_cell_name(pi)), 0, cell_id++, bb_x(pi), bb_y(pi),
                               pin_layer(pi));
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po),
+            os << fmt::format(qll::PIN, tech_name, escape_xml(lyt.get_cell_name(po)), 1, cell_id++, bb_x(po), bb_y(po),
                               pin_layer(po));
         }
     }
diff --git a/include/fiction/utils/xml_utils.hpp b/include/fiction/utils/xml_utils.hpp
index 914268f..2d31591 100644
--- a/include/fiction/utils/xml_utils.hpp
+++ b/include/fiction/utils/xml_utils.hpp
@@ -9,7 +9,8 @@ namespace fiction
 
 /**
  * Replaces all characters that have a special meaning in XML documents by their predefined entities such that the
- * result can be used as the text of an element or as the value of an attribute.
+ * result can be used as the text of an element or as the value of an attribute in double quotes, where apostrophes
+ * have no special meaning.
  *
  * @param str The string to escape.
  * @return The escaped string.
@@ -43,11 +44,6 @@ namespace fiction
                 escaped += "&quot;";
                 break;
             }
-            case '\'':
-            {
-                escaped += "&apos;";
-                break;
-            }
             default:
             {
                 escaped += c;
-- 
2.43.0


From c022b320acefdce4a193063a6b9f222c54ba34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 73/80] fix: engine names and parameter values with special
 characters made SiQAD result files malformed

---
 include/fiction/io/write_sqd_sim_result.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_sqd_sim_result.hpp b/include/fiction/io/write_sqd_sim_result.hpp
index dac7077..e6de2d5 100644
--- a/include/fiction/io/write_sqd_sim_result.hpp
+++ b/include/fiction/io/write_sqd_sim_result.hpp
@@ -12,6 +12,7 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/chrono.h>
 #include <fmt/format.h>
@@ -180,7 +181,7 @@ class write_sqd_sim_result_impl
     void write_engine_info()
     {
         const auto current_time = std::time(nullptr);
-        os << fmt::format(siqad::ENG_INFO_BLOCK, sim_result.algorithm_name, FICTION_VERSION, FICTION_REPO, 0,
+        os << fmt::format(siqad::ENG_INFO_BLOCK, escape_xml(sim_result.algorithm_name), FICTION_VERSION, FICTION_REPO, 0,
                           fmt::format("{:%Y-%m-%d %H:%M:%S}", safe_localtime(current_time)),
                           sim_result.simulation_runtime.count());
     }
@@ -205,7 +206,7 @@ class write_sqd_sim_result_impl
 
                                   if (value.has_value())
                                   {
-                                      os << fmt::format(siqad::ADD_SIM_PARAM, name, any_to_string(value), name);
+                                      os << fmt::format(siqad::ADD_SIM_PARAM, name, escape_xml(any_to_string(value)), name);
                                   }
                               });
 
-- 
2.43.0


From 3641d6bdff1b63d7c4a8569535207c50fa6d8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 74/80] fix: tiles of synchronization elements and their cells
 were missing in SVG files of tile-based QCA layouts

---
 include/fiction/io/write_svg_layout.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_svg_layout.hpp b/include/fiction/io/write_svg_layout.hpp
index f5fd261..60beea4 100644
--- a/include/fiction/io/write_svg_layout.hpp
+++ b/include/fiction/io/write_svg_layout.hpp
@@ -1051,7 +1051,7 @@ class write_qca_layout_svg_impl
 
         // Capture only references that are actually used
         lyt.foreach_cell_position(
-            [this, &coord_to_tile, &coord_to_cells, &coord_to_latch_cells](const auto& c)
+            [this, &coord_to_tile, &coord_to_cells, &coord_to_latch_tile, &coord_to_latch_cells](const auto& c)
             {
                 const auto clock_zone = lyt.get_clock_number(c);
                 const auto tile_coords =
@@ -1071,6 +1071,12 @@ class write_qca_layout_svg_impl
                         {
                             current_cells = latch_it->second;
                         }
+                        else
+                        {
+                            // If this is called, then there is no latch tile for the current cell yet
+                            coord_to_latch_tile[tile_coords] = {svg::LATCH, clock_zone,
+                                                                static_cast<uint32_t>(latch_delay)};
+                        }
                         is_sync_elem = true;
                     }
                 }
@@ -1160,7 +1166,7 @@ class write_qca_layout_svg_impl
             for (const auto& [coord, ldscr] : coord_to_latch_tile)
             {
                 const auto [descr, czone_up, latch_delay] = ldscr;
-                const auto czone_lo                       = czone_up + (latch_delay % lyt.num_clocks());
+                const auto czone_lo                       = (czone_up + latch_delay) % lyt.num_clocks();
 
                 const auto cell_descriptions = coord_to_latch_cells[coord];
 
-- 
2.43.0


From 2c90bad6f2c9f63373794d95e02d259a399325fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 75/80] fix: displacements within dimers lost the displacement
 in x-direction for cube and offset coordinates

---
 .../simulation/sidb/displacement_robustness_domain.hpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
index d03f184..5a1583f 100644
--- a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
@@ -463,8 +463,9 @@ class displacement_robustness_domain_impl
                             new_pos_se_siqad.z = 0;
                             new_pos_nw_siqad.z = 1;
 
-                            new_pos_nw = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_nw_siqad);
-                            new_pos_se = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_se_siqad);
+                            // only the y-coordinates are adjusted to preserve the displacement in x-direction
+                            new_pos_nw.y = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_nw_siqad).y;
+                            new_pos_se.y = fiction::siqad::to_fiction_coord<cell<Lyt>>(new_pos_se_siqad).y;
                         }
 
                         else
-- 
2.43.0


From d538742e0e9c10edd990cdf85f0f09b0413e4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 76/80] fix: random SiDB layouts replaced or removed SiDBs of
 the given skeleton

---
 .../simulation/sidb/random_sidb_layout_generator.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
index 3c918ca..42c9832 100644
--- a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
+++ b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
@@ -141,9 +141,9 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
             random_cell_is_identical_with_defect = (lyt.get_sidb_defect(random_coord).type != sidb_defect_type::NONE);
         }
 
-        // if the constraints that no positive SiDBs occur and the cell is not yet occupied by a defect are satisfied,
-        // the SiDB is added to the layout
-        if (!random_cell_is_identical_with_defect && !next_to_neutral_defect)
+        // if the constraints that no positive SiDBs occur and the cell is not yet occupied by a defect or an SiDB are
+        // satisfied, the SiDB is added to the layout
+        if (!random_cell_is_identical_with_defect && !next_to_neutral_defect && lyt.is_empty_cell(random_coord))
         {
             if (skeleton.has_value())
             {
-- 
2.43.0


From 09bda541d75e584902ac5bb8ac8d307c5779f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:38 +0000
Subject: [PATCH 77/80] fix: generating random SiDB layouts with positive
 charges recursed endlessly if there are none

---
 .../sidb/random_sidb_layout_generator.hpp     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
index 42c9832..d6d461f 100644
--- a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
+++ b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
@@ -119,6 +119,14 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
         }
     }
 
+    // checks whether positive charges are requested although they cannot occur in the current layout
+    const auto is_lacking_positive_charges = [&lyt, &params]()
+    {
+        return params.positive_sidbs ==
+                   generate_random_sidb_layout_params<coordinate<Lyt>>::positive_charges::MAY_OCCUR &&
+               !can_positive_charges_occur(lyt, params.simulation_parameters);
+    };
+
     // counts the attempts to place the given number of SiDBs
     uint64_t attempt_counter = 0;
 
@@ -162,12 +170,17 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
             }
         }
         attempt_counter += 1;
+
+        // if all SiDBs are placed but the requested positive charges cannot occur, the placement starts over
+        if (lyt.num_cells() == number_of_sidbs_of_final_layout && is_lacking_positive_charges())
+        {
+            lyt = skeleton.has_value() ? skeleton.value().clone() : Lyt{};
+        }
     }
 
-    if (params.positive_sidbs == generate_random_sidb_layout_params<coordinate<Lyt>>::positive_charges::MAY_OCCUR &&
-        !can_positive_charges_occur(lyt, params.simulation_parameters))
+    if (is_lacking_positive_charges())
     {
-        return generate_random_sidb_layout(params, skeleton);
+        return std::nullopt;
     }
 
     if (lyt.num_cells() == number_of_sidbs_of_final_layout)
-- 
2.43.0


From 70e3ce7bf5e5309ec4b798e274dfc65f62a38817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 78/80] fix: quicktrace of the defect influence never ended if
 it started to trace a contour at an SiDB

---
 .../fiction/algorithms/simulation/sidb/defect_influence.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 9e9d642..e852330 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -372,6 +372,12 @@ class defect_influence_impl
 
             const auto contour_starting_point = *contour_starting_p;
 
+            // a position occupied by an SiDB is not part of any neighborhood. Hence, the contour cannot be closed there
+            if (!layout.is_empty_cell(contour_starting_point))
+            {
+                continue;
+            }
+
             // the layout hs to be defect-free.
             assert(layout.num_defects() == 0 && "An atomic defect is added");
 
-- 
2.43.0


From 4cf583ca6539ae2fd55b658291d5b2609909df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 79/80] fix: quicktrace of the defect influence reported no
 statistics if it stopped early

---
 include/fiction/algorithms/simulation/sidb/defect_influence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index e852330..ebdd357 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -346,7 +346,7 @@ class defect_influence_impl
             // if no operational point was found within the specified number of samples, return
             if (!operational_starting_point.has_value())
             {
-                return influence_domain;
+                break;
             }
 
             // check if the starting point has already been sampled
-- 
2.43.0


From ed08e903cf30d30d24fb8fbae355a857b7c971ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 80/80] fix: displacement robustness ignored the atomic defects
 of the surface

---
 .../simulation/sidb/displacement_robustness_domain.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
index 5a1583f..a38beef 100644
--- a/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp
@@ -542,6 +542,13 @@ class displacement_robustness_domain_impl
 
             Lyt displaced_lyt{};
 
+            // defects of the surface are not affected by the displacement of SiDBs
+            if constexpr (is_sidb_defect_surface_v<Lyt>)
+            {
+                layout.foreach_sidb_defect([&displaced_lyt](const auto& cd)
+                                           { displaced_lyt.assign_sidb_defect(cd.first, cd.second); });
+            }
+
             for (std::size_t i = 0; i < cell_displacements.size(); ++i)
             {
                 displaced_lyt.assign_cell_type(cell_displacements[i],
-- 
2.43.0

