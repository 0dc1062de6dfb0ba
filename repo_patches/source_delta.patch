From f048281c6b896c9572a8e2c3b7145d8364ee7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 01/43] fix: siqad coordinate wrapping carries into the next
 row when the box has a single sublattice

The documented behaviour of wrap() is to wrap an exceeded dimension to zero
and to increase the next one. For SiQAD coordinates in a box with z = 0, the
coordinate died after the first row instead, so that iterating the box
{1,1,0} visited only y = 0.
---
 include/fiction/layouts/coordinates.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/coordinates.hpp b/include/fiction/layouts/coordinates.hpp
index 25a60e7..e9feaea 100644
--- a/include/fiction/layouts/coordinates.hpp
+++ b/include/fiction/layouts/coordinates.hpp
@@ -671,7 +671,8 @@ struct coord_t
 
         if (z > aspect_ratio.z)
         {
-            *this = aspect_ratio.get_dead();
+            z = 0;
+            ++y;
         }
 
         if (y > aspect_ratio.y)
-- 
2.43.0


From cb68bd00077ecf92d67b2cd9540430945c9d1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 02/43] fix: copies of an aspect_ratio_iterator no longer point
 into their original

The iterator stored an iterator into its own vector of factors. The default
copy operations, and thereby the post-increment operator, left the copy
pointing into the original's vector, which is invalidated by the next
factorization or by the destruction of the original.
---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..74a01e2 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (factors[pos] == other.factors[other.pos]);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && factors[pos] < other.factors[other.pos]);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num <= other.num) || (num == other.num && factors[pos] <= other.factors[other.pos]);
     }
 
   private:
@@ -130,9 +131,9 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor. An index rather than an iterator so that copies do not refer to the original.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +159,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From c3570edec6d9ec5dc675b289497f9b3833d1999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 03/43] fix: order aspect_ratio_iterators by their position in
 the enumeration

operator<= returned true for any two iterators with the same number of faces,
even if the left one was further ahead, and operator< compared the
coordinates, whose order differs from the one in which they are enumerated.
---
 include/fiction/algorithms/iter/aspect_ratio_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 74a01e2..ac49e18 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -108,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && factors[pos] < other.factors[other.pos]);
+        return (num < other.num) || (num == other.num && pos < other.pos);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -118,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && factors[pos] <= other.factors[other.pos]);
+        return (num < other.num) || (num == other.num && pos <= other.pos);
     }
 
   private:
-- 
2.43.0


From 7583c225d2d50cd7ce1bc364efa7c9a43aab40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 04/43] fix: order gray_code_iterators by their position in the
 sequence

The iterator is a random-access iterator, but operator< and operator<=
compared the Gray codes themselves, which are not monotonic: the iterator at
position 2 (code 3) was greater than its successor (code 2).
---
 include/fiction/algorithms/iter/gray_code_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From c10f41f3594cb5073eb7fcc3e23bade8206fdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 05/43] fix: binomial_coefficient no longer overflows in
 intermediate results

result * (n + 1 - i) can exceed 64 bits although the coefficient itself is
representable, e.g., for n = 64 and k = 32. Likewise, 2 * k could wrap.
---
 include/fiction/utils/math_utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..aedf263 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <numeric>
 #include <stdexcept>
 #include <type_traits>
 #include <vector>
@@ -65,14 +66,17 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // divide before multiplying so that no intermediate value exceeds the final result
+        const auto divisor = std::gcd(result, i);
+
+        result = (result / divisor) * ((n + 1 - i) / (i / divisor));
     }
 
     return result;
-- 
2.43.0


From 65f9e3fb1f7f05e0dc3f8b9441c35f11724ed84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 06/43] fix: round_to_n_decimal_places keeps integers and
 unscalable numbers intact

Integers above 2^53 lost precision in the conversion to double, and numbers
whose scaled value exceeds the range of double were turned into inf or NaN.
---
 include/fiction/utils/math_utils.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index aedf263..8d521ae 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -30,7 +30,20 @@ template <typename T>
     requires std::integral<T> || std::floating_point<T>
 [[nodiscard]] inline T round_to_n_decimal_places(const T number, const uint64_t n) noexcept
 {
+    // integral numbers have no decimal places and might not be representable as double
+    if constexpr (std::is_integral_v<T>)
+    {
+        return number;
+    }
+
     const auto factor = std::pow(10.0, static_cast<double>(n));
+
+    // numbers that cannot be scaled have no decimal places beyond n that could be represented
+    if (!std::isfinite(static_cast<double>(number) * factor))
+    {
+        return number;
+    }
+
     return static_cast<T>(std::round(static_cast<double>(number) * factor) / factor);
 }
 /**
-- 
2.43.0


From 52cd8e688a23963a42f6f92b1cc287b590b3ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 07/43] fix: find_first_two_of handles ranges with fewer than
 two elements

For empty ranges, the loops started beyond their end condition and ran out of
bounds.
---
 include/fiction/utils/stl_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..c692bb2 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,11 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    if (last - first < 2 || s_last - s_first < 2)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From 29f70d1e344ab750e2137b235178be171fd78e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 08/43] fix: simulated_annealing no longer shares its random
 generator between threads

multi_simulated_annealing runs simulated_annealing in several threads, all of
which advanced the same function-local static std::mt19937_64 without
synchronization, which is a data race.
---
 .../fiction/algorithms/optimization/simulated_annealing.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..810fc53 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,10 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    // thread_local because multi_simulated_annealing calls this function from multiple threads
+    static thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    static thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From 79597cc708d7a658a060c1ebcbb866916f056aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 09/43] fix: LMXRLF builds color classes from uncolored
 vertices only

Already colored vertices were considered for later color classes, such that
colors went unused and dense classes kept winning: the number of colors was
wrong and the engine practically never terminated, e.g., on star graphs.
---
 vendors/graph-coloring/Source/lmxrlf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vendors/graph-coloring/Source/lmxrlf.cpp b/vendors/graph-coloring/Source/lmxrlf.cpp
index e7e350b..b0f124f 100644
--- a/vendors/graph-coloring/Source/lmxrlf.cpp
+++ b/vendors/graph-coloring/Source/lmxrlf.cpp
@@ -190,6 +190,11 @@ vector<string> GraphColoring::Lmxrlf::uncolored_neighbor(const vector<string>& n
     vector<string> out;
     for (auto& i : graph)
     {
+        // Vertices colored in an earlier round cannot become part of another color class
+        if (this->graph_colors[i.first] != -1)
+        {
+            continue;
+        }
         int initf = 1;
         for (auto& j : delta)
         {
-- 
2.43.0


From 4392129f2f9ac8afa7c17257c4e38091ce0b0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 10/43] fix: clones of a clocked layout no longer share the
 clocking scheme

---
 include/fiction/layouts/clocked_layout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..71c4940 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,8 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        // the storage refers to the clocking scheme by pointer; a deep copy needs a scheme of its own
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From e00e3ded97e23c0cd338faf1caa2ba03e48c17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 11/43] fix: gate-level layouts can compute nodes on Boolean
 values

---
 include/fiction/layouts/gate_level_layout.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..96b51cc 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1275,14 +1275,14 @@ class gate_level_layout : public ClockedLayout
     template <typename Iterator>
     mockturtle::iterates_over_t<Iterator, bool> compute(const node n, Iterator begin, Iterator end) const
     {
+        // the first fanin is the least significant variable of the node function
         uint32_t index{0};
-        while (begin != end)
+        for (uint32_t i = 0u; begin != end; ++i)
         {
-            index <<= 1u;
-            index ^= *begin++ ? 1 : 0;
+            index |= static_cast<uint32_t>(*begin++ ? 1 : 0) << i;
         }
 
-        return kitty::get_bit(strg->data.cache[strg->nodes[n].data[1].h1], index);
+        return kitty::get_bit(strg->data.fn_cache[strg->nodes[n].data[1].h1], index);
     }
 
     template <typename Iterator>
-- 
2.43.0


From 85b6b5600c51345c88ee81ff53c9b5a43d4118d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 12/43] fix: crossing counts of gate-level layouts do not
 depend on the placement order

---
 include/fiction/layouts/gate_level_layout.hpp | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 96b51cc..c8338f9 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -805,19 +805,6 @@ class gate_level_layout : public ClockedLayout
                 {
                     strg->data.num_wires--;
 
-                    // decrease crossing count
-                    if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
-                    if (ClockedLayout::is_ground_layer(t) &&
-                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                        !is_empty_tile(ClockedLayout::above(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
                     // find PO entry and remove it if present
                     if (const auto po_it = std::ranges::find_if(strg->outputs, [this, &n](const auto& p)
                                                                 { return this->get_node(p.index) == n; });
@@ -830,6 +817,12 @@ class gate_level_layout : public ClockedLayout
                 {
                     strg->data.num_gates--;
                 }
+
+                // decrease crossing count
+                if (is_crossing(t, n))
+                {
+                    strg->data.num_crossings--;
+                }
             }
             // mark node as dead
             kill_node(n);
@@ -1761,25 +1754,30 @@ class gate_level_layout : public ClockedLayout
             if (is_wire(n))
             {
                 strg->data.num_wires++;
-
-                if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                {
-                    strg->data.num_crossings++;
-                }
-
-                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                    !is_empty_tile(ClockedLayout::above(t)))
-                {
-                    strg->data.num_crossings++;
-                }
             }
             else  // is gate
             {
                 strg->data.num_gates++;
             }
+
+            if (is_crossing(t, n))
+            {
+                strg->data.num_crossings++;
+            }
         }
     }
 
+    /**
+     * Checks whether a node on the given tile is part of a crossing, i.e., whether the tile above or below it is occupied
+     * as well and at least one of the two holds a wire. This does not depend on which of the two was placed first.
+     */
+    [[nodiscard]] bool is_crossing(const tile& t, const node n) const noexcept
+    {
+        const auto other = ClockedLayout::is_crossing_layer(t) ? ClockedLayout::below(t) : ClockedLayout::above(t);
+
+        return other != t && !is_empty_tile(other) && (is_wire(n) || is_wire_tile(other));
+    }
+
     void kill_node(const node n)
     {
         if (!is_constant(n))
-- 
2.43.0


From 2f4a047eb35737a131660bd605dd18de38a923f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 13/43] fix: fanout counts of gate-level layouts no longer
 underflow and mark nodes dead

---
 include/fiction/layouts/gate_level_layout.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index c8338f9..9f28750 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -736,7 +736,7 @@ class gate_level_layout : public ClockedLayout
         // n's children
         auto& children = strg->nodes[n].children;
         // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        std::ranges::for_each(children, [this](const auto& c) { decr_fanout_count(get_node(c.index)); });
         // clear n's children
         children.clear();
 
@@ -778,6 +778,8 @@ class gate_level_layout : public ClockedLayout
         if (!is_constant(n))
         {
             strg->nodes[n].children.push_back(s);
+            // increase ref-count to new child
+            strg->nodes[get_node(s)].data[0].h1++;
         }
 
         return make_signal(n);
@@ -1778,6 +1780,18 @@ class gate_level_layout : public ClockedLayout
         return other != t && !is_empty_tile(other) && (is_wire(n) || is_wire_tile(other));
     }
 
+    /**
+     * Decreases the number of fanouts of the given node. Since signals refer to tiles, the node might not be the one that
+     * was counted originally. The count must not drop below zero because its most significant bit marks dead nodes.
+     */
+    void decr_fanout_count(const node n)
+    {
+        if ((strg->nodes[n].data[0].h1 & UINT32_C(0x7FFFFFFF)) != 0u)
+        {
+            strg->nodes[n].data[0].h1--;
+        }
+    }
+
     void kill_node(const node n)
     {
         if (!is_constant(n))
-- 
2.43.0


From e45978f84341d774d3ceb23bc294dad354c57005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 14/43] fix: gate-level layouts created from clocked layouts
 have both constants and their gate functions

---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 9f28750..506dbc7 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From 191540b21cb03537b41b42a14ac4c1be3c64c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 15/43] fix: lt, le, gt, and ge gates of gate-level layouts
 compute the same functions as in networks and the gate libraries

---
 include/fiction/layouts/gate_level_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 506dbc7..272d043 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1732,7 +1732,7 @@ class gate_level_layout : public ClockedLayout
             strg->data.fn_cache.insert(tt);
         };
 
-        static constexpr const uint64_t lit_not = 0x1, lit_and = 0x8, lit_or = 0xe, lit_lt = 0x2, lit_le = 0xb,
+        static constexpr const uint64_t lit_not = 0x1, lit_and = 0x8, lit_or = 0xe, lit_lt = 0x4, lit_le = 0xd,
                                         lit_xor = 0x6, lit_maj = 0xe8;
 
         create_and_cache(lit_not, 1);  // since NOT is not normal, its complement, i.e., the identity, is stored
-- 
2.43.0


From b6eb5ac1828768c69cc3b281810f5ee05807e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 16/43] fix: comparison truth-table helpers create the
 functions they are named for

---
 include/fiction/utils/truth_table_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/utils/truth_table_utils.hpp b/include/fiction/utils/truth_table_utils.hpp
index 1ec2733..abb994f 100644
--- a/include/fiction/utils/truth_table_utils.hpp
+++ b/include/fiction/utils/truth_table_utils.hpp
@@ -138,7 +138,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_lt_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x2;
+    constexpr const uint64_t lit = 0x4;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -152,7 +152,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_gt_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x4;
+    constexpr const uint64_t lit = 0x2;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -166,7 +166,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_le_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x11;
+    constexpr const uint64_t lit = 0xd;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -180,7 +180,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_ge_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x13;
+    constexpr const uint64_t lit = 0xb;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
-- 
2.43.0


From d05336571e5566206b073bbc194cf9e410ad4a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 17/43] fix: moving an SiDB defect onto itself deleted it and
 moving it onto another defect lost it

---
 include/fiction/technology/sidb_defect_surface.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..598b382 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,8 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
-            // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+            assign_sidb_defect(target, defect);
         }
     }
     /**
-- 
2.43.0


From 4b31b29a2bafb1ce06d518701bcec0de07e9766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 18/43] fix: distance maps of layouts with a crossing layer
 were written out of bounds

---
 include/fiction/algorithms/path_finding/distance_map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/distance_map.hpp b/include/fiction/algorithms/path_finding/distance_map.hpp
index 563acb4..900c8ec 100644
--- a/include/fiction/algorithms/path_finding/distance_map.hpp
+++ b/include/fiction/algorithms/path_finding/distance_map.hpp
@@ -56,14 +56,14 @@ template <typename Lyt, typename Dist>
 {
     static_assert(is_coordinate_layout_v<Lyt>, "Lyt is not a coordinate layout");
 
-    // initialize distance map
+    // initialize distance map; coordinates are indexed by their position in the ground layer
     distance_map<Dist> dist_map(lyt.area(), std::vector<Dist>(lyt.area(), Dist{}));
 
     // compute distances and store them via coordinate index
-    lyt.foreach_coordinate(
+    lyt.foreach_ground_coordinate(
         [&lyt, &dist_fn, &dist_map](const auto& c1, const unsigned src)
         {
-            lyt.foreach_coordinate([&lyt, &dist_fn, &dist_map, &c1, src](const auto& c2, const unsigned tgt)
+            lyt.foreach_ground_coordinate([&lyt, &dist_fn, &dist_map, &c1, src](const auto& c2, const unsigned tgt)
                                    { dist_map[src][tgt] = dist_fn(lyt, c1, c2); });
         });
 
-- 
2.43.0


From e9e66dea2b5bfaa86c861edc97634ca07d80f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 19/43] fix: k shortest paths removed the obstruction of an
 obstructed source from the given layout

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..1610e62 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -105,8 +105,8 @@ class yen_k_shortest_paths_impl
                 // for all coordinates in the root path...
                 for (const auto& root : root_path)
                 {
-                    // ... that are not the spur
-                    if (root != spur)
+                    // ... that are not the spur and not obstructed anyway (those must remain obstructed after the reset)
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0


From f221c74626c8d9c8777c9f6ede0ce9e364516a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 20/43] fix: k shortest paths missed paths because connections
 of paths with another spur were obstructed

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 1610e62..5022e83 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,10 +90,11 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path and the spur are equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
                     if (p.size() > static_cast<std::size_t>(i) + 1 &&
-                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
+                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i) &&
+                        p[i] == spur)
                     {
                         // block the connection that was already used in the previous shortest path
                         layout.obstruct_connection(p[i], p[i + 1]);
-- 
2.43.0


From da87db6aaf1741ecee9779ad326df2d50d8731ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 21/43] fix: weigh external and internal potentials equally
 when testing configuration stability

---
 include/fiction/technology/charge_distribution_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..f6d9560 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1272,8 +1272,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         const auto hop_del =
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
-            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+            return (strg->local_ext_pot[c1] + strg->local_int_pot[c1]) -
+                   (strg->local_ext_pot[c2] + strg->local_int_pot[c2]) - strg->pot_mat[c1][c2];
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From a7f759efdfc28b6b5b09ad0fb1eeeef4b19c412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 22/43] fix: assign the underlying layout when assigning charge
 distribution surfaces

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index f6d9560..20f4c95 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From 049d5dfcdcb0e07e9d9d2467a568d70d5d198544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 23/43] fix: ignore external potentials at positions without an
 SiDB or charged defect

---
 .../fiction/technology/charge_distribution_surface.hpp    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 20f4c95..04ebcb0 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -988,8 +988,12 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         {
             if (strg->defects.find(c) == strg->defects.cend())
             {
-                // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
+                // potentials at positions without an SiDB have no effect
+                if (const auto index = cell_to_index(c); index != -1)
+                {
+                    // c is an SiDB
+                    strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+                }
             }
             else
             {
-- 
2.43.0


From 9fe5054cee3192555a3e8f7623363e3bdc82b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 24/43] fix: keep charge index and index range consistent when
 the base number changes

---
 .../fiction/technology/charge_distribution_surface.hpp   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 04ebcb0..8b388af 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -519,10 +519,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
      */
     void assign_physical_parameters(const sidb_simulation_parameters& params) noexcept
     {
-        strg->simulation_parameters        = params;
-        strg->charge_index_and_base.second = params.base;
-        strg->max_charge_index =
-            static_cast<uint64_t>(std::pow(strg->simulation_parameters.base, this->num_cells())) - 1;
+        strg->simulation_parameters = params;
+        this->assign_base_number(params.base);
         this->initialize_potential_matrix();
         this->update_local_internal_potential();
         this->recompute_electrostatic_potential_energy();
@@ -652,6 +650,9 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         {
             strg->max_charge_index = static_cast<uint64_t>(std::pow(static_cast<double>(base), this->num_cells()) - 1);
         }
+
+        // the charge index depends on the base number
+        this->charge_distribution_to_index();
     }
     /**
      * This function adds a defect to the layout.
-- 
2.43.0


From 7937dd2132a4442b5cbea750437d6d23481925e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 25/43] fix: QuickExact judges validity and energy after
 applying defects and external potentials

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..eeaec5e 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -492,6 +492,9 @@ class quickexact_impl
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
 
+        // energy and validity depend on the defects and external potentials
+        charge_lyt.update_after_charge_change();
+
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
 
-- 
2.43.0


From 92d56bc3e11896513b23e89a2f891bdebbd0fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 26/43] fix: QuickExact allows positive charges whenever it
 detects that they can occur

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index eeaec5e..78a5446 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -352,6 +352,7 @@ class quickexact_impl
         static_assert(has_sidb_technology_v<ChargeLyt>, "ChargeLyt is not an SiDB layout");
         static_assert(is_charge_distribution_surface_v<ChargeLyt>, "ChargeLyt is not a charge distribution surface");
 
+        charge_layout.assign_base_number(3);
         charge_layout.assign_all_charge_states(sidb_charge_state::NEGATIVE);
         charge_layout.update_after_charge_change();
         // Not executed to detect if 3-state simulation is required, but to detect the SiDBs that could be positively
-- 
2.43.0


From 26e3950fbc5ac52f2321f3a04183d1e16223c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 27/43] fix: ground state space construction ends when a
 cluster has no valid charge state left

---
 .../simulation/sidb/ground_state_space.hpp       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
index 0438324..54b0827 100644
--- a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
+++ b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
@@ -766,8 +766,17 @@ class ground_state_space_impl
 
             if (!perform_potential_bound_analysis<potential_bound_analysis_mode::ANALYZE_MULTISET>(pst))
             {
-                handle_invalid_state(pst);
                 removed_ms.emplace_back(pst.multiset_conf);
+
+                // no cluster charge state is left: there is no physically valid charge distribution
+                if (removed_ms.size() == c->charge_space.size())
+                {
+                    c->charge_space.clear();
+                    terminate = true;
+                    return true;
+                }
+
+                handle_invalid_state(pst);
                 fixpoint = false;
             }
         }
@@ -1125,6 +1134,11 @@ class ground_state_space_impl
      */
     void move_up_hierarchy() noexcept
     {
+        if (terminate)
+        {
+            return;
+        }
+
         if (clustering.size() == 1 && *clustering.cbegin() == top_cluster)
         {
             terminate = true;
-- 
2.43.0


From bf49824c702af363e08deb03fc4e814f0ff570ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 28/43] fix: count the fanout of buffers created when
 substituting primary output signals

---
 include/fiction/networks/technology_network.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/networks/technology_network.hpp b/include/fiction/networks/technology_network.hpp
index 7f75b10..bc37f70 100644
--- a/include/fiction/networks/technology_network.hpp
+++ b/include/fiction/networks/technology_network.hpp
@@ -393,6 +393,8 @@ class technology_network : public mockturtle::klut_network
                     const auto b = create_buf(po);
                     // bend PO signal to point to the new node
                     _storage->outputs[index] = b;
+                    // the output is a successor of the new buffer
+                    _storage->nodes[b].data[0].h1++;
                 }
             });
     }
-- 
2.43.0


From ec9b9a367b600cfe212b66385ff123ae2840a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 29/43] fix: do not read past the end of empty truth table
 inputs

---
 include/fiction/io/tt_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 6361a5f..83e3c74 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -58,7 +58,7 @@ class tt_reader
      */
     std::optional<TT> next()
     {
-        if (pos >= elements.size() - 1)
+        if (pos + 1 >= elements.size())
         {
             return std::nullopt;
         }
-- 
2.43.0


From c62512fcaaa9d9f24abc7175930bd849d7e0433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 30/43] fix: respect the fanout limits of existing fanout nodes
 and repeated fanins in fanout substitution

---
 .../fanout_substitution.hpp                   | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index d9b2ede..458de67 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -145,7 +145,7 @@ class fanout_substitution_impl
                                            // constants do not need fanout trees
                                            if (!ntk_topo.is_constant(fn))
                                            {
-                                               child = get_fanout(substituted, fn, child);
+                                               child = get_fanout(substituted, fn, child, children);
                                            }
 
                                            children.push_back(child);
@@ -222,7 +222,7 @@ class fanout_substitution_impl
 
         auto num_fanouts = static_cast<uint32_t>(
             std::ceil(static_cast<double>(std::max(
-                          static_cast<int32_t>(ntk_topo.fanout_size(n)) - static_cast<int32_t>(ps.threshold), 0)) /
+                          static_cast<int32_t>(ntk_topo.fanout_size(n)) - static_cast<int32_t>(max_outputs(n)), 0)) /
                       static_cast<double>(std::max(static_cast<int32_t>(ps.degree) - 1, 1))));
 
         auto child = old2new[n];
@@ -254,10 +254,38 @@ class fanout_substitution_impl
         }
     }
 
+    /**
+     * Returns the maximum number of outputs that the given node may have itself. Existing fanout nodes are restricted by
+     * the degree even if the threshold is higher.
+     *
+     * @param n Node in the topological view.
+     * @return Maximum number of outputs of `n`.
+     */
+    [[nodiscard]] uint32_t max_outputs(const mockturtle::node<NtkSrc>& n) const
+    {
+        if constexpr (has_is_fanout_v<NtkDest>)
+        {
+            if (ntk_topo.is_fanout(n))
+            {
+                return std::min(ps.threshold, ps.degree);
+            }
+        }
+
+        return ps.threshold;
+    }
+
     mockturtle::signal<NtkDest> get_fanout(const NtkDest& substituted, const mockturtle::node<NtkSrc>& n,
-                                           mockturtle::signal<NtkDest>& child)
+                                           mockturtle::signal<NtkDest>&                    child,
+                                           const std::vector<mockturtle::signal<NtkDest>>& pending = {})
     {
-        if (substituted.fanout_size(substituted.get_node(child)) >= ps.threshold)
+        // number of outputs of a signal including the ones to the node that is about to be created
+        const auto num_outputs = [&substituted, &pending](const auto& s)
+        {
+            return substituted.fanout_size(substituted.get_node(s)) +
+                   static_cast<uint32_t>(std::count(pending.cbegin(), pending.cend(), s));
+        };
+
+        if (num_outputs(child) >= max_outputs(n))
         {
             if (auto fanouts = available_fanouts[n]; !fanouts.empty())
             {
@@ -265,7 +293,7 @@ class fanout_substitution_impl
                 while (true)
                 {
                     child = fanouts.front();
-                    if (substituted.fanout_size(substituted.get_node(child)) >= ps.degree)
+                    if (num_outputs(child) >= ps.degree)
                     {
                         fanouts.pop();
                     }
-- 
2.43.0


From 8e57ab233e32b277cb44afec73836ec2765ba2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 31/43] fix: balancing networks without primary outputs

---
 .../algorithms/network_transformation/network_balancing.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/network_balancing.hpp b/include/fiction/algorithms/network_transformation/network_balancing.hpp
index 00f2b4f..7421271 100644
--- a/include/fiction/algorithms/network_transformation/network_balancing.hpp
+++ b/include/fiction/algorithms/network_transformation/network_balancing.hpp
@@ -100,7 +100,8 @@ class network_balancing_impl
 
         // gather PO levels
         const auto po_levels    = get_po_levels(ntk_depth);
-        const auto max_po_level = *std::ranges::max_element(po_levels);
+        // a network without POs has no PO levels
+        const auto max_po_level = po_levels.empty() ? 0u : *std::ranges::max_element(po_levels);
 
         // add primary outputs to finalize the network
         ntk_topo.foreach_po(
-- 
2.43.0


From f113b3489c79072f3c88e71937de7cf8bdc3d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 32/43] fix: convert gates without a counterpart in the target
 network type

---
 .../network_conversion.hpp                    | 45 +++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/fiction/algorithms/network_transformation/network_conversion.hpp b/include/fiction/algorithms/network_transformation/network_conversion.hpp
index e2e54b7..24ec492 100644
--- a/include/fiction/algorithms/network_transformation/network_conversion.hpp
+++ b/include/fiction/algorithms/network_transformation/network_conversion.hpp
@@ -8,12 +8,14 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/name_utils.hpp"
 
+#include <kitty/bit_operations.hpp>
 #include <mockturtle/algorithms/cleanup.hpp>
 #include <mockturtle/traits.hpp>
 #include <mockturtle/utils/node_map.hpp>
 #include <mockturtle/views/topo_view.hpp>
 
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
 #include <type_traits>
 #include <vector>
@@ -160,6 +162,12 @@ class convert_network_impl<NtkDest, NtkSrc, false>
                     old2new[g] = ntk_dest.create_node(children, ntk.node_function(g));
                     return true;
                 }
+                else if constexpr (mockturtle::has_node_function_v<TopoNtkSrc>)
+                {
+                    // NtkDest cannot represent arbitrary functions as nodes
+                    old2new[g] = synthesize_function(ntk_dest, children, ntk.node_function(g));
+                    return true;
+                }
 
                 return true;
             });
@@ -182,6 +190,43 @@ class convert_network_impl<NtkDest, NtkSrc, false>
   private:
     using TopoNtkSrc = mockturtle::topo_view<NtkSrc>;
     TopoNtkSrc ntk;
+
+    /**
+     * Builds a node function out of AND, OR, and NOT gates (as the disjunction of its minterms).
+     *
+     * @tparam TruthTable Truth table type.
+     * @param ntk_dest Network to build the function in.
+     * @param children Signals to apply the function to.
+     * @param function Function to build.
+     * @return Signal that computes `function` of `children`.
+     */
+    template <typename TruthTable>
+    [[nodiscard]] static typename NtkDest::signal
+    synthesize_function(NtkDest& ntk_dest, const std::vector<typename NtkDest::signal>& children,
+                        const TruthTable& function)
+    {
+        auto result = ntk_dest.get_constant(false);
+
+        for (uint64_t minterm = 0; minterm < (uint64_t{1} << children.size()); ++minterm)
+        {
+            if (!kitty::get_bit(function, minterm))
+            {
+                continue;
+            }
+
+            auto product = ntk_dest.get_constant(true);
+
+            for (std::size_t i = 0; i < children.size(); ++i)
+            {
+                product = ntk_dest.create_and(product, ((minterm >> i) & 1u) != 0u ? children[i] :
+                                                                                     ntk_dest.create_not(children[i]));
+            }
+
+            result = ntk_dest.create_or(result, product);
+        }
+
+        return result;
+    }
 };
 }  // namespace detail
 
-- 
2.43.0


From f0de6e00c2833f9f16fe02890be54eeb9c5ceae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 33/43] fix: keep outputs at virtual PIs and the names of real
 PIs when deleting virtual PIs

---
 .../delete_virtual_pis.hpp                    | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index 9dd9dcf..c6f4b53 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -45,13 +45,8 @@ class delete_virtual_pis_impl
             ntk.foreach_fanin(n,
                               [this, &ntk_dest, &old2new, &children](const auto& f)
                               {
-                                  auto fn = ntk.get_node(f);
-
-                                  if (ntk.is_virtual_pi(fn))
-                                  {
-                                      fn = ntk.get_real_pi(fn);
-                                  }
-                                  auto tgt_signal = old2new[fn];
+                                  const auto fn         = ntk.get_node(f);
+                                  const auto tgt_signal = old2new[fn];
 
                                   children.emplace_back(ntk.is_complemented(f) ? ntk_dest.create_not(tgt_signal) :
                                                                                  tgt_signal);
@@ -134,7 +129,23 @@ class delete_virtual_pis_impl
             });
 
         // restore signal names if applicable
-        restore_names(ntk, ntk_dest, old2new);
+        restore_network_name(ntk, ntk_dest);
+        restore_signal_names(ntk, ntk_dest, old2new);
+        restore_output_names(ntk, ntk_dest);
+
+        // real PIs keep their names; the indices of PIs change if virtual ones are in between
+        if constexpr (mockturtle::has_has_name_v<Ntk> && mockturtle::has_get_name_v<Ntk> &&
+                      mockturtle::has_set_name_v<Ntk>)
+        {
+            ntk.foreach_real_pi(
+                [this, &ntk_dest, &old2new](const auto& pi)
+                {
+                    if (const auto s = ntk.make_signal(pi); ntk.has_name(s))
+                    {
+                        ntk_dest.set_name(old2new[pi], ntk.get_name(s));
+                    }
+                });
+        }
 
         return ntk_dest;
     }
@@ -206,6 +217,9 @@ class delete_virtual_pis_impl
                 });
         }
 
+        // all signals that refer to virtual PIs are remapped to the respective real PIs
+        src.foreach_virtual_pi([&](auto const& n) { old2new[n] = old2new[src.get_real_pi(n)]; });
+
         return {dest, old2new};
     }
 };
-- 
2.43.0


From 4eb652600faadda01deb45db5952846f9d35bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 34/43] fix: levels of unreached nodes and depth after adding
 inputs or complemented fanins in static depth views

---
 include/fiction/networks/views/static_depth_view.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fiction/networks/views/static_depth_view.hpp b/include/fiction/networks/views/static_depth_view.hpp
index 0473156..d10be48 100644
--- a/include/fiction/networks/views/static_depth_view.hpp
+++ b/include/fiction/networks/views/static_depth_view.hpp
@@ -257,11 +257,13 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
     }
 
     /**
-     * @return The level of a node.
+     * @return The level of a node. Nodes that are not in the transitive fanin of any output have level 0.
      */
     uint32_t level(node const& n) const
     {
-        return levels.at(n);
+        const auto it = levels.find(n);
+
+        return it != levels.cend() ? it->second : 0u;
     }
 
     /**
@@ -315,7 +317,7 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
         this->foreach_fanin(n,
                             [&](auto const& f)
                             {
-                                auto clevel = levels[f];
+                                auto clevel = levels[this->get_node(f)];
                                 if (ps.count_complements && this->is_complemented(f))
                                 {
                                     ++clevel;
@@ -330,7 +332,7 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
         {
             levels[n] = level + cost_fn(*this, n);
         }
-        ntk_depth = std::max(ntk_depth, level + cost_fn(*this, n));
+        ntk_depth = std::max(ntk_depth, levels[n]);
     }
 
   private:
-- 
2.43.0


From 44ebef5b57705505662d5fb3d7e32ae79dca816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 35/43] fix: list gates with repeated fanins in breadth-first
 topological order

---
 include/fiction/networks/views/bfs_topo_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/networks/views/bfs_topo_view.hpp b/include/fiction/networks/views/bfs_topo_view.hpp
index ced2421..8811433 100644
--- a/include/fiction/networks/views/bfs_topo_view.hpp
+++ b/include/fiction/networks/views/bfs_topo_view.hpp
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <queue>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 namespace fiction
@@ -209,8 +210,10 @@ class bfs_topo_view<Ntk, false> : public mockturtle::immutable_view<Ntk>
         fanout_ntk.foreach_node(
             [&](auto n)
             {
-                unvisited_fanin_count[n] = 0;
-                fanout_ntk.foreach_fanin(n, [&](const auto& /*f*/) { ++unvisited_fanin_count[n]; });
+                // fanouts are listed only once even if they have multiple fanins from the same node
+                std::unordered_set<node> fanins{};
+                fanout_ntk.foreach_fanin(n, [&](const auto& f) { fanins.insert(fanout_ntk.get_node(f)); });
+                unvisited_fanin_count[n] = static_cast<uint32_t>(fanins.size());
             });
 
         fanout_ntk.foreach_ci(
-- 
2.43.0


From fd1351ed38c6c072a37c68a5397ba4db52d15b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 36/43] fix: bounding_box_2d combines y and z of cells and
 defects in SiQAD coordinates

---
 include/fiction/layouts/bounding_box.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..40f63d6 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -103,22 +103,15 @@ class bounding_box_2d
 
             layout.foreach_cell([&](const auto& c) { update_min_max(min_cell, max_cell, c); });
 
-            min = min_cell;
-            max = max_cell;
-
             if constexpr (is_sidb_defect_surface_v<Lyt>)
             {
                 // Defect handling for SiDB defect surfaces
-                auto min_defect = min_cell;
-                auto max_defect = max_cell;
-
                 layout.foreach_sidb_defect([&](const auto& defect)
-                                           { update_min_max(min_defect, max_defect, defect.first); });
-
-                // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                                           { update_min_max(min_cell, max_cell, defect.first); });
             }
+
+            min = min_cell;
+            max = max_cell;
         }
         else
         {
-- 
2.43.0


From f8633f615d8c0dce8750e6030133b65572af98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 37/43] fix: orthogonal keeps the fanin order of
 non-commutative gates

---
 .../algorithms/physical_design/orthogonal.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..0734b9a 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -330,15 +330,21 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
                                           tile<Lyt> pre1_t, tile<Lyt> pre2_t,
-                                          const std::optional<bool>& c = std::nullopt)
+                                          const std::optional<bool>& c = std::nullopt, bool swapped = false)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    const auto east_signal  = wire_east(lyt, pre2_t, t);
+    const auto south_signal = wire_south(lyt, pre1_t, t);
+
+    // respect the original fanin order because not all functions are commutative
+    return swapped ? place(lyt, t, ntk, n, east_signal, south_signal, c) :
+                     place(lyt, t, ntk, n, south_signal, east_signal, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -564,6 +570,9 @@ class orthogonal_impl
 
                         tile<Lyt> t{};
 
+                        // tracks whether pre1_t and pre2_t have been swapped with respect to n's fanin order
+                        bool swapped = false;
+
                         // n is colored east
                         if (const auto clr = ctn.color_ntk.color(n); clr == ctn.color_east)
                         {
@@ -571,6 +580,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +598,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +617,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             t = latest_pos;
@@ -618,7 +630,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin,
+                                                        swapped);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
-- 
2.43.0


From e4241eacdf4d30d45ad969b059e3fdf3a8b61a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 38/43] fix: layout size of networks without primary inputs in
 orthogonal

---
 include/fiction/algorithms/physical_design/orthogonal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 0734b9a..b8ea9b6 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -233,7 +233,7 @@ aspect_ratio<Lyt> determine_layout_size(const coloring_container<Ntk>& ctn,
     mockturtle::progress_bar bar{static_cast<uint32_t>(ctn.color_ntk.size()), "[i] determining layout size: |{0}|"};
 #endif
 
-    uint64_t x = 0ull, y = ctn.color_ntk.num_pis() - 1;
+    uint64_t x = 0ull, y = ctn.color_ntk.num_pis() > 0 ? ctn.color_ntk.num_pis() - 1 : 0;
     ctn.color_ntk.foreach_node(
         [&](const auto& n, [[maybe_unused]] const auto i)
         {
-- 
2.43.0


From b1edd39c3eee3bf59f7db9de87b48c748f787e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 39/43] fix: post-layout optimization keeps the fanin order of
 non-commutative gates

---
 .../post_layout_optimization.hpp              | 120 +++++++++++++-----
 1 file changed, 85 insertions(+), 35 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..8721aaa 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -152,6 +152,11 @@ struct fanin_fanout_data
      */
     std::vector<tile<Lyt>> fanouts;
 
+    /**
+     * For each fan-out, this vector holds whether the gate (respectively the wire leading there) is its first fan-in.
+     */
+    std::vector<bool> is_first_fanin_of_fanout;
+
     /**
      * During the gate relocation process, this vector holds temporary layout coordinates that need to be cleared or
      * reset.
@@ -640,6 +645,9 @@ class post_layout_optimization_impl
                 const auto incoming_tile = lyt.incoming_data_flow(above).front();
                 const auto outgoing_tile = lyt.outgoing_data_flow(above).front();
 
+                // remember the order of the children of the outgoing tile
+                const auto is_first = is_first_fanin(lyt, outgoing_tile, above);
+
                 // move wire from z=1 to z=0
                 lyt.move_node(lyt.get_node(above), ground, {lyt.make_signal(lyt.get_node(incoming_tile))});
 
@@ -651,8 +659,15 @@ class post_layout_optimization_impl
                     if (std::ranges::find(deleted_coords, front) == deleted_coords.cend() ||
                         std::ranges::find(moved_tiles, front) != moved_tiles.cend())
                     {
-                        lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile,
-                                      {lyt.make_signal(lyt.get_node(ground)), lyt.make_signal(lyt.get_node(front))});
+                        std::vector<mockturtle::signal<ObstrLyt>> signals{lyt.make_signal(lyt.get_node(ground)),
+                                                                          lyt.make_signal(lyt.get_node(front))};
+
+                        if (!is_first)
+                        {
+                            std::ranges::reverse(signals);
+                        }
+
+                        lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile, signals);
                     }
                 }
                 // otherwise, the wire is the only incoming signal
@@ -701,6 +716,61 @@ class post_layout_optimization_impl
 
         target_route.push_back(fanout);
     }
+    /**
+     * Checks whether a tile is the first fanin of a gate.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param gate Tile of the gate.
+     * @param fanin Tile to look for.
+     * @return `true` iff `fanin` is the first fanin of `gate`.
+     */
+    [[nodiscard]] static bool is_first_fanin(const ObstrLyt& lyt, const tile<ObstrLyt>& gate,
+                                             const tile<ObstrLyt>& fanin) noexcept
+    {
+        bool is_first = false;
+
+        lyt.foreach_fanin(lyt.get_node(gate),
+                          [&is_first, &fanin](const auto& fin)
+                          {
+                              is_first = (static_cast<tile<ObstrLyt>>(fin) == fanin);
+                              return false;
+                          });
+
+        return is_first;
+    }
+    /**
+     * Updates the children of the fanouts of a gate after the connections between them have been rerouted. Rerouted
+     * connections are appended to the fanins of a fanout and, therefore, have to be swapped if they have been first.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param is_first_fanin_of_fanout For each fanout, whether the rerouted connection is its first fanin.
+     */
+    static void update_children_of_fanouts(ObstrLyt& lyt, const std::vector<tile<Lyt>>& fanouts,
+                                           const std::vector<bool>& is_first_fanin_of_fanout) noexcept
+    {
+        for (std::size_t f = 0; f < fanouts.size(); ++f)
+        {
+            const auto& fanout = fanouts[f];
+
+            std::vector<mockturtle::signal<ObstrLyt>> signals{};
+            signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
+
+            lyt.foreach_fanin(lyt.get_node(fanout),
+                              [&lyt, &signals](const auto& i)
+                              {
+                                  auto fout = static_cast<tile<ObstrLyt>>(i);
+                                  signals.push_back(lyt.make_signal(lyt.get_node(fout)));
+                              });
+
+            if (signals.size() == 2 && is_first_fanin_of_fanout[f])
+            {
+                std::ranges::reverse(signals);
+            }
+
+            lyt.move_node(lyt.get_node(fanout), fanout, signals);
+        }
+    }
     /**
      * Utility function to trace back fanins and fanouts of a gate. Based on the gate to be moved, this function returns
      * the location of the fanins and fanouts, as well as the wiring in between them. Additionally, all wire tiles
@@ -810,10 +880,12 @@ class post_layout_optimization_impl
         if (!fanout1.is_dead())
         {
             ffd.fanouts.push_back(fanout1);
+            ffd.is_first_fanin_of_fanout.push_back(is_first_fanin(lyt, fanout1, ffd.route_gate_to_fanout_1.end()[-2]));
         }
         if (!fanout2.is_dead())
         {
             ffd.fanouts.push_back(fanout2);
+            ffd.is_first_fanin_of_fanout.push_back(is_first_fanin(lyt, fanout2, ffd.route_gate_to_fanout_2.end()[-2]));
         }
 
         return ffd;
@@ -870,6 +942,7 @@ class post_layout_optimization_impl
      * upon successful relocation.
      * @param fanins               Vector containing the tile positions of all fan-in connections to the gate.
      * @param fanouts              Vector containing the tile positions of all fan-out connections from the gate.
+     * @param is_first_fanin_of_fanout For each fanout, whether the gate leads to its first fanin.
      * @param moved_gate           Reference to a boolean flag that will be set to `true` if the gate is successfully
      * moved.
      * @param old_pos              The original tile position of the gate before the relocation attempt.
@@ -879,7 +952,8 @@ class post_layout_optimization_impl
      */
     bool check_new_position(ObstrLyt& lyt, const tile<ObstrLyt>& new_pos, uint64_t& num_gate_relocations,
                             tile<ObstrLyt>& current_pos, const std::vector<tile<Lyt>>& fanins,
-                            const std::vector<tile<Lyt>>& fanouts, bool& moved_gate,
+                            const std::vector<tile<Lyt>>& fanouts,
+                            const std::vector<bool>& is_first_fanin_of_fanout, bool& moved_gate,
                             const tile<ObstrLyt>& old_pos) noexcept
     {
         if (lyt.is_empty_tile(new_pos) && lyt.is_empty_tile({new_pos.x, new_pos.y, 1}))
@@ -952,20 +1026,7 @@ class post_layout_optimization_impl
                 }
 
                 // update children of fanouts
-                for (const auto& fanout : fanouts)
-                {
-                    std::vector<mockturtle::signal<ObstrLyt>> signals{};
-                    signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-                    lyt.foreach_fanin(lyt.get_node(fanout),
-                                      [&lyt, &signals](const auto& i)
-                                      {
-                                          auto fout = static_cast<tile<ObstrLyt>>(i);
-                                          signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                                      });
-
-                    lyt.move_node(lyt.get_node(fanout), fanout, signals);
-                }
+                update_children_of_fanouts(lyt, fanouts, is_first_fanin_of_fanout);
 
                 if (new_pos == old_pos)
                 {
@@ -1004,13 +1065,15 @@ class post_layout_optimization_impl
      * @param current_pos Current position of the gate after relocation attempt.
      * @param old_pos Original position of the gate before relocation attempt.
      * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param is_first_fanin_of_fanout For each fanout, whether the gate leads to its first fanin.
      */
     void restore_original_wiring(ObstrLyt& lyt, const layout_coordinate_path<ObstrLyt> old_path_from_fanin_1_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_fanin_2_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_1,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_2,
                                  const tile<ObstrLyt>& current_pos, const tile<ObstrLyt>& old_pos,
-                                 const std::vector<tile<Lyt>> fanouts) noexcept
+                                 const std::vector<tile<Lyt>> fanouts,
+                                 const std::vector<bool>&     is_first_fanin_of_fanout) noexcept
     {
         lyt.move_node(lyt.get_node(current_pos), old_pos, {});
 
@@ -1047,20 +1110,7 @@ class post_layout_optimization_impl
         lyt.move_node(lyt.get_node(old_pos), old_pos, signals);
 
         // update children of fanouts
-        for (const auto& fanout : fanouts)
-        {
-            std::vector<mockturtle::signal<ObstrLyt>> fout_signals{};
-            fout_signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-            lyt.foreach_fanin(lyt.get_node(fanout),
-                              [&lyt, &fout_signals](const auto& i)
-                              {
-                                  auto fout = static_cast<tile<ObstrLyt>>(i);
-                                  fout_signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                              });
-
-            lyt.move_node(lyt.get_node(fanout), fanout, fout_signals);
-        }
+        update_children_of_fanouts(lyt, fanouts, is_first_fanin_of_fanout);
     }
     /**
      * Utility function that moves gates to new coordinates and checks if routing is possible.
@@ -1079,7 +1129,7 @@ class post_layout_optimization_impl
      */
     bool improve_gate_location(ObstrLyt& lyt, const tile<ObstrLyt>& old_pos) noexcept
     {
-        const auto& [fanins, fanouts, to_clear, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
+        const auto& [fanins, fanouts, is_first_fanin_of_fanout, to_clear, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
                      old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2] =
             get_fanin_and_fanouts(lyt, old_pos);
 
@@ -1175,7 +1225,7 @@ class post_layout_optimization_impl
                 {
                     new_pos = tile<ObstrLyt>{x, y};
                     if (!check_new_position(lyt, new_pos, num_gate_relocations, current_pos, fanins, fanouts,
-                                            moved_gate, old_pos))
+                                            is_first_fanin_of_fanout, moved_gate, old_pos))
                     {
                         return false;
                     }
@@ -1193,7 +1243,7 @@ class post_layout_optimization_impl
         {
             restore_original_wiring(lyt, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
                                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, current_pos,
-                                    old_pos, fanouts);
+                                    old_pos, fanouts, is_first_fanin_of_fanout);
             return false;
         }
 
-- 
2.43.0


From 2f8122b7fd383d565185694c9dfa0c9b240f634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 40/43] fix: wiring improvement of layouts without wires is
 zero instead of NaN

---
 .../fiction/algorithms/physical_design/wiring_reduction.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/wiring_reduction.hpp b/include/fiction/algorithms/physical_design/wiring_reduction.hpp
index d354605..2afe62d 100644
--- a/include/fiction/algorithms/physical_design/wiring_reduction.hpp
+++ b/include/fiction/algorithms/physical_design/wiring_reduction.hpp
@@ -1178,8 +1178,10 @@ class wiring_reduction_impl
         pst.area_improvement = area_percentage_difference;
         pst.num_wires_after  = layout.num_wires() - layout.num_pis() - layout.num_pos();
 
-        double wiring_percentage_difference = static_cast<double>(pst.num_wires_before - pst.num_wires_after) /
-                                              static_cast<double>(pst.num_wires_before) * 100.0;
+        double wiring_percentage_difference =
+            pst.num_wires_before == 0 ? 0.0 :
+                                        static_cast<double>(pst.num_wires_before - pst.num_wires_after) /
+                                            static_cast<double>(pst.num_wires_before) * 100.0;
 
         // round the wiring improvement to two decimal places
         wiring_percentage_difference = std::round(wiring_percentage_difference * 100.0) / 100.0;
-- 
2.43.0


From 8c394e0712b0ce37bdc32cf46b14539ffdcf22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 41/43] fix: threads of QuickSim no longer share one
 unsynchronised random number generator

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 8b388af..4f9c4f2 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1603,7 +1603,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        static thread_local std::mt19937_64     generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From 36f573eb823228cd56863a48a7a81fd51d49d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 42/43] fix: normalizing a layout keeps the layer and the
 sublattice of its cells

---
 include/fiction/utils/layout_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..d6ed14f 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -291,9 +291,9 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     lyt.foreach_cell(
         [&lyt_new, &lyt, &x_offset, &y_offset](const auto& c)
         {
-            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset}, lyt.get_cell_type(c));
-            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset}, lyt.get_cell_mode(c));
-            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset}, lyt.get_cell_name(c));
+            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_type(c));
+            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_mode(c));
+            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_name(c));
         });
 
     return lyt_new;
-- 
2.43.0


From 1520facaccec2c2863b5d63e6aa69f98e4d3651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 43/43] fix: copies of a BDL input iterator no longer share
 their layout, and inputs are matched with their own wires

---
 .../algorithms/iter/bdl_input_iterator.hpp    | 57 +++++++++++++------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/include/fiction/algorithms/iter/bdl_input_iterator.hpp b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
index 4e29056..a5f6999 100644
--- a/include/fiction/algorithms/iter/bdl_input_iterator.hpp
+++ b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
@@ -120,6 +120,22 @@ class bdl_input_iterator
         static_assert(has_sidb_technology_v<Lyt>, "Lyt is not an SiDB layout");
         set_all_inputs();
     }
+    /**
+     * Copy constructor. Layouts share their storage when copied. Therefore, the layout is cloned such that advancing one
+     * iterator does not alter the input state of its copies.
+     *
+     * @param other Iterator to copy.
+     */
+    bdl_input_iterator(const bdl_input_iterator& other) noexcept :
+            layout{other.layout.clone()},
+            input_pairs{other.input_pairs},
+            num_inputs{other.num_inputs},
+            input_bdl_wires{other.input_bdl_wires},
+            last_bdl_for_each_wire{other.last_bdl_for_each_wire},
+            upper_input_closer_to_wire_end{other.upper_input_closer_to_wire_end},
+            current_input_index{other.current_input_index},
+            params{other.params}
+    {}
     /**
      * Dereference operator. Returns a reference to the layout with the current input state.
      *
@@ -393,35 +409,42 @@ class bdl_input_iterator
     const bdl_input_iterator_params params;
 
     /**
-     * This function iterates through each wire in `input_bdl_wires`, identifies the first BDL pair
-     * of type `INPUT`, and then finds the BDL pair within the same wire that has the maximum distance
-     * from the starting pair. The resulting last BDL pairs are stored in `last_bdl_for_each_wire`.
+     * This function iterates through each input BDL pair in `input_pairs`, identifies the wire in `input_bdl_wires` that
+     * it belongs to, and then finds the BDL pair within this wire that has the maximum distance from the input BDL pair.
+     * The resulting last BDL pairs are stored in `last_bdl_for_each_wire`.
+     *
+     * @note Assumes that `input_pairs` and `input_bdl_wires` are already initialized.
      *
-     * @note Assumes that `input_bdl_wires` and `last_bdl_for_each_wire` are accessible within the scope.
+     * @return The last BDL pair for each input BDL pair, indexed like `input_pairs`.
      */
-    [[nodiscard]] std::vector<bdl_pair<cell<Lyt>>> determine_last_bdl_for_each_wire() noexcept
+    [[nodiscard]] std::vector<bdl_pair<cell<Lyt>>> determine_last_bdl_for_each_wire() const noexcept
     {
         std::vector<bdl_pair<cell<Lyt>>> end_bdls{};
-        end_bdls.reserve(input_bdl_wires.size());
+        end_bdls.reserve(input_pairs.size());
 
-        // Iterate through each wire in the input collection
-        for (const auto& wire : input_bdl_wires)
+        // Iterate through each input BDL pair. The wires are not necessarily sorted in the same order
+        for (const auto& start_bdl_pair : input_pairs)
         {
-            // Find the first BDL pair in the wire with type INPUT
-            const auto start_bdl_it{std::ranges::find_if(wire.pairs, [](const bdl_pair<cell<Lyt>>& bdl)
-                                                         { return bdl.type == sidb_technology::cell_type::INPUT; })};
+            // Find the wire that the input BDL pair belongs to
+            const auto wire_it{std::ranges::find_if(
+                input_bdl_wires,
+                [&start_bdl_pair](const bdl_wire<Lyt>& wire)
+                {
+                    return std::ranges::any_of(
+                        wire.pairs, [&start_bdl_pair](const bdl_pair<cell<Lyt>>& bdl)
+                        { return bdl.upper == start_bdl_pair.upper && bdl.lower == start_bdl_pair.lower; });
+                })};
 
-            // If no INPUT type BDL pair is found, skip this wire
-            if (start_bdl_it == wire.pairs.cend())
+            // If the input BDL pair is not part of any wire, it is its own end
+            if (wire_it == input_bdl_wires.cend())
             {
+                end_bdls.emplace_back(start_bdl_pair);
                 continue;
             }
 
-            const auto& start_bdl_pair = *start_bdl_it;
-
             // Find the BDL pair with the maximum distance from the start BDL pair
             const auto max_bdl_it{std::ranges::max_element(
-                wire.pairs,
+                wire_it->pairs,
                 [&](const bdl_pair<cell<Lyt>>& a, const bdl_pair<cell<Lyt>>& b) -> bool
                 {
                     const double distance_a{sidb_nm_distance(Lyt{}, start_bdl_pair.upper, a.upper)};
@@ -430,7 +453,7 @@ class bdl_input_iterator
                 })};
 
             // If a valid BDL pair is found, add it to the end BDLs collection
-            if (max_bdl_it != wire.pairs.cend())
+            if (max_bdl_it != wire_it->pairs.cend())
             {
                 end_bdls.emplace_back(*max_bdl_it);
             }
-- 
2.43.0

