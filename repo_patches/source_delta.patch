From cbb60dfb2ee356d22e5e9890bcd2103bd73454f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 01/13] fix: rational division by a negative number stores a
 positive denominator

---
 wicked/helpers/rational.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..f7475b1 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -63,9 +63,8 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
-  reduce();
+  // the constructor makes the denominator positive and reduces the fraction
+  *this = rational(numerator_ * rhs.denominator_, denominator_ * rhs.numerator_);
   return *this;
 }
 
-- 
2.43.0


From 98dbf62ca86e6e577dc72f1f35a0647f0fe2dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 02/13] fix: canonicalization no longer gives a dummy index the
 label of an operator index that no tensor carries

---
 wicked/algebra/symbolic_term.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..bc87799 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,26 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // operator indices that do not appear in any tensor are not relabeled, so
+  // their labels cannot be assigned to other indices
+  std::map<Index, bool> is_fixed_index = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &l : tensor.lower()) {
+      is_fixed_index.erase(l);
+    }
+    for (const auto &u : tensor.upper()) {
+      is_fixed_index.erase(u);
+    }
+  }
+  auto next_index = [&is_fixed_index](int s, std::vector<int> &count) {
+    while (is_fixed_index.count(Index(s, count[s])) != 0) {
+      count[s] += 1;
+    }
+    int pos = count[s];
+    count[s] += 1;
+    return Index(s, pos);
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -195,15 +215,13 @@ scalar_t SymbolicTerm::canonicalize() {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(s, tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(s, sqop_index_count);
         }
       }
     }
@@ -212,14 +230,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(s, tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(s, sqop_index_count);
         }
       }
     }
-- 
2.43.0


From e89b10edb032b8b5a283aa0ae04cf7bda72d3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 03/13] fix: multiplying an expression by zero leaves no terms

---
 wicked/helpers/algebra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..27286eb 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,11 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    if (factor == scalar_t(0, 1)) {
+      // do not keep terms with a zero coefficient
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From f499843c975b8fc4ad32a893b8adb6bcde888391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 04/13] fix: identical elementary contractions are counted once
 for any multiplicity

---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..f08d07b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= factorial(kv.second);
   }
   return factor;
 }
-- 
2.43.0


From 4e30b4db78725720592ed05ef97f9a3dc4666b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 05/13] fix: Expression::reindex stores the reindexed terms

---
 wicked/algebra/expression.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..ad0af2a 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -80,6 +80,7 @@ Expression &Expression::reindex(index_map_t &idx_map) {
     term.reindex(idx_map);
     add_to_map(reindexed_terms, term, kv.second);
   }
+  terms_ = reindexed_terms;
   return *this;
 }
 
-- 
2.43.0


From 0ab2d7078386e9cab146842e7fbc0985d80093f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 06/13] fix: a rejected add_space leaves the orbital space
 registry unchanged

---
 wicked/helpers/orbital_space.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..2d855eb 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -82,20 +82,28 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
   }
 
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+
+  // validate the indices and the elementary spaces first, so that an error
+  // leaves this object unchanged
+  auto new_indices_to_pos = indices_to_pos_;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (new_indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      new_indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    // a space can list itself as an elementary space
+    elementary_spaces_int.push_back(e == label ? static_cast<int>(pos)
+                                               : label_to_space(e));
   }
+
+  label_to_pos_[label] = pos;
+  indices_to_pos_ = new_indices_to_pos;
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From c516a7946e75aa7c687b66e5df582c6b7c93f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 07/13] fix: building a graph matrix with more than 8 orbital
 spaces is an error instead of an out-of-bounds write

---
 wicked/diagrams/graph_matrix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..4d5317b 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <numeric>
+#include <stdexcept>
 
 #include "graph_matrix.h"
 #include "helpers/helpers.h"
@@ -11,6 +12,11 @@ GraphMatrix::GraphMatrix() {}
 
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
+  if (orbital_subspaces->num_spaces() > max_spaces_) {
+    throw std::runtime_error("GraphMatrix: at most " +
+                             std::to_string(max_spaces_) +
+                             " orbital spaces are supported.");
+  }
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
     elements_[i] = std::make_pair(cre[i], ann[i]);
   }
-- 
2.43.0


From 1340e52d6802f809e96c61f0dd58358a2672ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 08/13] fix: concurrent contractions no longer race on the
 timers

---
 wicked/diagrams/wick_theorem.h                       |  5 +++++
 wicked/diagrams/wick_theorem_process_contractions.cc | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem.h b/wicked/diagrams/wick_theorem.h
index e941cb3..0ce9db8 100644
--- a/wicked/diagrams/wick_theorem.h
+++ b/wicked/diagrams/wick_theorem.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <map>
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -57,6 +59,9 @@ private:
 
   std::map<std::string, double> timers_;
 
+  /// Protects timers_, which is updated by concurrent contractions
+  std::mutex timers_mutex_;
+
   /// The number of contractions found
   int ncontractions_ = 0;
 
diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index f08d07b..75cc137 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -169,12 +169,18 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex_);
+      timers_["canonicalize_contraction_graph"] += tc.get();
+    }
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex_);
+      timers_["evaluate_contraction"] += te.get();
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 323fa8a6db751f793eac59ec0674056caec8b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 09/13] fix: sorting bosonic operators does not change the sign

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..1f1598f 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // only exchanges of two fermionic operators change the sign
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From a1d48dd4eead5c171e59cc250b2c02b7ec60de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 10/13] fix: contractions of more than 100 pairs no longer
 write past the end of the solution vector

---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..b777d9a 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -25,7 +25,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
 
   // this vector is used in the backtracking algorithm to hold the list of
   // elementary contractions
-  std::vector<int> a(100, -1);
+  // (each elementary contraction uses at least two operators)
+  std::vector<int> a(ops.num_ops() / 2 + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 5b644b677a7420724fc22da51e47bf09cf69550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 11/13] fix: a long long integer converts to a rational without
 truncation to int

---
 wicked/helpers/rational.cc | 7 +++++++
 wicked/helpers/rational.h  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index f7475b1..4bc0976 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -14,6 +14,13 @@ rational::rational(int numerator) {
   denominator_ = 1;
 }
 
+#if USE_BOOST_1024_INT
+rational::rational(long long int numerator) {
+  numerator_ = numerator;
+  denominator_ = 1;
+}
+#endif
+
 rational::rational(rational_t numerator) {
   numerator_ = numerator;
   denominator_ = 1;
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..3eead5c 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -27,6 +27,10 @@ public:
   rational(rational_t numerator);
   /// initialize with integer (numerator)
   rational(int numerator);
+#if USE_BOOST_1024_INT
+  /// initialize with integer (numerator)
+  rational(long long int numerator);
+#endif
   /// return the numerator
   rational_t numerator() const;
   /// return the denominator
-- 
2.43.0


From 07a946ab52ebd8964d5d2bee3fe75e5203901736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 12/13] fix: numerator() and denominator() return the exact
 integer in Python

---
 wicked/api/rational_api.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wicked/api/rational_api.cc b/wicked/api/rational_api.cc
index e440a39..0b9c956 100644
--- a/wicked/api/rational_api.cc
+++ b/wicked/api/rational_api.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include <pybind11/pybind11.h>
 
 #include "diagrams/operator.h"
@@ -7,6 +9,13 @@
 namespace py = pybind11;
 using namespace pybind11::literals;
 
+/// convert to a Python integer (of any size)
+static py::int_ to_python_int(const rational_t &n) {
+  std::ostringstream ss;
+  ss << n;
+  return py::int_(py::str(ss.str()));
+}
+
 void export_rational(py::module &m) {
 
   py::class_<rational, std::shared_ptr<rational>>(m, "rational")
@@ -16,13 +25,9 @@ void export_rational(py::module &m) {
       .def("latex", &rational::latex)
       .def("compile", &rational::compile)
       .def("numerator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.numerator());
-           })
+           [](const rational &r) { return to_python_int(r.numerator()); })
       .def("denominator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.denominator());
-           })
+           [](const rational &r) { return to_python_int(r.denominator()); })
       .def("__float__", &rational::to_double)
       .def("__eq__",
            [](const rational &lhs, const rational &rhs) { return lhs == rhs; })
-- 
2.43.0


From c18ea0190ffa79f82a6b16be689d67ca69cf4097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 13/13] fix: simplify no longer writes past a 64-bit mask for
 terms with more than 64 indices in a space

---
 wicked/algebra/symbolic_term.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index bc87799..bde84fa 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <set>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -266,15 +267,15 @@ scalar_t SymbolicTerm::simplify() {
     WPRINT(cout << "\nSpace " << orbital_subspaces->label(s) << endl;);
 
     std::vector<std::vector<Index>> equivalent_classes;
-    std::vector<std::pair<std::bitset<64>, std::bitset<64>>> ul_bit_masks;
+    std::vector<std::pair<std::set<int>, std::set<int>>> ul_positions;
     for (const auto &tensor : tensors_) {
-      std::bitset<64> upper_bits, lower_bits;
+      std::set<int> upper_positions, lower_positions;
       {
         std::vector<Index> equivalent;
         for (const auto &u : tensor.upper()) {
           if (u.space() == s) {
             equivalent.push_back(u);
-            upper_bits[u.pos()] = true;
+            upper_positions.insert(u.pos());
           }
         }
         if (equivalent.size() > 0)
@@ -285,13 +286,14 @@ scalar_t SymbolicTerm::simplify() {
         for (const auto &l : tensor.lower()) {
           if (l.space() == s) {
             equivalent.push_back(l);
-            lower_bits[l.pos()] = true;
+            lower_positions.insert(l.pos());
           }
         }
         if (equivalent.size() > 0)
           equivalent_classes.push_back(equivalent);
       }
-      ul_bit_masks.push_back(std::make_pair(upper_bits, lower_bits));
+      ul_positions.push_back(
+          std::make_pair(upper_positions, lower_positions));
     }
     WPRINT(
         for (const auto &v
@@ -299,9 +301,10 @@ scalar_t SymbolicTerm::simplify() {
           PRINT_ELEMENTS(v);
           cout << endl;
         } for (const auto &[ub, lb]
-               : ul_bit_masks) {
-          cout << ub << endl;
-          cout << lb << endl;
+               : ul_positions) {
+          PRINT_ELEMENTS(ub);
+          PRINT_ELEMENTS(lb);
+          cout << endl;
         });
   }
 
-- 
2.43.0

