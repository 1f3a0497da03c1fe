From 1c865546bcdb34f546f02cf7df7d5e7d44c259ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 01/30] fix: compute the off-diagonal entries of symbolic and
 reverse Hessians

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index a77275f..3c580c9 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -209,7 +209,7 @@ namespace CoolDiff {
         // Precompute
         CoolDiff::TensorR1::PreComp(firstSym[i]);
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (j < i) {
             result(i, j) = CoolDiff::TensorR1::DevalR(firstSym[i], vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
@@ -255,7 +255,7 @@ namespace CoolDiff {
       // Exploit Hessian symmetry
       for (size_t i{}; i < dim; ++i) {
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (j < i) {
             result(i, j) = CoolDiff::TensorR1::SymDiff(CoolDiff::TensorR1::SymDiff(exp, vec[i]), vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
-- 
2.43.0


From 91fb752730a8fd78edf9f2c64e409b75c24c2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 02/30] fix: keep the numerator in the symbolic value of
 number/expression

---
 include/Scalar/BinaryOps/GenericDiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index 7893f31..d1265d3 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -257,7 +257,7 @@ public:
   V_OVERRIDE(Variable* symEval()) {
     // Evaluate variable in run-time
     if (nullptr == this->mp_tmp) {
-      auto tmp = Allocate<Expression>((Type)(1) / (EVAL_R()));
+      auto tmp = Allocate<Expression>((mp_left) / (EVAL_R()));
       this->mp_tmp = tmp.get();
     }
     return this->mp_tmp;
-- 
2.43.0


From 8b38cca6ab6276b17ff429ef1002f5c6ecaa04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 03/30] fix: parameter assignment transfers the value

---
 src/Scalar/Parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 33c5487..c762671 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -24,6 +24,7 @@
 
 // Swap for assignment operator
 void Parameter::swap(Parameter& other) noexcept {
+  std::swap(mp_tmp, other.mp_tmp);
   std::swap(m_nidx, other.m_nidx);
   std::swap(m_cache, other.m_cache);
 }
-- 
2.43.0


From ba579ab70eaa2c2a7516a26fc1468f61cfd71152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 04/30] fix: drop symbolic temporaries when an expression is
 redefined

---
 include/Scalar/Expression.hpp   | 2 ++
 include/Scalar/MetaVariable.hpp | 3 +++
 src/Scalar/Expression.cpp       | 2 ++
 src/Scalar/MetaVariable.cpp     | 8 +++++++-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/Scalar/Expression.hpp b/include/Scalar/Expression.hpp
index 8b571f0..94e7758 100644
--- a/include/Scalar/Expression.hpp
+++ b/include/Scalar/Expression.hpp
@@ -64,6 +64,8 @@ public:
 
     // Emplace the expression in a generic holder
     Variable::m_gh_vec.push_back((Expression*)(&(expr*(Type)(1))));
+    // Symbolic temporaries refer to the previous definition
+    dropTemp();
     return *this;
   }
 
diff --git a/include/Scalar/MetaVariable.hpp b/include/Scalar/MetaVariable.hpp
index b372c98..713112e 100644
--- a/include/Scalar/MetaVariable.hpp
+++ b/include/Scalar/MetaVariable.hpp
@@ -32,6 +32,9 @@ protected:
   // Reset temporaries
   void resetTemp();
 
+  // Drop temporaries (they belong to the definition that is being replaced)
+  void dropTemp();
+
 public:
   // Visited flag
   bool m_visited{false};
diff --git a/src/Scalar/Expression.cpp b/src/Scalar/Expression.cpp
index d83fa4c..cd40f0e 100644
--- a/src/Scalar/Expression.cpp
+++ b/src/Scalar/Expression.cpp
@@ -48,6 +48,8 @@ Expression& Expression::operator=(const Expression& expr) {
   }
   // Emplace the expression in a generic holder
   Variable::m_gh_vec.push_back((Expression*)(&expr));
+  // Symbolic temporaries refer to the previous definition
+  dropTemp();
   return *this;
 }
 
diff --git a/src/Scalar/MetaVariable.cpp b/src/Scalar/MetaVariable.cpp
index 3836dc1..82d2aa6 100644
--- a/src/Scalar/MetaVariable.cpp
+++ b/src/Scalar/MetaVariable.cpp
@@ -38,4 +38,10 @@ void MetaVariable::resetTemp() {
                 });
 
   this->m_visited = false;
-}
\ No newline at end of file
+}
+
+// Drop value and derivative temporaries
+void MetaVariable::dropTemp() {
+  this->mp_tmp = nullptr;
+  this->mp_dtmp.clear();
+}
-- 
2.43.0


From 11d1b15f818a733492f5db78cda6dee7d4798545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 05/30] fix: reset every node below an expression once per
 pass, also below unvisited nodes

---
 include/CommonHeader.hpp                      | 35 +++++++++++++++++++
 .../Matrix/MatrixInterface/MatrixUtils.ipp    |  2 ++
 .../Matrix/MatrixInterface/MatrixVirtuals.ipp |  4 ++-
 src/Scalar/Variable.cpp                       |  6 +++-
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index fd8c541..1b18ffa 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -22,6 +22,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <chrono>
 #include <cmath>
@@ -369,6 +370,40 @@ class CommonHeader {
   protected:
     // Index counter (A counter to count the number of matrix/scalar operations)
     inline static size_t m_idx_count{0};
+
+    // Reset pass (Spans one outermost reset of a graph, so that every shared node below it is reset exactly once)
+    class ResetPass {
+      private:
+        inline static std::atomic<size_t> m_pass_count{0};
+        inline static thread_local size_t m_pass{0};
+        inline static thread_local size_t m_depth{0};
+
+      public:
+        ResetPass() {
+          if (0 == m_depth++) {
+            m_pass = ++m_pass_count;
+          }
+        }
+
+        // Is the node, whose last reset pass is given, encountered for the first time in this pass?
+        bool isFirst(size_t& last_pass) const {
+          if (m_pass == last_pass) {
+            return false;
+          }
+          last_pass = m_pass;
+          return true;
+        }
+
+        DISABLE_COPY(ResetPass)
+        DISABLE_MOVE(ResetPass)
+
+        ~ResetPass() {
+          --m_depth;
+        }
+    };
+
+    // Last reset pass of the node
+    size_t m_last_pass{0};
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index cf83119..90e52cf 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -191,6 +191,8 @@ bool Matrix<T>::findMe(void* v) const {
 // Reset impl
 template<typename T>
 void Matrix<T>::resetImpl() {
+    const CommonHeader::ResetPass pass;
+    pass.isFirst(this->m_last_pass);
     // Reset flag
     this->m_visited = true;
 
diff --git a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
index 899749c..d7e5883 100644
--- a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
+++ b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
@@ -131,7 +131,9 @@ OMMatPair& Matrix<T>::getCache() {
 // Reset all visited flags
 template<typename T>
 void Matrix<T>::reset() {
-    if (true == this->m_visited) {
+    // An unvisited node may have visited nodes below it (evaluated through other expressions)
+    const CommonHeader::ResetPass pass;
+    if (true == pass.isFirst(this->m_last_pass)) {
         this->m_visited = false;
         // Reset states
         m_eval = false;
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index e6309a5..ee5cff3 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -116,6 +116,8 @@ Type Variable::getdValue() const {
 }
 
 void Variable::resetImpl() {
+  const ResetPass pass;
+  pass.isFirst(this->m_last_pass);
   this->m_visited = true;
   // Reset states
   std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(), [](auto* item) {
@@ -249,7 +251,9 @@ OMPair& Variable::getCache() {
 
 // Reset
 void Variable::reset() {
-  if (true == this->m_visited) {
+  // An unvisited node may have visited nodes below it (evaluated through other expressions)
+  const ResetPass pass;
+  if (true == pass.isFirst(this->m_last_pass)) {
     this->m_visited = false;
     // Reset states
     std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
-- 
2.43.0


From 5cd1dcd9eee8243f4c29cca8e7256607fc138e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 06/30] fix: leave no half-built symbolic temporaries behind a
 failed differentiation

---
 src/Scalar/Variable.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index ee5cff3..a6f4acb 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -199,13 +199,20 @@ Variable* Variable::symDeval(const Variable& var) {
     // Set visit flag to true
     this->m_visited = true;
     // Loop on internal equations
-    std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
-                  [this, &var](auto* item) {
-                    if (nullptr != item) {
-                      mp_dtmp[m_nidx] = item->symDeval(var);
-                      mp_tmp = item->symEval();
-                    }
-                  });
+    try {
+      std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
+                    [this, &var](auto* item) {
+                      if (nullptr != item) {
+                        mp_dtmp[m_nidx] = item->symDeval(var);
+                        mp_tmp = item->symEval();
+                      }
+                    });
+    } catch (...) {
+      // Do not leave the temporaries of a half differentiated expression behind
+      dropTemp();
+      this->m_visited = false;
+      throw;
+    }
 
     // Set visit flag to false
     this->m_visited = false;
-- 
2.43.0


From 30afbd0530196c3cc5fac78e1939c66d5203da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 07/30] fix: do not reuse symbolic terms of a replaced
 definition

---
 include/Scalar/MetaVariable.hpp |  6 +++++-
 src/Scalar/MetaVariable.cpp     | 14 ++++++++++++--
 src/Scalar/Parameter.cpp        |  8 +++++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/Scalar/MetaVariable.hpp b/include/Scalar/MetaVariable.hpp
index 713112e..7032411 100644
--- a/include/Scalar/MetaVariable.hpp
+++ b/include/Scalar/MetaVariable.hpp
@@ -29,10 +29,14 @@ protected:
   Variable* mp_tmp{nullptr};
   UnOrderedMap<size_t, Variable*> mp_dtmp;
 
+  // Number of redefinitions so far and at the time the temporaries were last known to be valid
+  inline static size_t m_redef_count{0};
+  size_t m_redef_seen{0};
+
   // Reset temporaries
   void resetTemp();
 
-  // Drop temporaries (they belong to the definition that is being replaced)
+  // Drop temporaries of a definition that is being replaced (also of all the nodes built on them, at their next reset)
   void dropTemp();
 
 public:
diff --git a/src/Scalar/MetaVariable.cpp b/src/Scalar/MetaVariable.cpp
index 82d2aa6..d10fa18 100644
--- a/src/Scalar/MetaVariable.cpp
+++ b/src/Scalar/MetaVariable.cpp
@@ -24,6 +24,13 @@
 
 // Reset value and derivative temporaries
 void MetaVariable::resetTemp() {
+  // Temporaries built on a definition that was replaced in the meantime are of no use
+  if (m_redef_seen != m_redef_count) {
+    m_redef_seen = m_redef_count;
+    this->mp_tmp = nullptr;
+    this->mp_dtmp.clear();
+  }
+
   // Reset value temporaries
   if (nullptr != this->mp_tmp) {
     this->mp_tmp->reset();
@@ -42,6 +49,9 @@ void MetaVariable::resetTemp() {
 
 // Drop value and derivative temporaries
 void MetaVariable::dropTemp() {
-  this->mp_tmp = nullptr;
-  this->mp_dtmp.clear();
+  if (nullptr != this->mp_tmp || false == this->mp_dtmp.empty()) {
+    ++m_redef_count;
+    this->mp_tmp = nullptr;
+    this->mp_dtmp.clear();
+  }
 }
diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index c762671..da12205 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -77,9 +77,11 @@ Type Parameter::eval() {
 }
 
 void Parameter::reset() {
-  // Reset temporaries
-  MetaVariable::resetTemp();
-  return;
+  // Reset the variable that holds the value
+  if (nullptr != this->mp_tmp) {
+    this->mp_tmp->reset();
+  }
+  this->m_visited = false;
 }
 
 // Evaluate paramter
-- 
2.43.0


From 96faf08a5a3196e3e9ed58e65af159ab46fad9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 08/30] fix: write the zero blocks of the naive Kronecker
 product

---
 .../NaiveCPU/MatKronNaiveHandler.hpp              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
index 432a592..f7bb88d 100644
--- a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
@@ -53,14 +53,13 @@ class MatKronNaiveHandler : public T {
           const size_t i = ((n1 - j) / lc);
           Type val = (*lhs)(i, j);
 
-          if ((Type)(0) != val) {
-            std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
-                [&](const size_t n2) {
-                  const size_t m = (n2 % rc);
-                  const size_t l = ((n2 - m) / rc);
-                  (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
-                });
-          }
+          // Also for a zero element, the pooled result holds old values
+          std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
+              [&](const size_t n2) {
+                const size_t m = (n2 % rc);
+                const size_t l = ((n2 - m) / rc);
+                (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
+              });
         });
 
         return;
-- 
2.43.0


From a30eab8d6af312588c95e7d4eebdf3d96629b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 09/30] fix: transpose complex matrices without conjugation, as
 the Eigen handler does

---
 .../NaiveCPU/MatDervTransposeNaiveHandler.hpp               | 6 +-----
 .../MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
index dd73e07..141f851 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
@@ -56,11 +56,7 @@ class MatDervTransposeNaiveHandler : public T {
                               // Inner Row and column index
                               const size_t m = (n2 % ncols_x);
                               const size_t l = ((n2 - m) / ncols_x);
-                              #if defined(USE_COMPLEX_MATH)
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = std::conj((*rhs)(l + (i * nrows_x), m + (j * ncols_x)));
-                              #else
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
-                              #endif
+                              (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
               });
         });
       }
diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
index 6d79778..fdb0531 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
@@ -44,11 +44,7 @@
           // Row and column index
           const size_t j = (n % ncols);
           const size_t i = ((n - j) / ncols);
-          #if defined(USE_COMPLEX_MATH)
-              (*result)(j, i) = std::conj((*rhs)(i, j));
-          #else
-              (*result)(j, i) = (*rhs)(i, j);
-          #endif
+          (*result)(j, i) = (*rhs)(i, j);
         });
       }
 };
\ No newline at end of file
-- 
2.43.0


From 3d32477a293fc420bc0c5de545285c9a06d5f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 10/30] fix: reverse derivative of an independent matrix has
 that matrix's shape

---
 include/Matrix/CommonMatFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 3c580c9..e0c81e6 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -96,7 +96,7 @@ namespace CoolDiff {
                                                                   std::is_base_of_v<MetaVariable, U>  ||
                                                                   std::is_base_of_v<MetaMatrix, T>>>
     inline Matrix<Type>& DevalR(T& Mexp, const U& X) {
-      if constexpr(true == std::is_base_of_v<U, MetaMatrix>) {
+      if constexpr(true == std::is_base_of_v<MetaMatrix, U>) {
         const size_t nrows = X.getNumRows();
         const size_t ncols = X.getNumColumns();
         if(auto it = Mexp.getCache().find(X.m_nidx); it != Mexp.getCache().end()) {
-- 
2.43.0


From bae5d1787e1f84e85ab9d5d9c321abc70c4aa2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 11/30] fix: derivative of a variable matrix by itself clears
 old entries and sees repeated variables

---
 .../Matrix/MatrixInterface/MatrixUtils.ipp    | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 90e52cf..7ec04a1 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -133,25 +133,8 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
     }
     // If the matrix type is Variable
     else if constexpr (true == std::is_same_v<T, Variable>) {
-        // Last is the most important condition to delineate Matrix<Variable>'s
-        if ((nullptr != getMatrixPtr()) && (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr()) && (m_nidx == X.m_nidx)) {
-            // Get dimensions of X variable matrix
-            const size_t xrows = X.getNumRows();
-            const size_t xcols = X.getNumColumns();
-
-            // Vector of indices in X matrix
-            const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
-            // Logic for Kronecker product (With ones)
-            std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                    [this, xrows, xcols](const size_t n) {
-                        const size_t j = (n % xcols);
-                        const size_t i = ((n - j) / xcols);
-                        // Inner loop
-                        (*mp_dresult)((i * xrows) + i, (j * xcols) + j) = (Type)(1);
-            });
-        }
-        // If the Matrix is Variable, but of different form
-        else if ((nullptr != getMatrixPtr()) &&  (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
+        // Compare variable by variable: a variable may occur more than once and the pooled result holds old values
+        if ((nullptr != getMatrixPtr()) &&  (nullptr != mp_dresult) && (nullptr != mp_dresult->getMatrixPtr())) {
             // Get dimensions of X variable matrix
             const size_t xrows = X.getNumRows();
             const size_t xcols = X.getNumColumns();
-- 
2.43.0


From a2ec1d4317c26c40400001e21535d22ee0e0c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 12/30] fix: zero the border of a pooled padded matrix

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 7ec04a1..3fa0d39 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -87,6 +87,10 @@ template<typename T>
 void Matrix<T>::pad(const size_t r, const size_t c, Matrix*& result) const {
     // Special matrix embedding
     MemoryManager::MatrixPool(result, m_rows + 2 * r, m_cols + 2 * c, allocatorType());
+    // The pooled result holds old values
+    if constexpr (true == std::is_same_v<T, Type>) {
+        CoolDiff::TensorR2::Details::ResetZero(result);
+    }
     result->setBlockMat({r, r + m_rows - 1}, {c, c + m_cols - 1}, this);
 }
 
-- 
2.43.0


From be77d740f615faa0bba6c7a69d0b6d7e501870b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 13/30] fix: reverse derivative of a convolution for any
 kernel, stride and padding

---
 include/Matrix/BinaryOps/GenericMatConv.hpp | 91 +++++++++++++--------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 37f155f..3fd7a1e 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -51,6 +51,49 @@ private:
   inline static constexpr const size_t m_size{4};
   Matrix<Type>* mp_arr[m_size]{};
 
+  // Pull back the derivative of the result (nullptr stands for one) to the left (input) and right (kernel) matrix
+  void pullBack(const Matrix<Type>* left_mat, const Matrix<Type>* right_mat, const Matrix<Type>* grad, 
+                Matrix<Type>*& dleft_mat, Matrix<Type>*& dright_mat) const {
+    // Left matrix rows and columns size (Input)
+    const size_t lrows = left_mat->getNumRows();
+    const size_t lcols = left_mat->getNumColumns();
+
+    // Right matrix rows and columns size (Kernel)
+    const size_t rrows = right_mat->getNumRows();
+    const size_t rcols = right_mat->getNumColumns();
+
+    // Result rows and columns size
+    const size_t crows = ((lrows + (2 * m_pad_x) - rrows) / m_stride_x) + 1;
+    const size_t ccols = ((lcols + (2 * m_pad_y) - rcols) / m_stride_y) + 1;
+
+    // Get derivative matrices from pool and reset to zero
+    MemoryManager::MatrixPool(dleft_mat, lrows, lcols, allocatorType());
+    MemoryManager::MatrixPool(dright_mat, rrows, rcols, allocatorType());
+    CoolDiff::TensorR2::Details::ResetZero(dleft_mat);
+    CoolDiff::TensorR2::Details::ResetZero(dright_mat);
+
+    for (size_t i{}; i < crows; ++i) {
+      for (size_t j{}; j < ccols; ++j) {
+        const Type val = ((nullptr == grad) ? (Type)(1) : (*grad)(i, j));
+        for (size_t m{}; m < rrows; ++m) {
+          for (size_t n{}; n < rcols; ++n) {
+            // Position in the padded input
+            const size_t pi = (i * m_stride_x) + m;
+            const size_t pj = (j * m_stride_y) + n;
+            // The padding is constant
+            if((pi < m_pad_x) || (pj < m_pad_y) || (pi - m_pad_x >= lrows) || (pj - m_pad_y >= lcols)) {
+              continue;
+            }
+            const size_t li = pi - m_pad_x;
+            const size_t lj = pj - m_pad_y;
+            (*dleft_mat)(li, lj) = (*dleft_mat)(li, lj) + (val * (*right_mat)(m, n));
+            (*dright_mat)(m, n) = (*dright_mat)(m, n) + (val * (*left_mat)(li, lj));
+          }
+        }
+      }
+    }
+  }
+
 public:
   // Block index
   const size_t m_nidx{};
@@ -180,19 +223,22 @@ public:
       const Matrix<Type>* left_mat = mp_left->eval();
       const Matrix<Type>* right_mat = mp_right->eval();
 
-      const auto mp_right_val = CoolDiff::TensorR2::Details::ScalarSpl(right_mat);
-      const auto mp_left_val = CoolDiff::TensorR2::Details::ScalarSpl(left_mat);
+      /* IMPORTANT: The derivative is computed here */
+      pullBack(left_mat, right_mat, nullptr, mp_arr[2], mp_arr[3]);
+
+      const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
+      const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
 
       if(auto it2 = cache->find(mp_left->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_left->m_nidx], right_mat, (*cache)[mp_left->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_left->m_nidx], mp_arr[2], (*cache)[mp_left->m_nidx]); 
       } else {
-        (*cache)[mp_left->m_nidx] = const_cast<Matrix<Type>*>(right_mat);
+        (*cache)[mp_left->m_nidx] = mp_arr[2];
       }
 
       if(auto it2 = cache->find(mp_right->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_right->m_nidx], left_mat, (*cache)[mp_right->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_right->m_nidx], mp_arr[3], (*cache)[mp_right->m_nidx]); 
       } else {
-        (*cache)[mp_right->m_nidx] = const_cast<Matrix<Type>*>(left_mat);
+        (*cache)[mp_right->m_nidx] = mp_arr[3];
       }
 
       // Clone the cache
@@ -203,13 +249,13 @@ public:
       // Modify cache for left node
       std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
-                      const size_t rows = right_mat->getNumRows();
-                      const size_t cols = right_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[2]->getNumRows();
+                      const size_t cols = mp_arr[2]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_right_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr2_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -220,13 +266,13 @@ public:
       // Modify cache for right node
       std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
-                      const size_t rows = left_mat->getNumRows();
-                      const size_t cols = left_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[3]->getNumRows();
+                      const size_t cols = mp_arr[3]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_left_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -251,27 +297,8 @@ public:
         const Matrix<Type>* left_mat = mp_left->eval();
         const Matrix<Type>* right_mat = mp_right->eval();
 
-        // Right matrix rows and columns size (Kernel)
-        const size_t rrows = right_mat->getNumRows();
-        const size_t rcols = right_mat->getNumColumns();
-        
-        // Left matrix rows and columns size (Input)
-        const size_t lrows = left_mat->getNumRows();
-        const size_t lcols = left_mat->getNumColumns();
-
-        // Cache rows and columns size (Pullback)
-        const size_t crows = cCache->getNumRows();
-        const size_t ccols = cCache->getNumColumns(); 
-
         /* IMPORTANT: The derivative is computed here */
-        // Typically, right_mat will be less than cCache dimension, so no need for padding
-        MATRIX_CONV(m_stride_x, m_stride_y, m_pad_x, m_pad_y, cCache, right_mat, mp_arr[2]);
-
-        // Find the best number of zero padding on the input to match the output dimensions (right_mat)
-        const size_t px = (m_stride_x*(rrows - 1) + crows - lrows)/2; 
-        const size_t py = (m_stride_y*(rcols - 1) + ccols - lcols)/2;
-
-        MATRIX_CONV(m_stride_x, m_stride_y, px, py, left_mat, cCache, mp_arr[3]);
+        pullBack(left_mat, right_mat, cCache, mp_arr[2], mp_arr[3]);
 
         const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
         const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
-- 
2.43.0


From 0688f0552fd13b6e44a76ae4dea4e85355134154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 14/30] fix: redefining a matrix expression leaves the results
 of other expressions alone

---
 include/Matrix/Matrix.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index dcc8866..5d49b0d 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -218,14 +218,11 @@ public:
       m_rows = expr.getNumRows();
       m_cols = expr.getNumColumns();
 
-      // Deallocate mp_mat, mp_result, mp_dresult;
+      // Deallocate mp_mat
       deallocator();
-      if(nullptr != mp_result) {
-        mp_result->deallocator();
-      }
-      if(nullptr != mp_dresult) {
-        mp_dresult->deallocator();
-      }
+      // The results may belong to another expression (copies share them), they are released with it
+      mp_result = nullptr;
+      mp_dresult = nullptr;
 
       m_eval = false;
       m_devalf = false;
-- 
2.43.0


From 40104c28a339a7e4fa29af0f596c2a49664f03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 15/30] fix: the vectorisation of a matrix leaves the operand's
 result alone

---
 include/Matrix/UnaryOps/GenericMatVec.hpp | 39 ++++++++++++++---------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 2746347..13dc8da 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -37,7 +37,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
         #endif
 
         // All matrices
-        inline static constexpr const size_t m_size{2};
+        inline static constexpr const size_t m_size{4};
         Matrix<Type>* mp_arr[m_size]{};
 
     public:
@@ -84,10 +84,11 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Reshape and return
-            Matrix<Type>* right_mat = mp_right->eval();
-            right_mat->reshape(nrows, ncols);
-            return right_mat;
+            // The operand's result may be used by other expressions, so it is copied and not reshaped
+            const Matrix<Type>* right_mat = mp_right->eval();
+            MemoryManager::MatrixPool(mp_arr[2], nrows, ncols, allocatorType());
+            mp_arr[2]->copyData(*right_mat);
+            return mp_arr[2];
         }
 
         // Matrix devalF computation
@@ -95,16 +96,24 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             // Get number of rows/columns 
             const size_t xrows = X.getNumRows(); 
             const size_t xcols = X.getNumColumns();
-            const size_t nrows = getNumRows();
-            const size_t ncols = getNumColumns();
-
-            // Matrix derivative vectorization
-            Matrix<Variable> Y(1, xrows*xcols, X.getMatrixPtr());
-
-            // Reshape and return
-            Matrix<Type>* dright_mat = mp_right->devalF(Y);
-            dright_mat->reshape(nrows*xrows, ncols*xcols);
-            return dright_mat;
+            const size_t nrows = mp_right->getNumRows();
+            const size_t ncols = mp_right->getNumColumns();
+
+            // Matrix derivative vectorization, one block per element of the operand
+            const Matrix<Type>* dright_mat = mp_right->devalF(X);
+            MemoryManager::MatrixPool(mp_arr[3], (nrows*ncols*xrows), xcols, allocatorType());
+
+            const auto idx = CoolDiff::Common::Range<size_t>(0, (nrows*ncols*xrows*xcols));
+            std::for_each(EXECUTION_PAR idx.begin(), idx.end(), [&](const size_t n) {
+                // Row and column index in the result
+                const size_t j = (n % xcols);
+                const size_t row = ((n - j) / xcols);
+                // Row in the block and index of the block
+                const size_t i = (row % xrows);
+                const size_t blk = ((row - i) / xrows);
+                (*mp_arr[3])(row, j) = (*dright_mat)(((blk / ncols) * xrows) + i, ((blk % ncols) * xcols) + j);
+            });
+            return mp_arr[3];
         }
 
         // Traverse
-- 
2.43.0


From 474ca7c0b2880fd1b75f02ae8cbcda0ef4be4220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 16/30] fix: make the scalar factor of a matrix expression
 once, not in every pass

---
 include/Matrix/BinaryOps/GenericMatProduct.hpp | 13 ++++++++++---
 include/Matrix/BinaryOps/GenericMatSum.hpp     | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatProduct.hpp b/include/Matrix/BinaryOps/GenericMatProduct.hpp
index 9900ee6..31f474d 100644
--- a/include/Matrix/BinaryOps/GenericMatProduct.hpp
+++ b/include/Matrix/BinaryOps/GenericMatProduct.hpp
@@ -902,9 +902,16 @@ constexpr const auto& operator*(const T1& v, const IMatrix<T2>& u) {
   const auto& _u = u.cloneExp();
   const auto& _v = v.cloneExp();
 
-  auto tmp = Allocate<GenericMatScalarProductExpT<T1, T2>>( const_cast<T1*>(static_cast<const T1*>(&_v)),
-                                                            const_cast<T2*>(static_cast<const T2*>(&_u)) );
-  return *tmp;
+  // A scalar other than an expression is made an expression here, once, and not in every pass
+  if constexpr (true == std::is_same_v<Expression, T1>) {
+    auto tmp = Allocate<GenericMatScalarProductExpT<T1, T2>>(const_cast<T1*>(static_cast<const T1*>(&_v)),
+                                                            const_cast<T2*>(static_cast<const T2*>(&_u)));
+    return *tmp;
+  } else {
+    auto exp = Allocate<Expression>(_v);
+    auto tmp = Allocate<GenericMatScalarProductExpT<Expression, T2>>(exp.get(), const_cast<T2*>(static_cast<const T2*>(&_u)));
+    return *tmp;
+  }
 }
 
 template <typename T1, typename T2, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T1>>
diff --git a/include/Matrix/BinaryOps/GenericMatSum.hpp b/include/Matrix/BinaryOps/GenericMatSum.hpp
index 2d09d6a..db8bec2 100644
--- a/include/Matrix/BinaryOps/GenericMatSum.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSum.hpp
@@ -836,9 +836,16 @@ constexpr const auto& operator+(const T1& v, const IMatrix<T2>& u) {
   const auto& _u = u.cloneExp();
   const auto& _v = v.cloneExp();
 
-  auto tmp = Allocate<GenericMatScalarSumExpT<T1, T2>>( const_cast<T1*>(static_cast<const T1*>(&_v)),
-                                                        const_cast<T2*>(static_cast<const T2*>(&_u)) );
-  return *tmp;
+  // A scalar other than an expression is made an expression here, once, and not in every pass
+  if constexpr (true == std::is_same_v<Expression, T1>) {
+    auto tmp = Allocate<GenericMatScalarSumExpT<T1, T2>>(const_cast<T1*>(static_cast<const T1*>(&_v)),
+                                                        const_cast<T2*>(static_cast<const T2*>(&_u)));
+    return *tmp;
+  } else {
+    auto exp = Allocate<Expression>(_v);
+    auto tmp = Allocate<GenericMatScalarSumExpT<Expression, T2>>(exp.get(), const_cast<T2*>(static_cast<const T2*>(&_u)));
+    return *tmp;
+  }
 }
 
 // Matrix sum with scalar (RHS) - SFINAE'd
-- 
2.43.0


From 292fd59e7654d0f2ce5f9b1744eacdee907e6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 17/30] fix: pooled matrices never write through clones and are
 found again after a change of shape

---
 include/Matrix/Matrix.hpp                     | 14 +++++---
 .../MatrixInterface/MatrixConstructors.ipp    | 18 ++++++++++
 include/MemoryManager/MemoryManager.hpp       | 34 +++++++++++++++----
 .../CPUMemoryStrategy/CPUMemoryStrategy.hpp   | 18 +++++++---
 4 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 5d49b0d..d0a862d 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -69,6 +69,7 @@ public:
     template <typename... Args>
     static Matrix<T>* CreateMatrixPtr(Args&&... args) {
       auto tmp = Allocate<Matrix<T>>(std::forward<Args>(args)...);
+      tmp->mp_pool = tmp.get();
       return tmp.get();
     }
   };
@@ -113,6 +114,10 @@ private:
   
   // Should destructor be called? (True by default)
   bool m_dest{true};
+  // Is this matrix a clone, which only refers to the memory of another matrix?
+  bool m_clone{false};
+  // Next matrix (circular) which was given out for the same result, for matrices from the factory
+  Matrix* mp_pool{nullptr};
 
   // Memory allocation strategy (By default CPU strategy)
   SharedPtr<IMemoryStrategy<T>> mp_allocator{nullptr};
@@ -138,6 +143,9 @@ private:
   // Assign clone
   void assignClone(const Matrix*);
 
+  // Make a clone an owner of memory of its own
+  void resize(const size_t, const size_t);
+
   // Allocate friend function
   template <typename Z, typename... Argz>
   friend SharedPtr<Z> Allocate(Argz&&...);
@@ -406,11 +414,7 @@ namespace CoolDiff {
         const size_t nrows_x = X.getNumRows();
         const size_t ncols_x = X.getNumColumns();
 
-        if (nullptr == result) {
-          result = Matrix<Type>::MatrixFactory::CreateMatrixPtr(nrows_x, ncols_x, X.allocatorType());
-        } else if ((nrows_x != result->getNumRows()) || (ncols_x != result->getNumColumns())) {
-          result = Matrix<Type>::MatrixFactory::CreateMatrixPtr(nrows_x, ncols_x, X.allocatorType());
-        }
+        MemoryManager::MatrixPool(result, nrows_x, ncols_x, X.allocatorType());
 
         const size_t n_size = X.getNumElem();
         // Precompute (By design, the operation is serial)
diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 4282ba7..96114f8 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -31,6 +31,7 @@ void Matrix<T>::swap(Matrix& other) noexcept {
   std::swap(m_eval, other.m_eval);
   std::swap(m_devalf, other.m_devalf);
   std::swap(m_dest, other.m_dest);
+  std::swap(m_clone, other.m_clone);
   std::swap(mp_result, other.mp_result);
   std::swap(mp_dresult, other.mp_dresult);
   std::swap(m_nidx, other.m_nidx);
@@ -54,6 +55,22 @@ void Matrix<T>::assignClone(const Matrix<T>* other) {
   // The temporary that is created for assignClone is non-destroyable. 
   // It just holds the pointer of other matrix
   m_dest = false;
+  m_clone = true;
+}
+
+// Make a clone an owner of memory of its own
+template<typename T>
+void Matrix<T>::resize(const size_t rows, const size_t cols) {
+  // Assert for strictly non-negative values for rows and columns
+  ASSERT((rows > 0) && (cols > 0), "Row/Column size is not strictly non-negative");
+  auto tmp = MemoryStrategyFactory(allocatorType());
+  tmp->allocate(rows * cols);
+
+  mp_allocator = tmp;
+  m_rows = rows; 
+  m_cols = cols;
+  m_dest = true;
+  m_clone = false;
 }
 
 // Default constructor - Zero arguments
@@ -161,6 +178,7 @@ Matrix<T>::Matrix(Matrix&& m) noexcept :  m_rows{std::exchange(m.m_rows, -1)},
                                           m_eval{std::exchange(m.m_eval, false)},
                                           m_devalf{std::exchange(m.m_devalf, false)}, 
                                           m_dest{std::exchange(m.m_dest, true)},
+                                          m_clone{std::exchange(m.m_clone, false)},
                                           m_cache{std::move(m.m_cache)},
                                           m_gh_vec{std::exchange(m.m_gh_vec, {})}, 
                                           m_nidx{std::exchange(m.m_nidx, -1)} 
diff --git a/include/MemoryManager/MemoryManager.hpp b/include/MemoryManager/MemoryManager.hpp
index 1c85279..9aa1592 100644
--- a/include/MemoryManager/MemoryManager.hpp
+++ b/include/MemoryManager/MemoryManager.hpp
@@ -54,16 +54,38 @@ public:
     if (nullptr == result) {
       result = Matrix<T>::MatrixFactory::CreateMatrixPtr(rows, cols, std::forward<Args>(args)..., alloc_type);
       return;
-    } else if((rows*cols) == (result->getNumRows()*result->getNumColumns())) {
+    } else if((false == result->m_clone) && ((rows*cols) == result->getNumElem())) {
       // Special case when using vec operator is used, the only task to reshape the result matrix 
+      // Never reset result to zero. Some operations may take the same input and output
+      // e.g. MatrixAdd(result, A, result)
       result->reshape(rows, cols);
       return;
-    } else if ((rows != result->getNumRows()) || (cols != result->getNumColumns())) {
-      result = Matrix<T>::MatrixFactory::CreateMatrixPtr(rows, cols, std::forward<Args>(args)..., alloc_type);
-      return;
     } else {
-      // Never reset result to zero. Some operations may take the same input and output
-      // e.g. MatrixAdd(result, A, result)
+      // Matrices of other dimensions which were given out for this result stay valid, hence they are
+      // kept and found here again. A matrix which only refers to the memory of another one is no 
+      // result, the other one would be overwritten
+      Matrix<T>* clone{nullptr};
+      for(Matrix<T>* item = result->mp_pool; (nullptr != item) && (result != item); item = item->mp_pool) {
+        if(true == item->m_clone) {
+          clone = item;
+        } else if((rows*cols) == item->getNumElem()) {
+          item->reshape(rows, cols);
+          result = item;
+          return;
+        }
+      }
+
+      if(nullptr != clone) {
+        clone->resize(rows, cols);
+        result = clone;
+        return;
+      }
+
+      auto* item = Matrix<T>::MatrixFactory::CreateMatrixPtr(rows, cols, std::forward<Args>(args)..., alloc_type);
+      if(nullptr != result->mp_pool) {
+        std::swap(item->mp_pool, result->mp_pool);
+      }
+      result = item;
       return;
     }
   }
diff --git a/include/MemoryManager/MemoryStrategy/CPUMemoryStrategy/CPUMemoryStrategy.hpp b/include/MemoryManager/MemoryStrategy/CPUMemoryStrategy/CPUMemoryStrategy.hpp
index 5554ed0..5573cd4 100644
--- a/include/MemoryManager/MemoryStrategy/CPUMemoryStrategy/CPUMemoryStrategy.hpp
+++ b/include/MemoryManager/MemoryStrategy/CPUMemoryStrategy/CPUMemoryStrategy.hpp
@@ -28,14 +28,20 @@ class CPUMemoryStrategy : public IMemoryStrategy<T> {
     private:
         T* mp_ptr{nullptr}; 
         size_t m_length{}; 
+        // Memory allocated here (true) or set from outside (false)
+        bool m_own{false};
 
     public:
         CPUMemoryStrategy() = default; 
 
+        // One owner per memory
+        CPUMemoryStrategy(const CPUMemoryStrategy&) = delete;
+        CPUMemoryStrategy& operator=(const CPUMemoryStrategy&) = delete;
+
         // Allocate 
         V_OVERRIDE(void allocate(size_t N)) {
             ASSERT(N > 0, "Length is strictly non-negative");
-            m_length = N; mp_ptr = new T[N]{}; 
+            m_length = N; mp_ptr = new T[N]{}; m_own = true;
             ASSERT((nullptr != mp_ptr), "Local CPU allocation failed");
         }
 
@@ -59,7 +65,7 @@ class CPUMemoryStrategy : public IMemoryStrategy<T> {
 
         // Set raw pointer 
         V_OVERRIDE(void setPtr(T* ptr)) {
-            mp_ptr = ptr;
+            mp_ptr = ptr; m_own = false;
         }
 
         // Reset pointer values
@@ -79,6 +85,10 @@ class CPUMemoryStrategy : public IMemoryStrategy<T> {
             return "CPUMemoryStrategy";
         }
 
-        // Destructor
-        V_DTR(~CPUMemoryStrategy()) = default;
+        // Destructor (the last matrix which refers to the memory is gone)
+        V_DTR(~CPUMemoryStrategy()) {
+            if (true == m_own) {
+                deallocate();
+            }
+        }
 };
\ No newline at end of file
-- 
2.43.0


From 67b56e48dfda9f3e3987950d5598431369b87cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 18/30] fix: getColumn copies the requested column

---
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index a44bb45..83ea3c9 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -169,10 +169,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) && {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, i, &tmp](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return std::move(tmp);
@@ -188,10 +186,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) const & {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, i, &tmp](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return tmp;
-- 
2.43.0


From a96b30f9e6bf9db0b80d298314945a23c4ff9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 19/30] fix: matrices are moved without allocating memory

---
 include/Matrix/MetaMatrix.hpp | 4 ++--
 src/Matrix/MetaMatrix.cpp     | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/Matrix/MetaMatrix.hpp b/include/Matrix/MetaMatrix.hpp
index 4714e24..0f00dce 100644
--- a/include/Matrix/MetaMatrix.hpp
+++ b/include/Matrix/MetaMatrix.hpp
@@ -32,8 +32,8 @@ class MetaMatrix : protected CommonHeader {
     const size_t m_init_size = 16;
 
   protected:
-  // Vector of clones
-  Vector<Matrix<Type>*> m_cloned{nullptr};
+  // Vector of clones (allocated on first use, a matrix may be moved without any allocation)
+  Vector<Matrix<Type>*> m_cloned{};
   // Counter values
   LL_t m_clone_counter{};
   
diff --git a/src/Matrix/MetaMatrix.cpp b/src/Matrix/MetaMatrix.cpp
index b66776a..434af10 100644
--- a/src/Matrix/MetaMatrix.cpp
+++ b/src/Matrix/MetaMatrix.cpp
@@ -43,14 +43,11 @@ namespace CoolDiff {
 }
 
 // Default constructor
-MetaMatrix::MetaMatrix() {
-  m_cloned.resize(m_init_size); 
-  std::fill_n(EXECUTION_PAR m_cloned.begin(), m_init_size, nullptr);
-}
+MetaMatrix::MetaMatrix() = default;
 
 MetaMatrix::LL_t MetaMatrix::incFunc(const size_t scale) {
   if(const auto size = (LL_t)m_cloned.size(); (LL_t)m_clone_counter >= (size-1)) {
-      m_cloned.resize(scale*size);
+      m_cloned.resize(std::max((size_t)m_init_size, (size_t)(scale*size)), nullptr);
   }
   m_clone_counter += 1;
   return m_clone_counter;
-- 
2.43.0


From 4faa63b32fc4e33206523f39649015565c85bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 20/30] fix: random fills use the arguments of their own call

---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index d0a862d..c97e972 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -438,7 +438,7 @@ namespace CoolDiff {
       template<template <typename> class T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T<Type> dis(std::forward<Args>(args)...);
+          T<Type> dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
@@ -447,7 +447,7 @@ namespace CoolDiff {
       template<typename T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T dis(std::forward<Args>(args)...);
+          T dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
-- 
2.43.0


From bb17e738c824418b44eb80c73a13c03ddea708a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 21/30] fix: accumulate reverse derivatives sequentially

Several elements of a parallel loop wrote the same hash table.
---
 include/Matrix/BinaryOps/GenericMatConv.hpp   |  8 ++++----
 .../Matrix/BinaryOps/GenericMatHadamard.hpp   |  8 ++++----
 .../Matrix/BinaryOps/GenericMatProduct.hpp    | 20 +++++++++----------
 include/Matrix/BinaryOps/GenericMatSub.hpp    |  8 ++++----
 include/Matrix/BinaryOps/GenericMatSum.hpp    | 20 +++++++++----------
 include/Matrix/UnaryOps/GenericMatDet.hpp     |  4 ++--
 include/Matrix/UnaryOps/GenericMatInv.hpp     |  4 ++--
 .../Matrix/UnaryOps/GenericMatTranspose.hpp   |  4 ++--
 include/Matrix/UnaryOps/GenericMatUnary.hpp   |  4 ++--
 include/Matrix/UnaryOps/GenericMatVec.hpp     |  4 ++--
 include/Scalar/BinaryOps/GenericDiv.hpp       | 12 +++++------
 include/Scalar/BinaryOps/GenericPow.hpp       | 16 +++++++--------
 include/Scalar/BinaryOps/GenericProduct.hpp   | 12 +++++------
 .../Scalar/BinaryOps/GenericScalarBinary.hpp  | 16 +++++++--------
 include/Scalar/BinaryOps/GenericSub.hpp       |  8 ++++----
 include/Scalar/BinaryOps/GenericSum.hpp       | 12 +++++------
 include/Scalar/UnaryOps/GenericACos.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericACosh.hpp      |  4 ++--
 include/Scalar/UnaryOps/GenericASin.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericASinh.hpp      |  4 ++--
 include/Scalar/UnaryOps/GenericATan.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericATanh.hpp      |  4 ++--
 include/Scalar/UnaryOps/GenericCos.hpp        |  4 ++--
 include/Scalar/UnaryOps/GenericCosh.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericExp.hpp        |  4 ++--
 include/Scalar/UnaryOps/GenericLog.hpp        |  4 ++--
 .../Scalar/UnaryOps/GenericScalarUnary.hpp    |  4 ++--
 include/Scalar/UnaryOps/GenericSin.hpp        |  4 ++--
 include/Scalar/UnaryOps/GenericSinh.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericSqrt.hpp       |  4 ++--
 include/Scalar/UnaryOps/GenericTan.hpp        |  4 ++--
 include/Scalar/UnaryOps/GenericTanh.hpp       |  4 ++--
 32 files changed, 112 insertions(+), 112 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 3fd7a1e..2a595a2 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -247,7 +247,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[2]->getNumRows();
                       const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -264,7 +264,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
@@ -321,7 +321,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                         const size_t rows = mp_arr[2]->getNumRows();
                         const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -338,7 +338,7 @@ public:
         });
       
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&](const auto &item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
diff --git a/include/Matrix/BinaryOps/GenericMatHadamard.hpp b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
index df7ddd3..220374a 100644
--- a/include/Matrix/BinaryOps/GenericMatHadamard.hpp
+++ b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
@@ -209,7 +209,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[6]->getNumRows();
                       const size_t cols = mp_arr[6]->getNumColumns(); 
@@ -226,7 +226,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[7]->getNumRows();
                       const size_t cols = mp_arr[7]->getNumColumns(); 
@@ -288,7 +288,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                         const size_t rows = mp_arr[10]->getNumRows();
                         const size_t cols = mp_arr[10]->getNumColumns(); 
@@ -305,7 +305,7 @@ public:
         });
       
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&](const auto &item) {
                         const size_t rows = mp_arr[11]->getNumRows();
                         const size_t cols = mp_arr[11]->getNumColumns(); 
diff --git a/include/Matrix/BinaryOps/GenericMatProduct.hpp b/include/Matrix/BinaryOps/GenericMatProduct.hpp
index 31f474d..65d45bc 100644
--- a/include/Matrix/BinaryOps/GenericMatProduct.hpp
+++ b/include/Matrix/BinaryOps/GenericMatProduct.hpp
@@ -208,7 +208,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[6]->getNumRows();
                       const size_t cols = mp_arr[6]->getNumColumns(); 
@@ -225,7 +225,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[7]->getNumRows();
                       const size_t cols = mp_arr[7]->getNumColumns(); 
@@ -286,7 +286,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                         const size_t rows = mp_arr[10]->getNumRows();
                         const size_t cols = mp_arr[10]->getNumColumns(); 
@@ -303,7 +303,7 @@ public:
         });
       
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&](const auto &item) {
                       const size_t rows = mp_arr[11]->getNumRows();
                       const size_t cols = mp_arr[11]->getNumColumns(); 
@@ -474,7 +474,7 @@ public:
       }
 
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[2]->getNumRows();
                       const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -514,7 +514,7 @@ public:
         }
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                       [&](const auto &item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
@@ -711,7 +711,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR m_cache_v.begin(), m_cache_v.end(), 
+      std::for_each(EXECUTION_SEQ m_cache_v.begin(), m_cache_v.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[7]->getNumRows();
                       const size_t cols = mp_arr[7]->getNumColumns(); 
@@ -728,7 +728,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[8]->getNumRows();
                       const size_t cols = mp_arr[8]->getNumColumns(); 
@@ -778,7 +778,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR m_cache_v.begin(), m_cache_v.end(), 
+        std::for_each(EXECUTION_SEQ m_cache_v.begin(), m_cache_v.end(), 
                       [&](const auto& item) {
                         const size_t rows = mp_arr[11]->getNumRows();
                         const size_t cols = mp_arr[11]->getNumColumns(); 
@@ -795,7 +795,7 @@ public:
         });
       
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&](const auto &item) {
                       const size_t rows = mp_arr[12]->getNumRows();
                       const size_t cols = mp_arr[12]->getNumColumns(); 
diff --git a/include/Matrix/BinaryOps/GenericMatSub.hpp b/include/Matrix/BinaryOps/GenericMatSub.hpp
index 15e9c48..6ab8d97 100644
--- a/include/Matrix/BinaryOps/GenericMatSub.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSub.hpp
@@ -187,7 +187,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[2]->getNumRows();
                       const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -202,7 +202,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
@@ -256,7 +256,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[4]->getNumRows();
                       const size_t cols = mp_arr[4]->getNumColumns(); 
@@ -273,7 +273,7 @@ public:
         });
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                       [&](const auto &item) {
                       const size_t rows = mp_arr[5]->getNumRows();
                       const size_t cols = mp_arr[5]->getNumColumns(); 
diff --git a/include/Matrix/BinaryOps/GenericMatSum.hpp b/include/Matrix/BinaryOps/GenericMatSum.hpp
index db8bec2..46890af 100644
--- a/include/Matrix/BinaryOps/GenericMatSum.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSum.hpp
@@ -189,7 +189,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[2]->getNumRows();
                       const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -204,7 +204,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
@@ -256,7 +256,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[4]->getNumRows();
                       const size_t cols = mp_arr[4]->getNumColumns(); 
@@ -273,7 +273,7 @@ public:
         });
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                       [&](const auto &item) {
                       const size_t rows = mp_arr[5]->getNumRows();
                       const size_t cols = mp_arr[5]->getNumColumns(); 
@@ -435,7 +435,7 @@ public:
       }
 
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[2]->getNumRows();
                       const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -473,7 +473,7 @@ public:
         }
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                       [&](const auto &item) {
                       const size_t rows = mp_arr[3]->getNumRows();
                       const size_t cols = mp_arr[3]->getNumColumns(); 
@@ -662,7 +662,7 @@ public:
       }
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR m_cache_v.begin(), m_cache_v.end(), 
+      std::for_each(EXECUTION_SEQ m_cache_v.begin(), m_cache_v.end(), 
                       [&](const auto& item) {
                       const size_t rows = mp_arr[4]->getNumRows();
                       const size_t cols = mp_arr[4]->getNumColumns(); 
@@ -679,7 +679,7 @@ public:
       });
   
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
                       const size_t rows = mp_arr[5]->getNumRows();
                       const size_t cols = mp_arr[5]->getNumColumns(); 
@@ -728,7 +728,7 @@ public:
         }
 
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR m_cache_v.begin(), m_cache_v.end(), 
+        std::for_each(EXECUTION_SEQ m_cache_v.begin(), m_cache_v.end(), 
                       [&](const auto& item) {
                         const size_t rows = mp_arr[7]->getNumRows();
                         const size_t cols = mp_arr[7]->getNumColumns(); 
@@ -745,7 +745,7 @@ public:
         });
       
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&](const auto &item) {
                       const size_t rows = mp_arr[8]->getNumRows();
                       const size_t cols = mp_arr[8]->getNumColumns(); 
diff --git a/include/Matrix/UnaryOps/GenericMatDet.hpp b/include/Matrix/UnaryOps/GenericMatDet.hpp
index be291dd..ddc9229 100644
--- a/include/Matrix/UnaryOps/GenericMatDet.hpp
+++ b/include/Matrix/UnaryOps/GenericMatDet.hpp
@@ -206,7 +206,7 @@ public:
         (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                                
       }
       
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),
               [&](const auto& item) {  
                 const size_t rows = mp_arr[14]->getNumRows();
                 const size_t cols = mp_arr[14]->getNumColumns(); 
@@ -261,7 +261,7 @@ public:
           (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                              
         }  
 
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),         
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),         
                       [&](const auto &item) {       
                         const size_t rows = mp_arr[19]->getNumRows();
                         const size_t cols = mp_arr[19]->getNumColumns(); 
diff --git a/include/Matrix/UnaryOps/GenericMatInv.hpp b/include/Matrix/UnaryOps/GenericMatInv.hpp
index 7697a81..1347304 100644
--- a/include/Matrix/UnaryOps/GenericMatInv.hpp
+++ b/include/Matrix/UnaryOps/GenericMatInv.hpp
@@ -186,7 +186,7 @@ public:
         (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                                
       }
       
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),
               [&](const auto& item) {
                 const size_t rows = mp_arr[10]->getNumRows();
                 const size_t cols = mp_arr[10]->getNumColumns(); 
@@ -234,7 +234,7 @@ public:
           (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                              
         }  
 
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),         
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),         
                       [&](const auto &item) {         
                         const size_t rows = mp_arr[15]->getNumRows();
                         const size_t cols = mp_arr[15]->getNumColumns(); 
diff --git a/include/Matrix/UnaryOps/GenericMatTranspose.hpp b/include/Matrix/UnaryOps/GenericMatTranspose.hpp
index 0c8fc43..fabaedd 100644
--- a/include/Matrix/UnaryOps/GenericMatTranspose.hpp
+++ b/include/Matrix/UnaryOps/GenericMatTranspose.hpp
@@ -156,7 +156,7 @@ public:
         (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                                
       }
       
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),
               [&](const auto& item) {
                 const size_t rows = mp_arr[2]->getNumRows();
                 const size_t cols = mp_arr[2]->getNumColumns(); 
@@ -197,7 +197,7 @@ public:
           (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                              
         }  
 
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),         
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),         
                       [&](const auto &item) {      
                         const size_t rows = mp_arr[4]->getNumRows();
                         const size_t cols = mp_arr[4]->getNumColumns(); 
diff --git a/include/Matrix/UnaryOps/GenericMatUnary.hpp b/include/Matrix/UnaryOps/GenericMatUnary.hpp
index 5fb7f63..9d0249b 100644
--- a/include/Matrix/UnaryOps/GenericMatUnary.hpp
+++ b/include/Matrix/UnaryOps/GenericMatUnary.hpp
@@ -87,7 +87,7 @@ class GenericMat##OPS : public IMatrix<GenericMat##OPS<T>> {
           for(const auto& [k,v] : (*cache)) {                                                       \
             (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                                \
           }                                                                                         \
-          std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),           \
+          std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),           \
                         [&](const auto& item) {                                                     \
                           const size_t rows = mp_arr[4]->getNumRows();                              \
                           const size_t cols = mp_arr[4]->getNumColumns();                           \
@@ -119,7 +119,7 @@ class GenericMat##OPS : public IMatrix<GenericMat##OPS<T>> {
             for(const auto& [k,v] : (*cache)) {                                                     \
               (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                              \
             }                                                                                       \
-            std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),         \
+            std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),         \
                           [&](const auto &item) {                                                   \
                             const size_t rows = mp_arr[6]->getNumRows();                            \
                             const size_t cols = mp_arr[6]->getNumColumns();                         \
diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 13dc8da..7bf1d26 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -150,7 +150,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
                     (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                                
                 }
                 
-                std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),
+                std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),
                         [&](const auto& item) {
                             const size_t rows = mp_arr[0]->getNumRows();
                             const size_t cols = mp_arr[0]->getNumColumns(); 
@@ -195,7 +195,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
                         (*cache)[k] = v->clone(this->m_cloned[this->incFunc()]);                              
                     }  
 
-                    std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(),         
+                    std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(), mp_right->m_cache.end(),         
                                 [&](const auto &item) {      
                                     const size_t rows = mp_arr[1]->getNumRows();
                                     const size_t cols = mp_arr[1]->getNumColumns(); 
diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index d1265d3..026a59e 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -124,7 +124,7 @@ public:
 
       // Modify cache for left node
       if (inv_v != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, inv_v](const auto &item) {
                         const auto idx = item.first;
@@ -134,7 +134,7 @@ public:
       }
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -166,7 +166,7 @@ public:
 
       // Modify cache for left node
       if (vstar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, vstar](const auto &item) {
                         const auto idx = item.first;
@@ -176,7 +176,7 @@ public:
       }
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -314,7 +314,7 @@ public:
 
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -339,7 +339,7 @@ public:
 
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
diff --git a/include/Scalar/BinaryOps/GenericPow.hpp b/include/Scalar/BinaryOps/GenericPow.hpp
index 65b40cb..f59c356 100644
--- a/include/Scalar/BinaryOps/GenericPow.hpp
+++ b/include/Scalar/BinaryOps/GenericPow.hpp
@@ -123,7 +123,7 @@ public:
 
       // Modify cache for left node
       if (du != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [&cache, du](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -132,7 +132,7 @@ public:
       }
       // Modify cache for right node
       if (dv != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&cache, dv](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -163,7 +163,7 @@ public:
 
       // Modify cache for left node
       if (vstar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, vstar](const auto &item) {
                         const auto idx = item.first;
@@ -173,7 +173,7 @@ public:
       }
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -308,7 +308,7 @@ public:
 
       // Modify cache for right node
       if (dv != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&cache, dv](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -331,7 +331,7 @@ public:
 
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -463,7 +463,7 @@ public:
 
       // Modify cache for left node
       if (du != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [&cache, du](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -487,7 +487,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
diff --git a/include/Scalar/BinaryOps/GenericProduct.hpp b/include/Scalar/BinaryOps/GenericProduct.hpp
index 6bc909a..ccc22bd 100644
--- a/include/Scalar/BinaryOps/GenericProduct.hpp
+++ b/include/Scalar/BinaryOps/GenericProduct.hpp
@@ -119,7 +119,7 @@ public:
 
       // Modify cache for left node
       if (v != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [&cache, v](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -128,7 +128,7 @@ public:
       }
       // Modify cache for right node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(), [&cache, u](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -156,7 +156,7 @@ public:
 
       // Modify cache for left node
       if (vstar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, vstar](const auto &item) {
                         const auto idx = item.first;
@@ -166,7 +166,7 @@ public:
       }
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
@@ -298,7 +298,7 @@ public:
 
       // Modify cache for right node
       if (mp_left != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, mp_left = this->mp_left](const auto &item) {
                         const auto idx = item.first;
@@ -321,7 +321,7 @@ public:
 
       // Modify cache for right node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, ustar](const auto &item) {
                         const auto idx = item.first;
diff --git a/include/Scalar/BinaryOps/GenericScalarBinary.hpp b/include/Scalar/BinaryOps/GenericScalarBinary.hpp
index 92a0d0e..f36eeac 100644
--- a/include/Scalar/BinaryOps/GenericScalarBinary.hpp
+++ b/include/Scalar/BinaryOps/GenericScalarBinary.hpp
@@ -76,14 +76,14 @@ class Generic##OPS : public IVariable<Generic##OPS<T1, T2, Callables...>> {
         const Type v = mp_right->eval();                                                              \
         (*cache)[mp_left->m_nidx] += (FUNC2(u, v));                                                   \
         (*cache)[mp_right->m_nidx] += (FUNC3(u, v));                                                  \
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                                         \
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                                         \
                       mp_left->m_cache.end(),                                                         \
                       [&cache, this, u, v](const auto &item) {                                        \
                         const auto idx = item.first;                                                  \
                         const auto val = item.second;                                                 \
                         (*cache)[idx] += (val * (FUNC2(u, v)));                                       \
                       });                                                                             \
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),                                        \
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),                                        \
                       mp_right->m_cache.end(),                                                        \
                       [&cache, this, u, v](const auto &item) {                                        \
                         const auto idx = item.first;                                                  \
@@ -103,14 +103,14 @@ class Generic##OPS : public IVariable<Generic##OPS<T1, T2, Callables...>> {
         (*cache)[mp_left->m_nidx] += ((FUNC2(u, v)) * cCache);                                        \
         (*cache)[mp_right->m_nidx] += ((FUNC3(u, v)) * cCache);                                       \
         if (cCache != (Type)(0)) {                                                                    \
-          std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                                       \
+          std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                                       \
                         mp_left->m_cache.end(),                                                       \
                         [&cache, this, cCache, u, v](const auto &item) {                              \
                           const auto idx = item.first;                                                \
                           const auto val = item.second;                                               \
                           (*cache)[idx] += (val * (FUNC2(u, v)) * cCache);                            \
                         });                                                                           \
-          std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),                                      \
+          std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),                                      \
                         mp_right->m_cache.end(),                                                      \
                         [&cache, this, cCache, u, v](const auto &item) {                              \
                           const auto idx = item.first;                                                \
@@ -187,7 +187,7 @@ class Generic##OPS<Type, T, Callables...> : public IVariable<Generic##OPS<Type,
         }                                                                                            \
         const Type v = mp_right->eval();                                                             \
         (*cache)[mp_right->m_nidx] += (FUNC3(mp_left, v));                                           \
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),                                       \
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),                                       \
                       mp_right->m_cache.end(),                                                       \
                       [&cache, this, v](const auto &item) {                                          \
                         const auto idx = item.first;                                                 \
@@ -202,7 +202,7 @@ class Generic##OPS<Type, T, Callables...> : public IVariable<Generic##OPS<Type,
         const Type v = mp_right->eval();                                                             \
         (*cache)[mp_right->m_nidx] += ((FUNC3(mp_left, v)) * cCache);                                \
         if (cCache != (Type)(0)) {                                                                   \
-          std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),                                     \
+          std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),                                     \
                         mp_right->m_cache.end(),                                                     \
                         [&cache, this, cCache, v](const auto &item) {                                \
                           const auto idx = item.first;                                               \
@@ -275,7 +275,7 @@ public:
         }                                                                                            \
         const Type u = mp_left->eval();                                                              \
         (*cache)[mp_left->m_nidx] += (FUNC2(u, mp_right));                                           \
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                                        \
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                                        \
                       mp_left->m_cache.end(),                                                        \
                       [&cache, this, u](const auto &item) {                                          \
                         const auto idx = item.first;                                                 \
@@ -290,7 +290,7 @@ public:
         const Type u = mp_left->eval();                                                              \
         (*cache)[mp_left->m_nidx] += ((FUNC2(u, mp_right)) * cCache);                                \
         if (cCache != (Type)(0)) {                                                                   \
-          std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                                      \
+          std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                                      \
                         mp_left->m_cache.end(),                                                      \
                         [&cache, this, cCache, u](const auto &item) {                                \
                           const auto idx = item.first;                                               \
diff --git a/include/Scalar/BinaryOps/GenericSub.hpp b/include/Scalar/BinaryOps/GenericSub.hpp
index 5193628..48b2227 100644
--- a/include/Scalar/BinaryOps/GenericSub.hpp
+++ b/include/Scalar/BinaryOps/GenericSub.hpp
@@ -115,7 +115,7 @@ public:
       (*cache)[mp_right->m_nidx] += (Type)(-1);
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                     mp_left->m_cache.end(), [&cache](const auto &item) {
                       const auto idx = item.first;
                       const auto val = item.second;
@@ -123,7 +123,7 @@ public:
                     });
 
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                     mp_right->m_cache.end(), [&cache](const auto &item) {
                       const auto idx = item.first;
                       const auto val = item.second;
@@ -148,7 +148,7 @@ public:
 
       // Modify cache for left node
       if (cCache != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, cCache](const auto &item) {
                         const auto idx = item.first;
@@ -157,7 +157,7 @@ public:
                       });
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, cCache](const auto &item) {
                         const auto idx = item.first;
diff --git a/include/Scalar/BinaryOps/GenericSum.hpp b/include/Scalar/BinaryOps/GenericSum.hpp
index 8a813b0..3e351dd 100644
--- a/include/Scalar/BinaryOps/GenericSum.hpp
+++ b/include/Scalar/BinaryOps/GenericSum.hpp
@@ -115,7 +115,7 @@ public:
       (*cache)[mp_right->m_nidx] += (Type)(1);
 
       // Modify cache for left node
-      std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+      std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                     mp_left->m_cache.end(), [&cache](const auto &item) {
                       const auto idx = item.first;
                       const auto val = item.second;
@@ -123,7 +123,7 @@ public:
                     });
 
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                     mp_right->m_cache.end(), [&cache](const auto &item) {
                       const auto idx = item.first;
                       const auto val = item.second;
@@ -149,7 +149,7 @@ public:
 
       if (cCache != (Type)(0)) {
         // Modify cache for left node
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(),
                       [&cache, cCache](const auto &item) {
                         const auto idx = item.first;
@@ -158,7 +158,7 @@ public:
                       });
 
         // Modify cache for right node
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, cCache](const auto &item) {
                         const auto idx = item.first;
@@ -291,7 +291,7 @@ public:
       (*cache)[mp_right->m_nidx] += (Type)1;
 
       // Modify cache for right node
-      std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+      std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                     mp_right->m_cache.end(), [&cache](const auto &item) {
                       const auto idx = item.first;
                       const auto val = item.second;
@@ -312,7 +312,7 @@ public:
 
       // Modify cache for right node
       if (cCache != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_right->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_right->m_cache.begin(),
                       mp_right->m_cache.end(),
                       [&cache, cCache](const auto &item) {
                         const auto idx = item.first;
diff --git a/include/Scalar/UnaryOps/GenericACos.hpp b/include/Scalar/UnaryOps/GenericACos.hpp
index a792846..d2b8ba3 100644
--- a/include/Scalar/UnaryOps/GenericACos.hpp
+++ b/include/Scalar/UnaryOps/GenericACos.hpp
@@ -110,7 +110,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -134,7 +134,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                         mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericACosh.hpp b/include/Scalar/UnaryOps/GenericACosh.hpp
index 736b9cb..2131be9 100644
--- a/include/Scalar/UnaryOps/GenericACosh.hpp
+++ b/include/Scalar/UnaryOps/GenericACosh.hpp
@@ -110,7 +110,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -133,7 +133,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericASin.hpp b/include/Scalar/UnaryOps/GenericASin.hpp
index 799c542..f75563f 100644
--- a/include/Scalar/UnaryOps/GenericASin.hpp
+++ b/include/Scalar/UnaryOps/GenericASin.hpp
@@ -110,7 +110,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -134,7 +134,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericASinh.hpp b/include/Scalar/UnaryOps/GenericASinh.hpp
index 0955a26..6ae93f2 100644
--- a/include/Scalar/UnaryOps/GenericASinh.hpp
+++ b/include/Scalar/UnaryOps/GenericASinh.hpp
@@ -109,7 +109,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -132,7 +132,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericATan.hpp b/include/Scalar/UnaryOps/GenericATan.hpp
index 27de667..6094590 100644
--- a/include/Scalar/UnaryOps/GenericATan.hpp
+++ b/include/Scalar/UnaryOps/GenericATan.hpp
@@ -110,7 +110,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -133,7 +133,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericATanh.hpp b/include/Scalar/UnaryOps/GenericATanh.hpp
index 3648bb2..6188efe 100644
--- a/include/Scalar/UnaryOps/GenericATanh.hpp
+++ b/include/Scalar/UnaryOps/GenericATanh.hpp
@@ -110,7 +110,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -133,7 +133,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericCos.hpp b/include/Scalar/UnaryOps/GenericCos.hpp
index 9725f53..d0324c9 100644
--- a/include/Scalar/UnaryOps/GenericCos.hpp
+++ b/include/Scalar/UnaryOps/GenericCos.hpp
@@ -108,7 +108,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -130,7 +130,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericCosh.hpp b/include/Scalar/UnaryOps/GenericCosh.hpp
index f3ea374..1ebc62c 100644
--- a/include/Scalar/UnaryOps/GenericCosh.hpp
+++ b/include/Scalar/UnaryOps/GenericCosh.hpp
@@ -108,7 +108,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -130,7 +130,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericExp.hpp b/include/Scalar/UnaryOps/GenericExp.hpp
index fce8fce..719ef24 100644
--- a/include/Scalar/UnaryOps/GenericExp.hpp
+++ b/include/Scalar/UnaryOps/GenericExp.hpp
@@ -108,7 +108,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -130,7 +130,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericLog.hpp b/include/Scalar/UnaryOps/GenericLog.hpp
index 4f58fc9..b14fb9d 100644
--- a/include/Scalar/UnaryOps/GenericLog.hpp
+++ b/include/Scalar/UnaryOps/GenericLog.hpp
@@ -107,7 +107,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -129,7 +129,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericScalarUnary.hpp b/include/Scalar/UnaryOps/GenericScalarUnary.hpp
index 99b72ef..d372e0c 100644
--- a/include/Scalar/UnaryOps/GenericScalarUnary.hpp
+++ b/include/Scalar/UnaryOps/GenericScalarUnary.hpp
@@ -67,7 +67,7 @@ class Generic##OPS : public IVariable<Generic##OPS<T, Callables...>> {         \
         const Type u = FUNC2(mp_left->eval());                                 \
         (*cache)[mp_left->m_nidx] += (u);                                      \
         if (u != (Type)(0)) {                                                  \
-          std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                \
+          std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                \
                         mp_left->m_cache.end(),                                \
                         [u, &cache](const auto &item) {                        \
                           const auto idx = item.first;                         \
@@ -84,7 +84,7 @@ class Generic##OPS : public IVariable<Generic##OPS<T, Callables...>> {         \
         const Type ustar = (FUNC2(mp_left->eval()) * cCache);                  \
         (*cache)[mp_left->m_nidx] += (ustar);                                  \
         if (ustar != (Type)(0)) {                                              \
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),                  \
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),                  \
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {    \
                         const auto idx = item.first;                           \
                         const auto val = item.second;                          \
diff --git a/include/Scalar/UnaryOps/GenericSin.hpp b/include/Scalar/UnaryOps/GenericSin.hpp
index 48bcfba..1db3495 100644
--- a/include/Scalar/UnaryOps/GenericSin.hpp
+++ b/include/Scalar/UnaryOps/GenericSin.hpp
@@ -108,7 +108,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -130,7 +130,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericSinh.hpp b/include/Scalar/UnaryOps/GenericSinh.hpp
index 1b31d85..a1be798 100644
--- a/include/Scalar/UnaryOps/GenericSinh.hpp
+++ b/include/Scalar/UnaryOps/GenericSinh.hpp
@@ -108,7 +108,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -130,7 +130,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericSqrt.hpp b/include/Scalar/UnaryOps/GenericSqrt.hpp
index 9d64c9c..69e8fbe 100644
--- a/include/Scalar/UnaryOps/GenericSqrt.hpp
+++ b/include/Scalar/UnaryOps/GenericSqrt.hpp
@@ -109,7 +109,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -132,7 +132,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericTan.hpp b/include/Scalar/UnaryOps/GenericTan.hpp
index 04928dd..b9a53ec 100644
--- a/include/Scalar/UnaryOps/GenericTan.hpp
+++ b/include/Scalar/UnaryOps/GenericTan.hpp
@@ -109,7 +109,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -133,7 +133,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
diff --git a/include/Scalar/UnaryOps/GenericTanh.hpp b/include/Scalar/UnaryOps/GenericTanh.hpp
index fe37da0..9dc573c 100644
--- a/include/Scalar/UnaryOps/GenericTanh.hpp
+++ b/include/Scalar/UnaryOps/GenericTanh.hpp
@@ -109,7 +109,7 @@ public:
 
       // Modify cache for left node
       if (u != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [u, &cache](const auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
@@ -133,7 +133,7 @@ public:
 
       // Modify cache for left node
       if (ustar != (Type)(0)) {
-        std::for_each(EXECUTION_PAR mp_left->m_cache.begin(),
+        std::for_each(EXECUTION_SEQ mp_left->m_cache.begin(),
                       mp_left->m_cache.end(), [ustar, &cache](auto &item) {
                         const auto idx = item.first;
                         const auto val = item.second;
-- 
2.43.0


From d7d1188d6a412e7978b01e0a3a1dd6414033f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 22/30] fix: sum the trace sequentially

The parallel loop raced on the sum.
---
 .../MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
index 29bf86b..7d9bd1e 100644
--- a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
@@ -47,7 +47,7 @@ class MatTraceNaiveHandler : public T {
 
             // Naive matrix-matrix multiplication
             Type tmp{};
-            std::for_each(EXECUTION_PAR outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
+            std::for_each(EXECUTION_SEQ outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
                     tmp = tmp + (*rhs)(n,n);
             });
             (*result)[0] = tmp;
-- 
2.43.0


From 7e12a58511ac362de9ed68166773e1902b708b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 23/30] fix: read the derivatives of a matrix element
 sequentially

Reading one may insert into the hash table of the element.
---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 3fa0d39..8f036c3 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -126,8 +126,8 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
                     const size_t k = (i % m_cols);
                     const size_t l = ((i - k) / m_cols);
 
-                    // Inner loop
-                    std::for_each(EXECUTION_PAR inner_idx.begin(), inner_idx.end(), [&](const size_t n) {
+                    // Inner loop (reading a derivative may add an entry to the cache of the element)
+                    std::for_each(EXECUTION_SEQ inner_idx.begin(), inner_idx.end(), [&](const size_t n) {
                             const size_t j = (n % xcols);
                             const size_t i = ((n - j) / xcols);
                             (*mp_dresult)((l * xrows) + i, (k * xcols) + j) = CoolDiff::TensorR1::DevalR((*this)(l, k), X(i, j));
-- 
2.43.0


From 3e1774e51b0e31f4c04c745e8129641531553ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 24/30] fix: draw random fills sequentially

The draws share one generator.
---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index c97e972..174351f 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -440,7 +440,7 @@ namespace CoolDiff {
           // Distribution
           T<Type> dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
       // Fill matrix with random weights (Non templatized distributions)
@@ -449,7 +449,7 @@ namespace CoolDiff {
           // Distribution
           T dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
     }
-- 
2.43.0


From 72edddd64e5d1054356385d28a0d42ba2811a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 25/30] hook: serve the pinned memory strategy from the CPU
 under COOLDIFF_SIM_HOOKS

---
 include/Matrix/Matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 174351f..edf1c09 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -83,6 +83,11 @@ public:
       else if("GPUPinnedMemoryStrategy" == str) {
         return std::make_shared<GPUPinnedMemoryStrategy<T>>();
       } 
+    #elif defined(COOLDIFF_SIM_HOOKS)
+      // Simulation without a GPU: pinned memory is served by the CPU strategy
+      else if("GPUPinnedMemoryStrategy" == str) {
+        return std::make_shared<CPUMemoryStrategy<T>>();
+      }
     #endif
     else {
       return nullptr;
-- 
2.43.0


From 01a2bd00fc6202b379df25d822748b6882ffd72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:45 +0000
Subject: [PATCH 26/30] fix: diagnose a convolution kernel larger than the
 padded matrix

---
 include/Matrix/BinaryOps/GenericMatConv.hpp           | 11 ++++++++---
 .../MatrixConvolution/Eigen/MatConvEigenHandler.hpp   |  4 ++--
 .../NaiveCPU/MatConvNaiveHandler.hpp                  |  4 ++--
 .../NaiveCPU/MatDervConvNaiveHandler.hpp              |  4 ++--
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 2a595a2..5ed3ab2 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -41,10 +41,15 @@ private:
     DISABLE_MOVE(GenericMatConv)
   #endif
 
+  // Size of the result (0, if the kernel does not fit into the padded input)
+  inline static constexpr size_t resultSize(const size_t padded, const size_t kernel, const size_t stride) {
+    return ((padded < kernel) ? 0 : (((padded - kernel) / stride) + 1));
+  }
+
   // Verify dimensions of result matrix for convolution operation
   inline constexpr bool verifyDim() const {
     // Dimension of the result of convolution operator must be strictly non-negative
-    return ((int)getNumRows() > 0 || (int)getNumColumns() > 0);
+    return ((getNumRows() > 0) && (getNumColumns() > 0));
   }
 
   // All matrices
@@ -119,12 +124,12 @@ public:
 
   // Get number of rows (After convolution)
   V_OVERRIDE(size_t getNumRows() const) {
-    return (((mp_left->getNumRows() + (2 * m_pad_x) - mp_right->getNumRows()) / m_stride_x) + 1);
+    return resultSize(mp_left->getNumRows() + (2 * m_pad_x), mp_right->getNumRows(), m_stride_x);
   }
 
   // Get number of columns (After convolution)
   V_OVERRIDE(size_t getNumColumns() const) {
-    return (((mp_left->getNumColumns() + (2 * m_pad_y) - mp_right->getNumColumns()) / m_stride_y) + 1);
+    return resultSize(mp_left->getNumColumns() + (2 * m_pad_y), mp_right->getNumColumns(), m_stride_y);
   }
 
   // Find me
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
index 9deaf1f..7421312 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
@@ -84,8 +84,8 @@ class MatConvEigenHandler : public T {
             const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
             const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-            // Matrix-Matrix convolution result dimensions must be strictly non-negative
-            ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+            // The kernel must fit into the padded matrix
+            ASSERT((lhs->getNumRows() + (2 * pad_x) >= crows) && (lhs->getNumColumns() + (2 * pad_y) >= ccols), "Matrix-Matrix convolution dimensions invalid");
 
             // Pad left matrix with the required padding
             lhs->pad(pad_x, pad_y, mp_arr);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
index 3ecf449..3ff0d87 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
@@ -64,8 +64,8 @@ class MatConvNaiveHandler : public T {
         const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
         const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-        // Matrix-Matrix convolution result dimensions must be strictly non-negative
-        ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+        // The kernel must fit into the padded matrix
+        ASSERT((lhs->getNumRows() + (2 * pad_x) >= crows) && (lhs->getNumColumns() + (2 * pad_y) >= ccols), "Matrix-Matrix convolution dimensions invalid");
 
         // Pad left matrix with the required padding
         lhs->pad(pad_x, pad_y, mp_arr[0]);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
index c09a8f7..fed2cad 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
@@ -71,8 +71,8 @@ class MatDervConvNaiveHandler : public T {
       const size_t rows = (((lhs->getNumRows() + (2 * pad_x) - crows) / stride_x) + 1);
       const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
-      // Matrix-Matrix convolution result dimensions must be strictly non-negative
-      ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+      // The kernel must fit into the padded matrix
+      ASSERT((lhs->getNumRows() + (2 * pad_x) >= crows) && (lhs->getNumColumns() + (2 * pad_y) >= ccols), "Matrix-Matrix convolution dimensions invalid");
 
       // Pad left derivative matrix with required padding
       dlhs->pad((pad_x * nrows_x), (pad_y * ncols_x), mp_arr[0]);
-- 
2.43.0


From c30719b952a4c5c498b685ae6618a758542b60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 27/30] fix: check the operands' shapes after they are
 evaluated

---
 include/Matrix/BinaryOps/GenericMatConv.hpp     | 12 ++++++------
 include/Matrix/BinaryOps/GenericMatHadamard.hpp | 12 ++++++------
 include/Matrix/BinaryOps/GenericMatProduct.hpp  | 12 ++++++------
 include/Matrix/BinaryOps/GenericMatSub.hpp      | 12 ++++++------
 include/Matrix/BinaryOps/GenericMatSum.hpp      | 12 ++++++------
 include/Matrix/UnaryOps/GenericMatDet.hpp       | 12 ++++++------
 include/Matrix/UnaryOps/GenericMatInv.hpp       | 12 ++++++------
 include/Matrix/UnaryOps/GenericMatVec.hpp       | 10 +++++-----
 8 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 5ed3ab2..9107224 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -149,13 +149,13 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
-
     // Get raw pointers to result, left and right matrices
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
+
     std::for_each(EXECUTION_PAR mp_arr, mp_arr + m_size, [&](Matrix<Type>*& m) {
       if (nullptr != m) {                                                        
         m = ((left_mat == m) ? nullptr : m);
@@ -172,9 +172,6 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
-
     // Left and right matrices derivatives
     Matrix<Type>* dleft_mat = mp_left->devalF(X);
     Matrix<Type>* dright_mat = mp_right->devalF(X);
@@ -183,6 +180,9 @@ public:
     Matrix<Type>* left_mat = mp_left->eval();
     Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix convolution dimensions invalid");
+
     std::for_each(EXECUTION_PAR mp_arr, mp_arr + m_size, [&](Matrix<Type>*& m) {
       if (nullptr != m) {                                                        
         m = ((dleft_mat == m) ? nullptr : m);
diff --git a/include/Matrix/BinaryOps/GenericMatHadamard.hpp b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
index 220374a..af0f611 100644
--- a/include/Matrix/BinaryOps/GenericMatHadamard.hpp
+++ b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
@@ -94,13 +94,13 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix Hadamard product dimensions mismatch");
-
     // Get raw pointers to result, left and right matrices
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix Hadamard product dimensions mismatch");
+
     const size_t start = 0;
     const size_t end = 1;
     std::for_each(EXECUTION_PAR mp_arr + start, mp_arr + end, [&](Matrix<Type>*& m) {
@@ -118,9 +118,6 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix Hadamard product dimensions mismatch");
-
     // Left and right matrices derivatives
     const Matrix<Type>* dleft_mat = mp_left->devalF(X);
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
@@ -129,6 +126,9 @@ public:
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix Hadamard product dimensions mismatch");
+
     const size_t start = 1;
     const size_t end = 6;
     std::for_each(EXECUTION_PAR mp_arr + start, mp_arr + end, [&](Matrix<Type>*& m) {
diff --git a/include/Matrix/BinaryOps/GenericMatProduct.hpp b/include/Matrix/BinaryOps/GenericMatProduct.hpp
index 65d45bc..7b9b5d1 100644
--- a/include/Matrix/BinaryOps/GenericMatProduct.hpp
+++ b/include/Matrix/BinaryOps/GenericMatProduct.hpp
@@ -91,13 +91,13 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix multiplication dimensions mismatch");
-
     // Get raw pointers to result, left and right matrices
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix multiplication dimensions mismatch");
+
     // Reset function
     const size_t start = 0;
     const size_t end = 1;
@@ -116,9 +116,6 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix multiplication dimensions mismatch");
-
     // Left and right matrices derivatives
     const Matrix<Type>* dleft_mat = mp_left->devalF(X);
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
@@ -126,6 +123,9 @@ public:
     // Left and right matrices evaluation
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
+
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix multiplication dimensions mismatch");
     
     // Reset function
     const size_t start = 1;
diff --git a/include/Matrix/BinaryOps/GenericMatSub.hpp b/include/Matrix/BinaryOps/GenericMatSub.hpp
index 6ab8d97..56fac33 100644
--- a/include/Matrix/BinaryOps/GenericMatSub.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSub.hpp
@@ -93,13 +93,13 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix subtraction dimensions mismatch");
-
     // Get raw pointers to result, left and right matrices
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix subtraction dimensions mismatch");
+
     const size_t start = 0;
     const size_t end = 1;
     std::for_each(EXECUTION_PAR mp_arr + start, mp_arr + end, [&](Matrix<Type>*& m) {
@@ -118,13 +118,13 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix subtraction dimensions mismatch");
-
     // Left and right matrices
     const Matrix<Type>* dleft_mat = mp_left->devalF(X);
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix subtraction dimensions mismatch");
+
     const size_t start = 1; 
     const size_t end = 2;
     std::for_each(EXECUTION_PAR mp_arr + start, mp_arr + end, [&](Matrix<Type>*& m) {
diff --git a/include/Matrix/BinaryOps/GenericMatSum.hpp b/include/Matrix/BinaryOps/GenericMatSum.hpp
index 46890af..84b227f 100644
--- a/include/Matrix/BinaryOps/GenericMatSum.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSum.hpp
@@ -93,13 +93,13 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix addition dimensions mismatch");
-
     // Get raw pointers to result, left and right matrices
     const Matrix<Type>* left_mat = mp_left->eval();
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix addition dimensions mismatch");
+
     // Reset function
     const size_t start = 0;
     const size_t end = 1;
@@ -119,13 +119,13 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix-Matrix addition dimensions mismatch");
-
     // Left and right matrices
     const Matrix<Type>* dleft_mat = mp_left->devalF(X);
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix-Matrix addition dimensions mismatch");
+
     // Reset function
     const size_t start = 1;
     const size_t end = 2;
diff --git a/include/Matrix/UnaryOps/GenericMatDet.hpp b/include/Matrix/UnaryOps/GenericMatDet.hpp
index ddc9229..0705328 100644
--- a/include/Matrix/UnaryOps/GenericMatDet.hpp
+++ b/include/Matrix/UnaryOps/GenericMatDet.hpp
@@ -88,12 +88,12 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix is not a square matrix to compute determinant");
-
     // Get raw pointers to result and right matrices
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix is not a square matrix to compute determinant");
+
     // Reset function
     const size_t start = 0;
     const size_t end = 1;
@@ -112,13 +112,13 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix is not a square matrix to compute determinant");
-
     // Right matrix derivative
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix is not a square matrix to compute determinant");
+
     // Reset function
     const size_t start = 1;
     const size_t end = 11;
diff --git a/include/Matrix/UnaryOps/GenericMatInv.hpp b/include/Matrix/UnaryOps/GenericMatInv.hpp
index 1347304..aa486a0 100644
--- a/include/Matrix/UnaryOps/GenericMatInv.hpp
+++ b/include/Matrix/UnaryOps/GenericMatInv.hpp
@@ -88,12 +88,12 @@ public:
 
   // Matrix eval computation
   V_OVERRIDE(Matrix<Type>* eval()) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix is not a square matrix to compute inverse");
-
     // Get raw pointers to result and right matrices
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix is not a square matrix to compute inverse");
+
     std::for_each(EXECUTION_PAR mp_arr, mp_arr + m_size, [&](Matrix<Type>*& m) {
       if (nullptr != m) {                                                        
         m = ((right_mat == m) ? nullptr : m);                                                               
@@ -109,13 +109,13 @@ public:
 
   // Matrix devalF computation
   V_OVERRIDE(Matrix<Type>* devalF(Matrix<Variable>& X)) {
-    // Check whether dimensions are correct
-    ASSERT(verifyDim(), "Matrix is not a square matrix to compute inverse");
-
     // Right matrix derivative
     const Matrix<Type>* dright_mat = mp_right->devalF(X);
     const Matrix<Type>* right_mat = mp_right->eval();
 
+    // Check whether dimensions are correct
+    ASSERT(verifyDim(), "Matrix is not a square matrix to compute inverse");
+
     std::for_each(EXECUTION_PAR mp_arr, mp_arr + m_size, [&](Matrix<Type>*& m) {
       if (nullptr != m) {                                                        
         m = ((dright_mat == m) ? nullptr : m);
diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 7bf1d26..2729a12 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -80,12 +80,12 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
 
         // Matrix eval computation
         V_OVERRIDE(Matrix<Type>* eval()) {
+            // The operand's result may be used by other expressions, so it is copied and not reshaped
+            const Matrix<Type>* right_mat = mp_right->eval();
+
             // Get number of rows/columns 
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
-
-            // The operand's result may be used by other expressions, so it is copied and not reshaped
-            const Matrix<Type>* right_mat = mp_right->eval();
             MemoryManager::MatrixPool(mp_arr[2], nrows, ncols, allocatorType());
             mp_arr[2]->copyData(*right_mat);
             return mp_arr[2];
@@ -96,11 +96,11 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             // Get number of rows/columns 
             const size_t xrows = X.getNumRows(); 
             const size_t xcols = X.getNumColumns();
-            const size_t nrows = mp_right->getNumRows();
-            const size_t ncols = mp_right->getNumColumns();
 
             // Matrix derivative vectorization, one block per element of the operand
             const Matrix<Type>* dright_mat = mp_right->devalF(X);
+            const size_t nrows = mp_right->getNumRows();
+            const size_t ncols = mp_right->getNumColumns();
             MemoryManager::MatrixPool(mp_arr[3], (nrows*ncols*xrows), xcols, allocatorType());
 
             const auto idx = CoolDiff::Common::Range<size_t>(0, (nrows*ncols*xrows*xcols));
-- 
2.43.0


From 8fc9a55f4e0dd914739566050e5e36a48dc106c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:02 +0000
Subject: [PATCH 28/30] fix: Jacobian, Hessian and matrix derivatives of a
 scalar expression compile

---
 include/Matrix/CommonMatFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index e0c81e6..e9c415d 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -119,7 +119,7 @@ namespace CoolDiff {
     template <typename T, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T>>
     Matrix<Type>& DevalF(T& exp, const Matrix<Variable>& m, bool serial = true) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns());
 
       // If T is an expression
       if constexpr (true == std::is_same_v<T, Expression>) {
@@ -163,7 +163,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>> 
     Matrix<Type>& DevalR(T& exp, const Matrix<Variable>& m) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns());
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -178,7 +178,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& JacobianR(T& exp, const Vector<Variable>& vec) {
       const size_t rows = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1);
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -200,7 +200,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& HessianR(T& exp, const Vector<Variable>& vec) {
       const size_t dim = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim);
       Matrix<Expression> firstSym(dim, 1);
 
       // Exploit Hessian symmetry
-- 
2.43.0


From a08c5c048b3a428f0e3d867f5c5c6799bfb516d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:20 +0000
Subject: [PATCH 29/30] fix: derivatives by the entries of a matrix are
 computed one after another

---
 include/Matrix/CommonMatFunctions.hpp | 37 +++------------------------
 1 file changed, 3 insertions(+), 34 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index e9c415d..5c12d40 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -121,40 +121,9 @@ namespace CoolDiff {
       const size_t n = m.getNumElem();
       auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns());
 
-      // If T is an expression
-      if constexpr (true == std::is_same_v<T, Expression>) {
-        if (true == exp.isRecursive() && true == serial) {
-          std::transform(EXECUTION_SEQ m.getMatrixPtr(), m.getMatrixPtr() + n, result.getMatrixPtr(),
-                        [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
-          return result;
-        } else {
-          // Copy expression and fill it up with exp
-          Vector<Expression> exp_coll(n);
-          exp_coll.reserve(n);
-          std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
-
-          // Tranform and get results
-          std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
-                        [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
-          return result;
-        }
-      }
-
-      // If T is not an exprssion
-      if (true == serial) {
-        std::transform(EXECUTION_SEQ m.getMatrixPtr(), m.getMatrixPtr() + n, result.getMatrixPtr(),
-                      [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
-      } else {
-        // Copy expression and fill it up with exp
-        Vector<Expression> exp_coll(n);
-        exp_coll.reserve(n);
-        std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
-
-        // Tranform and get results
-        std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(),
-                      m.getMatrixPtr(), result.getMatrixPtr(),
-                      [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
-      }
+      // The passes mark the nodes they visit, also those of copies of exp, and follow one another whatever serial says
+      std::transform(EXECUTION_SEQ m.getMatrixPtr(), m.getMatrixPtr() + n, result.getMatrixPtr(),
+                    [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
 
       return result;
     }
-- 
2.43.0


From 5061bc8b9ab23197741c93e341bfbff441daf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:19 +0000
Subject: [PATCH 30/30] fix: differences, quotients and comparisons of a real
 and a complex number

---
 src/CommonHeader.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/CommonHeader.cpp b/src/CommonHeader.cpp
index bf6ac3c..6208752 100644
--- a/src/CommonHeader.cpp
+++ b/src/CommonHeader.cpp
@@ -33,7 +33,7 @@
 
   // Subtraction (Type and complex number)
   Type operator-(Real val, const Type &cmx) {
-    return {val - cmx.real(), cmx.imag()};
+    return {val - cmx.real(), -cmx.imag()};
   }
 
   Type operator-(const Type &cmx, Real val) {
@@ -51,8 +51,7 @@
 
   // Division (Type and complex number)
   Type operator/(Real val, const Type &cmx) {
-    Real abs_sq = (cmx * cmx).real();
-    return {(val * cmx.real()) / abs_sq, (-1 * val * cmx.imag()) / abs_sq};
+    return Type(val) / cmx;
   }
 
   Type operator/(const Type &cmx, Real val) {
@@ -61,19 +60,19 @@
 
   // Not equal (Type and complex number)
   bool operator!=(const Type &cmx, Real val) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator!=(Real val, const Type &cmx) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   // Equal (Type and complex number)
   bool operator==(const Type &cmx, Real val) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator==(Real val, const Type &cmx) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 #endif
-- 
2.43.0

