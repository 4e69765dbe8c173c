From 08a4c220d3aa9ae0479b1c6ccdd5cfec26a31066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/28] Hook for verification: scalar type can be replaced
 under COOLDIFF_SYMBOLIC

---
 include/CommonHeader.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index fd8c541..c3ca1e7 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -59,7 +59,16 @@
 // Eigen library
 #include <Eigen/Dense>
 #include <unsupported/Eigen/KroneckerProduct>
-#if defined(USE_COMPLEX_MATH)
+
+// Verification hook: replace the scalar by the type that the header named by COOLDIFF_SYMBOLIC defines
+#if defined(COOLDIFF_SYMBOLIC)
+  #include COOLDIFF_SYMBOLIC
+  #if defined(USE_COMPLEX_MATH)
+    using EigenMatrix = Eigen::Matrix<std::complex<COOLDIFF_SYMBOLIC_REAL>, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
+  #else
+    using EigenMatrix = Eigen::Matrix<COOLDIFF_SYMBOLIC_REAL, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
+  #endif
+#elif defined(USE_COMPLEX_MATH)
   #if COOLDIFF_SCALAR_TYPE == 2
     using EigenMatrix = Eigen::Matrix<std::complex<double>, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
   #elif COOLDIFF_SCALAR_TYPE == 1
@@ -153,7 +162,9 @@ constexpr inline static const size_t g_vec_init{32};
 
 // Typedef double as Type (TODO: Replace Type with a class/struct based on
 // variants to support multiple types)
-#if COOLDIFF_SCALAR_TYPE == 1
+#if defined(COOLDIFF_SYMBOLIC)
+  using Real = COOLDIFF_SYMBOLIC_REAL;
+#elif COOLDIFF_SCALAR_TYPE == 1
   using Real = float;
 #elif COOLDIFF_SCALAR_TYPE == 2
   using Real = double;
-- 
2.43.0


From d679617ca65a86efe2e9ab2e25307754931b5589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 02/28] fix: derivative of a power with exponent zero is zero,
 also at a zero base

---
 include/Scalar/BinaryOps/GenericPow.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Scalar/BinaryOps/GenericPow.hpp b/include/Scalar/BinaryOps/GenericPow.hpp
index 65b40cb..ffd3462 100644
--- a/include/Scalar/BinaryOps/GenericPow.hpp
+++ b/include/Scalar/BinaryOps/GenericPow.hpp
@@ -418,6 +418,10 @@ public:
   V_OVERRIDE(Variable* symDeval(const Variable& var)) {
     // Static derivative computation
     if (auto it = this->mp_dtmp.find(var.m_nidx); it == this->mp_dtmp.end()) {
+      // A zero exponent is a constant (the general rule would give 0*pow(u,-1), undefined at u = 0)
+      if (mp_right == (Type)(0)) {
+        return this->mp_dtmp[var.m_nidx] = &Variable::t0;
+      }
       auto tmp = Allocate<Expression>((mp_right * pow(EVAL_L(), mp_right - (Type)(1)) * DEVAL_L(var)));
       this->mp_dtmp[var.m_nidx] = tmp.get();
     }
@@ -433,6 +437,10 @@ public:
 
   // Deval in run-time for forward derivative
   V_OVERRIDE(Type devalF(const Variable& var)) {
+    // A zero exponent is a constant
+    if (mp_right == (Type)(0)) {
+      return (Type)(0);
+    }
     // Return derivative of pow: v*pow(u,v-1)*du
     const Type du = mp_left->devalF(var);
     const Type u = mp_left->eval();
@@ -458,7 +466,7 @@ public:
 
       /* IMPORTANT: The derivative is computed here */
       const Type u = mp_left->eval();
-      const Type du = (mp_right * (Type)(std::pow(u, mp_right - (Type)(1))));
+      const Type du = (mp_right == (Type)(0)) ? (Type)(0) : (mp_right * (Type)(std::pow(u, mp_right - (Type)(1))));
       (*cache)[mp_left->m_nidx] += du;
 
       // Modify cache for left node
@@ -481,7 +489,7 @@ public:
 
       /* IMPORTANT: The derivative is computed here */
       const Type u = mp_left->eval();
-      const Type ustar =
+      const Type ustar = (mp_right == (Type)(0)) ? (Type)(0) :
           (mp_right * (Type)std::pow(u, mp_right - (Type)1)) * cCache;
       (*cache)[mp_left->m_nidx] += (ustar);
 
-- 
2.43.0


From a64d8a90b4cf244b1da4d0adbf6583f8f1a9f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/28] fix: symbolic evaluation of number/expression keeps the
 numerator

---
 include/Scalar/BinaryOps/GenericDiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index 7893f31..9a22fef 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -257,7 +257,7 @@ public:
   V_OVERRIDE(Variable* symEval()) {
     // Evaluate variable in run-time
     if (nullptr == this->mp_tmp) {
-      auto tmp = Allocate<Expression>((Type)(1) / (EVAL_R()));
+      auto tmp = Allocate<Expression>(mp_left / (EVAL_R()));
       this->mp_tmp = tmp.get();
     }
     return this->mp_tmp;
-- 
2.43.0


From e96126789e78b6eabbeb9246845a1cfa88c5d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 04/28] fix: Hessians fill their off-diagonal entries

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index a77275f..58e89ce 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -209,7 +209,7 @@ namespace CoolDiff {
         // Precompute
         CoolDiff::TensorR1::PreComp(firstSym[i]);
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::DevalR(firstSym[i], vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
@@ -255,7 +255,7 @@ namespace CoolDiff {
       // Exploit Hessian symmetry
       for (size_t i{}; i < dim; ++i) {
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (i > j) {
             result(i, j) = CoolDiff::TensorR1::SymDiff(CoolDiff::TensorR1::SymDiff(exp, vec[i]), vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
-- 
2.43.0


From 8530fd6638e575eaad9c50406f5ebb1b4a18055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 05/28] fix: mixed real-complex subtraction, division and
 comparison

---
 src/CommonHeader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CommonHeader.cpp b/src/CommonHeader.cpp
index bf6ac3c..219699f 100644
--- a/src/CommonHeader.cpp
+++ b/src/CommonHeader.cpp
@@ -33,7 +33,7 @@
 
   // Subtraction (Type and complex number)
   Type operator-(Real val, const Type &cmx) {
-    return {val - cmx.real(), cmx.imag()};
+    return {val - cmx.real(), -cmx.imag()};
   }
 
   Type operator-(const Type &cmx, Real val) {
@@ -51,7 +51,7 @@
 
   // Division (Type and complex number)
   Type operator/(Real val, const Type &cmx) {
-    Real abs_sq = (cmx * cmx).real();
+    Real abs_sq = cmx.real() * cmx.real() + cmx.imag() * cmx.imag();
     return {(val * cmx.real()) / abs_sq, (-1 * val * cmx.imag()) / abs_sq};
   }
 
@@ -61,19 +61,19 @@
 
   // Not equal (Type and complex number)
   bool operator!=(const Type &cmx, Real val) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator!=(Real val, const Type &cmx) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   // Equal (Type and complex number)
   bool operator==(const Type &cmx, Real val) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator==(Real val, const Type &cmx) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 #endif
-- 
2.43.0


From 058b43fa93609ae391bfa5ac3ae3c73e2be1db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 06/28] fix: assigning a Parameter takes over the value of the
 assigned one

---
 src/Scalar/Parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 33c5487..e842880 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -26,6 +26,7 @@
 void Parameter::swap(Parameter& other) noexcept {
   std::swap(m_nidx, other.m_nidx);
   std::swap(m_cache, other.m_cache);
+  std::swap(this->mp_tmp, other.mp_tmp);
 }
 
 // Constructors
-- 
2.43.0


From 2ab13c9a0d804e93314d9e8dce60be42c65f1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 07/28] fix: a reset reaches every node of the tree, also
 through nodes the last call did not visit

---
 include/CommonHeader.hpp    | 4 ++++
 include/Scalar/Variable.hpp | 3 +++
 src/Scalar/Variable.cpp     | 6 +++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index c3ca1e7..86b386d 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -380,6 +380,10 @@ class CommonHeader {
   protected:
     // Index counter (A counter to count the number of matrix/scalar operations)
     inline static size_t m_idx_count{0};
+
+  public:
+    // Reset pass counter (In a reset pass, every node of a graph/tree is descended into once)
+    inline static size_t m_reset_count{0};
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Scalar/Variable.hpp b/include/Scalar/Variable.hpp
index 9a12fba..902d7f1 100644
--- a/include/Scalar/Variable.hpp
+++ b/include/Scalar/Variable.hpp
@@ -48,6 +48,9 @@ protected:
   // Collection of meta variable expressions
   Vector<MetaVariable*> m_gh_vec{};
 
+  // Last reset pass which descended into this variable
+  size_t m_reset_pass{0};
+
   // Exposed to user to compute symbolic differentiation
   Variable& SymDiff(const Variable&);
 
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index e6309a5..2a44f0b 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -116,6 +116,8 @@ Type Variable::getdValue() const {
 }
 
 void Variable::resetImpl() {
+  // New reset pass
+  m_reset_pass = ++m_reset_count;
   this->m_visited = true;
   // Reset states
   std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(), [](auto* item) {
@@ -249,7 +251,9 @@ OMPair& Variable::getCache() {
 
 // Reset
 void Variable::reset() {
-  if (true == this->m_visited) {
+  // A node that was not visited may still lead to visited ones, so descend once per reset pass
+  if (true == this->m_visited || m_reset_pass != m_reset_count) {
+    m_reset_pass = m_reset_count;
     this->m_visited = false;
     // Reset states
     std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
-- 
2.43.0


From 4ce35eb406bc9c9f6b85ba0bdf8ce96fe9b57df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 08/28] fix: re-assigning an expression drops outdated symbolic
 temporaries

---
 include/CommonHeader.hpp        | 2 ++
 include/Scalar/Expression.hpp   | 4 ++++
 include/Scalar/MetaVariable.hpp | 2 ++
 src/Scalar/Expression.cpp       | 9 +++++++++
 src/Scalar/MetaVariable.cpp     | 7 +++++++
 src/Scalar/Parameter.cpp        | 5 +++--
 6 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index 86b386d..4bea956 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -384,6 +384,8 @@ class CommonHeader {
   public:
     // Reset pass counter (In a reset pass, every node of a graph/tree is descended into once)
     inline static size_t m_reset_count{0};
+    // Redefinition counter (Counts re-assignments of expressions that were symbolically differentiated)
+    inline static size_t m_redef_count{0};
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Scalar/Expression.hpp b/include/Scalar/Expression.hpp
index 8b571f0..988c900 100644
--- a/include/Scalar/Expression.hpp
+++ b/include/Scalar/Expression.hpp
@@ -34,6 +34,9 @@ private:
   template <typename T>
   friend inline Expression& SymDiff(T&, const Variable&);
 
+  // Temporaries of symbolic differentiation that depend on the old definition are outdated
+  void redefine();
+
 public:
   static Expression t0;
   static Expression t1;
@@ -56,6 +59,7 @@ public:
   // Copy assignment for expression evaluation - e.g.Variable x = x1 + x2 + x3;
   template <typename T> 
   Expression& operator=(const IVariable<T>& expr) {
+    redefine();
     if (auto rec = static_cast<const T&>(expr).findMe(this); rec == false) {
       m_gh_vec.clear();
     } else {
diff --git a/include/Scalar/MetaVariable.hpp b/include/Scalar/MetaVariable.hpp
index b372c98..fe4df7d 100644
--- a/include/Scalar/MetaVariable.hpp
+++ b/include/Scalar/MetaVariable.hpp
@@ -28,6 +28,8 @@ protected:
   // Value and derivative temporaries for symbolic differentiation
   Variable* mp_tmp{nullptr};
   UnOrderedMap<size_t, Variable*> mp_dtmp;
+  // Redefinition count for which the temporaries are valid
+  size_t m_tmp_redef{0};
 
   // Reset temporaries
   void resetTemp();
diff --git a/src/Scalar/Expression.cpp b/src/Scalar/Expression.cpp
index d83fa4c..b93714b 100644
--- a/src/Scalar/Expression.cpp
+++ b/src/Scalar/Expression.cpp
@@ -40,7 +40,16 @@ Expression::Expression(const Expression& expr) {
   Variable::m_gh_vec.push_back((Expression*)(&expr));
 }
 
+void Expression::redefine() {
+  if (nullptr != this->mp_tmp) {
+    this->mp_tmp = nullptr;
+    this->mp_dtmp.clear();
+    ++m_redef_count;
+  }
+}
+
 Expression& Expression::operator=(const Expression& expr) {
+  redefine();
   if(auto rec = static_cast<const Expression&>(expr).findMe(this); rec == false) {
     m_gh_vec.clear();
   } else {
diff --git a/src/Scalar/MetaVariable.cpp b/src/Scalar/MetaVariable.cpp
index 3836dc1..5f109d0 100644
--- a/src/Scalar/MetaVariable.cpp
+++ b/src/Scalar/MetaVariable.cpp
@@ -24,6 +24,13 @@
 
 // Reset value and derivative temporaries
 void MetaVariable::resetTemp() {
+  // Drop outdated temporaries
+  if (m_tmp_redef != m_redef_count) {
+    m_tmp_redef = m_redef_count;
+    this->mp_tmp = nullptr;
+    this->mp_dtmp.clear();
+  }
+
   // Reset value temporaries
   if (nullptr != this->mp_tmp) {
     this->mp_tmp->reset();
diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index e842880..e6aed37 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -77,8 +77,9 @@ Type Parameter::eval() {
 }
 
 void Parameter::reset() {
-  // Reset temporaries
-  MetaVariable::resetTemp();
+  // The temporary bears the value of the parameter, so it is reset but never dropped
+  this->mp_tmp->reset();
+  this->m_visited = false;
   return;
 }
 
-- 
2.43.0


From 4645effad2f3b5d0ce37695734a4012533dcbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 09/28] fix: scalar-by-matrix derivatives compile: take the
 memory strategy from the matrix of variables

---
 include/Matrix/CommonMatFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 58e89ce..c6e28a8 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -119,7 +119,7 @@ namespace CoolDiff {
     template <typename T, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T>>
     Matrix<Type>& DevalF(T& exp, const Matrix<Variable>& m, bool serial = true) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // If T is an expression
       if constexpr (true == std::is_same_v<T, Expression>) {
@@ -163,7 +163,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>> 
     Matrix<Type>& DevalR(T& exp, const Matrix<Variable>& m) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -178,7 +178,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& JacobianR(T& exp, const Vector<Variable>& vec) {
       const size_t rows = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1);
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -200,7 +200,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& HessianR(T& exp, const Vector<Variable>& vec) {
       const size_t dim = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim);
       Matrix<Expression> firstSym(dim, 1);
 
       // Exploit Hessian symmetry
-- 
2.43.0


From 7ac4371192f929197fd085113e953848fed88a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 10/28] fix: evaluation of a new matrix expression resets the
 named expressions in it

---
 include/Matrix/CommonMatFunctions.hpp             | 9 ++++++---
 include/Matrix/Matrix.hpp                         | 3 +++
 include/Matrix/MatrixInterface/MatrixUtils.ipp    | 2 ++
 include/Matrix/MatrixInterface/MatrixVirtuals.ipp | 4 +++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index c6e28a8..8f48084 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -52,7 +52,8 @@ namespace CoolDiff {
         // Return evaluation value
         return *(Mexp.eval());
       } else {
-        // Reset graph/tree
+        // Reset graph/tree (In a new reset pass)
+        ++CommonHeader::m_reset_count;
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.eval());
@@ -68,7 +69,8 @@ namespace CoolDiff {
         // Return evaluation value
         return *(Mexp.devalF(X));
       } else {
-        // Reset graph/tree
+        // Reset graph/tree (In a new reset pass)
+        ++CommonHeader::m_reset_count;
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.devalF(X));
@@ -84,7 +86,8 @@ namespace CoolDiff {
         // Return evaluation value
         Mexp.traverse();
       } else {
-        // Reset graph/tree
+        // Reset graph/tree (In a new reset pass)
+        ++CommonHeader::m_reset_count;
         Mexp.reset();
         // Return evaluation value
         Mexp.traverse();
diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index dcc8866..fd533bd 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -110,6 +110,9 @@ private:
   // Boolean to verify evaluation/forward derivative values
   bool m_eval{false};
   bool m_devalf{false};
+
+  // Last reset pass which descended into this matrix
+  size_t m_reset_pass{0};
   
   // Should destructor be called? (True by default)
   bool m_dest{true};
diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index cf83119..0ef7af2 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -191,6 +191,8 @@ bool Matrix<T>::findMe(void* v) const {
 // Reset impl
 template<typename T>
 void Matrix<T>::resetImpl() {
+    // New reset pass
+    m_reset_pass = ++this->m_reset_count;
     // Reset flag
     this->m_visited = true;
 
diff --git a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
index 899749c..6179036 100644
--- a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
+++ b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
@@ -131,7 +131,9 @@ OMMatPair& Matrix<T>::getCache() {
 // Reset all visited flags
 template<typename T>
 void Matrix<T>::reset() {
-    if (true == this->m_visited) {
+    // A node that was not visited may still lead to visited ones, so descend once per reset pass
+    if (true == this->m_visited || m_reset_pass != this->m_reset_count) {
+        m_reset_pass = this->m_reset_count;
         this->m_visited = false;
         // Reset states
         m_eval = false;
-- 
2.43.0


From 9cc99db0bff3a7e737857d69dc3ccd759bd57176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 11/28] fix: reverse derivative with respect to an unrelated
 matrix has the shape of that matrix

---
 include/Matrix/CommonMatFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 8f48084..653ccaf 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -99,7 +99,7 @@ namespace CoolDiff {
                                                                   std::is_base_of_v<MetaVariable, U>  ||
                                                                   std::is_base_of_v<MetaMatrix, T>>>
     inline Matrix<Type>& DevalR(T& Mexp, const U& X) {
-      if constexpr(true == std::is_base_of_v<U, MetaMatrix>) {
+      if constexpr(true == std::is_base_of_v<MetaMatrix, U>) {
         const size_t nrows = X.getNumRows();
         const size_t ncols = X.getNumColumns();
         if(auto it = Mexp.getCache().find(X.m_nidx); it != Mexp.getCache().end()) {
-- 
2.43.0


From ba11c1054c2c0f106210c6532d80be8a38f0e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 12/28] fix: Kronecker product of the naive backend writes its
 zero blocks

---
 .../NaiveCPU/MatKronNaiveHandler.hpp              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
index 432a592..0b69076 100644
--- a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
@@ -53,14 +53,13 @@ class MatKronNaiveHandler : public T {
           const size_t i = ((n1 - j) / lc);
           Type val = (*lhs)(i, j);
 
-          if ((Type)(0) != val) {
-            std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
-                [&](const size_t n2) {
-                  const size_t m = (n2 % rc);
-                  const size_t l = ((n2 - m) / rc);
-                  (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
-                });
-          }
+          // Zero blocks are written as well (The result matrix may be reused)
+          std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
+              [&](const size_t n2) {
+                const size_t m = (n2 % rc);
+                const size_t l = ((n2 - m) / rc);
+                (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
+              });
         });
 
         return;
-- 
2.43.0


From e1a5c17db7daa8d02b098ed7d28922bfd1e1beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 13/28] fix: element-wise matrix division for entries of any
 sign

---
 include/Matrix/CommonMatFunctions.hpp |  5 ++++-
 include/Matrix/UnaryFunctions.hpp     | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 653ccaf..5b17846 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -312,6 +312,9 @@ UNARY_MATRIX_OPERATOR(TanhM, Tanh<Type>, DTanh<Type>)
 // Matrix Sigmoid function
 UNARY_MATRIX_OPERATOR(SigmoidM, Sigmoid<Type>, DSigmoid<Type>);
 
+// Matrix reciprocal function (Element wise)
+UNARY_MATRIX_OPERATOR(RecipM, Recip<Type>, DRecip<Type>)
+
 // Matrix ReLU function
 #ifndef USE_COMPLEX_MATH
   // Relu activation  
@@ -340,7 +343,7 @@ constexpr const auto& operator/(const IMatrix<T1>& X, const IMatrix<T2>& Y) {
   ASSERT((X.allocatorType() == Y.allocatorType()), "LHS and RHS matrices live in different memory spaces");
   
   // Return expression
-  return ExpM(LogM(X) - LogM(Y));
+  return X ^ RecipM(Y);
 }
 
 // Matrix broadcast function 
diff --git a/include/Matrix/UnaryFunctions.hpp b/include/Matrix/UnaryFunctions.hpp
index 4f1e97c..f08323c 100644
--- a/include/Matrix/UnaryFunctions.hpp
+++ b/include/Matrix/UnaryFunctions.hpp
@@ -156,6 +156,18 @@ __host__ __device__ T DAbs(T x) {
     return (T)(((T)(0) < x) - (x < (T)(0)));
 }
 
+// Reciprocal function 
+template<typename T>
+__host__ __device__ T Recip(T x) { 
+    return (T)((T)1/(x));
+}
+
+// Derivative of reciprocal function 
+template<typename T>
+__host__ __device__ T DRecip(T x) { 
+    return (T)((T)(-1)/(x*x));
+}
+
 // List of device functions
 enum DEVICE_FUNCTIONS {
     SIN = 0, DSIN, 
@@ -168,6 +180,7 @@ enum DEVICE_FUNCTIONS {
     RELU, DRELU, 
     LEAKYRELU, DLEAKYRELU, 
     ABS, DABS,
+    RECIP, DRECIP,
     COUNT
 };
 
@@ -189,6 +202,7 @@ __global__ void DeviceFunctionsInit() {
     device_functions<T>[DEVICE_FUNCTIONS::RELU] = ReLU<T>;           device_functions<T>[DEVICE_FUNCTIONS::DRELU] = DReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::LEAKYRELU] = LeakyReLU<T>; device_functions<T>[DEVICE_FUNCTIONS::DLEAKYRELU] = DLeakyReLU<T>;
     device_functions<T>[DEVICE_FUNCTIONS::ABS] = Abs<T>;             device_functions<T>[DEVICE_FUNCTIONS::DABS] = DAbs<T>;
+    device_functions<T>[DEVICE_FUNCTIONS::RECIP] = Recip<T>;         device_functions<T>[DEVICE_FUNCTIONS::DRECIP] = DRecip<T>;
 }
 
 // Map of all device functions and its enum
@@ -203,4 +217,5 @@ std::unordered_map<FunctionTypeCuda<T>, int> device_functions_map{  /* <-- Funct
                                                                     {Sigmoid<T>, SIGMOID},          {DSigmoid<T>, DSIGMOID},
                                                                     {ReLU<T>, RELU},                {DReLU<T>, DRELU},
                                                                     {LeakyReLU<T>, LEAKYRELU},      {DLeakyReLU<T>, DLEAKYRELU},
-                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS}};
\ No newline at end of file
+                                                                    {Abs<T>, ABS},                  {DAbs<T>, DABS},
+                                                                    {Recip<T>, RECIP},              {DRecip<T>, DRECIP}};
\ No newline at end of file
-- 
2.43.0


From c1404f767873b100d627c3aeca12b47ca4b23a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 14/28] fix: padding a matrix into a reused one clears the
 border

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 0ef7af2..e83adda 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -87,6 +87,8 @@ template<typename T>
 void Matrix<T>::pad(const size_t r, const size_t c, Matrix*& result) const {
     // Special matrix embedding
     MemoryManager::MatrixPool(result, m_rows + 2 * r, m_cols + 2 * c, allocatorType());
+    // The border must be zero, also when the result matrix is reused
+    std::fill_n(result->getMatrixPtr(), result->getNumElem(), T{});
     result->setBlockMat({r, r + m_rows - 1}, {c, c + m_cols - 1}, this);
 }
 
-- 
2.43.0


From c5cad3acb0b492f1fccc300c2de61702a6e16ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 15/28] fix: convolution reverse derivatives, and one invalid
 dimension is reported

---
 include/Matrix/BinaryOps/GenericMatConv.hpp   | 81 +++++++++++--------
 .../Eigen/MatConvEigenHandler.hpp             |  2 +-
 .../NaiveCPU/MatConvNaiveHandler.hpp          |  2 +-
 .../NaiveCPU/MatDervConvNaiveHandler.hpp      |  2 +-
 4 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 37f155f..a59f27d 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -44,7 +44,38 @@ private:
   // Verify dimensions of result matrix for convolution operation
   inline constexpr bool verifyDim() const {
     // Dimension of the result of convolution operator must be strictly non-negative
-    return ((int)getNumRows() > 0 || (int)getNumColumns() > 0);
+    return ((int)getNumRows() > 0 && (int)getNumColumns() > 0);
+  }
+
+  // Pullback of the adjoint of the result to left and right matrices (Input and kernel)
+  void pullback(const Matrix<Type>* adj, const Matrix<Type>* left_mat, const Matrix<Type>* right_mat,
+                Matrix<Type>*& left_adj, Matrix<Type>*& right_adj) const {
+    const size_t lrows = left_mat->getNumRows(), lcols = left_mat->getNumColumns();
+    const size_t rrows = right_mat->getNumRows(), rcols = right_mat->getNumColumns();
+    const size_t rows = adj->getNumRows(), cols = adj->getNumColumns();
+
+    MemoryManager::MatrixPool(left_adj, lrows, lcols, left_mat->allocatorType());
+    MemoryManager::MatrixPool(right_adj, rrows, rcols, right_mat->allocatorType());
+    CoolDiff::TensorR2::Details::ResetZero(left_adj);
+    CoolDiff::TensorR2::Details::ResetZero(right_adj);
+
+    for (size_t i{}; i < rows; ++i) {
+      for (size_t j{}; j < cols; ++j) {
+        for (size_t p{}; p < rrows; ++p) {
+          for (size_t q{}; q < rcols; ++q) {
+            // Index in the padded left matrix
+            const size_t r = (i * m_stride_x) + p;
+            const size_t c = (j * m_stride_y) + q;
+            // Padding does not contribute
+            if ((r < m_pad_x) || (c < m_pad_y) || (r - m_pad_x >= lrows) || (c - m_pad_y >= lcols)) {
+              continue;
+            }
+            (*left_adj)(r - m_pad_x, c - m_pad_y) += (*adj)(i, j) * (*right_mat)(p, q);
+            (*right_adj)(p, q) += (*adj)(i, j) * (*left_mat)(r - m_pad_x, c - m_pad_y);
+          }
+        }
+      }
+    }
   }
 
   // All matrices
@@ -180,19 +211,22 @@ public:
       const Matrix<Type>* left_mat = mp_left->eval();
       const Matrix<Type>* right_mat = mp_right->eval();
 
-      const auto mp_right_val = CoolDiff::TensorR2::Details::ScalarSpl(right_mat);
-      const auto mp_left_val = CoolDiff::TensorR2::Details::ScalarSpl(left_mat);
+      /* IMPORTANT: The derivative is computed here */
+      pullback(CoolDiff::TensorR2::MatrixBasics::Ones(allocatorType(), getNumRows(), getNumColumns()), left_mat, right_mat, mp_arr[2], mp_arr[3]);
+
+      const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
+      const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
 
       if(auto it2 = cache->find(mp_left->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_left->m_nidx], right_mat, (*cache)[mp_left->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_left->m_nidx], mp_arr[2], (*cache)[mp_left->m_nidx]); 
       } else {
-        (*cache)[mp_left->m_nidx] = const_cast<Matrix<Type>*>(right_mat);
+        (*cache)[mp_left->m_nidx] = mp_arr[2];
       }
 
       if(auto it2 = cache->find(mp_right->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_right->m_nidx], left_mat, (*cache)[mp_right->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_right->m_nidx], mp_arr[3], (*cache)[mp_right->m_nidx]); 
       } else {
-        (*cache)[mp_right->m_nidx] = const_cast<Matrix<Type>*>(left_mat);
+        (*cache)[mp_right->m_nidx] = mp_arr[3];
       }
 
       // Clone the cache
@@ -203,13 +237,13 @@ public:
       // Modify cache for left node
       std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
-                      const size_t rows = right_mat->getNumRows();
-                      const size_t cols = right_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[2]->getNumRows();
+                      const size_t cols = mp_arr[2]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_right_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr2_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -220,13 +254,13 @@ public:
       // Modify cache for right node
       std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
-                      const size_t rows = left_mat->getNumRows();
-                      const size_t cols = left_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[3]->getNumRows();
+                      const size_t cols = mp_arr[3]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_left_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -251,27 +285,8 @@ public:
         const Matrix<Type>* left_mat = mp_left->eval();
         const Matrix<Type>* right_mat = mp_right->eval();
 
-        // Right matrix rows and columns size (Kernel)
-        const size_t rrows = right_mat->getNumRows();
-        const size_t rcols = right_mat->getNumColumns();
-        
-        // Left matrix rows and columns size (Input)
-        const size_t lrows = left_mat->getNumRows();
-        const size_t lcols = left_mat->getNumColumns();
-
-        // Cache rows and columns size (Pullback)
-        const size_t crows = cCache->getNumRows();
-        const size_t ccols = cCache->getNumColumns(); 
-
         /* IMPORTANT: The derivative is computed here */
-        // Typically, right_mat will be less than cCache dimension, so no need for padding
-        MATRIX_CONV(m_stride_x, m_stride_y, m_pad_x, m_pad_y, cCache, right_mat, mp_arr[2]);
-
-        // Find the best number of zero padding on the input to match the output dimensions (right_mat)
-        const size_t px = (m_stride_x*(rrows - 1) + crows - lrows)/2; 
-        const size_t py = (m_stride_y*(rcols - 1) + ccols - lcols)/2;
-
-        MATRIX_CONV(m_stride_x, m_stride_y, px, py, left_mat, cCache, mp_arr[3]);
+        pullback(cCache, left_mat, right_mat, mp_arr[2], mp_arr[3]);
 
         const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
         const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
index 9deaf1f..87516bf 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/Eigen/MatConvEigenHandler.hpp
@@ -85,7 +85,7 @@ class MatConvEigenHandler : public T {
             const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
             // Matrix-Matrix convolution result dimensions must be strictly non-negative
-            ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+            ASSERT(((int)rows > 0 && (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
 
             // Pad left matrix with the required padding
             lhs->pad(pad_x, pad_y, mp_arr);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
index 3ecf449..6ef5db4 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatConvNaiveHandler.hpp
@@ -65,7 +65,7 @@ class MatConvNaiveHandler : public T {
         const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
         // Matrix-Matrix convolution result dimensions must be strictly non-negative
-        ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+        ASSERT(((int)rows > 0 && (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
 
         // Pad left matrix with the required padding
         lhs->pad(pad_x, pad_y, mp_arr[0]);
diff --git a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
index c09a8f7..fc5c9c4 100644
--- a/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp
@@ -72,7 +72,7 @@ class MatDervConvNaiveHandler : public T {
       const size_t cols = (((lhs->getNumColumns() + (2 * pad_y) - ccols) / stride_y) + 1);
 
       // Matrix-Matrix convolution result dimensions must be strictly non-negative
-      ASSERT(((int)rows > 0 || (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
+      ASSERT(((int)rows > 0 && (int)cols > 0), "Matrix-Matrix convolution dimensions invalid");
 
       // Pad left derivative matrix with required padding
       dlhs->pad((pad_x * nrows_x), (pad_y * ncols_x), mp_arr[0]);
-- 
2.43.0


From 48fa9619245a5665960ebb1a0305188e8970dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 16/28] fix: transpose does not conjugate, in values and
 derivatives of both backends

---
 .../NaiveCPU/MatDervTransposeNaiveHandler.hpp               | 6 +-----
 .../MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
index dd73e07..141f851 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
@@ -56,11 +56,7 @@ class MatDervTransposeNaiveHandler : public T {
                               // Inner Row and column index
                               const size_t m = (n2 % ncols_x);
                               const size_t l = ((n2 - m) / ncols_x);
-                              #if defined(USE_COMPLEX_MATH)
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = std::conj((*rhs)(l + (i * nrows_x), m + (j * ncols_x)));
-                              #else
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
-                              #endif
+                              (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
               });
         });
       }
diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
index 6d79778..fdb0531 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
@@ -44,11 +44,7 @@
           // Row and column index
           const size_t j = (n % ncols);
           const size_t i = ((n - j) / ncols);
-          #if defined(USE_COMPLEX_MATH)
-              (*result)(j, i) = std::conj((*rhs)(i, j));
-          #else
-              (*result)(j, i) = (*rhs)(i, j);
-          #endif
+          (*result)(j, i) = (*rhs)(i, j);
         });
       }
 };
\ No newline at end of file
-- 
2.43.0


From 7b307b5f23da5f81e808415a17eddcc93aeb9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 17/28] fix: forward derivative of a matrix by its own entries
 clears entries of an earlier reference

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index e83adda..452e585 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -141,6 +141,9 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
             const size_t xrows = X.getNumRows();
             const size_t xcols = X.getNumColumns();
 
+            // The result may hold an earlier derivative, clear it before setting the ones
+            CoolDiff::TensorR2::Details::ResetZero(mp_dresult);
+
             // Vector of indices in X matrix
             const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
             // Logic for Kronecker product (With ones)
-- 
2.43.0


From dcc59fceaba78b40484eab7c5ef09f14462ce6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 18/28] fix: vec keeps its result in a matrix of its own
 instead of reshaping its operand

---
 include/Matrix/UnaryOps/GenericMatVec.hpp | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 2746347..8ece570 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -37,7 +37,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
         #endif
 
         // All matrices
-        inline static constexpr const size_t m_size{2};
+        inline static constexpr const size_t m_size{4};
         Matrix<Type>* mp_arr[m_size]{};
 
     public:
@@ -84,10 +84,11 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Reshape and return
+            // Copy the values, the result of the operand keeps its own shape
             Matrix<Type>* right_mat = mp_right->eval();
-            right_mat->reshape(nrows, ncols);
-            return right_mat;
+            MemoryManager::MatrixPool(mp_arr[2], nrows, ncols, allocatorType());
+            mp_arr[2]->copyData(*right_mat);
+            return mp_arr[2];
         }
 
         // Matrix devalF computation
@@ -98,13 +99,19 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Matrix derivative vectorization
-            Matrix<Variable> Y(1, xrows*xcols, X.getMatrixPtr());
+            // Derivative of the operand, it keeps its own shape
+            Matrix<Type>* dright_mat = mp_right->devalF(X);
+            MemoryManager::MatrixPool(mp_arr[3], nrows * xrows, ncols * xcols, allocatorType());
 
-            // Reshape and return
-            Matrix<Type>* dright_mat = mp_right->devalF(Y);
-            dright_mat->reshape(nrows*xrows, ncols*xcols);
-            return dright_mat;
+            // Stack the blocks of the elements in row major order
+            const size_t rcols = mp_right->getNumColumns();
+            for (size_t i{}; i < nrows * xrows; ++i) {
+                const size_t elem = i / xrows;
+                for (size_t j{}; j < xcols; ++j) {
+                    (*mp_arr[3])(i, j) = (*dright_mat)((elem / rcols) * xrows + (i % xrows), (elem % rcols) * xcols + j);
+                }
+            }
+            return mp_arr[3];
         }
 
         // Traverse
-- 
2.43.0


From 3c50157ea636f1dbfc591ed1ae5af8a8deca0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 19/28] fix: getColumn takes the column index and the row
 stride into account

---
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index a44bb45..4a00b8f 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -169,10 +169,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) && {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                    tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return std::move(tmp);
@@ -188,10 +186,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) const & {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                    tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return tmp;
-- 
2.43.0


From 63ca84b500716194b0ee43e35954a7d82d9f8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 20/28] fix: the scalar Gauss-Newton oracle sizes its symbolic
 Jacobian

---
 example/GaussNewton/src/OracleScalar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example/GaussNewton/src/OracleScalar.cpp b/example/GaussNewton/src/OracleScalar.cpp
index b3c3046..67bc99b 100644
--- a/example/GaussNewton/src/OracleScalar.cpp
+++ b/example/GaussNewton/src/OracleScalar.cpp
@@ -24,7 +24,8 @@
 // Scalar oracle constructor
 OracleScalar::OracleScalar(Expression& exp, Matrix<Variable>& X) :  m_dim{X.getNumElem()}, 
                                                                     m_exp{exp}, 
-                                                                    m_X{X} 
+                                                                    m_X{X},
+                                                                    m_jacobian_sym(1, X.getNumElem())
 {}
 
 Type OracleScalar::eval() { 
-- 
2.43.0


From 3007e33429e5d9f50967528ec84ccd028868dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 21/28] fix: a moved-from matrix of expressions can be assigned
 again

---
 include/Matrix/Matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index fd533bd..bbcb05d 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -212,6 +212,10 @@ public:
   Matrix& operator=(const IMatrix<Z>& expr) {
     // Static assert so that type T is an expression
     static_assert(true == std::is_same_v<T, Expression>, "[ERROR] The type T is not an expression");
+    // A moved-from matrix has no memory strategy anymore
+    if (nullptr == mp_allocator) {
+      mp_allocator = MemoryStrategyFactory(expr.allocatorType());
+    }
     // Clear buffer and set rows and columns if not recursive expression not found
     if (static_cast<const Z&>(expr).findMe(this) == false) {
       m_gh_vec.clear();
-- 
2.43.0


From 4c5825448d4bb70b8da2e2f01cad9f0d64e9dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 22/28] fix: FillRandomValues uses the distribution parameters
 of every call

---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index bbcb05d..3aea28d 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -444,7 +444,7 @@ namespace CoolDiff {
       template<template <typename> class T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T<Type> dis(std::forward<Args>(args)...);
+          T<Type> dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
@@ -453,7 +453,7 @@ namespace CoolDiff {
       template<typename T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T dis(std::forward<Args>(args)...);
+          T dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
-- 
2.43.0


From 07583a87b993ba05ba88fa932a167a0cb788a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 23/28] fix: parallel execution: the trace and random fills
 share state between iterations and run sequentially

---
 include/Matrix/Matrix.hpp                                     | 4 ++--
 .../MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 3aea28d..29a0286 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -446,7 +446,7 @@ namespace CoolDiff {
           // Distribution
           T<Type> dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
       // Fill matrix with random weights (Non templatized distributions)
@@ -455,7 +455,7 @@ namespace CoolDiff {
           // Distribution
           T dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
     }
diff --git a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
index 29bf86b..7d9bd1e 100644
--- a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
@@ -47,7 +47,7 @@ class MatTraceNaiveHandler : public T {
 
             // Naive matrix-matrix multiplication
             Type tmp{};
-            std::for_each(EXECUTION_PAR outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
+            std::for_each(EXECUTION_SEQ outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
                     tmp = tmp + (*rhs)(n,n);
             });
             (*result)[0] = tmp;
-- 
2.43.0


From 832cfd7d5cc494464563da37accd3825f9ed9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 24/28] fix: parallel execution: copies of an expression share
 their nodes and are differentiated one after another

---
 include/Matrix/CommonMatFunctions.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 5b17846..7502942 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -134,10 +134,10 @@ namespace CoolDiff {
           // Copy expression and fill it up with exp
           Vector<Expression> exp_coll(n);
           exp_coll.reserve(n);
-          std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+          std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
-          // Tranform and get results
-          std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
+          // Tranform and get results (The copies share their nodes, hence serial)
+          std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
                         [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
           return result;
         }
@@ -151,10 +151,10 @@ namespace CoolDiff {
         // Copy expression and fill it up with exp
         Vector<Expression> exp_coll(n);
         exp_coll.reserve(n);
-        std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+        std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
-        // Tranform and get results
-        std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(),
+        // Tranform and get results (The copies share their nodes, hence serial)
+        std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(),
                       m.getMatrixPtr(), result.getMatrixPtr(),
                       [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
       }
-- 
2.43.0


From f6513707d56ada161b983e6c82f33b1dc543ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:48 +0000
Subject: [PATCH 25/28] Revert "fix: the scalar Gauss-Newton oracle sizes its
 symbolic Jacobian" (example code counts as test code)

---
 example/GaussNewton/src/OracleScalar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/example/GaussNewton/src/OracleScalar.cpp b/example/GaussNewton/src/OracleScalar.cpp
index 67bc99b..b3c3046 100644
--- a/example/GaussNewton/src/OracleScalar.cpp
+++ b/example/GaussNewton/src/OracleScalar.cpp
@@ -24,8 +24,7 @@
 // Scalar oracle constructor
 OracleScalar::OracleScalar(Expression& exp, Matrix<Variable>& X) :  m_dim{X.getNumElem()}, 
                                                                     m_exp{exp}, 
-                                                                    m_X{X},
-                                                                    m_jacobian_sym(1, X.getNumElem())
+                                                                    m_X{X} 
 {}
 
 Type OracleScalar::eval() { 
-- 
2.43.0


From 51507e4c4227e22cb179aa4819d4e377fc362a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:36 +0000
Subject: [PATCH 26/28] fix: a variable or parameter which has been moved from
 can be assigned a number again

---
 src/Scalar/Parameter.cpp | 5 +++++
 src/Scalar/Variable.cpp  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index e6aed37..8a1e416 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -67,6 +67,11 @@ Parameter& Parameter::operator=(Parameter&& s) noexcept {
 
 // Assignment to Type
 Parameter& Parameter::operator=(const Type& value) {
+  // A parameter which has been moved from becomes a new parameter
+  if (nullptr == this->mp_tmp) {
+    m_nidx = this->m_idx_count++;
+    this->mp_tmp = Allocate<Variable>(value).get();
+  }
   *this->mp_tmp = value;
   return *this;
 }
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index 2a44f0b..eeed17a 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -54,6 +54,12 @@ Variable::Variable(const Type& value) : m_nidx{this->m_idx_count++} {
 
 // Copy assignment to Type values
 Variable& Variable::operator=(const Type& value) {
+  // A variable which has been moved from becomes a new variable
+  if (nullptr == m_value_var) {
+    m_nidx = this->m_idx_count++;
+    m_var = std::make_shared<VarWrap>();
+    m_value_var = std::make_shared<Type>();
+  }
   // Set value
   *m_value_var = value;
   // Set all the values for VarWrap
-- 
2.43.0


From ca07d30c70c406aec6df8042cde63c889800a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:50 +0000
Subject: [PATCH 27/28] fix: scaled reverse adjoints no longer share their
 storage with the clones of other matrices

---
 include/Matrix/BinaryOps/GenericMatConv.hpp   |  8 ++++----
 .../Matrix/BinaryOps/GenericMatHadamard.hpp   |  8 ++++----
 .../Matrix/BinaryOps/GenericMatProduct.hpp    | 20 +++++++++----------
 include/Matrix/BinaryOps/GenericMatSub.hpp    |  6 +++---
 include/Matrix/BinaryOps/GenericMatSum.hpp    | 14 ++++++-------
 include/Matrix/MetaMatrix.hpp                 |  5 +++++
 include/Matrix/UnaryOps/GenericMatDet.hpp     |  4 ++--
 include/Matrix/UnaryOps/GenericMatInv.hpp     |  4 ++--
 .../Matrix/UnaryOps/GenericMatTranspose.hpp   |  4 ++--
 include/Matrix/UnaryOps/GenericMatUnary.hpp   |  4 ++--
 include/Matrix/UnaryOps/GenericMatVec.hpp     |  4 ++--
 src/Matrix/MetaMatrix.cpp                     |  9 +++++++++
 12 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index a59f27d..7d70974 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -242,7 +242,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr2_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -259,7 +259,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -316,7 +316,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr2_val, val, ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -333,7 +333,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
diff --git a/include/Matrix/BinaryOps/GenericMatHadamard.hpp b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
index df7ddd3..1e4684f 100644
--- a/include/Matrix/BinaryOps/GenericMatHadamard.hpp
+++ b/include/Matrix/BinaryOps/GenericMatHadamard.hpp
@@ -216,7 +216,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr6_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -233,7 +233,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr7_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -295,7 +295,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr10_val, val, ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -312,7 +312,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr11_val, val, ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
diff --git a/include/Matrix/BinaryOps/GenericMatProduct.hpp b/include/Matrix/BinaryOps/GenericMatProduct.hpp
index 9900ee6..626cddb 100644
--- a/include/Matrix/BinaryOps/GenericMatProduct.hpp
+++ b/include/Matrix/BinaryOps/GenericMatProduct.hpp
@@ -215,7 +215,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr6_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -232,7 +232,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr7_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -293,7 +293,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr10_val, val, ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -310,7 +310,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr11_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -481,7 +481,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(m_left, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -521,7 +521,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -718,7 +718,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr7_val*val, CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), 1), ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -735,7 +735,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr8_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -785,7 +785,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr11_val*val, CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), 1), ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -802,7 +802,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr12_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
diff --git a/include/Matrix/BinaryOps/GenericMatSub.hpp b/include/Matrix/BinaryOps/GenericMatSub.hpp
index 15e9c48..bba4970 100644
--- a/include/Matrix/BinaryOps/GenericMatSub.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSub.hpp
@@ -209,7 +209,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(-1, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -263,7 +263,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
                       
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr4_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -280,7 +280,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr5_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
diff --git a/include/Matrix/BinaryOps/GenericMatSum.hpp b/include/Matrix/BinaryOps/GenericMatSum.hpp
index 2d09d6a..ac24a8c 100644
--- a/include/Matrix/BinaryOps/GenericMatSum.hpp
+++ b/include/Matrix/BinaryOps/GenericMatSum.hpp
@@ -263,7 +263,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr4_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -280,7 +280,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr5_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -480,7 +480,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -669,7 +669,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr4_val*val, CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), 1), ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -686,7 +686,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr5_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -735,7 +735,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;
-                        MatType*& ptr = this->m_cloned[this->incFunc()];
+                        MatType*& ptr = this->scaledFunc();
                         MATRIX_SCALAR_MUL(mp_arr7_val*val, CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), 1), ptr);
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
@@ -752,7 +752,7 @@ public:
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
-                      MatType*& ptr = this->m_cloned[this->incFunc()];
+                      MatType*& ptr = this->scaledFunc();
                       MATRIX_SCALAR_MUL(mp_arr8_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
diff --git a/include/Matrix/MetaMatrix.hpp b/include/Matrix/MetaMatrix.hpp
index 4714e24..6910a4d 100644
--- a/include/Matrix/MetaMatrix.hpp
+++ b/include/Matrix/MetaMatrix.hpp
@@ -34,13 +34,18 @@ class MetaMatrix : protected CommonHeader {
   protected:
   // Vector of clones
   Vector<Matrix<Type>*> m_cloned{nullptr};
+  // Vector of scaled adjoints (Not shared with the clones, which borrow the storage of other matrices)
+  Vector<Matrix<Type>*> m_scaled{};
   // Counter values
   LL_t m_clone_counter{};
+  size_t m_scaled_counter{};
   
   // Clear clone
   void clearClone();
   // Counter increment function   
   LL_t incFunc(const size_t = 2);
+  // Next scaled adjoint
+  Matrix<Type>*& scaledFunc();
 
 public:
   // Visited flag
diff --git a/include/Matrix/UnaryOps/GenericMatDet.hpp b/include/Matrix/UnaryOps/GenericMatDet.hpp
index be291dd..df5b5e9 100644
--- a/include/Matrix/UnaryOps/GenericMatDet.hpp
+++ b/include/Matrix/UnaryOps/GenericMatDet.hpp
@@ -213,7 +213,7 @@ public:
                 ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
                 
                 const auto idx = item.first; const auto val = item.second;    
-                MatType*& ptr = this->m_cloned[this->incFunc()];            
+                MatType*& ptr = this->scaledFunc();            
                 MATRIX_SCALAR_MUL(mp_arr14_val, val, ptr);                           
                 if(auto it2 = cache->find(idx); it2 != cache->end()) {                    
                   MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                    
@@ -268,7 +268,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
                         
                         const auto idx = item.first; const auto val = item.second;    
-                        MatType*& ptr = this->m_cloned[this->incFunc()];          
+                        MatType*& ptr = this->scaledFunc();          
                         MATRIX_SCALAR_MUL(mp_arr19_val, val, ptr);                         
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {                  
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                  
diff --git a/include/Matrix/UnaryOps/GenericMatInv.hpp b/include/Matrix/UnaryOps/GenericMatInv.hpp
index 7697a81..a62b1d8 100644
--- a/include/Matrix/UnaryOps/GenericMatInv.hpp
+++ b/include/Matrix/UnaryOps/GenericMatInv.hpp
@@ -193,7 +193,7 @@ public:
                 ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative");
 
                 const auto idx = item.first; const auto val = item.second;   
-                MatType*& ptr = this->m_cloned[this->incFunc()];             
+                MatType*& ptr = this->scaledFunc();             
                 MATRIX_SCALAR_MUL(mp_arr10_val, val, ptr);                           
                 if(auto it2 = cache->find(idx); it2 != cache->end()) {                    
                   MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                    
@@ -241,7 +241,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
                                                                 
                         const auto idx = item.first; const auto val = item.second;  
-                        MatType*& ptr = this->m_cloned[this->incFunc()];            
+                        MatType*& ptr = this->scaledFunc();            
                         MATRIX_SCALAR_MUL(mp_arr15_val, val, ptr);                         
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {                  
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                  
diff --git a/include/Matrix/UnaryOps/GenericMatTranspose.hpp b/include/Matrix/UnaryOps/GenericMatTranspose.hpp
index 0c8fc43..ea2baee 100644
--- a/include/Matrix/UnaryOps/GenericMatTranspose.hpp
+++ b/include/Matrix/UnaryOps/GenericMatTranspose.hpp
@@ -163,7 +163,7 @@ public:
                 ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative");   
                 
                 const auto idx = item.first; const auto val = item.second;   
-                MatType*& ptr = this->m_cloned[this->incFunc()];             
+                MatType*& ptr = this->scaledFunc();             
                 MATRIX_SCALAR_MUL(1, val, ptr);                           
                 if(auto it2 = cache->find(idx); it2 != cache->end()) {                    
                   MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                    
@@ -204,7 +204,7 @@ public:
                         ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                         const auto idx = item.first; const auto val = item.second;  
-                        MatType*& ptr = this->m_cloned[this->incFunc()];            
+                        MatType*& ptr = this->scaledFunc();            
                         MATRIX_SCALAR_MUL(mp_arr4_val, val, ptr);                         
                         if(auto it2 = cache->find(idx); it2 != cache->end()) {                  
                           MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                  
diff --git a/include/Matrix/UnaryOps/GenericMatUnary.hpp b/include/Matrix/UnaryOps/GenericMatUnary.hpp
index 5fb7f63..535438c 100644
--- a/include/Matrix/UnaryOps/GenericMatUnary.hpp
+++ b/include/Matrix/UnaryOps/GenericMatUnary.hpp
@@ -93,7 +93,7 @@ class GenericMat##OPS : public IMatrix<GenericMat##OPS<T>> {
                           const size_t cols = mp_arr[4]->getNumColumns();                           \
                           ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative");\
                           const auto idx = item.first; const auto val = item.second;                \
-                          MatType*& ptr = this->m_cloned[this->incFunc()];                          \
+                          MatType*& ptr = this->scaledFunc();                          \
                           MATRIX_SCALAR_MUL(mp_arr4_val, val, ptr);                                 \
                           if(auto it2 = cache->find(idx); it2 != cache->end()) {                    \
                             MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                          \
@@ -125,7 +125,7 @@ class GenericMat##OPS : public IMatrix<GenericMat##OPS<T>> {
                             const size_t cols = mp_arr[6]->getNumColumns();                         \
                             ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative");\
                             const auto idx = item.first; const auto val = item.second;              \
-                            MatType*& ptr = this->m_cloned[this->incFunc()];                        \
+                            MatType*& ptr = this->scaledFunc();                        \
                             MATRIX_SCALAR_MUL(mp_arr6_val, val, ptr);                               \
                             if(auto it2 = cache->find(idx); it2 != cache->end()) {                  \
                               MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                        \
diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 8ece570..82b871b 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -155,7 +155,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
                             ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative");   
                             
                             const auto idx = item.first; const auto val = item.second;   
-                            MatType*& ptr = this->m_cloned[this->incFunc()];             
+                            MatType*& ptr = this->scaledFunc();             
                             MATRIX_SCALAR_MUL(1, val, ptr);                           
                             if(auto it2 = cache->find(idx); it2 != cache->end()) {                    
                                 MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                    
@@ -200,7 +200,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
                                     ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                                     const auto idx = item.first; const auto val = item.second;  
-                                    MatType*& ptr = this->m_cloned[this->incFunc()];            
+                                    MatType*& ptr = this->scaledFunc();            
                                     MATRIX_SCALAR_MUL(mp_arr1_val, val, ptr);                         
                                     if(auto it2 = cache->find(idx); it2 != cache->end()) {                  
                                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);                  
diff --git a/src/Matrix/MetaMatrix.cpp b/src/Matrix/MetaMatrix.cpp
index b66776a..11fec2a 100644
--- a/src/Matrix/MetaMatrix.cpp
+++ b/src/Matrix/MetaMatrix.cpp
@@ -56,7 +56,16 @@ MetaMatrix::LL_t MetaMatrix::incFunc(const size_t scale) {
   return m_clone_counter;
 }
 
+// Next scaled adjoint
+Matrix<Type>*& MetaMatrix::scaledFunc() {
+  if(m_scaled_counter >= m_scaled.size()) {
+      m_scaled.resize(m_scaled_counter + 1, nullptr);
+  }
+  return m_scaled[m_scaled_counter++];
+}
+
 // Clear clone counter
 void MetaMatrix::clearClone() {
   m_clone_counter = -1;
+  m_scaled_counter = 0;
 }
-- 
2.43.0


From 8eb296f32ff6c5922752bc60c68671d4becfd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:01 +0000
Subject: [PATCH 28/28] fix: a matrix expression updated by itself knows its
 shape before it is evaluated

---
 include/Matrix/Matrix.hpp                          | 11 +++++++----
 include/Matrix/MatrixInterface/MatrixAccessors.ipp |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 29a0286..6a3fdaf 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -216,15 +216,15 @@ public:
     if (nullptr == mp_allocator) {
       mp_allocator = MemoryStrategyFactory(expr.allocatorType());
     }
+    // Shape of the new layer (before the shape of this matrix changes)
+    const size_t rows = expr.getNumRows();
+    const size_t cols = expr.getNumColumns();
     // Clear buffer and set rows and columns if not recursive expression not found
     if (static_cast<const Z&>(expr).findMe(this) == false) {
       m_gh_vec.clear();
     }
     // If the push back bector is zero
     if (true == m_gh_vec.empty()) {
-      m_rows = expr.getNumRows();
-      m_cols = expr.getNumColumns();
-
       // Deallocate mp_mat, mp_result, mp_dresult;
       deallocator();
       if(nullptr != mp_result) {
@@ -239,7 +239,10 @@ public:
       m_dest = true;
     }
     // Expression multiplied with eye matrix and emplace it in a generic holder (Dont change it)
-    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), expr.getNumColumns())))));
+    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), cols)))));
+    // The next layer, if any, builds on the shape of this one
+    m_rows = rows;
+    m_cols = cols;
     return *this;
   }
 
diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index 4a00b8f..31909d5 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -217,8 +217,8 @@ size_t Matrix<T>::getFinalNumRows() const {
   size_t rows{m_rows}; 
   // If the type T is an Expression
   if constexpr (true == std::is_same_v<T, Expression>) {
-    // If the vector of MetaVariables non-empty
-    if (false == m_gh_vec.empty()) {
+    // If one layer only (The later layers build on the shape of this matrix, which is then already the final one)
+    if (1 == m_gh_vec.size()) {
       // Choose the last value in this vector
       if (auto it = m_gh_vec.back(); nullptr != it) {
           if(auto* ptr = dynamic_cast<Matrix<Expression>*>(it)) {
@@ -238,8 +238,8 @@ size_t Matrix<T>::getFinalNumColumns() const {
   size_t cols{m_cols};
   // If the type T is an Expression
   if constexpr (true == std::is_same_v<T, Expression>) {
-    // If the vector of MetaVariables non-empty
-    if (false == m_gh_vec.empty()) {
+    // If one layer only (The later layers build on the shape of this matrix, which is then already the final one)
+    if (1 == m_gh_vec.size()) {
       // Choose the last value in this vector
       if (auto it = m_gh_vec.back(); nullptr != it) {
           if(auto* ptr = dynamic_cast<Matrix<Expression>*>(it)) {
-- 
2.43.0

