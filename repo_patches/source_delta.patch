From 8d77fe627c51046cac7760a509bdce041f52d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 01/37] fix: set_col compares the vector with the number of
 rows

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..9c6c0cd 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -457,7 +457,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-- 
2.43.0


From f42c955c382359a6a849a12604add95dcd2b271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 02/37] fix: set_rows, set_cols and set_shel keep the existing
 elements

---
 src/libcatnip/matrix.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 9c6c0cd..73dd524 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -480,7 +480,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
@@ -537,10 +537,11 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          int ind = (i - 1) * c * shel + (j - 1) * shel + k - 1;
+          if (j <= cols) {
+            temp[ind] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[ind] = 0;
           }
         }
       }
@@ -556,7 +557,7 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
         }
       }
     }
@@ -577,10 +578,11 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          int ind = (i - 1) * cols * s + (j - 1) * s + k - 1;
+          if (k <= shel) {
+            temp[ind] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[ind] = 0;
           }
         }
       }
@@ -596,7 +598,7 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From ad8b99662c3c4e7aaf49c76f3cf00e296ef253aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 03/37] fix: matrix storage is released with delete[]

---
 src/libcatnip/matrix.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 73dd524..1de8bf6 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -416,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -546,7 +546,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -561,7 +561,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -587,7 +587,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -602,7 +602,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From db62c66be12788a42cc463b9bb80a630d1d6577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 04/37] fix: getCol returns one entry per row

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 1de8bf6..ca23a86 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -936,7 +936,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From 1401f79940116b132c0f247bbbb65f2706a302b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 05/37] fix: copying a matrix copies its elements, all shelves
 included

---
 src/libcatnip/matrix.cpp | 23 ++++++++++++++++-------
 src/libcatnip/matrix.hpp |  1 +
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index ca23a86..33ee22a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -246,6 +246,13 @@ Matrix::Matrix() {
   elem[0] = 0;
 }
 
+Matrix::Matrix(const Matrix &m)
+    : rows(m.rows), cols(m.cols), shel(m.shel), elem(nullptr) {
+  int total = rows * cols * shel;
+  elem = new double[total];
+  for (int i = 0; i < total; ++i) elem[i] = m.elem[i];
+}
+
 Matrix::Matrix(vector<double> v_data) {
   rows = v_data.size();
   cols = 1;
@@ -279,7 +286,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -426,13 +432,16 @@ int Matrix::resize(int r, int c) {
 }
 
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
+  int total = m.rows * m.cols * m.shel;
+  double *temp = new double[total];
+  for (int i = 0; i < total; ++i) temp[i] = m.elem[i];
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
-  }
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = temp;
   return *this;
 }
 
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..f428fac 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -22,6 +22,7 @@ class Matrix {
   explicit Matrix(const int r);
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
+  Matrix(const Matrix &m);
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 707aafc0b8f031d116e4d8122e46b020b4668be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 06/37] fix: matching compares all requested decimals and
 ignores the sign of zero

---
 src/libcatnip/matrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 33ee22a..0ff0ae0 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <exception>
+#include <iomanip>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -170,8 +171,9 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 
 string double_tos(double f, int nd) {
   ostringstream ostr;
-  int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  double tens = stod("1" + string(nd, '0'));
+  // Adding 0.0 turns a negative zero into a positive one
+  ostr << fixed << setprecision(nd) << round(f * tens) / tens + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From a79dc210f121ded6c021550976005602a0b8c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 07/37] fix: printing a matrix shows every shelf's own elements

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 0ff0ae0..882dd3a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -195,7 +195,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From 10fd1738a8f2724e992c6fd3feb51e13695e1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 08/37] fix: whole row and column access outside of the matrix
 is rejected

---
 src/libcatnip/matrix.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 882dd3a..fff34e7 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -457,12 +457,12 @@ void Matrix::set_row(vector<double> row, int r) {
     throw invalid_argument("vector is not the same size as matrix");
   }
 
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
+
   for (int j = 1; j <= get_cols(); j++) {
-    if (r <= rows) {
-      elem[index(r, j, 1)] = row.at(j - 1);
-    } else {
-      elem[index(r, j, 1)] = 0;
-    }
+    elem[index(r, j, 1)] = row.at(j - 1);
   }
 }
 
@@ -471,12 +471,12 @@ void Matrix::set_col(vector<double> col, int c) {
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
+
   for (int i = 1; i <= get_rows(); ++i) {
-    if (c <= cols) {
-      elem[index(i, c, 1)] = col.at(i - 1);
-    } else {
-      elem[index(i, c, 1)] = 0;
-    }
+    elem[index(i, c, 1)] = col.at(i - 1);
   }
 }
 
@@ -521,6 +521,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -529,6 +532,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
-- 
2.43.0


From 5e6ebd889cb0b64ed5ad438842663dbd576bbadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 09/37] fix: atoms without a unique match are rejected instead
 of reordered

---
 src/libcatnip/qc_functions.cpp | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..ad0085a 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -179,6 +179,33 @@ list<Matrix *> splitCoefsUpByAtoms(const vector<int> & basisFuncP, Matrix *Coefs
   return splitMatrixIntoList(basisFuncP, Coefs, ColRow);
 }
 
+// Every atom has to be matched with exactly one atom, and the basis functions
+// of the atoms have to add up to the size of the matrix, anything else can not
+// be reordered.
+void checkMatches(const vector<int> &matchDimerA,
+                  const vector<int> &matchDimerB,
+                  const vector<int> &basisFuncP, int num_basis) {
+
+  vector<int> times_matched(basisFuncP.size(), 0);
+  for (const vector<int> &matches : {matchDimerA, matchDimerB}) {
+    for (int match : matches) {
+      if (match < 1 || match > static_cast<int>(basisFuncP.size())) {
+        throw invalid_argument("An atom has no matching atom");
+      }
+      if (++times_matched.at(match - 1) > 1) {
+        throw invalid_argument("More than one atom matches the same atom");
+      }
+    }
+  }
+  int total = 0;
+  for (int basis : basisFuncP) total += basis;
+  if (total != num_basis) {
+    throw invalid_argument(
+        "The number of basis functions of the atoms is not consistent with "
+        "the size of the matrix");
+  }
+}
+
 // The purpose of this function is to ensure that swapping occurs correctly
 // The following example explains in more detail what this is meant to do
 // Now if we have a matrix in a specific state and want to swap the rows
@@ -418,6 +445,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP, dimerCoef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -454,6 +483,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatches(matchDimerB, {}, basisFuncB, Coef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -487,6 +518,9 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP, S->get_cols());
+  checkMatches(matchDimerA, matchDimerB, basisFuncP, S->get_rows());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -539,6 +573,9 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, {}, basisFuncP, S->get_cols());
+  checkMatches(matchDimerA, {}, basisFuncP, S->get_rows());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From 9077a72f2c08a7a186bfaf23fd8bd494f4ce8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 10/37] fix: adding a double argument looks for an existing
 double argument

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..658fc8c 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From c21bfde055d8a4f48d27e2389a77a4feaf63128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 11/37] fix: a switch consumes its value and overrides its
 default

---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 658fc8c..95ad97d 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -455,6 +455,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           unrecognized = false;
           int_values_[flag] = 1;
+          string_values_.erase(flag);
         }
       } else {
         string argument = arguments.at(index + 1);
@@ -466,10 +467,12 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
       int_values_[flag] = 1;
+      string_values_.erase(flag);
     }
   }
   if (int_arg_.count(flag) != 0) {
-- 
2.43.0


From 85b8844ea5824647f7d7bbf8e8550395dbe39b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 12/37] fix: the short version flag is the documented -v

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 95ad97d..3390b88 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -653,7 +653,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
-- 
2.43.0


From 347e9b49832971b3d7c44f160bd18835bdf5943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 13/37] fix: numbers followed by other characters are rejected

---
 src/libcatnip/io/argumentparser.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 3390b88..d986a35 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -483,9 +483,14 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      int_arg_[flag]->argValid(stoi(argument));
+      size_t parsed = 0;
+      int value = stoi(argument, &parsed);
+      if (parsed != argument.size()) {
+        throw invalid_argument(flag + " is not a whole number " + argument);
+      }
+      int_arg_[flag]->argValid(value);
       unrecognized = false;
-      int_values_[flag] = stoi(argument);
+      int_values_[flag] = value;
       ++index;
     }
   }
@@ -497,9 +502,14 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      double_arg_[flag]->argValid(stod(argument));
+      size_t parsed = 0;
+      double value = stod(argument, &parsed);
+      if (parsed != argument.size()) {
+        throw invalid_argument(flag + " is not a number " + argument);
+      }
+      double_arg_[flag]->argValid(value);
       unrecognized = false;
-      double_values_[flag] = stod(argument);
+      double_values_[flag] = value;
       ++index;
     }
   }
-- 
2.43.0


From ec359a93feeac9e528c8816728ba1277babb3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 14/37] fix: a value that is not a number is outside of every
 range

---
 src/libcatnip/io/arguments/properties/propertydouble.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertydouble.cpp b/src/libcatnip/io/arguments/properties/propertydouble.cpp
index 28f2a3b..28be3ce 100644
--- a/src/libcatnip/io/arguments/properties/propertydouble.cpp
+++ b/src/libcatnip/io/arguments/properties/propertydouble.cpp
@@ -1,4 +1,5 @@
 
+#include <cmath>
 #include "propertydouble.hpp"
 
 #include <limits>
@@ -17,6 +18,9 @@ vector<string> PropertyDouble::getOpts_(void) const {
 }
 
 void PropertyDouble::doubleValid(const double& val) {
+  if (std::isnan(val)) {
+    throw invalid_argument("The value is not a number");
+  }
   if (val < getPropOption("MIN")) {
     string err = "The value is smaller than allowed " + to_string(val) +
                  " the "
-- 
2.43.0


From cf18026c299d2fa7c435e1a4789122a6f7317ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 15/37] fix: a single string choice can be set

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..416b2ed 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
-- 
2.43.0


From 6be70071f6d30794c0ebe1e19b4f8dd559993944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 16/37] fix: whether a file exists is always recorded

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..4660277 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -36,6 +37,8 @@ bool PropertyFileExist::propValid(const string& fileNamePath) {
   } else {
     if (fileExist(fileNamePath)) {
       setPropOption_("FILE_DOES_EXIST", 1);
+    } else {
+      setPropOption_("FILE_DOES_EXIST", 0);
     }
   }
   return true;
-- 
2.43.0


From c8b588edac8d16114f017f4fb166c35d54a4388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 17/37] fix: options set through an argument are validated by
 the property

---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyfileext.hpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp       | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.cpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.hpp   | 3 ++-
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.hpp | 2 +-
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..473e86a 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,7 +66,7 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string> &vars) {
   PropertyObject::setPropOption(option, vars);
 }
 
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..78a6c6f 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string> &var);
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..f045418 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string> &vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..eadbf68 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,8 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option,
+                     const std::vector<std::string> &var);
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index 416b2ed..e01c021 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,7 +45,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string> &set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..7b93898 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string> &var);
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From d635a36fd4369b5a771838364cbedcc7ed674c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 18/37] fix: the file extension starts at the last dot

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From 3634a25b1bc802a464cfcb6a1b0ad7b11d90dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 19/37] fix: the citation parameter starts out false

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From a337c27d1dac810744b90c68b2f98ca165a7f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 20/37] fix: the last occurrence of a string is looked for as a
 whole

---
 src/libcatnip/string_support.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..34dbc96 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -132,13 +132,13 @@ string grabStrAfterFirstOccurance(string s, string occ) {
 }
 
 string grabStrAfterLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
-  return s.substr(pos + 1);
+  return s.substr(pos + occ.length());
 }
 
 string grabStrAfterLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
   return s.substr(pos);
 }
@@ -150,15 +150,15 @@ string grabStrBeforeFirstOccurance(string s, string occ) {
 }
 
 string grabStrBeforeLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
   return s.substr(0, pos);
 }
 
 string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
-  return s.substr(0, pos + 1);
+  return s.substr(0, pos + occ.length());
 }
 
 bool foundSubStrInStr(string s, string sub_s) {
-- 
2.43.0


From 2835864c430eb8a012b076c21de73da1adf99ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 21/37] fix: .orb and .7 files are read as documented

---
 src/libcatnip/io/file_readers/punreader.cpp |  5 +++--
 src/libcatnip/parameters.cpp                | 15 +++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..9a83e9e 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -39,8 +39,9 @@ Matrix *PunReader::getCoefsMatrix(const string &orb_type) {
 
 void PunReader::validFileName_() {
   string ext = fileExt_();
-  if (ext.compare(".pun") != 0) {
-    throw invalid_argument("A pun file must have the .pun extension");
+  if (ext != ".pun" && ext != ".orb" && ext != ".7") {
+    throw invalid_argument(
+        "A pun file must have the .pun, .orb or .7 extension");
   }
 }
 
diff --git a/src/libcatnip/parameters.cpp b/src/libcatnip/parameters.cpp
index c43617b..ae5640f 100644
--- a/src/libcatnip/parameters.cpp
+++ b/src/libcatnip/parameters.cpp
@@ -7,6 +7,12 @@
 using namespace catnip;
 using namespace std;
 
+// The coefficients may be in a .pun, .orb or .7 file
+static bool punExtension(const string& pun) {
+  string ext = grabStrAfterLastOccuranceInclusive(pun, ".");
+  return ext == ".pun" || ext == ".orb" || ext == ".7";
+}
+
 void Parameters::setLog1(const string& log1) {
   string ext = lastN(log1, 4);
   if (ext.compare(".log"))
@@ -26,20 +32,17 @@ void Parameters::setLogP(const string& logP) {
   logP_ = logP;
 }
 void Parameters::setPun1(const string& pun1) {
-  string ext = lastN(pun1, 4);
-  if (ext.compare(".pun"))
+  if (!punExtension(pun1))
     throw invalid_argument("pun file has wrong extension");
   pun1_ = pun1;
 }
 void Parameters::setPun2(const string& pun2) {
-  string ext = lastN(pun2, 4);
-  if (ext.compare(".pun"))
+  if (!punExtension(pun2))
     throw invalid_argument("pun file has wrong extension");
   pun2_ = pun2;
 }
 void Parameters::setPunP(const string& punP) {
-  string ext = lastN(punP, 4);
-  if (ext.compare(".pun"))
+  if (!punExtension(punP))
     throw invalid_argument("pun file has wrong extension");
   punP_ = punP;
 }
-- 
2.43.0


From bfb8d33c914811897d6c618ea60ab937515f2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 22/37] fix: beta coefficients are read and an incomplete pun
 file is rejected

---
 src/libcatnip/io/file_readers/filereader.cpp |  8 ++++++++
 src/libcatnip/io/file_readers/filereader.hpp |  2 ++
 src/libcatnip/io/file_readers/punreader.cpp  | 12 +++++++++---
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..98c10c2 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -74,6 +74,14 @@ bool FileReader::fileExist_() const {
   return (stat(fileName_.c_str(), &buffer) == 0);
 }
 
+string FileReader::nextLine_() {
+  string line;
+  if (!getline(fid_, line)) {
+    throw runtime_error("Unexpected end of file " + fileName_);
+  }
+  return line;
+}
+
 void FileReader::readSection_(string tag) {
   void *ptr = static_cast<void *>(this);
   sectionReaders_[tag](ptr);
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..59bb8e6 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -30,6 +30,8 @@ class FileReader {
   virtual void validFileName_(){};
   void checkSections_();
   void readSection_(std::string tag);
+  // Next line of a section, throws if the file ends before it
+  std::string nextLine_();
   std::string startSection_(const std::string &tag);
   std::string fileExt_() const;
   bool fileExist_() const;
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 9a83e9e..962ae4c 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,8 +73,7 @@ void PunReader::ReadCoef(const string &orb_type) {
 
   bool allCoefsRead = false;
   while (!allCoefsRead) {
-    string line;
-    getline(fid_, line);
+    string line = nextLine_();
     vector<double> row;
     size_t current_count = 0;
     while (!foundSubStrInStr(line, pattern)) {
@@ -85,7 +84,11 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
-      getline(fid_, line);
+      pos_ = fid_.tellg();
+      if (!getline(fid_, line)) break;
+    }
+    if (first_row_set && row.size() != count) {
+      throw runtime_error("Incomplete orbital in file " + fileName_);
     }
     first_row_set = true;
     count = row.size();
@@ -94,6 +97,9 @@ void PunReader::ReadCoef(const string &orb_type) {
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
   }
 
+  // The line that was read last may be the start of the next section
+  if (fid_) fid_.seekg(pos_);
+
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
   LOG("Success reading atomic orbital coefficients from .pun file.", 2);
-- 
2.43.0


From 08430087a29cf4673976d751029bff18b1a21ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 23/37] fix: asking for an overlap matrix that was not read is
 rejected

---
 src/libcatnip/io/file_readers/logreader.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..630acee 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -18,7 +18,12 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const {
+    if (S_ == nullptr) {
+      throw std::invalid_argument("Overlap matrix was not found");
+    }
+    return S_;
+  }
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +53,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From 5cace166973caf45ef7b02afdf31c5a96a6fd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 24/37] fix: the overlap matrix of at most five basis functions
 is read

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..b9b4915 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -194,8 +194,8 @@ void LogReader::OverlapSectionReader(void *ptr) {
     getline(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
-    if (countCint != (countCoef + 1)) {
+    // Only a row of the matrix starts with the number that follows
+    if (countC != to_string(countCoef + 1)) {
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0


From bd7482fcb7ca540c7a599a0c570e3ea9e1537259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 25/37] fix: an energy header without energies does not restart
 the section forever

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index b9b4915..72ba42a 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -73,8 +73,8 @@ void LogReader::registerSections_() {
   sectionHeaders_["AOFunction"] =
       set<string>{"     Gross orbital populations:"};
   sectionHeaders_["Overlap"] = set<string>{" *** Overlap ***"};
-  sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues --"};
-  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --"};
+  sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues -- "};
+  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues -- "};
   sectionHeaders_["Coord"] = set<string>{"Center     Atomic      Atomic",
                                          "Center     Atomic     Atomic"};
 
-- 
2.43.0


From 053359d9275570ac1b5b6295a11fdb11dc22a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 26/37] fix: a log file that ends inside of a section is
 rejected

---
 src/libcatnip/io/file_readers/logreader.cpp | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 72ba42a..4ad934c 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -109,8 +109,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  line = LR_ptr->nextLine_();
+  line = LR_ptr->nextLine_();
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +130,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    line = LR_ptr->nextLine_();
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +150,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      line = LR_ptr->nextLine_();
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,13 +185,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  line = LR_ptr->nextLine_();
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    line = LR_ptr->nextLine_();
     istringstream iss(line);
     iss >> countC;
     // Only a row of the matrix starts with the number that follows
@@ -239,7 +239,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      line = LR_ptr->nextLine_();
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -263,7 +263,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     }
     ++section;
     currentSectionStart += 5;
-    getline(LR_ptr->fid_, line);
+    line = LR_ptr->nextLine_();
   }
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
@@ -333,9 +333,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  line = LR_ptr->nextLine_();
+  line = LR_ptr->nextLine_();
+  line = LR_ptr->nextLine_();
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -343,7 +343,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    line = LR_ptr->nextLine_();
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From 0077319e5a75fbfe972882f870987135e079b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 27/37] fix: monomer orbital energies that do not belong to the
 coefficients are rejected

---
 src/libcatnip/qc_functions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index ad0085a..e2a2fb1 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -628,6 +628,12 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
         "The overlap matrix must have the same number "
         "of basis functions as the dimer");
   }
+  if (MOs1.first != mat1Coef->get_rows() ||
+      MOs2.first != mat2Coef->get_rows()) {
+    throw invalid_argument(
+        "The number of orbital energies of the monomers must be the same as "
+        "the number of orbitals with coefficients");
+  }
   if (cp) {
     if (mat1Coef->get_cols() != matPCoef->get_cols()) {
       throw invalid_argument(
-- 
2.43.0


From c0f6eed182dc6a79d49d4a8a17486ae528edff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 28/37] fix: an overlap matrix that is not square over the
 dimer basis is rejected

---
 src/libcatnip/qc_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index e2a2fb1..5b44df2 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -623,7 +623,8 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   unscrambled = false;
   counterPoise_ = cp;
   // Consistency check
-  if (matS->get_cols() != matPCoef->get_cols()) {
+  if (matS->get_cols() != matPCoef->get_cols() ||
+      matS->get_rows() != matPCoef->get_cols()) {
     throw invalid_argument(
         "The overlap matrix must have the same number "
         "of basis functions as the dimer");
-- 
2.43.0


From 4998946fd88addd9662aef9daa17e86aee7a2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 29/37] fix: a log file that ends inside of the orbital
 energies is rejected

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 4ad934c..f3e5050 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -299,6 +299,10 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
     }
     pos_ = fid_.tellg();
   }
+  // Without a line after the energies the listing may be incomplete
+  if (!fid_ || fid_.eof()) {
+    throw runtime_error("Unexpected end of file " + fileName_);
+  }
   // Reset the fid because Beta will come right after alpha
   fid_.seekg(pos_);
   LOG("Success reading Orbital Energies from .log file", 2);
-- 
2.43.0


From 9d81e100c81303228ffffaf7f249b3f78b7a5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 30/37] fix: overlap rows with missing numbers are rejected

---
 src/libcatnip/io/file_readers/logreader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index f3e5050..4daa63f 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -209,6 +209,10 @@ void LogReader::OverlapSectionReader(void *ptr) {
         string exp = grabStrAfterFirstOccurance(s_coef, "D");
         row.push_back(stod(val) * pow(10.0, stod(exp)));
       }
+      if (row.size() != static_cast<size_t>(countCoef < 5 ? countCoef : 5)) {
+        throw runtime_error("Incomplete overlap matrix in file " +
+                            LR_ptr->fileName_);
+      }
       first_coefs.push_back(row);
     }
   }
@@ -259,6 +263,12 @@ void LogReader::OverlapSectionReader(void *ptr) {
         }
         ++localCoefCount;
       }
+      int expected = sectionCoef + 1 - currentSectionStart;
+      if (dummy != to_string(sectionCoef + 1) ||
+          localCoefCount - 1 != (expected < 5 ? expected : 5)) {
+        throw runtime_error("Incomplete overlap matrix in file " +
+                            LR_ptr->fileName_);
+      }
       ++sectionCoef;
     }
     ++section;
-- 
2.43.0


From 82e8a4ade18c0697be282a1714e1bb71ed55bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 31/37] fix: a log file cut off before the number of an overlap
 row is rejected

---
 src/libcatnip/io/file_readers/logreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 4daa63f..5f4371e 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -196,6 +196,10 @@ void LogReader::OverlapSectionReader(void *ptr) {
     iss >> countC;
     // Only a row of the matrix starts with the number that follows
     if (countC != to_string(countCoef + 1)) {
+      // The row may be cut off before its number
+      if (LR_ptr->fid_.eof()) {
+        throw runtime_error("Unexpected end of file " + LR_ptr->fileName_);
+      }
       endFirstSection = true;
     } else {
       ++countCoef;
-- 
2.43.0


From 5ef1ab855118062f696ceba915ccdbff4318ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 32/37] fix: options of real number arguments can be read back

---
 src/libcatnip/io/argumentparser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index d986a35..9538d24 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -564,6 +564,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 10cf4af1dd4bc2b88442eaf637d6be9fc4f52701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 33/37] fix: the help text of a flag without a short form ends

---
 src/libcatnip/io/argumentparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 9538d24..483a414 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -68,9 +68,6 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
         }
         short_flag = item;
         abbreviation = true;
-        if (short_flag.size() > maxShortFlagSize) {
-          maxShortFlagSize = short_flag.size();
-        }
       } else {
         if (description) {
           string err = "A description has already been suppied:\n";
@@ -89,6 +86,9 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     if (!flag_name) {
       throw invalid_argument("You have failed to provide the full flag name");
     }
+    if (short_flag.size() > maxShortFlagSize) {
+      maxShortFlagSize = short_flag.size();
+    }
     flags_[full_flag] = make_pair(short_flag, desc);
   }
 }
-- 
2.43.0


From 1fc9fd822c65a2842e59c99c310d2a9fc1e0b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 34/37] fix: reading a file again starts from its beginning

---
 src/libcatnip/io/file_readers/filereader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 98c10c2..275af73 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -31,6 +31,7 @@ void FileReader::open() {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
   fid_.open(fileName_);
+  pos_ = fid_.tellg();
   fileOpen_ = true;
 }
 
-- 
2.43.0


From ff2f0919b6176a613cc510fd852479c676577a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 35/37] fix: refuse an empty set for STRING_CHOICE_ENFORCED

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index e01c021..8111525 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -51,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From 6d2e19277c973811d14316a038f39b7209f25de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:54 +0000
Subject: [PATCH 36/37] fix: refuse element access in a matrix without rows,
 columns or shelves

---
 src/libcatnip/matrix.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index fff34e7..5a48d8e 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -240,6 +240,13 @@ Matrix &operator*(const Matrix &mat1, const Matrix &mat2) {
 
 using namespace catnip;
 
+// A matrix without rows, columns or shelves holds no elements
+static void checkHoldsElements(const Matrix &mat) {
+  if (mat.get_rows() < 1 || mat.get_cols() < 1 || mat.get_shel() < 1) {
+    throw invalid_argument("the matrix is empty");
+  }
+}
+
 Matrix::Matrix() {
   rows = 1;
   cols = 1;
@@ -461,6 +468,10 @@ void Matrix::set_row(vector<double> row, int r) {
     throw invalid_argument("row is outside of the matrix");
   }
 
+  if (shel < 1) {
+    throw invalid_argument("the matrix is empty");
+  }
+
   for (int j = 1; j <= get_cols(); j++) {
     elem[index(r, j, 1)] = row.at(j - 1);
   }
@@ -475,6 +486,10 @@ void Matrix::set_col(vector<double> col, int c) {
     throw invalid_argument("column is outside of the matrix");
   }
 
+  if (shel < 1) {
+    throw invalid_argument("the matrix is empty");
+  }
+
   for (int i = 1; i <= get_rows(); ++i) {
     elem[index(i, c, 1)] = col.at(i - 1);
   }
@@ -524,6 +539,9 @@ vector<double> Matrix::get_col(int c) const{
   if (c < 1 || c > cols) {
     throw invalid_argument("column is outside of the matrix");
   }
+  if (shel < 1) {
+    throw invalid_argument("the matrix is empty");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -535,6 +553,9 @@ vector<double> Matrix::get_row(int r) const {
   if (r < 1 || r > rows) {
     throw invalid_argument("row is outside of the matrix");
   }
+  if (shel < 1) {
+    throw invalid_argument("the matrix is empty");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -625,7 +646,10 @@ void Matrix::set_shel(int s) {
   }
 }
 
-void Matrix::set_elem(double val) { elem[0] = val; }
+void Matrix::set_elem(double val) {
+  checkHoldsElements(*this);
+  elem[0] = val;
+}
 
 void Matrix::set_elem(double val, int r) {
   if (r > rows) {
@@ -639,6 +663,7 @@ void Matrix::set_elem(double val, int r) {
     exit(1);
   };
 
+  checkHoldsElements(*this);
   elem[index(r, 1, 1)] = val;
 }
 
@@ -666,6 +691,7 @@ void Matrix::set_elem(double val, int r, int c) {
     exit(1);
   };
 
+  checkHoldsElements(*this);
   elem[index(r, c, 1)] = val;
 }
 
@@ -715,7 +741,10 @@ int Matrix::get_shel() const { return shel; }
 
 int Matrix::total_elem() { return rows * cols * shel; }
 
-double Matrix::get_elem() const { return elem[0]; }
+double Matrix::get_elem() const {
+  checkHoldsElements(*this);
+  return elem[0];
+}
 
 double Matrix::get_elem(const int r) const {
   if (r < 1) {
@@ -727,6 +756,7 @@ double Matrix::get_elem(const int r) const {
         "Matrix\n");
     exit(1);
   }
+  checkHoldsElements(*this);
   return elem[index(r, 1, 1)];
 }
 
@@ -748,6 +778,7 @@ double Matrix::get_elem(const int r, const int c) const {
         "Matrix\n");
     exit(1);
   }
+  checkHoldsElements(*this);
   return elem[index(r, c, 1)];
 }
 
-- 
2.43.0


From c9221fb6d2cd8714012b51f2b99c6f561318e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:07 +0000
Subject: [PATCH 37/37] fix: companion files of names with blanks are found

---
 src/libcatnip/io/io.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..faf70f9 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,19 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    vector<string> sister_file_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        // The path is put together here because it may contain blanks
+        string given = ArgParse->getStr(flag);
+        flag_sister_arg[flag_sister] =
+            getPath(given) +
+            grabStrBeforeLastOccurance(lastStringInPath(given), ".") +
+            sister_file_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0

