From 5e5013f1dc9874ae5484eb077aad195cb853b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 01/94] fix: CrsMatrix triplet constructor counted rows instead
 of non-zeros in its row offsets

---
 src/CrsMatrix.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..694945e 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -208,23 +208,18 @@ public:
 		Vector<SizeType>::Type iperm(rows2.size());
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType nextRow = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// start all rows up to and including this one
+			for (; nextRow <= rows[i]; ++nextRow)
+				rowptr_[nextRow] = i;
 
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		for (; nextRow <= rank; ++nextRow)
+			rowptr_[nextRow] = rows.size();
 	}
 
 	// start closure ctors
-- 
2.43.0


From c7f9187828e0c9a2940dc63d4ba3f6359083dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 02/94] fix: crsMatrixToFullMatrix left old entries of a
 non-empty destination in place

---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 694945e..772206e 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -770,6 +770,7 @@ template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
+	m.setTo(0); // resize does not overwrite entries m already had
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
 		for (int k = crsMatrix.getRowPtr(i);
-- 
2.43.0


From a432c0afee4bc1268baaf523d4e991e68114854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 03/94] fix: reading an empty sparse or dense matrix into a
 non-empty one kept the old contents

---
 src/CrsMatrix.h | 2 ++
 src/Matrix.h    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 772206e..9d99ed4 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -617,6 +617,7 @@ public:
 	}
 	void read(String label, IoSerializer& ioSerializer)
 	{
+		clear(); // discard previous contents
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
 		if (nrow_ == 0 || ncol_ == 0)
@@ -715,6 +716,7 @@ std::ostream& operator<<(std::ostream& os, const CrsMatrix<T>& m)
 template <typename T>
 std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 {
+	m.clear(); // discard previous contents
 	int n;
 	is >> n;
 	if (n < 0)
diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..39ac234 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -151,6 +151,7 @@ public:
 
 	void read(String label, IoSerializer& ioSerializer)
 	{
+		clear(); // discard previous contents
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
 		if (nrow_ == 0 || ncol_ == 0)
-- 
2.43.0


From 0319e64a5ff3239bfe1605013d2dc2d6fba81040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 04/94] fix: SampleCRSMatrix counted rows instead of non-zeros
 in its row offsets

---
 src/SampleCRSMatrix.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..370c52a 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -203,21 +203,18 @@ private:
 		Sort<typename Vector<SizeType>::Type> s;
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType nextRow = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// start all rows up to and including this one
+			for (; nextRow <= rows[i]; ++nextRow)
+				rowptr_[nextRow] = i;
+
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+
+		for (; nextRow <= rank_; ++nextRow)
+			rowptr_[nextRow] = rows.size();
 	}
 
 	SizeType rank_;
-- 
2.43.0


From 6406c29bc1327254b69c5f4ec9b2e3512e844251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 05/94] fix: isTheIdentity accepted sparse matrices whose
 diagonal entries are not stored

---
 src/CrsMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 9d99ed4..5ec71b2 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1539,9 +1539,12 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		bool hasDiagonal = false;
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
+			if (col == i)
+				hasDiagonal = true;
 			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
 				return false;
 			}
@@ -1549,6 +1552,9 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 				return false;
 			}
 		}
+
+		if (checkForIdentity && !hasDiagonal)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From 72a00d9969f6e286ceb846fb171e66e0465e07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 06/94] fix: product of a vector of rows and a vector ran past
 the end of the rows

---
 src/Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..bbe3c9e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -97,10 +97,10 @@ template <typename T1, typename T2, typename A, typename AA>
 vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
                         const vector<T2, A>& v2)
 {
-	vector<T2, A> v3(v2.size());
+	vector<T2, A> v3(v1.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From 9b9db4fdf0969b59c2ebc405f8fb1421be7c5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 07/94] fix: Matrix::operator-= read past the end of a smaller
 operand

---
 src/Matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 39ac234..d0ca4fd 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -312,7 +312,9 @@ public:
 
 	Matrix<T>& operator-=(const Matrix<T>& other)
 	{
-		// domain checking ???
+		if (nrow_ != other.nrow_ || ncol_ != other.ncol_)
+			throw RuntimeError("operator-= matrices of different sizes\n");
+
 		for (SizeType i = 0; i < ncol_ * nrow_; i++)
 			data_[i] -= other.data_[i];
 		return *this;
-- 
2.43.0


From 50ad89e1e7a3c535ef5f2681a30419e0483913d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 08/94] fix: vector * Matrix evaluated the product in the
 reverse order

---
 src/Matrix.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index d0ca4fd..3e53af8 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -917,6 +917,14 @@ operator*(const T1& a, const T2& b)
 	                                                                     b);
 }
 
+// row vector * matrix: keeps the order of the factors
+template <typename T, typename A>
+std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>
+operator*(const std::vector<T, A>& a, const Matrix<T>& b)
+{
+	return std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>(a, b);
+}
+
 template <typename T>
 std::ClosureOperator<Matrix<T>, Matrix<T>, std::ClosureOperations::OP_PLUS>
 operator+(const Matrix<T>& a, const Matrix<T>& b)
-- 
2.43.0


From 4ae5afdf2d90cbd6a7a0dd792ae45444b9554fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 09/94] fix: exponentials of complex Hermitian matrices came
 out transposed

---
 src/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 3e53af8..96b4aab 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1033,7 +1033,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * PsimagLite::conj(m(j, k)) * tmp;
 			}
 			expm(i, j) = sum;
 		}
@@ -1101,7 +1101,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From d8581b4558a43f7ecb87dbe44e3ab31e4d61fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 10/94] fix: diag, geev and inverse accepted matrices that are
 not square

---
 src/Matrix.cpp | 14 ++++++++++++++
 src/Matrix.h   |  6 ++++++
 2 files changed, 20 insertions(+)

diff --git a/src/Matrix.cpp b/src/Matrix.cpp
index 4fc134c..faef38c 100644
--- a/src/Matrix.cpp
+++ b/src/Matrix.cpp
@@ -12,11 +12,21 @@ void checkBlasStatus(int info, PsimagLite::String msg)
 	throw RuntimeError(str);
 }
 
+template <typename T>
+static void checkSquare(const Matrix<T>& m, PsimagLite::String msg)
+{
+	if (m.rows() == m.cols() && m.rows() > 0)
+		return;
+
+	throw RuntimeError(msg + ": expected a non-empty square matrix\n");
+}
+
 void diag(Matrix<double>& m, Vector<double>::Type& eigs, char option)
 {
 #ifdef NO_LAPACK
 	throw RuntimeError("diag: dsyev_: NO LAPACK!\n");
 #else
+	checkSquare(m, "diag");
 	char jobz = option;
 	char uplo = 'U';
 	int n = m.rows();
@@ -54,6 +64,7 @@ void diag(Matrix<std::complex<double>>& m, Vector<double>::Type& eigs, char opti
 #ifdef NO_LAPACK
 	throw RuntimeError("diag: zheev: NO LAPACK!\n");
 #else
+	checkSquare(m, "diag");
 	char jobz = option;
 	char uplo = 'U';
 	int n = m.rows();
@@ -89,6 +100,7 @@ void diag(Matrix<float>& m, Vector<float>::Type& eigs, char option)
 #ifdef NO_LAPACK
 	throw RuntimeError("diag: dsyev_: NO LAPACK!\n");
 #else
+	checkSquare(m, "diag");
 	char jobz = option;
 	char uplo = 'U';
 	int n = m.rows();
@@ -127,6 +139,7 @@ void diag(Matrix<std::complex<float>>& m, Vector<float>::Type& eigs, char option
 #ifdef NO_LAPACK
 	throw RuntimeError("diag: cheev: NO LAPACK!\n");
 #else
+	checkSquare(m, "diag");
 	char jobz = option;
 	char uplo = 'U';
 	int n = m.rows();
@@ -162,6 +175,7 @@ void geev(char jobvl, char jobvr, Matrix<std::complex<double>>& a, Vector<std::c
 #ifdef NO_LAPACK
 	throw RuntimeError("diag: geev: NO LAPACK!\n");
 #else
+	checkSquare(a, "geev");
 	int n = a.rows();
 	int lda = a.cols();
 	int ldvl = vl.rows();
diff --git a/src/Matrix.h b/src/Matrix.h
index 96b4aab..abb4527 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -608,6 +608,9 @@ inverse(Matrix<T>& m)
 #ifdef NO_LAPACK
 	throw RuntimeError("inverse: NO LAPACK!\n");
 #else
+	if (m.rows() != m.cols())
+		throw RuntimeError("inverse: expected a square matrix\n");
+
 	int n = m.rows();
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
@@ -631,6 +634,9 @@ inverse(Matrix<T>& m)
 #ifdef NO_LAPACK
 	throw RuntimeError("inverse: NO LAPACK!\n");
 #else
+	if (m.rows() != m.cols())
+		throw RuntimeError("inverse: expected a square matrix\n");
+
 	int n = m.rows();
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
-- 
2.43.0


From df75617a13ed6a4384fb08c296853ed04fd31a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 11/94] fix: GemmR divided by zero when one dimension of C is
 zero and the other exceeds the block size

---
 src/GemmR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GemmR.h b/src/GemmR.h
index 222ef7b..f256031 100644
--- a/src/GemmR.h
+++ b/src/GemmR.h
@@ -118,7 +118,7 @@ private:
 
 	bool isSmall(SizeType m, SizeType n) const
 	{
-		if (nb_ == 0)
+		if (nb_ == 0 || m == 0 || n == 0)
 			return true;
 		return ((m <= nb_) && (n <= nb_));
 	}
-- 
2.43.0


From 7b4e874456d52bb2ef590d7c5cab207c998d5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 12/94] fix: the requested thread stack size was set on an
 uninitialized attribute and then lost

---
 src/Parallelizer2Pthread.h | 8 ++++----
 src/PthreadsNg.h           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..f178de4 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -134,7 +134,10 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -154,9 +157,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..0492a70 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,10 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,9 +260,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 #ifndef __APPLE__
 			if (setAffinities_)
 				setAffinity(attr[j], &cpuset, j);
-- 
2.43.0


From 765a7534673fc1166b38c25768bb7dd668ad1b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 13/94] fix: Parallelizer2 with weights did not compile

---
 src/Parallelizer2Pthread.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index f178de4..6b04d55 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -110,8 +110,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), nthreads_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, nthreads_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From d3bab4a53fc5827e6849a36266c55c92823c1a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:46 +0000
Subject: [PATCH 14/94] fix: OpenMP Parallelizer2 reported one thread whatever
 was configured

---
 src/Parallelizer2OpenMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parallelizer2OpenMP.h b/src/Parallelizer2OpenMP.h
index 08d0505..514c1f1 100644
--- a/src/Parallelizer2OpenMP.h
+++ b/src/Parallelizer2OpenMP.h
@@ -25,7 +25,7 @@ public:
 			lambda(i, omp_get_thread_num());
 	}
 
-	SizeType numberOfThreads() const { return omp_get_num_threads(); }
+	SizeType numberOfThreads() const { return threads_; }
 
 	String name() const { return "openmp"; }
 
-- 
2.43.0


From 99d162ab3864c0f8365f9bab5845db4390ec6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 15/94] fix: loops with affinities started by several threads
 raced on the first-call flag

---
 src/PthreadsNg.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 0492a70..46635d1 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -84,6 +84,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "TypeToString.h"
 #include "Vector.h"
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <pthread.h>
 #include <sched.h>
@@ -217,15 +218,13 @@ public:
 		cpu_set_t cpuset;
 
 		if (setAffinities_) {
-			static bool firstCall = true;
+			static std::atomic<bool> firstCall(true);
 			pid_t pid = getpid(); // always successfull
 			getPidAffinity(&cpuset, pid);
 			int ret = sched_setaffinity(pid, sizeof(cpu_set_t), &cpuset);
 			checkForError(ret);
-			if (ret == 0 && firstCall) {
+			if (ret == 0 && firstCall.exchange(false))
 				printAffinity(pid, &cpuset);
-				firstCall = false;
-			}
 		}
 #endif
 
-- 
2.43.0


From 6b772b5e9425d367429b6c1479c730c56acd269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 16/94] fix: Lanczos with a single step or a matrix of rank one
 wrote past the tridiagonal matrix

---
 src/LanczosCore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..04aaa7e 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (max_nstep > 1)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
-- 
2.43.0


From 5effa314679ee8757068709cfd1e495657995a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 17/94] fix: Lanczos states were added to the vector passed in,
 and its size and the level were not checked

---
 src/LanczosSolver.h  | 5 +++++
 src/LanczosVectors.h | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 4722237..99fbf25 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -45,6 +45,9 @@ public:
 		ab.buildDenseMatrix(ritz);
 		diag(ritz, eigs, 'V');
 
+		if (excited >= eigs.size())
+			throw RuntimeError("Excited too big\n");
+
 		energy = eigs[excited];
 		ls_.excitedVector(z, ritz, excited);
 
@@ -84,6 +87,8 @@ public:
 		SizeType n = z.size();
 		if (n > excited + 1)
 			n = excited + 1;
+		if (n > eigs.size())
+			n = eigs.size();
 		for (SizeType i = 0; i < n; ++i)
 			ls_.excitedVector(z[i], ritz, i);
 	}
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index c544eb9..4798e56 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -192,6 +192,13 @@ public:
 	{
 		SizeType small = data_->cols();
 		SizeType big = data_->rows();
+		if (z.size() != big)
+			throw RuntimeError("LanczosVectors: vector for the state has wrong size\n");
+
+		if (excited >= ritz.cols())
+			throw RuntimeError("LanczosVectors: excited too big\n");
+
+		std::fill(z.begin(), z.end(), 0.0);
 		for (SizeType j = 0; j < small; j++) {
 			ComplexOrRealType ctmp = ritz(j, excited);
 			for (SizeType i = 0; i < big; i++)
-- 
2.43.0


From 67833a06b8bffc936b33ea10c07719cc2be301a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 18/94] fix: Lanczos did not wait for the requested level to
 converge

---
 src/LanczosCore.h   | 2 +-
 src/LanczosSolver.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 04aaa7e..d6baa2d 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -231,7 +231,7 @@ public:
 					deltaMax = delta;
 			}
 
-			if (deltaMax < params_.tolerance)
+			if (deltaMax < params_.tolerance && j + 1 >= eigsForError)
 				exitFlag = true;
 			if (j == max_nstep - 1)
 				exitFlag = true;
diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 99fbf25..95ee6db 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -38,7 +38,7 @@ public:
 		Profiling profiling("LanczosSolver", std::cout);
 
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -75,7 +75,7 @@ public:
 	void computeAllStatesBelow(VectorRealType& eigs, VectorVectorType& z, const VectorType& initialVector, SizeType excited)
 	{
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
-- 
2.43.0


From 18ef8e85a2b23b2b661358c1c452cd6afb9f9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 19/94] fix: Lanczos wrote past its stored vectors when allowed
 fewer steps than the minimum

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index d6baa2d..89fd033 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -234,7 +234,7 @@ public:
 			if (deltaMax < params_.tolerance && j + 1 >= eigsForError)
 				exitFlag = true;
 			if (j == max_nstep - 1)
-				exitFlag = true;
+				break;
 			if (exitFlag && mat_.rows() <= 4)
 				break;
 			if (exitFlag && j >= params_.minSteps)
-- 
2.43.0


From 30cb4c97d7ab7e5a678957a3e19fd9eb4a23d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 20/94] fix: Lanczos stopped at its minimum of steps if levels
 had settled only transiently before

---
 src/LanczosCore.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 89fd033..4811fae 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -231,8 +231,7 @@ public:
 					deltaMax = delta;
 			}
 
-			if (deltaMax < params_.tolerance && j + 1 >= eigsForError)
-				exitFlag = true;
+			exitFlag = (deltaMax < params_.tolerance && j + 1 >= eigsForError);
 			if (j == max_nstep - 1)
 				break;
 			if (exitFlag && mat_.rows() <= 4)
-- 
2.43.0


From 659ff34dc1842b9149ffafb88d699bd71609c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 21/94] fix: Lanczos produced spurious levels and null vectors
 after exhausting an invariant space

---
 src/LanczosCore.h    | 13 +++++++
 src/LanczosVectors.h | 82 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 76 insertions(+), 19 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 4811fae..361ca70 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,6 +199,14 @@ public:
 		}
 
 		btmp = sqrt(btmp);
+
+		// without re-orthogonalization nothing can be found outside
+		// an invariant space
+		if (!lanczosVectors_.isReorthoEnabled() && lanczosVectors_.isInvariant(btmp, ab, 0)) {
+			max_nstep = 1;
+			ab.resize(max_nstep);
+		}
+
 		if (max_nstep > 1)
 			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
@@ -208,6 +216,9 @@ public:
 				V1[i] *= btmp; // normalize V1
 		}
 
+		if (1 < max_nstep)
+			lanczosVectors_.reorthoIfNecessary(V1, 0);
+
 		if (lanczosVectors_.lotaMemory() && 1 < max_nstep)
 			lanczosVectors_.saveVector(V1, 1);
 
@@ -236,6 +247,8 @@ public:
 				break;
 			if (exitFlag && mat_.rows() <= 4)
 				break;
+			if (!lanczosVectors_.isReorthoEnabled() && lanczosVectors_.isInvariant(ab.b(j + 1), ab, j))
+				break;
 			if (exitFlag && j >= params_.minSteps)
 				break;
 
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 4798e56..a52ce14 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -86,6 +86,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Random48.h"
 #include "Vector.h"
 #include <cassert>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -235,13 +236,11 @@ public:
 				V2[i] *= btmp; // normalize V2
 		}
 
-		reorthoIfNecessary(V2, iter);
+		if (iter + 1 < ab.size())
+			reorthoIfNecessary(V2, iter);
 	}
 
-	void needsDelete(bool b) { needsDelete_ = b; }
-
-private:
-
+	//! makes V2 orthogonal to the vectors 0 to iter; needs iter + 1 < rank
 	void reorthoIfNecessary(VectorType& V2, SizeType iter) const
 	{
 		if (!isReorthoEnabled_)
@@ -250,26 +249,71 @@ private:
 		if (!overlap_ || overlap_->size() <= iter)
 			throw RuntimeError("reorthoIfNecessary failed\n");
 
-		SizeType nn = V2.size();
-		// cout << "  Re-orthogonalization " << endl;
-		for (SizeType i = 0; i < iter + 1; i++) {
+		// If V2 is in the space of the previous vectors (their space is
+		// invariant) then start again from a basis vector
+		const SizeType nn = V2.size();
+		bool success = reortho(V2, iter);
+		for (SizeType k = 0; k < nn && !success; ++k) {
+			for (SizeType h = 0; h < nn; h++)
+				V2[h] = (h == k) ? 1.0 : 0.0;
+			success = reortho(V2, iter);
+		}
+
+		if (!success)
+			throw RuntimeError("reorthoIfNecessary failed\n");
+	}
+
+	//! the residual btmp of step iter vanishes: the space of the vectors
+	//! found so far is invariant
+	static bool isInvariant(RealType btmp, const TridiagonalMatrixType& ab, SizeType iter)
+	{
+		RealType scale = 0;
+		for (SizeType i = 0; i <= iter; ++i)
+			scale = std::max(scale, std::max(std::fabs(ab.a(i)), std::fabs(ab.b(i))));
+		return (btmp <= 100 * std::numeric_limits<RealType>::epsilon() * scale);
+	}
+
+	bool isReorthoEnabled() const { return isReorthoEnabled_; }
 
-			VectorElementType rij = 0.0;
+	void needsDelete(bool b) { needsDelete_ = b; }
+
+private:
+
+	//! orthogonalizes and normalizes V2, again if most of it goes away;
+	//! returns false if nothing is left of it
+	bool reortho(VectorType& V2, SizeType iter) const
+	{
+		const SizeType nn = V2.size();
+		for (SizeType attempt = 0; attempt < 3; ++attempt) {
+			// cout << "  Re-orthogonalization " << endl;
+			for (SizeType i = 0; i < iter + 1; i++) {
+
+				VectorElementType rij = 0.0;
+				for (SizeType h = 0; h < nn; h++)
+					rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+
+				// V2 = V2 - <Vi|V2> Vi -- gram-schmid
+				for (SizeType h = 0; h < nn; h++)
+					V2[h] = V2[h] - data_->operator()(h, i) * rij;
+			}
+
+			RealType ntmp = 0.0;
 			for (SizeType h = 0; h < nn; h++)
-				rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+				ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
+
+			if (ntmp == 0)
+				return false;
 
-			// V2 = V2 - <Vi|V2> Vi -- gram-schmid
+			const RealType norma = sqrt(ntmp);
+			ntmp = 1.0 / norma;
 			for (SizeType h = 0; h < nn; h++)
-				V2[h] = V2[h] - data_->operator()(h, i) * rij;
-		}
+				V2[h] = V2[h] * ntmp;
 
-		RealType ntmp = 0.0;
-		for (SizeType h = 0; h < nn; h++)
-			ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
+			if (norma > 0.7)
+				return true;
+		}
 
-		ntmp = 1.0 / sqrt(ntmp);
-		for (SizeType h = 0; h < nn; h++)
-			V2[h] = V2[h] * ntmp;
+		return false;
 	}
 
 	void dealWithStorageOfV(SizeType rows, SizeType cols)
-- 
2.43.0


From fd26799c4444d951e5fabd4f674cd6b9c313674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 22/94] fix: frequency grids wrote past their end when shorter
 than a step and lost points to rounding

---
 src/ChebyshevSerializer.h | 13 ++++++-------
 src/ContinuedFraction.h   | 12 ++++++------
 src/PlotParams.h          | 10 ++++++++++
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 6e19cb4..e64c4e1 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -141,22 +141,21 @@ public:
 		computeGnMuN(gnmun, gn);
 
 		SizeType counter = 0;
-		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
+		SizeType n = params.numberOfFrequencies();
 		if (result.size() == 0)
 			result.resize(n);
+		if (n > result.size())
+			n = result.size();
 		RealType offset = params_.Eg;
 		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
-		for (RealType omega = params.omega1; omega < params.omega2;
-		     omega += params.deltaOmega) {
+		for (; counter < n; ++counter) {
+			RealType omega = params.omega1 + counter * params.deltaOmega;
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
 
 			RealType den = (x > 1.0 || x < -1.0) ? 0.0 : sqrt(1.0 - x * x);
 			RealType tmp = (fabs(den) > 1e-6) ? calcF(x, gnmun) / den : 0.0;
 			std::pair<RealType, RealType> p(omega, tmp);
-			result[counter++] = p;
-
-			if (counter >= result.size())
-				break;
+			result[counter] = p;
 		}
 	}
 
diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..be74dac 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -156,17 +156,17 @@ public:
 	void plotReal(PlotDataType& result, const PlotParamsType& params) const
 	{
 		SizeType counter = 0;
-		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
+		SizeType n = params.numberOfFrequencies();
 		if (result.size() == 0)
 			result.resize(n);
-		for (RealType omega = params.omega1; omega < params.omega2;
-		     omega += params.deltaOmega) {
+		if (n > result.size())
+			n = result.size();
+		for (; counter < n; ++counter) {
+			RealType omega = params.omega1 + counter * params.deltaOmega;
 			ComplexType z(omega, params.delta);
 			ComplexType res = iOfOmega(z, Eg_, isign_);
 			std::pair<RealType, ComplexType> p(omega, res);
-			result[counter++] = p;
-			if (counter >= result.size())
-				break;
+			result[counter] = p;
 		}
 	}
 
diff --git a/src/PlotParams.h b/src/PlotParams.h
index 0ab80dd..6579bce 100644
--- a/src/PlotParams.h
+++ b/src/PlotParams.h
@@ -28,6 +28,8 @@ Please see full open source license included in file LICENSE.
  */
 #ifndef PLOT_PARAMS_H
 #define PLOT_PARAMS_H
+#include "AllocatorCpu.h"
+#include <cmath>
 
 namespace PsimagLite {
 template <typename RealType>
@@ -43,6 +45,14 @@ struct PlotParams {
 	{
 	}
 
+	//! how many of omega1, omega1 + deltaOmega, ... are below omega2
+	SizeType numberOfFrequencies() const
+	{
+		const RealType ratio = (omega2 - omega1) / deltaOmega;
+		// tolerate the rounding of intervals that are multiples of the step
+		return (ratio > 0) ? SizeType(std::ceil(ratio - 1e-6)) : 0;
+	}
+
 	RealType omega1;
 	RealType omega2;
 	RealType deltaOmega;
-- 
2.43.0


From f18183390747f84542be3cf9c1f7ff8352d809e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 23/94] fix: Chebyshev plots with fewer than six moments read
 past the kernel

---
 src/ChebyshevSerializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index e64c4e1..7b1fd52 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -147,7 +147,8 @@ public:
 		if (n > result.size())
 			n = result.size();
 		RealType offset = params_.Eg;
-		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
+		if (gn.size() > 5)
+			std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
 		for (; counter < n; ++counter) {
 			RealType omega = params.omega1 + counter * params.deltaOmega;
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
-- 
2.43.0


From 7c9bb4c57e170e192958a24ff3387070ffcb56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 24/94] fix: ChebyshevSerializer could be neither written nor
 read back

---
 src/ChebyshevSerializer.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 7b1fd52..a8d295c 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -99,14 +99,18 @@ public:
 	template <typename IoInputType>
 	ChebyshevSerializer(IoInputType& io)
 	    : progress_("ChebyshevSerializer")
-	    , params_(io, "#Chebyshev")
 	{
+		io.readline(params_.Eg, "#ChebyshevEnergy=");
+		io.readline(params_.oneOverA, "#ChebyshevOneOverA=");
+		io.readline(params_.b, "#ChebyshevB=");
 		VectorRealType tmp;
 		io.read(tmp, "#ChebyshevMoments");
-		SizeType n = tmp.size() / 2;
-		for (SizeType i = 0; i < n; ++i) {
-			moments_.a(i) = tmp[2 * i];
-			moments_.b(i) = tmp[2 * i + 1];
+		if (tmp.size() == 0)
+			throw RuntimeError("ChebyshevSerializer: no moments\n");
+		moments_.resize(tmp.size(), 0);
+		for (SizeType i = 0; i < tmp.size(); ++i) {
+			RealType& moment = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
+			moment = tmp[i];
 		}
 	}
 
@@ -121,10 +125,14 @@ public:
 	void write(IoSimple::Out& io, String) const
 	{
 		io.write(0, stringMarker_);
-		io.write(params_.Eg, "#ChebyshevEnergy=");
-		io.write(params_.oneOverA, "#ChebyshevOneOverA=");
-		io.write(params_.b, "#ChebyshevB=");
-		io.write(moments_, "#ChebyshevMoments");
+		io.setPrecision(12);
+		io.write(params_.Eg, "#ChebyshevEnergy");
+		io.write(params_.oneOverA, "#ChebyshevOneOverA");
+		io.write(params_.b, "#ChebyshevB");
+		VectorRealType tmp(moments_.size());
+		for (SizeType i = 0; i < tmp.size(); ++i)
+			tmp[i] = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
+		io.write(tmp, "#ChebyshevMoments");
 	}
 
 	static const String& stringMarker() { return stringMarker_; }
-- 
2.43.0


From c7d1b76bdf4bd1f1dabb8b5ca7d9600aae8542c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 25/94] fix: ChebyshevSolver threw or dereferenced a null
 pointer, and scaled one-sided spectra out of [-1,1]

---
 src/ChebyshevSolver.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index da3bbca..1e0fb85 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -182,7 +182,7 @@ public:
 		VectorType x(initVector.size(), 0.0);
 		VectorType y = initVector;
 
-		lanczosVectors_.prepareMemory(y.size(), lanczosVectors_.cols());
+		lanczosVectors_.prepareMemory(y.size(), params_.steps);
 		ab.resize(2 * params_.steps, 0);
 		SizeType cols = lanczosVectors_.cols();
 		for (SizeType j = 0; j < cols; ++j) {
@@ -322,6 +322,7 @@ private:
 		progress_.printline(msgg, std::cout);
 
 		SolverParametersType params;
+		params.lotaMemory = true;
 		InternalMatrix mat2(mat_);
 		RealType eMax = 0;
 		LanczosSolver<SolverParametersType, InternalMatrix, VectorType>
@@ -339,8 +340,9 @@ private:
 		lanczosSolver.computeOneState(eMin, z, init, 0);
 
 		eMax = -eMax;
-		eMax *= 3;
-		eMin *= 3;
+		const RealType width = eMax - eMin;
+		eMax += width;
+		eMin -= width;
 		assert(eMax - eMin > 1e-2);
 
 		params_.oneOverA = 2.0 / (eMax - eMin);
-- 
2.43.0


From 741dd74ad6a238232fdee805291d38f136f9b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 26/94] fix: Chebyshev moments were computed from twice the
 zeroth and first moments

---
 src/ChebyshevSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index 1e0fb85..015babd 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -192,8 +192,8 @@ public:
 			RealType atmp = 0;
 			RealType btmp = 0;
 			oneStepDec(x, y, atmp, btmp, j);
-			ab.a(j) = 2 * atmp - ab.a(0);
-			ab.b(j) = 2 * btmp - ab.b(0);
+			ab.a(j) = (j == 0) ? atmp : 2 * atmp - ab.a(0);
+			ab.b(j) = (j == 0) ? btmp : 2 * btmp - ab.b(0);
 		}
 
 		// lanczosVectors_.resize(cols); <--- not needed because all
-- 
2.43.0


From a603b4e7c8777acf630de8513d6ef838faa9cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 27/94] fix: empty values were not stored, and overwriting
 vectors could keep the old value or the old kind

---
 src/Io/IoNgSerializer.h | 74 ++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..313c8d1 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -226,40 +226,15 @@ public:
 	void
 	write(String name2, const std::vector<T>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
-		String name = "Def/" + name2;
-		hsize_t dims[1];
-		dims[0] = what.size();
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
-
-		if (Loki::TypeTraits<T>::isFloat)
-			writeComplexOrReal(name2, 'R');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		const char content = (Loki::TypeTraits<T>::isFloat) ? 'R' : '\0';
+		writeVector<T>(name2, what.data(), what.size(), content, allowOverwrite);
 	}
 
 	template <typename T>
 	void
 	write(String name2, const std::vector<std::complex<T>>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
-
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
-		String name = "Def/" + name2;
-		hsize_t dims[1];
-		dims[0] = 2 * what.size();
-
-		writeComplexOrReal(name2, 'C');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		writeVector<T>(name2, what.data(), 2 * what.size(), 'C', allowOverwrite);
 	}
 
 	template <typename T>
@@ -561,10 +536,6 @@ private:
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
-		if (n == 0)
-			throw RuntimeError("IoNgSerializer: problem reading "
-			                   "vector dims[0] == 0\n");
-
 		const ReadEnum readEnumOnDisk = getReadEnumOnDisk(name);
 		static const ReadEnum readEnumDest = getReadEnumDestination<
 		    typename SomeVectorType::value_type>();
@@ -573,8 +544,11 @@ private:
 			SizeType complexSize = (readEnumDest == ReadEnum::COMPLEX) ? getHalfSize(n)
 			                                                           : n;
 			what.resize(complexSize, 0);
-			void* ptr = static_cast<void*>(&(what[0]));
-			dataset->read(ptr, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr = static_cast<void*>(&(what[0]));
+				dataset->read(ptr, typeToH5<UnderlyingType>());
+			}
+
 			delete[] dims;
 			delete dataset;
 			return;
@@ -585,8 +559,11 @@ private:
 			// this type is complex; but what's on disk is real
 			typename Vector<UnderlyingType>::Type temporary(
 			    dims[0]);
-			void* ptr2 = static_cast<void*>(&(temporary[0]));
-			dataset->read(ptr2, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr2 = static_cast<void*>(&(temporary[0]));
+				dataset->read(ptr2, typeToH5<UnderlyingType>());
+			}
+
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
@@ -598,6 +575,25 @@ private:
 		throw RuntimeError("IoNgSerializer: problem reading vector\n");
 	}
 
+	//! Vectors of floating point numbers are marked by a companion dataset
+	template <typename T>
+	void writeVector(String name2, const void* ptr, SizeType n, char content, WriteMode mode)
+	{
+		const String name = "Def/" + name2;
+		hsize_t dims[1];
+		dims[0] = n;
+
+		const bool written = (mode == ALLOW_OVERWRITE) ? overwrite<T>(name, ptr, dims, 1)
+		                                               : internalWrite<T>(name, ptr, dims, 1);
+		if (!written)
+			return; // what was there before stays as it was
+
+		if (content != '\0')
+			writeComplexOrReal(name2, content, mode);
+		else if (mode == ALLOW_OVERWRITE && hdf5file_->nameExists(name + "ComplexOrReal"))
+			hdf5file_->unlink(name + "ComplexOrReal");
+	}
+
 	void overwriteNotSupported(WriteMode mode)
 	{
 		if (mode == NO_OVERWRITE)
@@ -803,10 +799,12 @@ private:
 		return x / 2;
 	}
 
-	void writeComplexOrReal(String name2, char content)
+	void writeComplexOrReal(String name2, char content, WriteMode mode)
 	{
 		String nameComplexOrReal = name2 + "ComplexOrReal";
-		write(nameComplexOrReal, content);
+		if (mode == ALLOW_OVERWRITE && !hdf5file_->nameExists("Def/" + nameComplexOrReal))
+			mode = NO_OVERWRITE;
+		write(nameComplexOrReal, content, mode);
 	}
 
 	ReadEnum getReadEnumOnDisk(String name2)
-- 
2.43.0


From a1005763b5043abf269db436b6185c60dccaa5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 28/94] fix: reading a stored vector or string as a number
 wrote past the number

---
 src/Io/IoNgSerializer.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 313c8d1..5f9800d 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -353,7 +353,7 @@ public:
 	void read(SomeType& value, String name, typename EnableIf<Loki::TypeTraits<SomeType>::isArith && !std::is_enum<SomeType>::value, int*>::Type = 0)
 	{
 		void* ptr = static_cast<void*>(&value);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		H5::DataSet* dataset = openScalar(name);
 		dataset->read(ptr, typeToH5<SomeType>());
 		delete dataset;
 	}
@@ -365,7 +365,7 @@ public:
 		unsigned char tmp[1];
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		H5::DataSet* dataset = openScalar(name);
 		dataset->read(ptr, typeToH5<unsigned char>());
 		delete dataset;
 		value = (tmp[0] & 1);
@@ -519,6 +519,17 @@ private:
 		              COMPLEX,
 		              OTHER };
 
+	//! opens a dataset that holds exactly one number
+	H5::DataSet* openScalar(String name)
+	{
+		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
+		if (dataset->getSpace().getSimpleExtentNpoints() == 1)
+			return dataset;
+
+		delete dataset;
+		throw RuntimeError("IoNgSerializer: " + name + " is not a single value\n");
+	}
+
 	template <typename SomeVectorType>
 	void readInternal(SomeVectorType& what, String name)
 	{
-- 
2.43.0


From 8d7fa7a36781f465121c90a5370cdc45a1229402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 29/94] fix: enumerators above 255 or negative were stored as a
 single byte

---
 src/Io/IoNgSerializer.h | 2 +-
 src/Io/TypeToH5.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 5f9800d..a5a2586 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -395,7 +395,7 @@ public:
 	template <typename SomeType>
 	void read(SomeType& value, String name, typename EnableIf<std::is_enum<SomeType>::value || IsEnumClass<SomeType>::value, int*>::Type = 0)
 	{
-		SizeType x = 0;
+		typename std::underlying_type<SomeType>::type x = 0;
 		read(x, name);
 		value = static_cast<SomeType>(x);
 	}
diff --git a/src/Io/TypeToH5.h b/src/Io/TypeToH5.h
index 72da053..5ee785e 100644
--- a/src/Io/TypeToH5.h
+++ b/src/Io/TypeToH5.h
@@ -11,7 +11,7 @@ typename EnableIf<!std::is_enum<T>::value, H5::PredType>::Type typeToH5();
 template <typename T>
 typename EnableIf<std::is_enum<T>::value, H5::PredType>::Type typeToH5()
 {
-	return H5::PredType::NATIVE_UINT8;
+	return typeToH5<typename std::underlying_type<T>::type>();
 }
 } // namespace PsimagLite
 #endif // PSI_TYPETOH5_H
-- 
2.43.0


From c07cfb3e825566be9b6cefffe79897af9e5805ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 30/94] fix: reading a stack added to its previous contents

---
 src/Io/IoNgSerializer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index a5a2586..dbed01c 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -469,6 +469,7 @@ public:
 	{
 		SizeType x = 0;
 		read(x, name + "/Size");
+		what = std::stack<T>(); // discard previous contents
 		for (SizeType i = 0; i < x; ++i) {
 			T t;
 			t.read(name + "/" + ttos(x - i - 1), *this);
-- 
2.43.0


From 4576dd6c836fe4d9c7b671537090efe8e7a5adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 31/94] fix: binary files opened a second time with the same
 object were not checked nor set up, nor those opened exclusively

---
 src/Io/IoNgSerializer.h | 74 ++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index dbed01c..8107108 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -40,38 +40,7 @@ public:
 		dontPrintDebug();
 #endif
 
-		try {
-			hdf5file_ = new H5::H5File(filename, mode);
-		}
-		catch (H5::Exception& e) {
-			delete hdf5file_;
-			hdf5file_ = 0;
-			throw e;
-		}
-
-		if (mode == H5F_ACC_TRUNC) {
-			try {
-				createGroup("");
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
-
-		if (mode == H5F_ACC_RDONLY) {
-			try {
-				readCanary();
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
+		openInternal();
 	}
 
 	~IoNgSerializer()
@@ -93,9 +62,8 @@ public:
 			    "IoNgSerializer::open(): object already open\n");
 
 		filename_ = filename;
-		hdf5file_ = new H5::H5File(filename, mode);
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		mode_ = mode;
+		openInternal();
 	}
 
 	void close()
@@ -505,6 +473,42 @@ private:
 
 	IoNgSerializer& operator=(const IoNgSerializer&);
 
+	void openInternal()
+	{
+		try {
+			hdf5file_ = new H5::H5File(filename_, mode_);
+		}
+		catch (H5::Exception& e) {
+			delete hdf5file_;
+			hdf5file_ = 0;
+			throw e;
+		}
+
+		if (mode_ == H5F_ACC_TRUNC || mode_ == H5F_ACC_EXCL) {
+			try {
+				createGroup("");
+			}
+			catch (H5::Exception& e) {
+				filename_ = "";
+				delete hdf5file_;
+				hdf5file_ = 0;
+				throw e;
+			}
+		}
+
+		if (mode_ == H5F_ACC_RDONLY) {
+			try {
+				readCanary();
+			}
+			catch (...) {
+				filename_ = "";
+				delete hdf5file_;
+				hdf5file_ = 0;
+				throw;
+			}
+		}
+	}
+
 	// We're reading from disk, so we go from type in disk to type in
 	// destination The type of destination is SomeVectorType The underlying
 	// type of destination is SomeVectorType::value_type Therefore, we have
-- 
2.43.0


From 9e29afe88195b001adece9c5beb94401f94e4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 32/94] fix: a failed read left the binary file open, so that
 it could not be opened again for writing

---
 src/Io/IoNgSerializer.h | 52 ++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 8107108..459cf47 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -321,9 +321,8 @@ public:
 	void read(SomeType& value, String name, typename EnableIf<Loki::TypeTraits<SomeType>::isArith && !std::is_enum<SomeType>::value, int*>::Type = 0)
 	{
 		void* ptr = static_cast<void*>(&value);
-		H5::DataSet* dataset = openScalar(name);
-		dataset->read(ptr, typeToH5<SomeType>());
-		delete dataset;
+		H5::DataSet dataset = openScalar(name);
+		dataset.read(ptr, typeToH5<SomeType>());
 	}
 
 	void read(String& what, String name) { readInternal(what, name); }
@@ -333,9 +332,8 @@ public:
 		unsigned char tmp[1];
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
-		H5::DataSet* dataset = openScalar(name);
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete dataset;
+		H5::DataSet dataset = openScalar(name);
+		dataset.read(ptr, typeToH5<unsigned char>());
 		value = (tmp[0] & 1);
 	}
 
@@ -525,13 +523,12 @@ private:
 		              OTHER };
 
 	//! opens a dataset that holds exactly one number
-	H5::DataSet* openScalar(String name)
+	H5::DataSet openScalar(String name)
 	{
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		if (dataset->getSpace().getSimpleExtentNpoints() == 1)
+		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		if (dataset.getSpace().getSimpleExtentNpoints() == 1)
 			return dataset;
 
-		delete dataset;
 		throw RuntimeError("IoNgSerializer: " + name + " is not a single value\n");
 	}
 
@@ -541,14 +538,14 @@ private:
 		typedef typename Real<typename SomeVectorType::value_type>::Type
 		    UnderlyingType;
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector ndims != 1\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
@@ -562,11 +559,9 @@ private:
 			what.resize(complexSize, 0);
 			if (n > 0) {
 				void* ptr = static_cast<void*>(&(what[0]));
-				dataset->read(ptr, typeToH5<UnderlyingType>());
+				dataset.read(ptr, typeToH5<UnderlyingType>());
 			}
 
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -577,14 +572,12 @@ private:
 			    dims[0]);
 			if (n > 0) {
 				void* ptr2 = static_cast<void*>(&(temporary[0]));
-				dataset->read(ptr2, typeToH5<UnderlyingType>());
+				dataset.read(ptr2, typeToH5<UnderlyingType>());
 			}
 
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -633,13 +626,12 @@ private:
 	template <typename SomeType>
 	bool internalWrite(String name, const void* ptr, hsize_t dims[], SizeType ndims)
 	{
-		H5::DataSpace* dataspace = new H5::DataSpace(ndims, dims); // create new dspace
+		H5::DataSpace dataspace(ndims, dims); // create new dspace
 		H5::DSetCreatPropList
 		    dsCreatPlist; // What properties here? FIXME
-		H5::DataSet* dataset = nullptr;
+		H5::DataSet dataset;
 		try {
-			dataset = new H5::DataSet(
-			    hdf5file_->createDataSet(name, typeToH5<SomeType>(), *dataspace, dsCreatPlist));
+			dataset = hdf5file_->createDataSet(name, typeToH5<SomeType>(), dataspace, dsCreatPlist);
 		}
 		catch (H5::Exception& e) {
 			std::cerr << "H5 Exception createDataSet starts "
@@ -650,9 +642,7 @@ private:
 			return false;
 		}
 
-		dataset->write(ptr, typeToH5<SomeType>());
-		delete dataset;
-		delete dataspace;
+		dataset.write(ptr, typeToH5<SomeType>());
 		return true;
 	}
 
@@ -684,14 +674,14 @@ private:
 	{
 		static const String name = "/Def/Canary";
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet(name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset = hdf5file_->openDataSet(name);
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector<arith> (ndims)\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		if (dims[0] == 0)
@@ -700,9 +690,7 @@ private:
 
 		unsigned char c = 0;
 		void* ptr = static_cast<void*>(&c);
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete[] dims;
-		delete dataset;
+		dataset.read(ptr, typeToH5<unsigned char>());
 
 		if (c != CANARY_VALUE)
 			throw RuntimeError("File " + filename_ + " is not valid (dead canary)\n");
-- 
2.43.0


From b49984698fb3d2266b04f9ba5636261dd0f6a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:36 +0000
Subject: [PATCH 33/94] fix: binary files whose writer died while overwriting,
 flushing or closing were accepted with partial data

The canary is now dead on disk while the file is being changed in place, and
alive only after everything else was flushed; files with a dead canary are
refused for appending too. Closing or flushing a closed file does nothing.
---
 src/Io/IoNgSerializer.h | 51 ++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 459cf47..b6a5be0 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -35,6 +35,7 @@ public:
 	    : hdf5file_(0)
 	    , filename_(filename)
 	    , mode_(mode)
+	    , canaryAlive_(false)
 	{
 #ifdef NDEBUG
 		dontPrintDebug();
@@ -45,8 +46,7 @@ public:
 
 	~IoNgSerializer()
 	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		flushAndSetCanary();
 
 		filename_ = "";
 		delete hdf5file_;
@@ -68,8 +68,10 @@ public:
 
 	void close()
 	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		if (!hdf5file_)
+			return;
+
+		flushAndSetCanary();
 
 		hdf5file_->close();
 		delete hdf5file_;
@@ -77,13 +79,7 @@ public:
 		filename_ = "";
 	}
 
-	void flush()
-	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
-
-		hdf5file_->flush(H5F_SCOPE_GLOBAL);
-	}
+	void flush() { flushAndSetCanary(); }
 
 	const String& filename() const { return filename_; }
 
@@ -473,6 +469,7 @@ private:
 
 	void openInternal()
 	{
+		canaryAlive_ = false;
 		try {
 			hdf5file_ = new H5::H5File(filename_, mode_);
 		}
@@ -494,9 +491,10 @@ private:
 			}
 		}
 
-		if (mode_ == H5F_ACC_RDONLY) {
+		if (mode_ == H5F_ACC_RDONLY || mode_ == H5F_ACC_RDWR) {
 			try {
 				readCanary();
+				canaryAlive_ = true;
 			}
 			catch (...) {
 				filename_ = "";
@@ -603,6 +601,29 @@ private:
 			hdf5file_->unlink(name + "ComplexOrReal");
 	}
 
+	// The canary on disk is alive only while everything on disk is consistent,
+	// so that files whose writer died while changing them are not accepted
+	void flushAndSetCanary()
+	{
+		if (!hdf5file_ || mode_ == H5F_ACC_RDONLY)
+			return;
+
+		writeCanary(0);
+		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+		writeCanary(CANARY_VALUE);
+		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+		canaryAlive_ = true;
+	}
+
+	void killCanary()
+	{
+		if (!canaryAlive_)
+			return;
+
+		writeCanary(0);
+		canaryAlive_ = false;
+	}
+
 	void overwriteNotSupported(WriteMode mode)
 	{
 		if (mode == NO_OVERWRITE)
@@ -613,6 +634,8 @@ private:
 	template <typename SomeType>
 	bool overwrite(String name, const void* ptr, hsize_t dims[], SizeType ndims)
 	{
+		killCanary(); // the space of the old value is used again
+
 		try {
 			hdf5file_->unlink(name);
 		}
@@ -646,7 +669,7 @@ private:
 		return true;
 	}
 
-	void writeCanary()
+	void writeCanary(unsigned char c)
 	{
 		hsize_t dims[1];
 		dims[0] = 1;
@@ -664,7 +687,6 @@ private:
 			    name, typeToH5<unsigned char>(), *dataspace, dsCreatPlist));
 		}
 
-		unsigned char c = CANARY_VALUE;
 		dataset->write(&c, typeToH5<unsigned char>());
 		delete dataset;
 		delete dataspace;
@@ -837,6 +859,7 @@ private:
 	H5::H5File* hdf5file_;
 	String filename_;
 	unsigned int mode_;
+	bool canaryAlive_;
 	static const SizeType booleanEncodedSize_ = 4;
 	static const SizeType booleanEncodedStart_ = 4;
 };
-- 
2.43.0


From b7cb9a056f5ffd1d6000d2abf0b7790c6b114bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 34/94] fix: reading a stack from text added to its previous
 contents

---
 src/Stack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Stack.h b/src/Stack.h
index c224213..97e182a 100644
--- a/src/Stack.h
+++ b/src/Stack.h
@@ -130,6 +130,7 @@ operator>>(std::istream& is, StackType& x)
 	typedef typename StackType::value_type ValueType;
 	typename Vector<ValueType>::Type tmpVec;
 	is >> tmpVec;
+	x = StackType(); // discard previous contents
 	for (int i = tmpVec.size() - 1; i >= 0; i--) {
 		x.push(tmpVec[i]);
 	}
-- 
2.43.0


From 0aa512138365aabd61ebe59374c75a6f9dc31f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 35/94] fix: reading labelled text by last instance, by a
 missing occurrence, or with empty or malformed values returned other or stale
 values

---
 src/Io/IoSimple.h | 54 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..2602824 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -291,18 +291,21 @@ public:
 			String temp;
 			bool found = false;
 			bool foundOnce = false;
+			bool malformed = false;
 			LongSizeType counter = 0;
+			if (level == LAST_INSTANCE)
+				rewind(); // the last one of the file
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof())
+				if (!(fin_ >> temp))
 					break;
 				if (temp.substr(0, s.size()) == s) {
 					foundOnce = true;
-					IstringStream temp2(
-					    temp.substr(s.size(), temp.size()));
-					temp2 >> x;
+					const String value = temp.substr(s.size(), temp.size());
+					IstringStream temp2(value);
+					x = X();
+					malformed = (!(temp2 >> x) && !(IsStringLike<X>::True && value == ""));
 					if (level >= 0 && counter == LongSizeType(level)) {
 						found = true;
 						break;
@@ -316,6 +319,9 @@ public:
 				throw RuntimeError(emessage.c_str());
 			}
 
+			if (malformed)
+				throw RuntimeError("IoSimple::In::readline(): Wrong value for " + s + " in file " + filename_ + "\n");
+
 			if (level == LAST_INSTANCE) {
 				fin_.close();
 				fin_.open(filename_.c_str());
@@ -330,17 +336,18 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
-			int xsize;
+			std::pair<String, SizeType> sc = advanceToValue(s, level, beQuiet);
+			int xsize = -1;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
+			if (!fin_ || xsize < 0)
+				throw RuntimeError("IoSimple::In::read(): Not a vector " + s + " in file " + filename_ + "\n");
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
 				fin_ >> tmp;
 				x[i] = tmp;
 			}
+			checkRead(s);
 			return sc;
 		}
 
@@ -348,8 +355,9 @@ public:
 		void
 		read(X& mat, String const& s, LongIntegerType level = 0, typename EnableIf<IsMatrixLike<X>::True, int>::Type = 0)
 		{
-			advance(s, level);
+			advanceToValue(s, level, false);
 			fin_ >> mat;
+			checkRead(s);
 		}
 
 		template <typename X>
@@ -357,11 +365,13 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceToValue(s, level, beQuiet);
 			fin_ >> x;
+			checkRead(s);
 			return sc;
 		}
 
+		//! With LAST_INSTANCE, stops so that the next match of s is the last one
 		std::pair<String, SizeType> advance(String const& s,
 		                                    LongIntegerType level = 0,
 		                                    bool beQuiet = false)
@@ -372,9 +382,11 @@ public:
 			LongSizeType counter = 0;
 			bool found = false;
 
+			if (level == LAST_INSTANCE)
+				rewind(); // the last one of the file
+
 			while (!fin_.eof()) {
-				fin_ >> temp;
-				if (fin_.eof() || !fin_.good() || fin_.bad())
+				if (!(fin_ >> temp))
 					break;
 
 				if (temp.substr(0, s.size()) == s) {
@@ -396,7 +408,7 @@ public:
 				                                   counter);
 			}
 
-			if (!found && tempSaved == "NOTFOUND") {
+			if (!found) {
 				if (!beQuiet) {
 					std::cerr << "Not found " << s
 					          << " in file " << filename_;
@@ -445,6 +457,20 @@ public:
 
 	private:
 
+		std::pair<String, SizeType> advanceToValue(String const& s, LongIntegerType level, bool beQuiet)
+		{
+			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			if (level == LAST_INSTANCE)
+				advance(s, 0, beQuiet);
+			return sc;
+		}
+
+		void checkRead(String const& s)
+		{
+			if (!fin_)
+				throw RuntimeError("IoSimple::In::read(): Wrong value for " + s + " in file " + filename_ + "\n");
+		}
+
 		String filename_;
 		std::ifstream fin_;
 	};
-- 
2.43.0


From 6e77deab2a9aba1b5f733ef2a378666a667adb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:41 +0000
Subject: [PATCH 36/94] fix: printing a stream twice printed the end of its
 previous contents again

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 2602824..9e8b61f 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -195,7 +195,7 @@ public:
 				return;
 			(*fout_) << s().str() << "\n";
 			s().flush();
-			s().seekp(std::ios_base::beg);
+			s().str("");
 		}
 
 		template <typename T>
-- 
2.43.0


From 59690252f0fb7308fabb7cb4a341d72a4d83a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 37/94] fix: atoi and atof accepted text that is only partly a
 number, or out of range

---
 src/PsimagLite.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 1edd10b..06160f5 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -1,4 +1,7 @@
 #include "PsimagLite.h"
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -74,7 +77,15 @@ int atoi(String str)
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
 
-	return std::atoi(str.c_str());
+	errno = 0;
+	char* end = nullptr;
+	const long value = std::strtol(str.c_str(), &end, 10);
+	if (n == 0 || end != str.c_str() + n)
+		throw RuntimeError("atoi received something not an integer: " + str + "\n");
+	if (errno == ERANGE || value > std::numeric_limits<int>::max() || value < std::numeric_limits<int>::min())
+		throw RuntimeError("atoi received an integer out of range: " + str + "\n");
+
+	return value;
 }
 
 bool isAnInteger(String str)
@@ -104,7 +115,12 @@ bool isAfloat(String str)
 		return false;
 	}
 
-	return hasDigit;
+	if (!hasDigit)
+		return false;
+
+	char* end = nullptr;
+	std::strtod(str.c_str(), &end);
+	return (end == str.c_str() + n);
 }
 
 double atof(String str)
-- 
2.43.0


From f547556f0ace59f48e19aa7dff4b2b9c1ad4fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 38/94] fix: input files: comments after values lost the value
 or the rest of a vector, the last character was read twice, and missing
 values were accepted

---
 src/InputNg.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..42409cb 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
@@ -368,6 +366,7 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			SizeType stateBeforeComment = state_;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
 				if (state_ == IN_COMMENT && type != ENDOFLINE)
@@ -375,12 +374,12 @@ public:
 				switch (type) {
 				case ENDOFLINE:
 					line_++;
-					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
+					if (state_ == IN_COMMENT)
+						state_ = stateBeforeComment;
+					if (buffer == "") {
+						checkForMissingValue();
 						break;
 					}
-					if (buffer == "")
-						break;
 					saveBuffer(buffer, ENDOFLINE);
 					buffer = "";
 					break;
@@ -404,6 +403,11 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
+					if (buffer != "") {
+						saveBuffer(buffer, ENDOFLINE);
+						buffer = "";
+					}
+					stateBeforeComment = state_;
 					state_ = IN_COMMENT;
 					break;
 				default:
@@ -424,6 +428,14 @@ public:
 			}
 			if (numericVector_.size() > 0)
 				checkNumbers();
+			else if (state_ == IN_VALUE_NUMERIC)
+				throw RuntimeError("Missing value for label " + lastLabel_ + "\n");
+		}
+
+		void checkForMissingValue() const
+		{
+			if (state_ == IN_VALUE_TEXT)
+				throw RuntimeError("Missing value for label " + lastLabel_ + " in line " + ttos(line_) + "\n");
 		}
 
 		void saveBuffer(const String& buffer, SizeType whatchar)
@@ -512,6 +524,7 @@ public:
 				std::cout << (numericVector_.size() - 1)
 				          << "\n";
 				std::cerr << "Line=" << line_ << "\n";
+				s += " wrong number of numbers for label " + lastLabel_ + "\n";
 				throw RuntimeError(s.c_str());
 			}
 
-- 
2.43.0


From c4768d6d9c2628449d9150b7784bdb6dbed785b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:48 +0000
Subject: [PATCH 39/94] fix: input reading: wrong matrix counts, negative
 sizes, complex elements and non-integers were accepted, maps matched other
 labels, and a missing entry was erased

---
 src/InputNg.h | 61 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 42409cb..06c56e8 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -89,9 +89,11 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "loki/TypeTraits.h"
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 namespace PsimagLite {
@@ -757,7 +759,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = nonNegative(atoi(it->second.c_str()), label);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -797,7 +799,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = nonNegative(atoi(it->second.c_str()), label);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -850,14 +852,15 @@ public:
 				throw RuntimeError(s.c_str());
 			}
 
-			SizeType nrow = SizeType(atoi(it->second[0].c_str()));
-			SizeType ncol = SizeType(atoi(it->second[1].c_str()));
-			m.resize(nrow, ncol);
-			if (it->second.size() < 2 + nrow * ncol) {
+			SizeType nrow = nonNegative(atoi(it->second[0].c_str()), label);
+			SizeType ncol = nonNegative(atoi(it->second[1].c_str()), label);
+			if (it->second.size() != 2 + nrow * ncol) {
 				String s(__FILE__);
-				s += " reading a matrix: \n";
+				s += " reading matrix " + label + ": wrong number of numbers\n";
 				throw RuntimeError(s.c_str());
 			}
+
+			m.resize(nrow, ncol);
 			SizeType k = 2;
 			for (SizeType i = 0; i < m.rows(); i++)
 				for (SizeType j = 0; j < m.cols(); j++)
@@ -886,19 +889,19 @@ public:
 				throw RuntimeError(s.c_str());
 			}
 
-			SizeType nrow = SizeType(atoi(it->second[0].c_str()));
-			SizeType ncol = SizeType(atoi(it->second[1].c_str()));
-			m.resize(nrow, ncol);
-			if (it->second.size() < 2 + nrow * ncol) {
+			SizeType nrow = nonNegative(atoi(it->second[0].c_str()), label);
+			SizeType ncol = nonNegative(atoi(it->second[1].c_str()), label);
+			if (it->second.size() != 2 + nrow * ncol) {
 				String s(__FILE__);
-				s += " reading a matrix: \n";
+				s += " reading matrix " + label + ": wrong number of numbers\n";
 				throw RuntimeError(s.c_str());
 			}
+
+			m.resize(nrow, ncol);
 			SizeType k = 2;
 			for (SizeType i = 0; i < m.rows(); i++) {
 				for (SizeType j = 0; j < m.cols(); j++) {
-					IstringStream is(it->second[k++]);
-					is >> m(i, j);
+					m(i, j) = stringToComplexOrReal<std::complex<FloatingType>>(it->second[k++]);
 				}
 			}
 			cleanLabelsIfNeeded(label2, mapStrVec_, it);
@@ -919,11 +922,7 @@ public:
 			     it != mapStrStr_.end();
 			     ++it) {
 				String mystr = it->first;
-				long unsigned int it0 = mystr.find(label2);
-				if (it0 == String::npos)
-					continue;
-				String::iterator it1 = find(mystr.begin(), mystr.end(), '[');
-				if (it1 == mystr.end())
+				if (mystr.substr(0, label2.length() + 1) != label2 + "[")
 					continue;
 				String::iterator it2 = find(mystr.begin(), mystr.end(), ']');
 				if (it2 == mystr.end()) {
@@ -965,10 +964,18 @@ public:
 
 			if (it2 != labelsForRemoval_.end() || forceRemoval) {
 				mymap.erase(it);
-				labelsForRemoval_.erase(it2);
+				if (it2 != labelsForRemoval_.end())
+					labelsForRemoval_.erase(it2);
 			}
 		}
 
+		static SizeType nonNegative(int x, const String& label)
+		{
+			if (x < 0)
+				throw RuntimeError("Negative value " + ttos(x) + " for label " + label + "\n");
+			return x;
+		}
+
 		String label2label(const String& label)
 		{
 			SizeType len = label.length();
@@ -1027,6 +1034,9 @@ public:
 				buffer += s[i];
 			}
 
+			if (s.find(')') != s.length() - 1)
+				throw RuntimeError(s + " is not a complex number\n");
+
 			RealType img = stringToReal(buffer);
 
 			return ComplexOrRealType(r, img);
@@ -1038,9 +1048,14 @@ public:
 		    typename Real<ComplexOrRealType>::Type>::Type
 		stringToComplexOrReal(const String& s) const
 		{
-			return static_cast<
-			    typename Real<ComplexOrRealType>::Type>(
-			    stringToReal(s));
+			typedef typename Real<ComplexOrRealType>::Type RealType;
+
+			const double value = stringToReal(s);
+			const bool isInteger = std::numeric_limits<RealType>::is_integer;
+			if (isInteger && (value != std::floor(value) || value < double(std::numeric_limits<RealType>::lowest()) || value > double(std::numeric_limits<RealType>::max())))
+				throw RuntimeError(s + " does not fit in the type read\n");
+
+			return static_cast<RealType>(value);
 		}
 
 		template <typename ComplexOrRealType>
-- 
2.43.0


From 47aba1d34334ae3183813d54b2acb4d29d3ba3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 40/94] fix: Ainur: missing final semicolon or empty text read
 past the end, trailing garbage was accepted, and a=5 with an underscore in
 the name was taken as a declaration

---
 src/Ainur/AinurSpirit1.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index afd55c9..b67ec85 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -46,7 +46,7 @@ Ainur::Ainur(String str)
 	if (verbose)
 		std::cerr << str << "\n\n";
 #define AINUR_COMMENTS \
-	('#' >> *(qi::char_ - qi::eol) >> qi::eol) | qi::eol | qi::space
+	('#' >> *(qi::char_ - qi::eol) >> (qi::eol | qi::eoi)) | qi::eol | qi::space
 	namespace qi = boost::spirit::qi;
 	namespace ascii = boost::spirit::ascii;
 	typedef boost::fusion::vector<std::string, std::string> AttribType;
@@ -59,6 +59,7 @@ Ainur::Ainur(String str)
 	qi::rule<IteratorType, std::string(), qi::unused_type> zeroToNine;
 	qi::rule<IteratorType, std::string(), qi::unused_type> keywords;
 	qi::rule<IteratorType, std::string(), qi::unused_type> value;
+	qi::rule<IteratorType, std::string(), qi::unused_type> typeName;
 	qi::rule<IteratorType, std::string(), qi::unused_type> typeQualifier;
 	qi::rule<IteratorType, AttribType, SkipperType> statement1;
 	qi::rule<IteratorType, AttribType, SkipperType> statement2;
@@ -68,7 +69,8 @@ Ainur::Ainur(String str)
 	aToZ = ascii::char_("a", "z") | ascii::char_("A", "Z");
 	zeroToNine = ascii::char_("0", "9");
 
-	typeQualifier %= +(aToZ | ascii::char_(".") | ascii::char_("!"));
+	typeName %= +(aToZ | ascii::char_(".") | ascii::char_("!"));
+	typeQualifier %= typeName >> &(qi::space | '#');
 	keywords = *(ascii::char_("_")) >> +aToZ >> *(ascii::char_("a", "z") | ascii::char_("A", "Z") | ascii::char_("0", "9") | ascii::char_(":") | ascii::char_("_"));
 	statement1 %= keywords >> '=' >> value;
 	statement2 %= typeQualifier >> keywords;
@@ -81,18 +83,12 @@ Ainur::Ainur(String str)
 
 	IteratorType first = str.begin();
 	IteratorType last = str.end();
-	qi::phrase_parse(first, last, statement % ";", AINUR_COMMENTS);
+	qi::phrase_parse(first, last, *(statement >> ";") >> *qi::lit(";"), AINUR_COMMENTS);
 
-	++first;
-	if (first != last && !allEmpty(first, last)) {
-
-		qi::parse(first, last, +('#' >> *(qi::char_ - qi::eol) >> qi::eol | qi::eol | qi::space));
-
-		if (first + 1 != last && !allEmpty(first, last)) {
-			IteratorType e = (first + 20 < last) ? first + 20 : last;
-			err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
-			                         String(first, e)));
-		}
+	if (first != last) {
+		IteratorType e = (last - first > 20) ? first + 20 : last;
+		err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
+		                         String(first, e)));
 	}
 
 	// Deal with macros
-- 
2.43.0


From 4d5af8417bd50db958f9954fbb66d6cf03f376d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 41/94] fix: Ainur: macros at the end of a value or adjacent to
 another were not expanded, and blanks around values became part of them

---
 src/Ainur/AinurState.h | 82 ++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 3136f73..41fdc66 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -56,7 +56,7 @@ public:
 		// if (values_[x] != "")
 		//	std::cerr<<"Overwriting label "<<k<<" with "<<v<<"\n";
 
-		ainurVariables_[x].value = v;
+		ainurVariables_[x].value = trimmed(v);
 	}
 
 	void declare(String d, String key, String v)
@@ -73,7 +73,7 @@ public:
 			d = d.substr(0, last - 1);
 		}
 
-		AinurVariable ainurVar({ key, v, d, "NORMAL" });
+		AinurVariable ainurVar({ key, trimmed(v), d, "NORMAL" });
 		ainurVariables_.emplace_back(ainurVar);
 
 		used_.push_back(u);
@@ -255,6 +255,15 @@ private:
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
 	expandOneValue(const String& value) const
+	{
+		SizeType work = 0;
+		const std::pair<bool, PsimagLite::String> ret = expandOneValue(value, 0, work);
+		return std::pair<bool, PsimagLite::String>(ret.first,
+		                                           (ret.first) ? unquote(ret.second) : ret.second);
+	}
+
+	std::pair<bool, PsimagLite::String>
+	expandOneValue(const String& value, SizeType depth, SizeType& work) const
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -263,36 +272,56 @@ private:
 		SizeType status = 0; // 0 = outsite a macro, 1 = inside a macro
 		for (SizeType i = 0; i < n; ++i) {
 			const char c = value[i];
+			if (status == 1) {
+				if (isValidCharForMacroName(c)) {
+					macroName += c;
+					continue;
+				}
+
+				retString += macroValue(macroName, depth, work);
+				macroName = "";
+				status = 0;
+			}
+
 			if (c == '\\') {
 				status = 1;
-				continue;
+				hasAtLeastOneMacro = true;
 			}
-
-			if (status == 0) {
+			else {
 				retString += c;
-				continue;
 			}
+		}
 
-			if (isValidCharForMacroName(c)) {
-				macroName += c;
-			}
-			else {
+		if (status == 1)
+			retString += macroValue(macroName, depth, work);
 
-				int x = storageIndexByName(macroName);
-				if (x < 0)
-					err("No macro named " + macroName + "\n");
+		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro, retString);
+	}
 
-				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value) + c;
+	// The value is expanded before it is inserted, so that its macro names
+	// cannot be extended by the text that follows
+	String macroValue(const String& macroName, SizeType depth, SizeType& work) const
+	{
+		static const SizeType maxDepth = 100;
+		static const SizeType maxWork = 1000000;
 
-				macroName = "";
-				hasAtLeastOneMacro = true;
-				status = 0;
-			}
-		}
+		int x = storageIndexByName(macroName);
+		if (x < 0)
+			err("No macro named " + macroName + "\n");
 
-		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro,
-		                                           unquote(retString));
+		assert(static_cast<SizeType>(x) < ainurVariables_.size());
+		if (isEmptyValue(ainurVariables_[x].value))
+			err(errLabel(ERR_READ_NO_VALUE, macroName));
+
+		if (depth > maxDepth)
+			err("Recursion limit of " + ttos(maxDepth) + " exceeded for macro " + macroName + "\n");
+
+		const String expanded = expandOneValue(unquote(ainurVariables_[x].value), depth + 1, work).second;
+		work += 1 + expanded.length();
+		if (work > maxWork)
+			err("Expansion of macro " + macroName + " is too long\n");
+
+		return expanded;
 	}
 
 	static bool isValidCharForMacroName(char c)
@@ -304,6 +333,15 @@ private:
 		return (b1 || b2 || b3 || c == '_');
 	}
 
+	static PsimagLite::String trimmed(const PsimagLite::String& str)
+	{
+		static const char* const blanks = " \t\r\n";
+		const std::string::size_type start = str.find_first_not_of(blanks);
+		if (start == std::string::npos)
+			return "";
+		return str.substr(start, str.find_last_not_of(blanks) - start + 1);
+	}
+
 	static PsimagLite::String unquote(PsimagLite::String str)
 	{
 		if (str.length() == 0)
-- 
2.43.0


From df0e73804abee15f25113dea676c55b10e4d9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 42/94] fix: Ainur: functions from files ignored the separator,
 read past the end for unknown points or columns, lost precision, and hung on
 long lines

---
 src/Ainur/AinurMacros.hh | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..1af9c31 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -1,7 +1,11 @@
 #ifndef AINURMACROS_HH
 #define AINURMACROS_HH
 #include "../PsimagLite.h"
+#include <algorithm>
+#include <fstream>
+#include <limits>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace PsimagLite {
@@ -18,8 +22,6 @@ public:
 
 	class AinurFunction {
 
-		static constexpr SizeType MAX_LINE = 2048;
-
 	public:
 
 		AinurFunction(const std::string& args)
@@ -38,6 +40,11 @@ public:
 				      "optional.\n");
 			}
 
+			for (std::string& token : tokens) {
+				token.erase(0, token.find_first_not_of(' '));
+				token.erase(token.find_last_not_of(' ') + 1);
+			}
+
 			filename_ = deleteEnclosing(tokens[0], '\"');
 			if (tokens.size() > 1) {
 				separator_ = tokens[1];
@@ -66,6 +73,8 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("No value for " + std::to_string(x) + " in " + filename_ + "\n");
 			return it->second;
 		}
 
@@ -104,10 +113,10 @@ public:
 		setSeparatorForSplit(const std::string& separator)
 		{
 			if (separator == "space") {
-				return " ";
+				return " \t\r";
 			}
 			else if (separator == "comma") {
-				return ",";
+				return ", \t\r";
 			}
 
 			throw RuntimeError("Wrong separator" + separator + ": only space and comma allowed.\n");
@@ -116,7 +125,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t' && s[i] != '\r')
 					return false;
 			}
 
@@ -129,15 +138,14 @@ public:
 				throw RuntimeError("Could not open " + filename_ + "\n");
 			}
 
-			char s[MAX_LINE];
-			while (!fin.eof()) {
-				fin.getline(s, MAX_LINE);
-				if (emptyLine(std::string(s)))
+			std::string s;
+			while (std::getline(fin, s)) {
+				if (emptyLine(s))
 					continue;
 				std::vector<std::string> tokens;
-				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
-					throw RuntimeError("Line too small: " + std::string(s) + "\n");
+				split(tokens, s, separatorForSplit_);
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
+					throw RuntimeError("Line too small: " + s + "\n");
 				}
 
 				double vx = PsimagLite::atof(tokens[columnX_]);
@@ -175,7 +183,8 @@ public:
 		if (line.substr(1, AINUR_FROM_FILE.size()) == AINUR_FROM_FILE) {
 			SizeType start = AINUR_FROM_FILE.size() + 1;
 			SizeType len = line.size();
-			assert(len > start);
+			if (len <= start)
+				throw RuntimeError(AINUR_FROM_FILE + " needs an argument\n");
 			SizeType rest = len - start;
 			std::string content = line.substr(start, rest);
 			return addAinurFromFile(content);
@@ -211,7 +220,10 @@ public:
 		std::string argument = AinurFunction::deleteEnclosing(nameValue.second, '(', ')');
 		double x = PsimagLite::atof(argument);
 		double y = ainurFunctions_[index](x);
-		return std::to_string(y);
+		std::ostringstream os;
+		os.precision(std::numeric_limits<double>::max_digits10);
+		os << y;
+		return os.str();
 	}
 
 private:
-- 
2.43.0


From f2f24b7ba58f171d0c19a13305dae79e0092007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 43/94] fix: Ainur: malformed vectors, matrices and negative or
 zero counts were accepted, and not-an-integer errors were thrown as dangling
 pointers

---
 src/Ainur/AinurComplex.hh   | 12 ++++++--
 src/Ainur/AinurConvert.hh   | 11 ++++---
 src/Ainur/AinurConvert1.cpp | 59 +++++++++++++++++++++++++++----------
 3 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/Ainur/AinurComplex.hh b/src/Ainur/AinurComplex.hh
index 6e788e2..eb80aa5 100644
--- a/src/Ainur/AinurComplex.hh
+++ b/src/Ainur/AinurComplex.hh
@@ -10,12 +10,12 @@ struct AinurComplex {
 
 	static void convert(long unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(long int& t, std::string str)
@@ -55,6 +55,14 @@ struct AinurComplex {
 
 private:
 
+	static int nonNegative(const std::string& str)
+	{
+		const int x = PsimagLite::atoi(str);
+		if (x < 0)
+			throw RuntimeError("Negative number " + str + " not allowed here\n");
+		return x;
+	}
+
 	template <typename RealType>
 	static std::complex<RealType> toComplex(std::string str)
 	{
diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index 3d12c97..25990c6 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -3,6 +3,7 @@
 #include "../Matrix.h"
 #include "../PsimagLite.h"
 #include "AinurMacros.hh"
+#include <limits>
 
 namespace PsimagLite {
 
@@ -77,11 +78,13 @@ public:
 		String label = ainurMacros_.valueFromFunction(ainurVariable.value);
 
 		try {
-			t = PsimagLite::atoi(label.c_str());
+			const int value = PsimagLite::atoi(label.c_str());
+			t = value;
+			if (value < 0 && !std::numeric_limits<T>::is_signed)
+				err(label + " is negative\n");
 		}
-		catch (std::exception& e) {
-			std::cerr << "FATAL: AinurState: Label " + label + " must be an integer\n";
-			throw e.what();
+		catch (std::exception&) {
+			err("FATAL: AinurState: Label " + label + " must be an integer\n");
 		}
 	}
 
diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 247c31b..3165a56 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -14,24 +14,50 @@ ruleRows()
 	boost::spirit::qi::rule<std::string::iterator,
 	                        std::vector<std::string>(),
 	                        boost::spirit::qi::space_type>
-	    myrule = "[" >> (+~boost::spirit::qi::char_(",[]")) % ',' >> "]";
+	    myrule = "[" >> boost::spirit::qi::lexeme[+~boost::spirit::qi::char_(",[]")] % ',' >> "]";
 	return myrule;
 }
 
+// A comma is needed between numbers, so that blanks don't join their digits
+template <typename T>
+String withoutBlanks(const String& str)
+{
+	String result;
+	bool blank = false;
+	for (const char c : str) {
+		if (isspace(static_cast<unsigned char>(c))) {
+			blank = true;
+			continue;
+		}
+
+		const char previous = (result.empty()) ? ' ' : result.back();
+		if (!TypesEqual<T, String>::True && blank && isdigit(c) && (isdigit(previous) || previous == '.'))
+			err("Missing comma in " + str + "\n");
+		blank = false;
+		result += c;
+	}
+
+	return result;
+}
+
 template <typename T>
 template <typename A, typename ContextType>
 void AinurConvert::ActionMatrix<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	SizeType rows = attr.size();
-	if (rows == 0)
+	if (rows == 0) {
+		t_.clear();
 		return;
+	}
+
 	SizeType cols = attr[0].size();
+	t_.clear();
 	t_.resize(rows, cols);
 	for (SizeType i = 0; i < rows; ++i) {
 		if (attr[i].size() != cols)
 			err("Ainur: Problem reading matrix\n");
 		for (SizeType j = 0; j < cols; ++j) {
-			String attrAfter = ainurMacros_.valueFromFunction(attr[i][j]);
+			String attrAfter = ainurMacros_.valueFromFunction(withoutBlanks<T>(attr[i][j]));
 			AinurComplex::convert(t_(i, j), attrAfter);
 		}
 	}
@@ -44,24 +70,28 @@ template <typename A, typename ContextType>
 void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	const SizeType n = attr.size();
-	if (n == 2 && attr[1] == "...") {
+	const String ellipsis = (n == 2) ? withoutBlanks<String>(attr[1]) : "";
+	if (ellipsis == "...") {
 		const SizeType m = t_.size();
 		if (m == 0)
 			err("Cannot use ellipsis for vector of unknown size\n");
-		AinurComplex::convert(t_[0], attr[0]);
+		AinurComplex::convert(t_[0], ainurMacros_.valueFromFunction(withoutBlanks<T>(attr[0])));
 		for (SizeType i = 1; i < m; ++i)
 			t_[i] = t_[0];
 		return;
 	}
 
-	if (n == 2 && attr[1].length() > 4 && attr[1].substr(0, 4) == "...x") {
+	if (ellipsis.length() > 4 && ellipsis.substr(0, 4) == "...x") {
 		const SizeType m = t_.size();
-		const SizeType l = attr[1].length();
-		const SizeType mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		const SizeType l = ellipsis.length();
+		const int multiplicity = PsimagLite::atoi(ellipsis.substr(4, l - 4));
+		if (multiplicity < 1)
+			err("Ellipsis needs a positive number of times, not " + ellipsis + "\n");
+		const SizeType mm = multiplicity;
 		if (m != 0)
 			std::cout << "Resizing vector to " << mm << "\n";
 		t_.resize(mm);
-		AinurComplex::convert(t_[0], attr[0]);
+		AinurComplex::convert(t_[0], ainurMacros_.valueFromFunction(withoutBlanks<T>(attr[0])));
 		for (SizeType i = 1; i < mm; ++i)
 			t_[i] = t_[0];
 		return;
@@ -69,7 +99,7 @@ void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 
 	t_.resize(n);
 	for (SizeType i = 0; i < n; ++i) {
-		String val = ainurMacros_.valueFromFunction(attr[i]);
+		String val = ainurMacros_.valueFromFunction(withoutBlanks<T>(attr[i]));
 		AinurComplex::convert(t_[i], val);
 	}
 }
@@ -100,7 +130,7 @@ void AinurConvert::convert(Matrix<T>& t, const AinurVariable& ainurVariable)
 	}
 
 	if (it != value.end())
-		std::cerr << "matrix parsing: unmatched part exists\n";
+		err("matrix parsing: unmatched part exists near " + stringContext(it, value.begin(), value.end()) + "\n");
 }
 
 template <typename T>
@@ -125,11 +155,8 @@ void AinurConvert::convert(std::vector<T>& t,
 	if (!r)
 		err("vector parsing failed near " + stringContext(it, value.begin(), value.end()) + "\n");
 
-	if (it != value.end()) {
-		std::cerr << "vector parsing: unmatched part exists near ";
-		std::cerr << stringContext(it, value.begin(), value.end())
-		          << "\n";
-	}
+	if (it != value.end())
+		err("vector parsing: unmatched part exists near " + stringContext(it, value.begin(), value.end()) + "\n");
 }
 
 //---------
-- 
2.43.0


From 06a8eab265724cc1cd38314bffe9e2cb28209535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 44/94] fix: stringToComplex reads signs of both parts and
 refuses trailing garbage

---
 src/Complex.h | 73 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..8a733fa 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -22,6 +22,10 @@ Please see full open source license included in file LICENSE.
 #include "../loki/TypeTraits.h"
 #include "AllocatorCpu.h"
 #include <complex>
+#include <cstdlib>
+#include <sstream>
+#include <stdexcept>
+#include <string>
 
 namespace PsimagLite {
 
@@ -112,33 +116,56 @@ norm(const std::complex<T>& t)
 	return std::norm(t);
 }
 
-inline std::complex<double> stringToComplex(const std::string& str) {
-	double real = 0;
-	double imag = 0;
-	char dummy = 0;
-	std::stringstream ss(str);
+// Either (real,imag) or a sum of a real and an imaginary term such as
+// 3, 2i, -i, 1+2i, 1-2.5e-3i, 1+-2i
+inline std::complex<double> stringToComplex(const std::string& str)
+{
+	const std::runtime_error notComplex("stringToComplex: not a complex number: " + str + "\n");
+	if (str != "" && str[0] == '(') {
+		std::complex<double> value;
+		char extra = 0;
+		std::stringstream ss(str);
+		if (!(ss >> value) || (ss >> extra))
+			throw notComplex;
+		return value;
+	}
 
-	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
-			imag = 0;
+	double parts[2] = { 0, 0 };
+	bool seen[2] = { false, false };
+	const char* ptr = str.c_str();
+	do {
+		double sign = 1;
+		bool hasSign = false;
+		for (; *ptr == '+' || *ptr == '-'; ++ptr) {
+			hasSign = true;
+			if (*ptr == '-')
+				sign = -sign;
 		}
-		if (str[str.find('+') + 1] == '-') {
-			imag = -imag;
-		}
-	} else if (str.find('i') != std::string::npos) {
-		ss >> imag >> dummy;
-		real = 0;
-		if (str.back() != 'i') {
-			imag = 0;
+
+		const bool isFirst = (!seen[0] && !seen[1]);
+		if (!isFirst && !hasSign)
+			throw notComplex;
+
+		double value = 1;
+		if (*ptr != 'i') {
+			char* end = nullptr;
+			value = std::strtod(ptr, &end);
+			const bool startsAsNumber = ((*ptr >= '0' && *ptr <= '9') || *ptr == '.');
+			if (!startsAsNumber || end == ptr || std::string(ptr, static_cast<const char*>(end)).find_first_of("xX") != std::string::npos)
+				throw notComplex;
+			ptr = end;
 		}
-	}
-	else {
-		ss >> real;
-		imag = 0;
-	}
 
-	return std::complex<double>(real, imag);
+		const int which = (*ptr == 'i') ? 1 : 0;
+		if (which == 1)
+			++ptr;
+		if (seen[which])
+			throw notComplex;
+		seen[which] = true;
+		parts[which] = sign * value;
+	} while (*ptr);
+
+	return std::complex<double>(parts[0], parts[1]);
 }
 } // namespace PsimagLite
 
-- 
2.43.0


From e5b32f9a2a8f43a516fbb9b2d764d5865af1e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 45/94] fix: modulus and ternary of complex or large values

---
 src/AST/AdditionalFunctions.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/AST/AdditionalFunctions.h b/src/AST/AdditionalFunctions.h
index 6ffa9ee..2ef37a3 100644
--- a/src/AST/AdditionalFunctions.h
+++ b/src/AST/AdditionalFunctions.h
@@ -40,16 +40,24 @@ public:
 
 		assert(v.size() == 2);
 
-		RealType v0 = PsimagLite::norm(v[0]);
-		RealType v1 = PsimagLite::norm(v[1]);
+		RealType v0 = magnitude(v[0]);
+		RealType v1 = magnitude(v[1]);
 
-		SizeType x = static_cast<int>(v0);
-		SizeType y = static_cast<int>(v1);
+		SizeType x = static_cast<SizeType>(v0);
+		SizeType y = static_cast<SizeType>(v1);
 
 		ValueType result = (y == 0) ? x : x % y;
 		return result;
 	}
 
+private:
+
+	template <typename T>
+	static T magnitude(const T& x) { return PsimagLite::norm(x); }
+
+	template <typename T>
+	static T magnitude(const std::complex<T>& x) { return std::abs(x); }
+
 }; // class Modulus
 
 template <typename VectorValueType>
@@ -128,7 +136,7 @@ public:
 	virtual ValueType exec(const VectorValueType& v) const
 	{
 		assert(v.size() == 3);
-		SizeType b = static_cast<SizeType>(PsimagLite::norm(v[0]));
+		const bool b = (PsimagLite::norm(v[0]) >= 1);
 		return (b) ? v[1] : v[2];
 	}
 }; // class TernaryOp
-- 
2.43.0


From 890001ffe0bfcf6a42780b14dc5332c75ee03519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 46/94] fix: refuse empty, truncated or overlong expressions

---
 src/AST/ExpressionForAST.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..dccd05a 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -39,22 +39,28 @@ public:
 		constexpr bool verbose = false; // FIXME
 		SizeType effectiveSize = vecStr.size();
 		PsimagLite::Vector<SizeType>::Type va;
+		typename Vector<const NodeType*>::Type nodes;
 
 		SizeType sumOfA = 1;
 		for (SizeType i = 0; i < effectiveSize; i++) {
 			PsimagLite::String cStr = vecStr[i];
+			if (sumOfA == 0)
+				err("Expression has more terms than needed, starting at " + cStr + "\n");
+
 			const NodeType& node = primitives.findNodeFromCode(cStr);
 
 			SizeType a = node.arity();
 			sumOfA += (a - 1);
-			TreeType* tree = new TreeType(primitives, node, verbose);
-
 			va.push_back(a);
-			vecTree_.push_back(tree);
-			if (sumOfA == 0)
-				break;
+			nodes.push_back(&node);
 		}
 
+		if (sumOfA != 0)
+			err("Expression is empty or has less terms than needed\n");
+
+		for (SizeType i = 0; i < effectiveSize; i++)
+			vecTree_.push_back(new TreeType(primitives, *nodes[i], verbose));
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
-- 
2.43.0


From 877119f99feb5618180400ba2a896397adbd8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 47/94] fix: PredicateSimple substitutes whole variables and
 tests divisibility of signed and real values

---
 src/PredicateSimple.h | 65 +++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..9a8c0e4 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -4,6 +4,10 @@
 #include "AST/PlusMinusMultiplyDivide.h"
 #include "PsimagLite.h"
 #include "Vector.h"
+#include <algorithm>
+#include <cmath>
+#include <limits>
+#include <sstream>
 
 /* PSIDOC PredicateSimple
  PredicateSimple is of the form
@@ -94,12 +98,25 @@ private:
 	}
 
 	template <typename T>
-	static bool divisibleBy(
-	    SizeType lv,
-	    SizeType rv,
-	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
+	static typename std::enable_if<Loki::TypeTraits<T>::isIntegral, bool>::type
+	divisibleBy(T lv, T rv)
 	{
-		return ((lv % rv) == 0);
+		checkDivisor(rv == 0);
+		return ((std::is_signed<T>::value && rv == T(-1)) || lv % rv == 0);
+	}
+
+	template <typename T>
+	static typename std::enable_if<!Loki::TypeTraits<T>::isIntegral, bool>::type
+	divisibleBy(T lv, T rv)
+	{
+		checkDivisor(rv == 0);
+		return (std::fmod(lv, rv) == 0);
+	}
+
+	static void checkDivisor(bool isZero)
+	{
+		if (isZero)
+			err("PredicateSimple: %% needs a non-zero right hand side\n");
 	}
 
 	static SizeType operatorLength(String op)
@@ -116,9 +133,9 @@ private:
 	typename SomeVectorType::value_type
 	getValue(String hs, const VectorStringType& names, const SomeVectorType& vals)
 	{
-		String numericHs = replaceVariables(hs, names, vals);
 		VectorStringType tokens;
-		split(tokens, numericHs, separator_);
+		split(tokens, hs, separator_);
+		replaceVariables(tokens, names, vals);
 		typedef PlusMinusMultiplyDivide<
 		    typename SomeVectorType::value_type>
 		    PrimitivesType;
@@ -129,35 +146,23 @@ private:
 	}
 
 	template <typename SomeVectorType>
-	static String replaceVariables(String hs, const VectorStringType& names, const SomeVectorType& vals)
+	static void replaceVariables(VectorStringType& tokens, const VectorStringType& names, const SomeVectorType& vals)
 	{
-		const SizeType n = names.size();
-		assert(n == vals.size());
-		String buffer = hs;
-		for (SizeType i = 0; i < n; ++i) {
-			buffer = replaceVariable(buffer, names[i], vals[i]);
+		assert(names.size() == vals.size());
+		for (SizeType i = 0; i < tokens.size(); ++i) {
+			const VectorStringType::const_iterator it = std::find(names.begin(), names.end(), tokens[i]);
+			if (it != names.end())
+				tokens[i] = valueAsString(vals[it - names.begin()]);
 		}
-
-		return buffer;
 	}
 
 	template <typename T>
-	static String replaceVariable(String hs, String name, T val)
+	static String valueAsString(const T& val)
 	{
-		const String valString = ttos(val);
-		const SizeType nameLength = name.length();
-
-		while (true) {
-			size_t index = hs.find(name);
-			if (index == String::npos)
-				return hs;
-			String part1 = (index == 0) ? "" : hs.substr(0, index);
-			String part2 = hs.substr(index + nameLength,
-			                         hs.length() - nameLength - index);
-			hs = part1 + valString + part2;
-		}
-
-		return hs;
+		std::ostringstream os;
+		os.precision(std::numeric_limits<double>::max_digits10);
+		os << val;
+		return os.str();
 	}
 
 	static VectorStringType ops_;
-- 
2.43.0


From 3f50c8ff21a6f540587e8649f6ccb2316fa6ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 48/94] fix: refuse a conjunction without predicates

---
 src/PredicateAnd.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PredicateAnd.h b/src/PredicateAnd.h
index 362578d..c171592 100644
--- a/src/PredicateAnd.h
+++ b/src/PredicateAnd.h
@@ -26,6 +26,8 @@ public:
 		VectorStringType tokens;
 		split(tokens, pred, sep);
 		const SizeType n = tokens.size();
+		if (n == 0 && pred != "")
+			err("PredicateAnd: no predicate in " + pred + "\n");
 		for (SizeType i = 0; i < n; ++i)
 			vPredicateSimple_.push_back(PredicateSimple(tokens[i]));
 	}
-- 
2.43.0


From f82276392b1eb861b4ff24fbe717bc57acd836cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 49/94] fix: canonical expressions whose first term has no
 operator, and label replacement loops

---
 src/CanonicalExpression.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..aec4ebc 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -73,6 +73,7 @@ public:
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
 
+		bool isFirst = true;
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
 			    resultEmpty); // t_ = resultEmpty
@@ -83,12 +84,13 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (isFirst)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+			isFirst = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
@@ -97,15 +99,9 @@ public:
 	template <typename T>
 	static std::pair<bool, String> replaceAll(String str, String label, T value)
 	{
-		std::pair<bool, String> boolString(true, str);
-
-		bool retFlag = false;
-		while (boolString.first) {
-			boolString = replaceOne(boolString.second, label, value);
-			retFlag |= boolString.first;
-		};
-
-		return std::pair<bool, String>(retFlag, boolString.second);
+		const bool retFlag = (label != "" && str.find(label) != String::npos);
+		PsimagLite::replaceAll(str, label, ttos(value));
+		return std::pair<bool, String>(retFlag, str);
 	}
 
 	template <typename T>
-- 
2.43.0


From ad51931517ae65c9975ae697ac732a18bf474f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 50/94] fix: read -i as minus i

---
 src/CmplxOrReal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CmplxOrReal.h b/src/CmplxOrReal.h
index d6a9af5..39667b5 100644
--- a/src/CmplxOrReal.h
+++ b/src/CmplxOrReal.h
@@ -34,8 +34,10 @@ public:
 			buffer += t[i];
 		}
 
-		if (isImag_ && buffer == "")
+		if (isImag_ && (buffer == "" || buffer == "+"))
 			value_ = 1;
+		else if (isImag_ && buffer == "-")
+			value_ = -1;
 		else
 			value_ = PsimagLite::atof(buffer);
 	}
-- 
2.43.0


From d24eace2b6e0aff5a839ac9d97d8110266f84b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 51/94] fix: imaginary scalars end in i, full precision pi

---
 src/QuasiCanonical.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QuasiCanonical.h b/src/QuasiCanonical.h
index a3cecc8..4b218b0 100644
--- a/src/QuasiCanonical.h
+++ b/src/QuasiCanonical.h
@@ -116,7 +116,7 @@ public:
 			return true;
 
 		const SizeType n = t.length();
-		if (n < 2)
+		if (n < 2 || t[n - 1] != 'i')
 			return false;
 		String tmp = t.substr(0, n - 1);
 		return isRealScalar(tmp);
@@ -153,7 +153,7 @@ private:
 
 	ComplexOrRealType simpleArithmetics(String str)
 	{
-		replaceAll(str, "pi", ttos(M_PI));
+		replaceAll(str, "pi", "3.14159265358979323846");
 
 		VectorStringType ve;
 		split(ve, str, ":");
-- 
2.43.0


From b16d9f9333455bf861921a5dd97db866b9a43a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:51 +0000
Subject: [PATCH 52/94] fix: refuse vector specifications without numbers or
 with trailing characters

---
 src/GetBraOrKet.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..a0d7063 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: trailing characters " + str + "\n");
 			return;
 		}
 
-		if (str.size() < 2)
+		if (str == "")
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: trailing characters " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
@@ -122,9 +126,9 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
-			             "location "
-			             + ttos(start) + " for string " + str + "\n");
+			throw RuntimeError("getNumberFrom: no number after character "
+			                   "location "
+			                   + ttos(start) + " for string " + str + "\n");
 
 		str = str.substr(i, str.length() - i);
 
-- 
2.43.0


From 99273200470ca6f27fe1a2a35ccbead71c457f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:51 +0000
Subject: [PATCH 53/94] fix: refuse site brackets in the wrong order

---
 src/OneOperatorSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..ab6c83f 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -80,7 +80,7 @@ struct OneOperatorSpec {
 
 		bool b1 = (firstIndex < 0 && lastIndex >= 0);
 		bool b2 = (firstIndex >= 0 && lastIndex < 0);
-		if (b1 || b2)
+		if (b1 || b2 || lastIndex < firstIndex)
 			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
 
 		String str = name.substr(0, firstIndex);
-- 
2.43.0


From ae58f4887dfd775a63682016a2da9e152cc3e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 54/94] fix: integerDivision by zero is refused

---
 src/PsimagLite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 06160f5..455f53e 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -7,7 +7,7 @@ namespace PsimagLite {
 
 SizeType integerDivision(SizeType a, SizeType b)
 {
-	if ((a % b) != 0) {
+	if (b == 0 || (a % b) != 0) {
 		throw RuntimeError("integerDivision: failed\n");
 	}
 
-- 
2.43.0


From f4fc0607b18be0914c520b72dfb7b6786c119fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 55/94] fix: basenameOf removes the extension

---
 src/Vector.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index bbe3c9e..d85094a 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -554,16 +554,7 @@ public:
 
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
-	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
-	}
-
-	return s.substr(0, l - j);
+	return s.substr(0, s.rfind('.'));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 8c91b5c56071424e815fafbeb076a07aa011e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 56/94] fix: SparseVector comparisons, chunks and partitions

---
 src/SparseVector.h | 66 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..11a8a6e 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -160,17 +160,17 @@ public:
 
 	FieldType value(SizeType x) const { return values_[x]; }
 
-	void toChunk(typename Vector<FieldType>::Type& dest, SizeType i0, SizeType total, bool test = false) const
+	void toChunk(typename Vector<FieldType>::Type& dest, SizeType i0, SizeType total, bool = false) const
 	{
-		if (test) {
-			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+		for (SizeType i = 0; i < indices_.size(); i++) {
+			if (indices_[i] < i0 || indices_[i] - i0 >= total)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
-		dest.resize(total);
+
+		dest.assign(total, static_cast<FieldType>(0));
 		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - i0] = values_[i];
+			dest[indices_[i] - i0] += values_[i];
 	}
 
 	template <typename SomeBasisType>
@@ -180,17 +180,16 @@ public:
 		SizeType part = findPartition(parts);
 		SizeType offset = parts.partition(part);
 		SizeType total = parts.partition(part + 1) - offset;
-		dest.resize(total);
-		for (SizeType i = 0; i < total; i++)
-			dest[i] = 0;
-		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - offset] = values_[i];
+		toChunk(dest, offset, total);
 		return part;
 	}
 
 	template <typename SomeBasisType>
 	SizeType findPartition(const SomeBasisType& parts) const
 	{
+		if (indices_.size() == 0)
+			throw RuntimeError("SparseVector::findPartition(...) vector is empty\n");
+
 		PairType firstLast = findFirstLast();
 		SizeType ret = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
@@ -201,16 +200,16 @@ public:
 				break;
 			}
 		}
-		SizeType ret2 = 1;
+		SizeType ret2 = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
 				break;
 			}
 		}
-		if (ret != ret2)
+		if (ret != ret2 || ret + 1 >= parts.partition())
 			throw RuntimeError(
 			    "SparseVector::findPartition(...)"
 			    "vector extends more than one partition\n");
@@ -227,7 +226,8 @@ public:
 
 	SparseVector<FieldType> operator-=(const SparseVector<FieldType>& v)
 	{
-		for (SizeType i = 0; i < v.values_.size(); i++) {
+		const SizeType n = v.values_.size(); // v could be *this
+		for (SizeType i = 0; i < n; i++) {
 			values_.push_back(-v.values_[i]);
 			indices_.push_back(v.indices_[i]);
 		}
@@ -239,21 +239,31 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
-		for (SizeType i = 0; i < v.values_.size(); i++) {
-			if (indices_[i] != v.indices_[i])
-				return false;
-			FieldType val = values_[i] - v.values_[i];
-			if (!isAlmostZero(val, 1e-8))
+		if (size_ != v.size_)
+			return false;
+
+		SizeType i = 0;
+		SizeType j = 0;
+		while (i < indices_.size() || j < v.indices_.size()) {
+			FieldType val = 0;
+			const bool onlyThis = (j == v.indices_.size() || (i < indices_.size() && indices_[i] < v.indices_[j]));
+			const bool onlyV = (i == indices_.size() || (j < v.indices_.size() && v.indices_[j] < indices_[i]));
+			if (!onlyV)
+				val += values_[i++];
+			if (!onlyThis)
+				val -= v.values_[j++];
+			if (std::abs(val) > 1e-8)
 				return false;
 		}
+
 		return true;
 	}
 
 	// FIXME : needs performance
 	FieldType scalarProduct(const SparseVector<FieldType>& v) const
 	{
-		assert(indices_.size() == 1 || isSorted_);
-		assert(v.indices_.size() == 1 || v.isSorted_);
+		assert(indices_.size() < 2 || isSorted_);
+		assert(v.indices_.size() < 2 || v.isSorted_);
 		FieldType sum = 0;
 		SizeType i = 0, j = 0, index = 0;
 
@@ -278,7 +288,7 @@ public:
 	{
 		SizeType x = 0;
 		for (SizeType i = 0; i < indices_.size(); i++) {
-			if (isAlmostZero(values_[i], 1e-4))
+			if (std::abs(values_[i]) <= 1e-4)
 				continue;
 			x++;
 			if (x > 1)
@@ -289,7 +299,9 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (indices_.size() < 2)
+			isSorted_ = true;
+		if (isSorted_)
 			return;
 
 		Sort<typename Vector<SizeType>::Type> sort;
@@ -306,7 +318,7 @@ public:
 		for (SizeType i = 1; i < indices_.size(); i++) {
 
 			if (indices_[i] != prevIndex) {
-				if (PsimagLite::norm(sum) > 1e-16) {
+				if (std::abs(sum) > 1e-16) {
 					values_.push_back(sum);
 					indices.push_back(prevIndex);
 				}
@@ -317,7 +329,7 @@ public:
 				sum += values[i];
 			}
 		}
-		if (PsimagLite::norm(sum) > 1e-16) {
+		if (std::abs(sum) > 1e-16) {
 			values_.push_back(sum);
 			indices.push_back(prevIndex);
 		}
@@ -390,7 +402,7 @@ inline FieldType norm(const SparseVector<std::complex<FieldType>>& v)
 	std::complex<FieldType> sum = 0;
 	for (SizeType i = 0; i < v.indices(); i++)
 		sum += PsimagLite::conj(v.value(i)) * v.value(i);
-	return real(sqrt(sum));
+	return PsimagLite::real(sqrt(sum));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 19559ff4b965f80732653e879daa427dac74c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 57/94] fix: periodic long chains: bonds that wrap have their
 own values; refuse impossible distances

---
 src/Geometry/LongChain.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..a3484b8 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -118,8 +118,8 @@ public:
 		catch (std::exception& e) {
 		}
 
-		if (linSize_ <= distance_)
-			RuntimeError("LongChain::ctor()\n");
+		if (distance_ == 0 || linSize_ <= distance_)
+			throw RuntimeError("LongChain::ctor()\n");
 	}
 
 	virtual SizeType maxConnections() const
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// bonds that wrap around take the entries after the others
+		return (imax - imin == distance_) ? imin : imax;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From e0148064aa81501d3a4f265b7d8826c7cf62d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 58/94] fix: ladders: initialise IsPeriodicY, refuse zero legs,
 periodic diagonal ladder bonds have their own values

---
 src/Geometry/Ladder.h  | 3 ++-
 src/Geometry/LadderX.h | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..165f007 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,6 +96,7 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
@@ -132,7 +133,7 @@ public:
 		if (leg_ == 2)
 			isPeriodicY_ = false;
 
-		if (linSize % leg_ != 0)
+		if (leg_ == 0 || linSize % leg_ != 0)
 			throw RuntimeError(
 			    "Ladder: leg must divide number of sites\n");
 	}
diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..7a04051 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -187,9 +187,8 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
-			return imin - imin / leg_;
+			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
 			return (imin - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-- 
2.43.0


From 250e4056a42a025150187b9f81f9c3ed7cebc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 59/94] fix: LadderBath: refuse bath sites that do not fit

---
 src/Geometry/LadderBath.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..1ad6968 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -105,6 +105,9 @@ public:
 	{
 		io.readline(bathSitesPerSite_, "BathSitesPerSite=");
 		clusterSize_ = linSize_ / (1 + bathSitesPerSite_);
+		if (clusterSize_ * (1 + bathSitesPerSite_) != linSize_ || (clusterSize_ & 1))
+			throw RuntimeError("LadderBath: Each of an even number of cluster sites "
+			                   "must have BathSitesPerSite bath sites\n");
 
 		ladder_ = new LadderType(clusterSize_, io);
 	}
-- 
2.43.0


From e7e0586ce652d7bd581576149eea3c3d2c73662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 60/94] fix: Honeycomb: bonds between columns in both orders,
 and fringe includes the last system site

---
 src/Geometry/Honeycomb.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 37cab57..c1322bf 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -156,7 +156,7 @@ public:
 			return isThereAneighbor(i, emin, linSize_);
 
 		if (i >= emin)
-			return isThereAneighbor(i, 0, smax);
+			return isThereAneighbor(i, 0, smax + 1);
 
 		return false;
 	}
@@ -246,13 +246,13 @@ private:
 		if (x1 == x2)
 			return isDirectionYsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf3(y1) && (y2 < y1))
+		if ((dx == 1) && is4nPlus3(y1) && (y2 < y1))
 			return true;
 
 		if (!periodicX_)
@@ -263,7 +263,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf3(y2) && (y1 < y2));
+		return (is4nPlus3(y2) && (y1 < y2));
 	}
 
 	// assumes i1 < i2
@@ -272,7 +272,7 @@ private:
 		if (x1 == x2)
 			return isDirectionXsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
@@ -320,7 +320,7 @@ private:
 		return false;
 	}
 
-	static bool isMultipleOf3(SizeType y) { return ((y % 3) == 0); }
+	static bool is4nPlus3(SizeType y) { return ((y % 4) == 3); }
 
 	static bool isMultipleOf4(SizeType y) { return ((y % 4) == 0); }
 
-- 
2.43.0


From 2d4c79ab6350567cb97da305c3cbf8b12d79cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 61/94] fix: LongRange: check the shape and the sites of the
 connectors

---
 src/Geometry/LongRange.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 9593054..74c9277 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -129,7 +129,7 @@ public:
 			reinterpretMatrix();
 		}
 		else {
-			if (dofs_ != matrix_.rows() / linSize) {
+			if (dofs_ != matrix_.rows() / linSize || matrix_.cols() < dofs_ * linSize) {
 				throw RuntimeError("Wrong Connectors matrix size\n");
 			}
 		}
@@ -292,31 +292,44 @@ private:
 		MatrixType values = matrix_;
 		assert(linSize_ > 0);
 		assert(dofs_ > 0);
+		if (values.cols() != ((dofs_ > 1) ? 5 : 3)) {
+			throw RuntimeError("Wrong Connectors matrix size with compact option\n");
+		}
+
 		SizeType n = linSize_ * dofs_;
 		matrix_.clear();
 		matrix_.resize(n, n);
 		if (dofs_ > 1) {
-			assert(values.cols() == 5);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType orb0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
 				SizeType orb1 = complexToInteger(values(i, counter++));
+				checkCompact(site0, orb0);
+				checkCompact(site1, orb1);
 				matrix_(orb0 + site0 * dofs_, orb1 + site1 * dofs_) = values(i, counter++);
 			}
 		}
 		else {
-			assert(values.cols() == 3);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
+				checkCompact(site0, 0);
+				checkCompact(site1, 0);
 				matrix_(site0, site1) = values(i, counter++);
 			}
 		}
 	}
 
+	void checkCompact(SizeType site, SizeType orb) const
+	{
+		if (site < linSize_ && orb < dofs_)
+			return;
+		throw RuntimeError("Site or orbital too big in Connectors matrix with compact option\n");
+	}
+
 	static SizeType complexToInteger(const ComplexOrRealType& value)
 	{
 		if (std::imag(value) != 0) {
-- 
2.43.0


From 6e95f48e8e1470ffe45902855c8b610f46c784c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 62/94] fix: KTwoNiFFour: values per bond are refused with an
 exception

---
 src/Geometry/KTwoNiFFour.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Geometry/KTwoNiFFour.h b/src/Geometry/KTwoNiFFour.h
index c8688a8..9ff4053 100644
--- a/src/Geometry/KTwoNiFFour.h
+++ b/src/Geometry/KTwoNiFFour.h
@@ -113,7 +113,6 @@ public:
 
 	SizeType getVectorSize(SizeType) const
 	{
-		assert(false);
 		throw RuntimeError("getVectorSize: unimplemented\n");
 	}
 
-- 
2.43.0


From c686a698fbe4c08bcc13156707d336d908a0dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 63/94] fix: Geometry: split covers each site once, print
 compiles

---
 src/Geometry/Geometry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..bd92a02 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,6 +244,7 @@ public:
 			i += sitesPerBlock;
 		}
 
+		middle = i; // the blocks of the system may end after the middle
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
@@ -300,7 +301,7 @@ public:
 	void print(std::ostream& os) const
 	{
 		for (SizeType i = 0; i < terms_.size(); i++)
-			terms_[i]->print(os, linSize_);
+			terms_[i]->print(os);
 	}
 
 	SizeType handle(SizeType t, SizeType ind, SizeType jnd) const
-- 
2.43.0


From 2b799ce33786341fcdfa72e78bcd2dc782d0f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 64/94] fix: Mersenne twister seeds its state as published and
 ranks differ

---
 src/MersenneTwister.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MersenneTwister.cpp b/src/MersenneTwister.cpp
index 546d266..06b11c5 100644
--- a/src/MersenneTwister.cpp
+++ b/src/MersenneTwister.cpp
@@ -13,7 +13,7 @@ MersenneTwister::MersenneTwister(unsigned s, int rank, int)
 {
 	seed(s);
 	int news = random();
-	for (int i = 1; i < rank; ++i) {
+	for (int i = 0; i < rank; ++i) {
 		news = random();
 	}
 
@@ -26,7 +26,7 @@ void MersenneTwister::seed(unsigned s)
 	state_[0] = s;
 	for (unsigned i = 1; i < N_; ++i) {
 		unsigned tmp = state_[i - 1] ^ (state_[i - 1] >> 30);
-		state_[i] = keepLast32BitMask_ & (1812433253 * (tmp + i));
+		state_[i] = keepLast32BitMask_ & (1812433253 * tmp + i);
 	}
 }
 
-- 
2.43.0


From 5ef6b42e5c292b43bd7d09b574cbb8068e1831bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 65/94] fix: Random48 ranks differ and seed() starts the stream
 again

---
 src/Random48.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Random48.h b/src/Random48.h
index b2a5d1d..365b857 100644
--- a/src/Random48.h
+++ b/src/Random48.h
@@ -36,7 +36,7 @@ public:
 		srand48(seed);
 		Vector<LongType>::Type vOfSeeds(nprocs);
 		for (SizeType i = 0; i < vOfSeeds.size(); i++)
-			vOfSeeds[i] = static_cast<LongType>(10000.0 * drand48());
+			vOfSeeds[i] = 10000 * i + static_cast<LongType>(10000.0 * drand48()); // distinct for every rank
 		seed_ = vOfSeeds[rank];
 		srand48(seed_);
 	}
@@ -50,7 +50,11 @@ public:
 
 	LongType seed() const { return seed_; }
 
-	void seed(const LongType& seed) { seed_ = seed; }
+	void seed(const LongType& seed)
+	{
+		seed_ = seed;
+		srand48(seed_);
+	}
 
 private:
 
-- 
2.43.0


From 3700bf5f32a9304b7b25653e74163176533d52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 66/94] fix: spline nodes must ascend

---
 src/AkimaSpline.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AkimaSpline.h b/src/AkimaSpline.h
index 3b5f18b..ff6e77e 100644
--- a/src/AkimaSpline.h
+++ b/src/AkimaSpline.h
@@ -26,6 +26,9 @@ public:
 			    "Number of X and Y points must be the same\n");
 		if (x.size() < 3)
 			throw RuntimeError("Number of X too small\n");
+		for (SizeType i = 0; i + 1 < x.size(); i++)
+			if (!(x[i] < x[i + 1]))
+				throw RuntimeError("X points must be in ascending order\n");
 		VectorType sprime;
 		calculateSprime(sprime, x, s);
 		for (SizeType i = 0; i < x.size() - 1; i++) {
-- 
2.43.0


From 2c2c854cc3371bf139b797e98925cae77d6bc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 67/94] fix: linear prediction refuses orders and data that do
 not determine it

---
 src/LinearPrediction.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..eecea3c 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -105,17 +105,7 @@ public:
 	    : y_(y)
 	    , p_(p)
 	{
-		SizeType ysize = y.size();
-		if (ysize & 1)
-			throw RuntimeError(
-			    "LinearPrediction::ctor(...): data set must "
-			    "contain an even number of points\n");
-		SizeType n = ysize / 2;
-		MatrixType A(p, p);
-		typename Vector<FieldType>::Type B(p);
-		computeA(A, n);
-		computeB(B, n);
-		computeD(A, B);
+		linearPredictionfunction(y, p);
 	}
 
 	const FieldType& operator()(SizeType i) const { return y_[i]; }
@@ -129,10 +119,14 @@ public:
 			    "LinearPrediction::ctor(...): data set must "
 			    "contain an even number of points\n");
 		SizeType n = ysize / 2;
+		if (p == 0 || p > n)
+			throw RuntimeError(
+			    "LinearPrediction::ctor(...): the order must be "
+			    "positive and at most half the number of points\n");
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
-		computeA(A, n);
-		computeB(B, n);
+		computeA(A, y, n);
+		computeB(B, y, n);
 		computeD(A, B);
 	}
 
@@ -152,6 +146,9 @@ public:
 	{
 		// Fix roots
 		typedef std::complex<double> Complex;
+		if (p != d_.size())
+			throw RuntimeError("LinearPrediction::predict2(...): "
+			                   "p must be the order\n");
 		SizeType twicep = 2 * p;
 		SizeType pp1 = p + 1;
 		typename Vector<FieldType>::Type nd(p), aa(pp1), zz(twicep);
@@ -218,6 +215,9 @@ private:
 		    p); // use signed integers here!!
 		int info = 0;
 		psimag::LAPACK::GETRF(p, p, &(A(0, 0)), p, &(ipiv[0]), info);
+		if (info != 0)
+			throw RuntimeError("LinearPrediction: the data obey a "
+			                   "recurrence of lower order\n");
 
 		typename Vector<FieldType>::Type work(2);
 		int lwork = -1; // query mode
@@ -234,25 +234,25 @@ private:
 		psimag::BLAS::GEMV('N', p, p, 1.0, &(A(0, 0)), p, &(B[0]), 1, 0.0, &(d_[0]), 1);
 	}
 
-	void computeA(MatrixType& A, SizeType n) const
+	void computeA(MatrixType& A, const typename Vector<FieldType>::Type& y, SizeType n) const
 	{
 		SizeType p = A.rows();
 		for (SizeType l = 0; l < p; l++) {
 			for (SizeType j = 0; j < p; j++) {
 				A(l, j) = 0;
 				for (SizeType i = n; i < 2 * n; i++)
-					A(l, j) += y_[i - l - 1] * y_[i - j - 1];
+					A(l, j) += y[i - l - 1] * y[i - j - 1];
 			}
 		}
 	}
 
-	void computeB(typename Vector<FieldType>::Type& B, SizeType n) const
+	void computeB(typename Vector<FieldType>::Type& B, const typename Vector<FieldType>::Type& y, SizeType n) const
 	{
 		SizeType p = B.size();
 		for (SizeType l = 0; l < p; l++) {
 			B[l] = 0;
 			for (SizeType i = n; i < 2 * n; i++)
-				B[l] += y_[i - l - 1] * y_[i];
+				B[l] += y[i - l - 1] * y[i];
 		}
 	}
 
-- 
2.43.0


From 151b66471395d757ef12f22e32629bcc2561575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 68/94] fix: a whole number of Runge-Kutta steps is not lost to
 rounding

---
 src/RungeKutta.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/RungeKutta.h b/src/RungeKutta.h
index 0b26897..b515467 100644
--- a/src/RungeKutta.h
+++ b/src/RungeKutta.h
@@ -87,6 +87,8 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Matrix.h"
 #include "Vector.h"
 #include <cassert>
+#include <cmath>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -107,7 +109,12 @@ public:
 
 	void solveEx(typename Vector<VectorType>::Type& result, RealType t0, RealType t, const ArrayType& y0) const
 	{
-		SizeType N = static_cast<SizeType>(PsimagLite::real((t - t0) / h_));
+		const RealType steps = (t - t0) / h_;
+		if (!(steps >= 0 && steps < 1e18))
+			throw RuntimeError("RungeKutta::solveEx(): the end is before the start\n");
+		// a whole number of steps must not be lost to rounding
+		const RealType rounding = (std::fabs(t0) + std::fabs(t)) / std::fabs(h_) + steps;
+		const SizeType N = static_cast<SizeType>(steps + 4 * std::numeric_limits<RealType>::epsilon() * rounding);
 		solve(result, t0, N, y0);
 	}
 
-- 
2.43.0


From 370e130c1f956d0688626086f68db8354a5be666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 69/94] fix: quadrature refuses an interval without two ends

---
 src/Integrator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Integrator.h b/src/Integrator.h
index 4f17c09..e8288d9 100644
--- a/src/Integrator.h
+++ b/src/Integrator.h
@@ -73,6 +73,7 @@ private:
 
 	RealType qagp(VectorRealType& pts)
 	{
+		checkPoints(pts);
 		int status = gslWrapper_.gsl_integration_qagp(
 		    &f_, &(pts[0]), pts.size(), epsabs_, epsrel_, limit_, workspace_, &result_, &abserr_);
 
@@ -82,8 +83,15 @@ private:
 		return result_;
 	}
 
+	static void checkPoints(const VectorRealType& pts)
+	{
+		if (pts.size() < 2)
+			throw RuntimeError("Integrator: at least two points are needed\n");
+	}
+
 	RealType qag(const VectorRealType& pts, int key)
 	{
+		checkPoints(pts);
 		int status = gslWrapper_.gsl_integration_qag(
 		    &f_, pts[0], pts[1], epsabs_, epsrel_, limit_, key, workspace_, &result_, &abserr_);
 
-- 
2.43.0


From e8c4dc5d11733f8a5c8093763c8ac9d059c2ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:43 +0000
Subject: [PATCH 70/94] fix: minimization refuses a start of the wrong size

---
 src/Minimizer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Minimizer.h b/src/Minimizer.h
index 72bf48e..c7da05c 100644
--- a/src/Minimizer.h
+++ b/src/Minimizer.h
@@ -77,6 +77,7 @@ public:
 
 	int simplex(VectorType& minVector, RealType delta = 1e-3, RealType tolerance = 1e-3)
 	{
+		checkSize(minVector);
 		gsl_vector* x;
 		/* Starting point,  */
 		x = gsl_vector_alloc(function_.size());
@@ -136,6 +137,7 @@ public:
 
 	int conjugateGradient(VectorType& minVector, RealType delta = 1e-3, RealType delta2 = 1e-3, RealType tolerance = 1e-3, SizeType saveEvery = 0)
 	{
+		checkSize(minVector);
 		gsl_vector* x;
 		/* Starting point,  */
 		x = gsl_vector_alloc(function_.size());
@@ -215,6 +217,12 @@ public:
 
 private:
 
+	void checkSize(const VectorType& minVector) const
+	{
+		if (minVector.size() != function_.size())
+			throw RuntimeError("Minimizer: the starting point has the wrong size\n");
+	}
+
 	void found(VectorType& minVector, gsl_vector* x, SizeType iter)
 	{
 		for (SizeType i = 0; i < minVector.size(); i++)
-- 
2.43.0


From a965908d417e82395a97468e2351ced40ee47b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 71/94] fix: TridiagonalMatrix refuses diagonals of different
 sizes and out-of-range dense sizes

---
 src/TridiagonalMatrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..73e5d43 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -101,6 +101,8 @@ public:
 	{
 		io.read(a_, "#Avector");
 		io.read(b_, "#Bvector");
+		if (a_.size() != b_.size())
+			throw RuntimeError("TridiagonalMatrix: #Avector and #Bvector have different sizes\n");
 	}
 
 	template <typename IoOutputType>
@@ -153,6 +155,8 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		if (n == 0 || n > a_.size())
+			throw RuntimeError("TridiagonalMatrix: has fewer rows than needed\n");
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From 35790149aea377eca47e5ed3c323cd1e27298378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 72/94] fix: zero threads is reported as an error instead of
 dividing by zero

---
 src/Parallelizer2Pthread.h | 2 ++
 src/PthreadsNg.h           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 6b04d55..1f37359 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -89,6 +89,8 @@ public:
 	    : nthreads_(codeParams.npthreads)
 	    , stackSize_(codeParams.stackSize)
 	{
+		if (nthreads_ == 0)
+			throw RuntimeError("Parallelizer2: needs at least one thread\n");
 	}
 
 	SizeType numberOfThreads() const { return nthreads_; }
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 46635d1..1b71913 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -173,6 +173,8 @@ public:
 	    , setAffinities_(codeSectionParams.setAffinities)
 	    , stackSize_(codeSectionParams.stackSize)
 	{
+		if (nthreads_ == 0)
+			throw RuntimeError("PthreadsNg: needs at least one thread\n");
 	}
 
 	bool affinities() const { return setAffinities_; }
-- 
2.43.0


From 5c283e34d6062021f96e874ca08f647069a761de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 73/94] fix: InputCheckBase.h includes Vector.h

---
 src/InputCheckBase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/InputCheckBase.h b/src/InputCheckBase.h
index 8071be4..ac017d3 100644
--- a/src/InputCheckBase.h
+++ b/src/InputCheckBase.h
@@ -77,6 +77,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
  */
 #ifndef PSI_INPUTCHECK_BASE_H
 #define PSI_INPUTCHECK_BASE_H
+#include "Vector.h"
 #include <stdexcept>
 #include <vector>
 
-- 
2.43.0


From 7f627c3050faf463c931ca506c1944197ffc3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 74/94] fix: Matrix read from a stream reports missing sizes
 and entries

---
 src/Matrix.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index abb4527..0e99038 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -101,16 +101,24 @@ public:
 
 	Matrix(std::ifstream& io)
 	{
-		io >> nrow_;
-		io >> ncol_;
-		if (nrow_ <= 0 || ncol_ <= 0)
+		long int nrow = 0;
+		long int ncol = 0;
+		io >> nrow;
+		io >> ncol;
+		if (!io || nrow <= 0 || ncol <= 0)
 			throw RuntimeError("Matrix::nrows or ncols negative: "
 			                   "cannot construct\n");
 
+		nrow_ = nrow;
+		ncol_ = ncol;
 		data_.resize(nrow_ * ncol_);
 		for (SizeType i = 0; i < nrow_; ++i)
 			for (SizeType j = 0; j < ncol_; ++j)
 				io >> data_[i + j * nrow_];
+
+		if (!io)
+			throw RuntimeError("Matrix: missing or wrong entries: "
+			                   "cannot construct\n");
 	}
 
 	// ctor closures
-- 
2.43.0


From 71aed2a62e7ad237156befb794098ef955b5b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 75/94] fix: PsiTag keeps the contents that follow the opening
 parenthesis of a block

---
 scripts/PsiTag.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 140fecd..8285ba6 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -162,7 +162,7 @@ sub readTags
 				($tag) or die "$0: FATAL: tag does not exist in line scope $line\n";
 				if ($thisLineParens > 0) {
 					$blockScope = 1;
-					$multilineContent = "";
+					$multilineContent = ($content eq "\n") ? "" : $content;
 					$multilineTag = canonicalTagName($tag);
 					$multilineMode = $mode;
 				} else {
-- 
2.43.0


From 5cbb9daa14b26cc2d3ab209077bf3a9778e94a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 76/94] fix: PsiTag refuses a block that is never closed

---
 scripts/PsiTag.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 8285ba6..afca30f 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -192,6 +192,8 @@ sub readTags
 			}
 		}
 	}
+
+	die "$0: FATAL: Block of tag $multilineTag is not closed\n" if ($blockScope);
 }
 
 sub addTag
-- 
2.43.0


From 656eb658a90eaa4b4a8c1d9025883744c233fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 77/94] fix: PsiTag treats a tab in the name of a tag as a
 space

---
 scripts/PsiTag.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index afca30f..fdf825b 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -268,7 +268,7 @@ sub canonicalTagName
 	$name =~ s/\n/ /g;
 	$name =~ s/^[ \t]*//;
 	$name =~ s/[ \t]*$//;
-	while ($name =~ s/[ \t][ \t]/ /) {}
+	$name =~ s/[ \t]+/ /g;
 	return $name;
 }
 
-- 
2.43.0


From a30811ec0714550b18c0988a3f18b42def5948f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 78/94] fix: PsiTag removes escapes once, however deep the tag
 is included

---
 scripts/PsiTag.pm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index fdf825b..96ea048 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -292,11 +292,11 @@ sub unWrap
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
 			$content = unWrap($tags, $content);
+		} else {
+			$content =~ s/^[ \t]*\\//; # (4)
+			$content =~ s/\\([ \t]*)$/$1/; # (5)
 		}
 
-		$content =~ s/^[ \t]*\\//; # (4)
-		$content =~ s/\\([ \t]*)$/$1/; # (5)
-
 		$result .= $content."\n";
 	}
 
-- 
2.43.0


From 4326df78762447acaa61d07f64099138712b34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 79/94] fix: PsiTag refuses a tag that includes itself

---
 scripts/PsiTag.pm | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 96ea048..76ce0c7 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -274,7 +274,7 @@ sub canonicalTagName
 
 sub unWrap
 {
-	my ($tags, $text) = @_;
+	my ($tags, $text, @above) = @_;
 	my @lines = split/\n/, $text;
 	my $n = scalar(@lines);
 	my $result = "";
@@ -291,7 +291,8 @@ sub unWrap
 			(ref($ptr) eq "HASH") or die "$0: FATAL: Tag $existingTag not hash ref but ".ref($ptr)."\n";
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
-			$content = unWrap($tags, $content);
+			die "$0: FATAL: Tag $existingTag includes itself\n" if (grep { $_ eq $existingTag } @above);
+			$content = unWrap($tags, $content, @above, $existingTag);
 		} else {
 			$content =~ s/^[ \t]*\\//; # (4)
 			$content =~ s/\\([ \t]*)$/$1/; # (5)
-- 
2.43.0


From ac5dbd68fe55ce61949806e72a6cab217b164ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 80/94] fix: doc.pl reads from and writes to the directories it
 is given

---
 scripts/doc.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index 64f874b..f5884ff 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -56,7 +56,8 @@ sub loadFiles
 	while (<FILE>) {
 	    if (/\\ptexReadFile\{([^\}]+)\}/) {
 		        my $file = $1;
-			if ($doc_root != "") {
+			my $label = getLabelForFile($file);
+			if (defined($doc_root) and $doc_root ne "") {
 			    $file = $doc_root . "/" . $file;
 			}
 			my $ret = open(FILE2, "<", $file);
@@ -87,7 +88,6 @@ sub loadFiles
 
 			close(FILE2);
 
-			my $label = getLabelForFile($file);
 			my @temp = ($buffer);
 			$labels{"$label"} = \@temp;
 			next;
@@ -334,7 +334,7 @@ sub replaceLabels
 {
 	my ($file, $a) = @_;
 	my $fout = $file;
-	if ($out_dir != "") {
+	if (defined($out_dir) and $out_dir ne "") {
 	    $fout =~ s/.*\///; #chop the beginning of the path
 	    $fout =  $out_dir . "/" . $fout;
 	}
-- 
2.43.0


From 08674283acc7ebdb363646f1093184a39ed852a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 81/94] fix: doc.pl ends the label of a block of code where the
 block ends

---
 scripts/doc.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index f5884ff..f4ccbbe 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -176,6 +176,7 @@ sub loadLabels
 			$labels{"$label"} = [$codeBuffer];
 			$codeBuffer = "";
 			$inCodeBlock = 0;
+			$label = "!DISABLED";
 			next;
 		}
 
-- 
2.43.0


From ad520f4540a2554ae5dee212f708ca5c15388325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 82/94] fix: doc.pl keeps lines of a block of code that have a
 comment

---
 scripts/doc.pl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index f4ccbbe..f54d390 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -180,6 +180,11 @@ sub loadLabels
 			next;
 		}
 
+		if ($inCodeBlock) {
+			$codeBuffer .= $_."\n";
+			next;
+		}
+
 		if (/\*\//) {
 			next if ($hasContinue);
 			if ($label ne "!DISABLED" and $modifyLater) {
@@ -210,9 +215,6 @@ sub loadLabels
 			$label = "!DISABLED";
 			$modifyLater = 1;
 			$additional = "";
-		} elsif ($inCodeBlock) {
-			$codeBuffer .= $_."\n";
-			next;
 		}
 
 		if (/^[ \t]*PSIDOC_CONTINUE *$/) {
-- 
2.43.0


From 83b394d3d42c4a1920e288ed9fee3ffc9e29c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 83/94] fix: doc.pl refuses a label that copies itself

---
 scripts/doc.pl | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/scripts/doc.pl b/scripts/doc.pl
index f54d390..5ea9044 100755
--- a/scripts/doc.pl
+++ b/scripts/doc.pl
@@ -385,31 +385,22 @@ sub replaceLabels
 sub recursiveExpand
 {
 	my ($a) = @_;
-	my %labels = %$a;
 
-	my $recurse = 0;
-	foreach my $key (keys %labels) {
-		my $ptr = $labels{"$key"};
+	foreach my $key (keys %$a) {
+		my $ptr = $a->{"$key"};
 		defined($ptr) or die "$0: Label $key has error\n";
 		scalar(@$ptr) > 0 or die "$0: Label $key has error\n";
 		my $txt = $ptr->[0];
 		next unless ($txt=~/PSIDOCCOPY/);
-		my $txt2 = expandIfNeeded($txt,$a);
-		$recurse = 1 if ($txt2=~/PSIDOCCOPY/);
-		my @buffer = ($txt2);
-		$ptr = \@buffer;
-		$labels{"$key"}=$ptr;
+		my %above = ($key => 1);
+		my @buffer = (expandIfNeeded($txt, $a, \%above));
+		$a->{"$key"} = \@buffer;
 	}
-
-	%$a = %labels;
-
-	recursiveExpand($a) if ($recurse);
 }
 
 sub expandIfNeeded
 {
-	my ($txt,$a) = @_;
-	my %labels = %$a;
+	my ($txt, $a, $above) = @_;
 	my @temp = split/\n/,$txt;
 
 	my $n = scalar(@temp);
@@ -425,6 +416,12 @@ sub expandIfNeeded
 				$txt = labelNotFound($label);
 			}
 
+			if ($txt=~/PSIDOCCOPY/) {
+				die "$0: ERROR: label $label copies itself\n" if ($above->{"$label"});
+				my %above2 = (%$above, $label => 1);
+				$txt = expandIfNeeded($txt, $a, \%above2);
+			}
+
 			$buffer .= $txt;
 			next;
 		}
-- 
2.43.0


From e5e26c7ce45a7b2f6a125ce32aab0b4ff66e958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 84/94] fix: LineMarker reads back a marker that was saved

---
 src/LineMarker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LineMarker.h b/src/LineMarker.h
index 79797ba..aae66e3 100644
--- a/src/LineMarker.h
+++ b/src/LineMarker.h
@@ -44,7 +44,7 @@ public:
 	LineMarker(IoInputType& io, const String& name, SizeType level = 0)
 	{
 		name_ = name + "=0";
-		SizeType x = 0; // bogus
+		String x; // bogus
 		io.readline(x, name_, level);
 	}
 
-- 
2.43.0


From a88e6ebbd318e93d09d4e6ae7e60b563b1b4b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 85/94] fix: MemoryUsage reads lines of any length

---
 src/MemoryUsage.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/MemoryUsage.h b/src/MemoryUsage.h
index 8847eda..202e905 100644
--- a/src/MemoryUsage.h
+++ b/src/MemoryUsage.h
@@ -85,8 +85,6 @@ namespace PsimagLite {
 
 class MemoryUsage {
 
-	static const SizeType MY_MAX_LINE = 40240;
-
 public:
 
 	class TimeHandle {
@@ -149,11 +147,10 @@ public:
 		std::ifstream ifp(myself_.c_str());
 		if (!ifp || !ifp.good() || ifp.bad())
 			return;
-		char tmp[MY_MAX_LINE];
 		data_ = "";
-		while (!ifp.eof()) {
-			ifp.getline(tmp, MY_MAX_LINE);
-			data_ += String(tmp);
+		String tmp;
+		while (std::getline(ifp, tmp)) {
+			data_ += tmp;
 			data_ += String("\n");
 		}
 
-- 
2.43.0


From 4a7ad5d081159747a5bfa1e452131d106487016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 86/94] fix: HEMM passes the leading dimension of its second
 matrix, and HPR takes a double packed matrix

---
 src/BLAS.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 1dd9b32..c25a265 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -265,7 +265,7 @@ namespace BLAS {
 	// ******************************************************************************
 	extern "C" void chpr_(char*, IntegerForBlasType*, const std::complex<float>*, const std::complex<float>*, IntegerForBlasType*, std::complex<float>*);
 
-	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<float>*);
+	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<double>*);
 	// ******************************************************************************
 	// *                         HER2
 	// ******************************************************************************
@@ -413,13 +413,13 @@ namespace BLAS {
 		zsymm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// ---------------------------------------------------------------------------
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType sy, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
 	{
-		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType sy, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
 	{
-		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// **************************************************************************
 	inline void SYRK(char UPLO, char TRANS, IntegerForBlasType N, IntegerForBlasType K, const float& ALPHA, const float* A, IntegerForBlasType LDA, const float& BETA, float* C, IntegerForBlasType LDC)
@@ -743,7 +743,7 @@ namespace BLAS {
 	{
 		chpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<float>* ap)
+	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<double>* ap)
 	{
 		zhpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-- 
2.43.0


From 6a5f52b86a2b59f131f9bfbb4c3fb99294f99e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:01 +0000
Subject: [PATCH 87/94] fix: ProgressIndicator::printline empties the message
 it printed

---
 src/ProgressIndicator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 7904590..77af7fa 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -154,15 +154,15 @@ public:
 		if (rank_ != 0)
 			return;
 		prefix(os);
-		os << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		const String message = s().str();
+		s().str("");
+		os << message << "\n";
 
 		if (!bufferActive_)
 			return;
 
 		prefix(buffer_);
-		buffer_() << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		buffer_() << message << "\n";
 	}
 
 	void print(const String& something, std::ostream& os) const
-- 
2.43.0


From 90a90b711e7bb0458c476e19c3ab16afbc78a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:01 +0000
Subject: [PATCH 88/94] fix: printMemoryUsage prints its message once

---
 src/ProgressIndicator.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 77af7fa..20c21da 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -190,13 +190,6 @@ public:
 		msg() << "Current virtual memory is " << vmSize
 		      << " maximum was " << vmPeak;
 		printline(msg, std::cout);
-
-		if (!bufferActive_)
-			return;
-
-		buffer_() << "Current virtual memory is " << vmSize
-		          << " maximum was " << vmPeak;
-		printline(buffer_, std::cout);
 	}
 
 	static MemoryUsage::TimeHandle time() { return musage_.time(); }
-- 
2.43.0


From 8bad5da2adbaa6d261240a40c5750dadd53a58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:01 +0000
Subject: [PATCH 89/94] fix: ProgressIndicator leaves the format of the stream
 as it was

---
 src/ProgressIndicator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 20c21da..8a48fec 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -201,10 +201,12 @@ private:
 	{
 		const MemoryUsage::TimeHandle t = musage_.time();
 		const double seconds = t.millis();
+		const std::ios_base::fmtflags flags = prefixHelper(os).flags();
 		const SizeType prec = os.precision(3);
 		prefixHelper(os) << caller_ << " "
 		                 << "[" << std::fixed << seconds << "]: ";
 		os.precision(prec);
+		prefixHelper(os).flags(flags);
 	}
 
 	OstringStream::OstringStreamType& prefixHelper(OstringStream& os) const
-- 
2.43.0


From 64d70f1a859c1fb2ca83f7d5c7906bde286afcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:04 +0000
Subject: [PATCH 90/94] fix: ladders grown from their first sites keep the
 bonds across the gap

---
 src/Geometry/Ladder.h  | 2 +-
 src/Geometry/LadderX.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 165f007..cc63472 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -187,7 +187,7 @@ public:
 		if (smax + 1 == emin)
 			r = leg_; // finite loops
 
-		bool a = (i < emin && i >= smax - r + 1);
+		bool a = (i < emin && i + r >= smax + 1);
 		bool b = (i > smax && i <= emin + r - 1);
 		return (a || b);
 	}
diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index 7a04051..789b143 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -171,11 +171,11 @@ public:
 
 	bool fringe(SizeType i, SizeType smax, SizeType emin) const
 	{
-		bool a = (i < emin && i >= smax - 1);
+		bool a = (i < emin && i + 1 >= smax);
 		bool b = (i > smax && i <= emin + 1);
 		if (smax & 1)
 			return (a || b);
-		a = (i < emin && i >= smax - 2);
+		a = (i < emin && i + 2 >= smax);
 		b = (i > smax && i <= emin + 2);
 		return (a || b);
 	}
-- 
2.43.0


From 3526cf60a3bd9c6286fbb08c78270159c21b7e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:26 +0000
Subject: [PATCH 91/94] fix: the diagonal of a tall matrix ends with its
 columns

---
 src/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 0e99038..3777831 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -783,7 +783,7 @@ void printNonZero(const Matrix<T>& m, std::ostream& os)
 			os << "\n";
 	}
 	os << "#diagonal non-zero\n";
-	for (SizeType i = 0; i < m.rows(); i++) {
+	for (SizeType i = 0; i < m.rows() && i < m.cols(); i++) {
 		const T& val = m(i, i);
 		if (val != static_cast<T>(0)) {
 			os << val << " ";
-- 
2.43.0


From 66f482eaa5cdfb785181347aa9a3ef03c7179b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:26 +0000
Subject: [PATCH 92/94] fix: setting the slot after the last one adds it

---
 src/CrsMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 5ec71b2..df1daaa 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -325,7 +325,7 @@ public:
 
 	void setCol_check(int n, int v)
 	{
-		if (((size_t)n) == (colind_.size() + 1)) {
+		if (((size_t)n) == colind_.size()) {
 			colind_.push_back(v);
 		}
 		else {
@@ -337,7 +337,7 @@ public:
 
 	void setValues_check(int n, const T& v)
 	{
-		if (((size_t)n) == (values_.size() + 1)) {
+		if (((size_t)n) == values_.size()) {
 			values_.push_back(v);
 		}
 		else {
-- 
2.43.0


From dac2d468da2722cc8c53b08825edc7bb3f0dd7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:55 +0000
Subject: [PATCH 93/94] fix: a rectangular matrix is not the identity

---
 src/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 3777831..4091f82 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -866,6 +866,8 @@ bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
 template <typename T>
 bool isTheIdentity(Matrix<T> const& a)
 {
+	if (a.rows() != a.cols())
+		return false;
 
 	for (SizeType i = 0; i < a.rows(); i++) {
 		for (SizeType j = 0; j < a.cols(); j++) {
-- 
2.43.0


From 09fe9c8c24de776d4f677fb8b423def5f3860fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:55 +0000
Subject: [PATCH 94/94] fix: multiplyTransposeConjugate has the shape of the
 product

---
 src/Matrix.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 4091f82..f74950d 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -991,16 +991,16 @@ template <typename T>
 Matrix<T> multiplyTransposeConjugate(const Matrix<T>& O1, const Matrix<T>& O2, char modifier = 'C')
 {
 	SizeType n = O1.rows();
-	Matrix<T> ret(n, n);
+	Matrix<T> ret(O1.cols(), O2.cols());
 	if (modifier == 'C') {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < ret.rows(); s++)
+			for (SizeType t = 0; t < ret.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
 	}
 	else {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < ret.rows(); s++)
+			for (SizeType t = 0; t < ret.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += O1(w, s) * O2(w, t);
 	}
-- 
2.43.0

