#include "CrsMatrix.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#include "SampleCRSMatrix.h"
#include "vh.h"
#include <map>
using namespace PsimagLite;
typedef std::complex<double> cplx;
typedef vh::Ctx Ctx;
typedef Vector<SizeType>::Type VSize;

template <typename T> vh::Ref<T> randRef(vh::Rng& r, size_t n, size_t m, double dens, bool ints)
{
	vh::Ref<T> a(n, m);
	for (auto& x : a.d)
		if (r.chance(dens)) x = ints ? vh::RandVal<T>::getInt(r) : vh::RandVal<T>::get(r);
	// now and then a completely empty row or column
	if (n && r.chance(0.5)) {
		size_t i = r.range(0, n - 1);
		for (size_t j = 0; j < m; ++j) a(i, j) = T(0);
	}
	if (m && r.chance(0.3)) {
		size_t j = r.range(0, m - 1);
		for (size_t i = 0; i < n; ++i) a(i, j) = T(0);
	}
	return a;
}
template <typename T> Matrix<T> dense(const vh::Ref<T>& a)
{
	Matrix<T> m(a.r, a.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j) m(i, j) = a(i, j);
	return m;
}
template <typename T> vh::Ref<T> undense(const Matrix<T>& m)
{
	vh::Ref<T> a(m.rows(), m.cols());
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j) a(i, j) = m(i, j);
	return a;
}
// validates structure and expands (summing, to catch duplicates)
template <typename T> vh::Ref<T> expand(Ctx& c, const CrsMatrix<T>& m, const char* what)
{
	vh::Ref<T> a(m.rows(), m.cols());
	c.count("structures checked");
	EXPECT(m.getRowPtr(0) == 0, std::string(what) + ":structure", "first row offset " << m.getRowPtr(0));
	long nnz = m.nonZeros();
	EXPECT(m.getRowPtr(m.rows()) == nnz, std::string(what) + ":structure", "last row offset " << m.getRowPtr(m.rows()) << " stored " << nnz);
	for (size_t i = 0; i < m.rows(); ++i) {
		long b = m.getRowPtr(i), e = m.getRowPtr(i + 1);
		EXPECT(b <= e && b >= 0 && e <= nnz, std::string(what) + ":structure", "row " << i << " offsets " << b << " " << e);
		std::map<int, int> seen;
		for (long k = b; k < e; ++k) {
			int col = m.getCol(k);
			EXPECT(col >= 0 && (size_t)col < m.cols(), std::string(what) + ":structure", "column " << col << " of " << m.cols());
			EXPECT(!seen[col]++, std::string(what) + ":structure", "column " << col << " twice in row " << i);
			a(i, col) += m.getValue(k);
		}
	}
	c.count("stored entries seen", nnz);
	return a;
}
template <typename T> void same(Ctx& c, const CrsMatrix<T>& m, const vh::Ref<T>& want, const char* what)
{
	vh::Ref<T> got = expand(c, m, what);
	double tol = 1e-10 * (1 + want.maxabs());
	EXPECT(got.r == want.r && got.c == want.c, std::string(what) + ":shape", "got " << got.r << "x" << got.c << " want " << want.r << "x" << want.c);
	double d = vh::dist(got, want);
	c.count("matrices compared");
	EXPECT(d <= tol, std::string(what) + ":value", "differs by " << d << " got " << vh::str(got) << " want " << vh::str(want));
}
template <typename T> CrsMatrix<T> buildRows(vh::Rng& r, const vh::Ref<T>& a, bool shuffled)
{
	CrsMatrix<T> m(a.r, a.c);
	size_t k = 0;
	for (size_t i = 0; i < a.r; ++i) {
		m.setRow(i, k);
		std::vector<size_t> cols;
		for (size_t j = 0; j < a.c; ++j)
			if (a(i, j) != T(0)) cols.push_back(j);
		if (shuffled)
			for (size_t q = cols.size(); q > 1; --q) std::swap(cols[q - 1], cols[r.range(0, q - 1)]);
		for (size_t j : cols) {
			m.pushCol(j);
			m.pushValue(a(i, j));
			++k;
		}
	}
	m.setRow(a.r, k);
	return m;
}
template <typename T> struct VerySparse {
	std::vector<size_t> r, c;
	std::vector<T> v;
	size_t nr, nc;
	bool s;
	bool sorted() const { return s; }
	size_t nonZeros() const { return v.size(); }
	size_t rows() const { return nr; }
	size_t cols() const { return nc; }
	size_t getRow(size_t i) const { return r[i]; }
	size_t getColumn(size_t i) const { return c[i]; }
	const T& getValue(size_t i) const { return v[i]; }
};
// contents that adding ones and subtracting them again would spoil
static bool small(double x) { return x < 1e-4 || x > 1e4; }
// one of several constructions of the same matrix
template <typename T> CrsMatrix<T> build(Ctx& c, const vh::Ref<T>& a)
{
	vh::Rng& r = c.rng;
	switch (r.range(0, 6)) {
	case 0: {
		CrsMatrix<T> m(dense(a));
		same(c, m, a, "ctor(dense)");
		return m;
	}
	case 1: {
		CrsMatrix<T> m;
		if (r.chance(0.5)) m = CrsMatrix<T>(dense(randRef<T>(r, 3, 4, 0.5, true)));
		fullMatrixToCrsMatrix(m, dense(a));
		same(c, m, a, "fullMatrixToCrsMatrix");
		return m;
	}
	case 2: {
		CrsMatrix<T> m(a.r, a.c);
		size_t k = 0;
		for (size_t i = 0; i < a.r; ++i) {
			m.setRow(i, k);
			SparseRow<CrsMatrix<T>> row;
			size_t nadd = 0;
			for (size_t j = 0; j < a.c; ++j) {
				size_t jj = a.c - 1 - j;
				if (a(i, jj) == T(0)) continue;
				T part = vh::RandVal<T>::getInt(r) * (small(a.maxabs()) ? a.d[r.range(0, a.d.size() - 1)] : T(1));
				if (r.chance(0.3)) {
					row.add(jj, a(i, jj) - part);
					row.add(jj, part);
				} else row.add(jj, a(i, jj));
				++nadd;
			}
			k += row.finalize(m);
		}
		m.setRow(a.r, k);
		same(c, m, a, "SparseRow");
		return m;
	}
	case 3: {
		CrsMatrix<T> m(a.r, a.c);
		SparseRowCached<CrsMatrix<T>> row(r.range(1, 3));
		size_t k = 0;
		for (size_t i = 0; i < a.r; ++i) {
			m.setRow(i, k);
			for (size_t j = 0; j < a.c; ++j) {
				if (a(i, j) == T(0)) continue;
				T part = vh::RandVal<T>::getInt(r) * (small(a.maxabs()) ? a.d[r.range(0, a.d.size() - 1)] : T(1));
				if (r.chance(0.3)) row.add(j, part);
				else part = 0;
				row.add(j, a(i, j) - part);
			}
			k += row.finalize(m);
		}
		m.setRow(a.r, k);
		same(c, m, a, "SparseRowCached");
		return m;
	}
	case 4: {
		if (a.r != a.c) break;
		VSize rows, cols;
		typename Vector<T>::Type vals;
		std::vector<std::pair<size_t, size_t>> e;
		for (size_t i = 0; i < a.r; ++i)
			for (size_t j = 0; j < a.c; ++j)
				if (a(i, j) != T(0)) e.push_back({ i, j });
		for (size_t q = e.size(); q > 1; --q) std::swap(e[q - 1], e[r.range(0, q - 1)]);
		for (auto& x : e) {
			rows.push_back(x.first);
			cols.push_back(x.second);
			vals.push_back(a(x.first, x.second));
		}
		CrsMatrix<T> m(a.r, rows, cols, vals);
		same(c, m, a, "ctor(triplets)");
		return m;
	}
	case 5: {
		VerySparse<T> v;
		v.nr = a.r;
		v.nc = a.c;
		v.s = true;
		for (size_t i = 0; i < a.r; ++i)
			for (size_t j = 0; j < a.c; ++j)
				if (a(i, j) != T(0)) {
					v.r.push_back(i);
					v.c.push_back(j);
					v.v.push_back(a(i, j));
				}
		CrsMatrix<T> m;
		if (r.chance(0.5)) m = CrsMatrix<T>(dense(randRef<T>(r, 2, 5, 0.7, true)));
		m = v;
		same(c, m, a, "assign(very sparse)");
		v.s = false;
		EXPECT(vh::throws([&]() { CrsMatrix<T> q; q = v; }), "unsorted accepted", "unsorted very sparse matrix accepted");
		return m;
	}
	}
	CrsMatrix<T> m = buildRows(r, a, true);
	same(c, m, a, "rows");
	return m;
}

template <typename T> void algebra(Ctx& c)
{
	vh::Rng& r = c.rng;
	bool ints = r.chance(0.5);
	size_t n = r.chance(0.1) ? r.range(1, 24) : r.dim(1, 7, 120), k = r.dim(1, 7, 120), m = r.dim(1, 7, 120);
	if (r.chance(0.4)) k = m = n;
	double da = r.real(0, 1), db = r.real(0, 1);
	vh::Ref<T> a = randRef<T>(r, n, k, da, ints), b = randRef<T>(r, k, m, db, ints);
	c.desc("A=" + vh::str(a) + " B=" + vh::str(b));
	CrsMatrix<T> A = build(c, a), B = build(c, b);
	c.nontrivial(c.seed * 1000003 + c.index);
	c.sample("A=" + vh::str(a) + " B=" + vh::str(b));
	// product, three ways
	CrsMatrix<T> C;
	if (r.chance(0.5)) C = A;
	multiply(C, A, B);
	same(c, C, vh::mul(a, b), "multiply");
	same(c, CrsMatrix<T>(A * B), vh::mul(a, b), "closure A*B");
	// multiplyTc
	{
		vh::Ref<T> d = randRef<T>(r, r.range(1, 6), k, db, ints);
		CrsMatrix<T> D = build(c, d);
		Matrix<T> got = multiplyTc(A, D);
		double e = vh::dist(undense(got), vh::mul(a, vh::adj(d)));
		EXPECT(e < 1e-9, "multiplyTc", "off by " << e);
	}
	// adjoint
	CrsMatrix<T> Ad;
	if (r.chance(0.5)) Ad = B;
	transposeConjugate(Ad, A);
	same(c, Ad, vh::adj(a), "transposeConjugate");
	{
		CrsMatrix<T> q = A;
		q.conjugate();
		vh::Ref<T> w = a;
		for (auto& x : w.d) x = vh::cconj(x);
		same(c, q, w, "conjugate");
	}
	// scalar
	T f = vh::RandVal<T>::getInt(r);
	{
		CrsMatrix<T> q = A;
		q *= f;
		same(c, q, vh::add(a, a, f, T(0)), "operator*=");
		CrsMatrix<T> w = B;
		w = f * A;
		same(c, w, vh::add(a, a, f, T(0)), "closure f*A");
		same(c, CrsMatrix<T>(f * A), vh::add(a, a, f, T(0)), "ctor closure f*A");
	}
	// sum of same-shape matrices
	vh::Ref<T> a2 = randRef<T>(r, n, k, db, ints);
	if (r.chance(0.3)) // force cancellations
		for (size_t i = 0; i < a.d.size(); ++i)
			if (r.chance(0.5)) a2.d[i] = -a.d[i];
	CrsMatrix<T> A2 = build(c, a2);
	{
		T g = r.chance(0.3) ? f : vh::RandVal<T>::getInt(r);
		T one = 1;
		CrsMatrix<T> S;
		if (r.chance(0.5)) S = B;
		operatorPlus(S, A, f, A2, g);
		same(c, S, vh::add(a, a2, f, g), "operatorPlus");
		operatorPlus(S, A, one, A2, one);
		same(c, S, vh::add(a, a2, T(1), T(1)), "operatorPlus(1,1)");
		std::vector<const CrsMatrix<T>*> mats { &A, &A2, &A };
		std::vector<T> fs { f, g, T(2) };
		vh::Ref<T> w = vh::add(vh::add(a, a2, f, g), a, T(1), T(2));
		CrsMatrix<T> S2;
		if (r.chance(0.5)) S2 = A;
		sum(S2, mats, fs);
		same(c, S2, w, "sum");
	}
	// sums of different shapes: the smaller one is padded with zeros
	if (n == k) {
		size_t n3 = r.dim(1, 8, 90);
		vh::Ref<T> s = randRef<T>(r, n3, n3, db, ints);
		CrsMatrix<T> S = build(c, s), Q = A;
		size_t nn = std::max(n, n3);
		vh::Ref<T> w(nn, nn);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) w(i, j) += a(i, j);
		vh::Ref<T> w2 = w, w3 = w;
		for (size_t i = 0; i < n3; ++i)
			for (size_t j = 0; j < n3; ++j) {
				w(i, j) += s(i, j);
				w2(i, j) += f * s(i, j);
			}
		Q += S;
		same(c, Q, w, "operator+=");
		Q = A;
		Q += f * S;
		same(c, Q, w2, "operator+= f*S");
		// A += f*S*S
		vh::Ref<T> ss = vh::mul(s, s);
		for (size_t i = 0; i < n3; ++i)
			for (size_t j = 0; j < n3; ++j) w3(i, j) += f * ss(i, j);
		Q = A;
		Q += f * S * S;
		same(c, Q, w3, "operator+= f*S*S");
		// destination among the operands
		Q = A;
		Q += Q;
		same(c, Q, vh::add(a, a, T(1), T(1)), "A+=A");
		// padding in operatorPlus for rectangular
		std::vector<const CrsMatrix<T>*> mats { &A, &S };
		std::vector<T> fs { T(1), f };
		CrsMatrix<T> S2;
		sum(S2, mats, fs);
		same(c, S2, w2, "sum of different ranks");
		// insertion of a block
		size_t off = r.range(0, 4), extra = r.range(0, 3);
		CrsMatrix<T> full(n + off + extra, n + off + extra);
		fromBlockToFull(full, A, off);
		vh::Ref<T> wf(n + off + extra, n + off + extra);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) wf(i + off, j + off) = a(i, j);
		same(c, full, wf, "fromBlockToFull");
		// matrix-vector product accumulates
		typename Vector<T>::Type x(n), y(n);
		for (auto& t : x) t = vh::RandVal<T>::get(r);
		for (auto& t : y) t = vh::RandVal<T>::get(r);
		typename Vector<T>::Type x0 = x;
		A.matrixVectorProduct(x, y);
		for (size_t i = 0; i < n; ++i) {
			T e = x0[i];
			for (size_t j = 0; j < n; ++j) e += a(i, j) * y[j];
			EXPECT(vh::close(e, x[i], 1e-9), "matrixVectorProduct", "row " << i << " got " << x[i] << " want " << e);
		}
		// predicates
		vh::Ref<T> h = a, ah = a;
		vh::Ref<T> ad = vh::adj(a);
		h = vh::add(a, ad, T(1), T(1));
		ah = vh::add(a, ad, T(1), T(-1));
		CrsMatrix<T> H(dense(h)), AH(dense(ah));
		EXPECT(isHermitian(H), "isHermitian", "A+A^dagger not Hermitian");
		EXPECT(isAntiHermitian(AH), "isAntiHermitian", "A-A^dagger not anti-Hermitian");
		bool herm = vh::dist(a, ad) == 0;
		EXPECT(!ints || isHermitian(A) == herm, "isHermitian", "wrong answer for " << vh::str(a));
		bool aherm = vh::dist(a, vh::add(ad, ad, T(-1), T(0))) == 0;
		EXPECT(!ints || isAntiHermitian(A) == aherm, "isAntiHermitian", "wrong answer for " << vh::str(a));
		if (ints) {
			bool dg = true, id = true;
			for (size_t i = 0; i < n; ++i)
				for (size_t j = 0; j < n; ++j) {
					if (i != j && a(i, j) != T(0)) dg = id = false;
					if (i == j && a(i, j) != T(1)) id = false;
				}
			EXPECT(isDiagonal(A) == dg, "isDiagonal", "wrong for " << vh::str(a));
			EXPECT(isTheIdentity(A) == id, "isTheIdentity", "wrong for " << vh::str(a));
		}
	} else {
		EXPECT(!isHermitian(A) && !isDiagonal(A) && !isAntiHermitian(A), "rectangular predicate", "rectangular matrix accepted");
	}
	// filling slot by slot: a structure of known size, or one that grows
	{
		CrsMatrix<T> X = r.chance(0.5) ? build(c, b) : CrsMatrix<T>();
		size_t nz = A.nonZeros();
		bool grow = r.chance(0.5);
		if (grow) {
			X.resize(n, k);
			X.reserve(r.range(0, nz + 3));
		} else {
			X.resize(n, k, nz);
		}
		size_t at = 0;
		for (size_t i = 0; i < n; ++i) {
			X.setRow(i, at);
			for (int q = A.getRowPtr(i); q < A.getRowPtr(i + 1); ++q, ++at) {
				if (grow) {
					X.setCol_check(at, A.getCol(q));
					X.setValues_check(at, r.chance(0.2) ? T(77) : A.getValue(q));
					X.setValues_check(at, A.getValue(q));
				} else {
					X.setCol(at, A.getCol(q));
					X.setValues(at, A.getValue(q));
				}
			}
		}
		X.setRow(n, at);
		same(c, X, a, grow ? "growing slots" : "known slots");
		EXPECT(size_t(X.nonZero()) == nz && X == A, "growing slots", "differs from the original");
	}
	// insertion into a larger rectangle, and the printed dense form
	{
		size_t off = r.range(0, 4), er = r.range(0, 3), ec = r.range(0, 3);
		CrsMatrix<T> full(n + off + er, k + off + ec);
		fromBlockToFull(full, A, off);
		vh::Ref<T> wf(n + off + er, k + off + ec);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < k; ++j) wf(i + off, j + off) = a(i, j);
		same(c, full, wf, "fromBlockToFull(rectangle)");
		std::ostringstream os, title, body[3];
		title << "--------->   A rank=" << n << "x" << k << " <----------";
		Matrix<T> m = dense(a);
		m.print(body[0], 1e-20);
		mathematicaPrint(body[1], m);
		size_t how = r.range(0, 1);
		std::streambuf* keep = std::cout.rdbuf(os.rdbuf());
		std::streamsize pr = std::cout.precision(6);
		printFullMatrix(A, "A", how);
		std::cout.precision(pr);
		std::cout.rdbuf(keep);
		EXPECT(os.str() == title.str() + "\n" + body[how].str(), "printFullMatrix", "form " << how << " printed " << os.str());
	}
	// v2 = A*v1 overwrites
	{
		typename Vector<T>::Type v1(k), v2(r.range(0, 5), T(7));
		for (auto& t : v1) t = vh::RandVal<T>::get(r);
		multiply(v2, A, v1);
		EXPECT(v2.size() == n, "multiply(v,A,v)", "size " << v2.size());
		for (size_t i = 0; i < n; ++i) {
			T e = 0;
			for (size_t j = 0; j < k; ++j) e += a(i, j) * v1[j];
			EXPECT(vh::close(e, v2[i], 1e-9), "multiply(v,A,v)", "row " << i);
		}
	}
	// conversion into a destination that has contents
	{
		Matrix<T> m1 = A.toDense(), m2;
		EXPECT(vh::dist(undense(m1), a) < 1e-12, "toDense", "differs");
		m2 = dense(randRef<T>(r, n, k, 1, true));
		crsMatrixToFullMatrix(m2, A);
		EXPECT(vh::dist(undense(m2), a) < 1e-12, "crsMatrixToFullMatrix", "differs");
		Matrix<T> m3(r.range(1, 5), r.range(1, 5));
		m3.setTo(T(9));
		crsMatrixToFullMatrix(m3, A);
		EXPECT(vh::dist(undense(m3), a) < 1e-12, "crsMatrixToFullMatrix(other shape)", "differs");
	}
	// norm, zero, equality, swap
	{
		double w = 0;
		for (auto& x : a.d) w += vh::cabs1(x) * vh::cabs1(x);
		EXPECT(std::fabs(norm2(A) - w) < 1e-9 * (1 + w), "norm2", "got " << norm2(A) << " want " << w);
		EXPECT(isZero(A) == (a.maxabs() == 0), "isZero", "wrong");
		CrsMatrix<T> q(A), w2(B);
		EXPECT(q == A, "operator==", "copy differs");
		q.swap(w2);
		same(c, q, b, "swap");
		same(c, w2, a, "swap");
		if (a.maxabs() > 0) {
			q = A;
			q *= T(2);
			EXPECT(!(q == A), "operator==", "2A == A");
		}
		CrsMatrix<T> dgm = A;
		dgm.makeDiagonal(m, f);
		vh::Ref<T> wd(m, m);
		for (size_t i = 0; i < m; ++i) wd(i, i) = f;
		same(c, dgm, wd, "makeDiagonal");
	}
	// text round trip
	{
		std::ostringstream os;
		os.precision(17);
		os << A;
		std::istringstream is(os.str());
		CrsMatrix<T> q;
		if (r.chance(0.5)) q = B;
		is >> q;
		same(c, q, a, "text round trip");
	}
	// operands untouched
	same(c, A, a, "operand A afterwards");
	same(c, B, b, "operand B afterwards");
}
FAMILY(algebra_double, 6000, 150000) { algebra<double>(c); }
FAMILY(algebra_complex, 6000, 150000) { algebra<cplx>(c); }

template <typename T> void kron(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t na = r.dim(1, 5, 16), nb = r.dim(1, 5, 16);
	vh::Ref<T> a = randRef<T>(r, na, na, r.real(0, 1), true), b = randRef<T>(r, nb, nb, r.real(0, 1), true);
	CrsMatrix<T> A = build(c, a), B = build(c, b);
	size_t n = na * nb;
	VSize perm(n);
	for (size_t i = 0; i < n; ++i) perm[i] = i;
	if (r.chance(0.7))
		for (size_t q = n; q > 1; --q) std::swap(perm[q - 1], perm[r.range(0, q - 1)]);
	bool order = r.chance(0.5);
	bool withSigns = r.chance(0.7);
	size_t nfast = order ? na : nb;
	typename Vector<double>::Type signs(nfast, 1.0);
	if (withSigns)
		for (auto& x : signs) x = r.chance(0.5) ? -1 : 1;
	c.desc("kron A=" + vh::str(a) + " B=" + vh::str(b) + " order=" + std::to_string(order));
	c.sample("kron A=" + vh::str(a) + " B=" + vh::str(b) + " order=" + std::to_string(order));
	c.nontrivial(c.index * 7919 + 13);
	// two-operator product
	vh::Ref<T> w(n, n);
	const vh::Ref<T>& fast = order ? a : b;
	const vh::Ref<T>& slow = order ? b : a;
	for (size_t i1 = 0; i1 < fast.r; ++i1)
		for (size_t j1 = 0; j1 < slow.r; ++j1)
			for (size_t i2 = 0; i2 < fast.r; ++i2)
				for (size_t j2 = 0; j2 < slow.r; ++j2)
					w(perm[i1 + j1 * nfast], perm[i2 + j2 * nfast]) = fast(i1, i2) * slow(j1, j2) * T(signs[i1]);
	CrsMatrix<T> C;
	if (r.chance(0.5)) C = A;
	externalProduct(C, A, B, signs, order, perm);
	same(c, C, w, "externalProduct(A,B)");
	// with the identity
	typename Vector<double>::Type signs2(nb, 1.0);
	if (withSigns)
		for (auto& x : signs2) x = r.chance(0.5) ? -1 : 1;
	vh::Ref<T> w2(n, n);
	for (size_t ia = 0; ia < na; ++ia)
		for (size_t ja = 0; ja < na; ++ja)
			for (size_t e = 0; e < nb; ++e) {
				if (order) w2(perm[ia + e * na], perm[ja + e * na]) = a(ia, ja);
				else w2(perm[e + ia * nb], perm[e + ja * nb]) = a(ia, ja) * T(signs2[e]);
			}
	CrsMatrix<T> D;
	if (r.chance(0.5)) D = B;
	externalProduct(D, A, nb, signs2, order, perm);
	same(c, D, w2, "externalProduct(A,identity)");
	// rectangular operators are refused
	if (c.index % 4 == 0) {
		CrsMatrix<T> R(dense(randRef<T>(r, 2, 3, 1, true))), O;
		VSize p6(60);
		for (size_t i = 0; i < 60; ++i) p6[i] = i;
		EXPECT(vh::throws([&]() { externalProduct(O, R, 2, signs2, order, p6); }), "rectangular accepted", "no error");
	}
}
FAMILY(kron_double, 4000, 100000) { kron<double>(c); }
FAMILY(kron_complex, 4000, 100000) { kron<cplx>(c); }

FAMILY(sample_matrix, 600, 8000)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 12), nz = r.range(0, 30), seed = r.range(1, 100000);
	double mx = r.real(0.5, 4);
	SampleCRSMatrix<double> m(n, seed, nz, mx);
	// same draws
	srand48(seed);
	vh::Ref<double> w(n, n);
	for (size_t i = 0; i < nz; ++i) {
		size_t row = size_t(drand48() * n), col = size_t(drand48() * n);
		w(row, col) += drand48() * mx;
	}
	c.nontrivial(seed * 64 + n);
	EXPECT(m.getRowPtr(0) == 0 && m.getRowPtr(n) == nz, "sample:structure", "offsets " << m.getRowPtr(0) << " " << m.getRowPtr(n) << " nz " << nz);
	vh::Ref<double> g(n, n);
	for (size_t i = 0; i < n; ++i) {
		EXPECT(m.getRowPtr(i) <= m.getRowPtr(i + 1), "sample:structure", "decreasing");
		for (size_t k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k) g(i, m.getCol(k)) += m.getValues(k);
	}
	EXPECT(vh::dist(g, w) < 1e-12, "sample:value", "off " << vh::dist(g, w));
	std::vector<double> x(n), y(n), x0;
	for (auto& t : x) t = r.real(-1, 1);
	for (auto& t : y) t = r.real(-1, 1);
	x0 = x;
	m.matrixVectorProduct(x, y);
	for (size_t i = 0; i < n; ++i) {
		double e = x0[i];
		for (size_t j = 0; j < n; ++j) e += w(i, j) * y[j];
		EXPECT(std::fabs(e - x[i]) < 1e-10, "sample:product", "row " << i);
	}
	std::stringstream io;
	io.precision(17);
	m.save(io);
	SampleCRSMatrix<double> m2(io);
	std::vector<double> x2 = x0;
	m2.matrixVectorProduct(x2, y);
	for (size_t i = 0; i < n; ++i) EXPECT(std::fabs(x2[i] - x[i]) < 1e-12, "sample:reload", "row " << i);
	// the same matrix put together row by row
	SampleCRSMatrix<double> m3(n);
	size_t at = 0;
	for (size_t i = 0; i < n; ++i) {
		m3.setRow(i, at);
		for (size_t k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k, ++at) {
			m3.pushCol(m.getCol(k));
			m3.pushValue(m.getValues(k));
		}
	}
	m3.setRow(n, at);
	x2 = x0;
	m3.matrixVectorProduct(x2, y);
	for (size_t i = 0; i < n; ++i) EXPECT(x2[i] == x[i] && m3.rank() == n, "sample:by rows", "row " << i);
	SparseRow<CrsMatrix<double>> row;
	SparseRowCached<CrsMatrix<double>> rowc(1);
	double want = 0;
	for (size_t q = 0; q < nz; ++q) {
		size_t col = r.range(0, n - 1);
		double v = r.real(-1, 1);
		row.add(col, v);
		rowc.add(col, v);
		want += v * y[col];
	}
	EXPECT(std::fabs(row.matrixVectorProduct(y) - want) < 1e-10, "row product", "SparseRow");
	EXPECT(std::fabs(row.finalize(y) - want) < 1e-10, "row product", "SparseRow finalize");
	EXPECT(std::fabs(rowc.matrixVectorProduct(y) - want) < 1e-10, "row product", "SparseRowCached");
	EXPECT(rowc.matrixVectorProduct(y) == 0, "row product", "SparseRowCached not reset");
}

// a history of mixed operations on one sparse matrix, mirrored densely
template <typename T> void history(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.dim(1, 8, 70);
	vh::Ref<T> a = randRef<T>(r, n, n, r.real(0, 1), true);
	CrsMatrix<T> A = build(c, a);
	std::string h;
	int steps = r.range(3, 10);
	for (int s = 0; s < steps; ++s) {
		vh::Ref<T> b = randRef<T>(r, n, n, r.real(0, 0.6), true);
		CrsMatrix<T> B = build(c, b), C;
		T f = vh::RandVal<T>::getInt(r);
		int op = r.range(0, 6);
		h += std::to_string(op);
		c.desc("history " + h);
		switch (op) {
		case 0: A += B; a = vh::add(a, b, T(1), T(1)); break;
		case 1: A += f * B; a = vh::add(a, b, T(1), f); break;
		case 2: A *= T(-1); a = vh::add(a, a, T(-1), T(0)); break;
		case 3: transposeConjugate(C, A); A.swap(C); a = vh::adj(a); break;
		case 4:
			if (a.maxabs() > 1e6) break;
			multiply(C, A, B);
			A = C;
			a = vh::mul(a, b);
			break;
		case 5: A += f * B * B; a = vh::add(a, vh::mul(b, b), T(1), f); break;
		case 6: A.conjugate(); for (auto& x : a.d) x = vh::cconj(x); break;
		}
		same(c, A, a, "history");
	}
	c.nontrivial(h + vh::str(a));
	c.sample("ops " + h + " -> " + vh::str(a));
}
FAMILY(history_double, 2000, 50000) { history<double>(c); }
FAMILY(history_complex, 2000, 50000) { history<cplx>(c); }

// exact: nothing is lost because it is small or gained because it is large
template <typename T> void exact(Ctx& c, const CrsMatrix<T>& m, const vh::Ref<T>& want, const char* what)
{
	vh::Ref<T> got = expand(c, m, what);
	EXPECT(got.r == want.r && got.c == want.c && got.d == want.d, std::string(what) + ":exact", "got " << vh::str(got) << " want " << vh::str(want));
	c.count("exact results");
}
template <typename T> void scaled(Ctx& c)
{
	vh::Rng& r = c.rng;
	double s = std::ldexp(1., r.chance(0.5) ? r.range(-200, -20) : r.range(0, 200));
	size_t n = r.dim(1, 7, 60), k = r.chance(0.5) ? n : r.dim(1, 7, 60);
	auto shrink = [&](vh::Ref<T> x) {
		for (auto& y : x.d) y *= s * (r.chance(0.1) ? 0.03125 : 1);
		return x;
	};
	vh::Ref<T> a = shrink(randRef<T>(r, n, k, r.real(0, 1), true)), b = shrink(randRef<T>(r, k, n, r.real(0, 1), true)), a2 = shrink(randRef<T>(r, n, k, r.real(0, 1), true));
	for (size_t i = 0; i < a.d.size(); ++i)
		if (r.chance(0.2)) a2.d[i] = -a.d[i];
	c.desc("scale " + std::to_string(std::ilogb(s)) + " A=" + vh::str(a) + " B=" + vh::str(b));
	c.nontrivial(c.seed * 1000003 + c.index);
	CrsMatrix<T> A = build(c, a), A2 = build(c, a2), B = build(c, b), C;
	exact(c, A, a, "construction");
	multiply(C, A, B);
	exact(c, C, vh::mul(a, b), "multiply");
	transposeConjugate(C, A);
	exact(c, C, vh::adj(a), "transposeConjugate");
	T one = 1, two = 2;
	operatorPlus(C, A, two, A2, one);
	exact(c, C, vh::add(a, a2, two, one), "operatorPlus");
	std::vector<const CrsMatrix<T>*> mats { &A, &A2 };
	std::vector<T> fs { one, two };
	sum(C, mats, fs);
	exact(c, C, vh::add(a, a2, one, two), "sum");
	exact(c, CrsMatrix<T>(two * A), vh::add(a, a, one, one), "scalar");
	std::ostringstream os;
	os.precision(17);
	os << A;
	std::istringstream is(os.str());
	is >> C;
	exact(c, C, a, "text");
	exact(c, CrsMatrix<T>(A.toDense()), a, "toDense");
	EXPECT(isZero(A) == (a.maxabs() == 0), "isZero", "wrong for " << vh::str(a));
	double w = 0;
	for (auto& x : a.d) w += vh::cabs1(x) * vh::cabs1(x);
	EXPECT(std::fabs(norm2(A) - w) <= 1e-12 * w, "norm2", "got " << norm2(A) << " want " << w);
	typename Vector<T>::Type y(k), x;
	for (auto& t : y) t = vh::RandVal<T>::getInt(r);
	multiply(x, A, y);
	for (size_t i = 0; i < n; ++i) {
		T e = 0;
		for (size_t j = 0; j < k; ++j) e += a(i, j) * y[j];
		EXPECT(e == x[i], "multiply(v,A,v)", "row " << i << " got " << x[i] << " want " << e);
	}
}
FAMILY(scaled_double, 1200, 20000) { scaled<double>(c); }
FAMILY(scaled_complex, 1200, 20000) { scaled<cplx>(c); }

// predicates and equality, with entries in any order and entries that are stored but negligible
template <typename T> void predicates(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 4);
	bool diag = true, id = true;
	vh::Ref<T> a(n, n);
	double none = r.real(0, 1);
	CrsMatrix<T> A(n, n);
	size_t k = 0;
	for (size_t i = 0; i < n; ++i) {
		std::vector<size_t> cols(n);
		for (size_t j = 0; j < n; ++j) cols[j] = j;
		for (size_t q = n; q > 1; --q) std::swap(cols[q - 1], cols[r.range(0, q - 1)]);
		A.setRow(i, k);
		for (size_t j : cols) {
			T v = i == j ? (r.chance(0.8) ? T(1) : vh::RandVal<T>::getInt(r)) : T(0);
			if (i != j && r.chance(0.5)) v = r.chance(none) ? T(r.chance(0.5) ? 0 : 1e-9) : vh::RandVal<T>::getInt(r);
			a(i, j) = v;
			if (i != j && vh::cabs1(v) > 1e-3) diag = false;
			if (i == j && vh::cabs1(v - T(1)) > 1e-3) id = false;
			if (v == T(0) && r.chance(0.5)) continue;
			A.pushCol(j), A.pushValue(v), ++k;
		}
	}
	A.setRow(n, k);
	c.desc("predicates of " + vh::str(a));
	c.nontrivial(c.seed * 1000003 + c.index);
	same(c, A, a, "stored negligible entries");
	EXPECT(isDiagonal(A) == diag, "isDiagonal", "wrong for " << vh::str(a));
	EXPECT(isTheIdentity(A) == (diag && id), "isTheIdentity", "wrong for " << vh::str(a));
	EXPECT(isZero(A, 1e-3) == (a.maxabs() < 1e-3), "isZero", "wrong for " << vh::str(a));
	// equality of two small matrices whose entries have the same columns or values but other rows, now and then
	size_t n1 = r.range(1, 3), m1 = r.range(1, 3), n2 = r.chance(0.8) ? n1 : r.range(1, 3), m2 = r.chance(0.8) ? m1 : r.range(1, 3);
	vh::Ref<T> x(n1, m1), y(n2, m2);
	for (auto& t : x.d) t = r.chance(0.4) ? T(1) : T(0);
	for (auto& t : y.d) t = r.chance(0.4) ? T(1) : T(0);
	bool eq = n1 == n2 && m1 == m2 && x.d == y.d;
	EXPECT((CrsMatrix<T>(dense(x)) == CrsMatrix<T>(dense(y))) == eq, "operator==", vh::str(x) << " and " << vh::str(y));
	c.count("predicates compared", 4);
}
FAMILY(predicates_double, 3000, 40000) { predicates<double>(c); }
FAMILY(predicates_complex, 1500, 20000) { predicates<cplx>(c); }

// more entries than small counters can count: in a row, in a column and in all
FAMILY(large, 8, 60)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(257, 300), m = r.range(257, 290);
	double da = r.chance(0.6) ? 1 : r.real(0.3, 1);
	vh::Ref<double> a = randRef<double>(r, n, m, da, true), b = randRef<double>(r, m, n, r.chance(0.3) ? 1 : 0.1, true), a2 = randRef<double>(r, n, m, r.real(0, 1), true);
	c.desc("large " + std::to_string(n) + "x" + std::to_string(m) + " density " + std::to_string(da));
	c.nontrivial(c.seed * 1000003 + c.index);
	CrsMatrix<double> A = r.chance(0.5) ? CrsMatrix<double>(dense(a)) : buildRows(r, a, true), B(dense(b)), A2 = buildRows(r, a2, true), C;
	auto check = [&](const CrsMatrix<double>& M, const vh::Ref<double>& w, const char* what) {
		vh::Ref<double> g = expand(c, M, what);
		EXPECT(g.r == w.r && g.c == w.c && g.d == w.d, std::string(what) + ":large", "differs by " << vh::dist(g, w));
		c.count("large results");
	};
	multiply(C, A, B);
	check(C, vh::mul(a, b), "multiply");
	transposeConjugate(C, A);
	check(C, vh::adj(a), "transposeConjugate");
	double one = 1, two = 2;
	operatorPlus(C, A, two, A2, one);
	check(C, vh::add(a, a2, two, one), "operatorPlus");
	std::vector<const CrsMatrix<double>*> mats { &A, &A2 };
	std::vector<double> fs { one, two };
	sum(C, mats, fs);
	check(C, vh::add(a, a2, one, two), "sum");
	std::ostringstream os;
	os << A;
	std::istringstream is(os.str());
	is >> C;
	check(C, a, "text");
	check(CrsMatrix<double>(A.toDense()), a, "toDense");
	size_t off = r.range(0, 9);
	CrsMatrix<double> F(n + off, m + off);
	fromBlockToFull(F, A, off);
	vh::Ref<double> wf(n + off, m + off);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) wf(i + off, j + off) = a(i, j);
	check(F, wf, "fromBlockToFull");
}
