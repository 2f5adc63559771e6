#include "Matrix.h"
#include "MatrixNonOwned.h"
#include "Vector.h"
#include "vh.h"
#include <fcntl.h>
#include <fstream>
#include <map>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> cplx;
typedef vh::Ctx Ctx;

template <typename T> vh::Ref<T> rnd(vh::Rng& r, size_t n, size_t m, bool ints)
{
	vh::Ref<T> a(n, m);
	for (auto& x : a.d) x = ints ? vh::RandVal<T>::getInt(r) : vh::RandVal<T>::get(r);
	return a;
}
template <typename T> Matrix<T> dense(const vh::Ref<T>& a)
{
	Matrix<T> m(a.r, a.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j) m(i, j) = a(i, j);
	return m;
}
template <typename T> void same(Ctx& c, const Matrix<T>& m, const vh::Ref<T>& w, const char* what)
{
	EXPECT(m.rows() == w.r && m.cols() == w.c, std::string(what) + ":shape", m.rows() << "x" << m.cols() << " want " << w.r << "x" << w.c);
	EXPECT(m.data().size() == w.r * w.c, std::string(what) + ":storage", m.data().size() << " want " << w.r * w.c);
	double d = 0;
	for (size_t i = 0; i < w.r; ++i)
		for (size_t j = 0; j < w.c; ++j) {
			double e = vh::cabs1(m(i, j) - w(i, j));
			if (!(e <= d)) d = e == e ? e : 1e300;
			// column major storage is part of the interface (BLAS, data())
			EXPECT(m.data()[i + j * w.r] == m(i, j), std::string(what) + ":layout", "at " << i << "," << j);
		}
	c.count("matrices compared");
	EXPECT(d <= 1e-10 * (1 + w.maxabs()), std::string(what) + ":value", "differs by " << d << " want " << vh::str(w));
}
template <typename T> void sameV(Ctx& c, const std::vector<T>& v, const std::vector<T>& w, const char* what)
{
	c.count("vectors compared");
	EXPECT(v.size() == w.size(), std::string(what) + ":size", v.size() << " want " << w.size());
	for (size_t i = 0; i < w.size(); ++i) EXPECT(vh::close(v[i], w[i], 1e-10 * (1 + vh::cabs1(w[i]))), std::string(what) + ":value", "at " << i << " got " << v[i] << " want " << w[i]);
}

template <typename T> void expressions(Ctx& c)
{
	typedef typename Real<T>::Type R;
	vh::Rng& r = c.rng;
	bool ints = r.chance(0.4);
	size_t n = r.range(1, 6), m = r.range(1, 6), k = r.range(1, 6);
	if (r.chance(0.3)) m = k = n;
	vh::Ref<T> a = rnd<T>(r, n, m, ints), b = rnd<T>(r, n, m, ints), d = rnd<T>(r, m, k, ints);
	Matrix<T> A = dense(a), B = dense(b), D = dense(d);
	T f = vh::RandVal<T>::getInt(r);
	R g = r.range(-3, 3);
	c.desc("A=" + vh::str(a) + " B=" + vh::str(b) + " D=" + vh::str(d));
	c.sample("A=" + vh::str(a) + " B=" + vh::str(b) + " D=" + vh::str(d));
	c.nontrivial(c.index * 31 + 1);
	auto fresh = [&]() { // a destination with arbitrary previous contents
		switch (r.range(0, 2)) {
		case 0: return Matrix<T>();
		case 1: return dense(rnd<T>(r, r.range(1, 4), r.range(1, 4), true));
		default: return dense(rnd<T>(r, n, m, true));
		}
	};
	{ Matrix<T> X = fresh(); X = A + B; same(c, X, vh::add(a, b, T(1), T(1)), "A+B"); }
	{ Matrix<T> X = fresh(); X = A - B; same(c, X, vh::add(a, b, T(1), T(-1)), "A-B"); }
	{ Matrix<T> X = fresh(); X = f * A; same(c, X, vh::add(a, a, f, T(0)), "f*A"); }
	{ Matrix<T> X = fresh(); X = A * f; same(c, X, vh::add(a, a, f, T(0)), "A*f"); }
	{ Matrix<T> X = fresh(); X = f * (A + B); same(c, X, vh::add(a, b, f, f), "f*(A+B)"); }
	{ Matrix<T> X = fresh(); X = f * (A - B); same(c, X, vh::add(a, b, f, -f), "f*(A-B)"); }
	{ Matrix<T> X = fresh(); X = A + f * B; same(c, X, vh::add(a, b, T(1), f), "A+f*B"); }
	{ Matrix<T> X = fresh(); X = f * A + B; same(c, X, vh::add(a, b, f, T(1)), "f*A+B"); }
	{ Matrix<T> X = fresh(); X = A * D; same(c, X, vh::mul(a, d), "A*D"); }
	{ Matrix<T> X = A * D; same(c, X, vh::mul(a, d), "ctor A*D"); }
	{ Matrix<T> X = fresh(); X = f * A * D; vh::Ref<T> w = vh::mul(a, d); same(c, X, vh::add(w, w, f, T(0)), "f*A*D"); }
	{ Matrix<T> X; X += f * A; same(c, X, vh::add(a, a, f, T(0)), "empty+=f*A"); }
	{ Matrix<T> X = B; X += f * A; same(c, X, vh::add(b, a, T(1), f), "B+=f*A"); }
	{ Matrix<T> X = B; X += A * f; same(c, X, vh::add(b, a, T(1), f), "B+=A*f"); }
	{ Matrix<T> X = B; X += A; same(c, X, vh::add(b, a, T(1), T(1)), "B+=A"); }
	{ Matrix<T> X = B; X -= A; same(c, X, vh::add(b, a, T(1), T(-1)), "B-=A"); }
	{ Matrix<T> X = B; X *= f; same(c, X, vh::add(b, a, f, T(0)), "B*=f"); }
	// destination among the operands
	{ Matrix<T> X = A; X = X + B; same(c, X, vh::add(a, b, T(1), T(1)), "A=A+B"); }
	{ Matrix<T> X = A; X = B + X; same(c, X, vh::add(a, b, T(1), T(1)), "A=B+A"); }
	{ Matrix<T> X = A; X = X - B; same(c, X, vh::add(a, b, T(1), T(-1)), "A=A-B"); }
	{ Matrix<T> X = A; X = B - X; same(c, X, vh::add(a, b, T(-1), T(1)), "A=B-A"); }
	{ Matrix<T> X = A; X = f * X; same(c, X, vh::add(a, a, f, T(0)), "A=f*A"); }
	{ Matrix<T> X = A; X = X + f * X; same(c, X, vh::add(a, a, T(1), f), "A=A+f*A"); }
	{ Matrix<T> X = A; X = f * X + B; same(c, X, vh::add(a, b, f, T(1)), "A=f*A+B"); }
	{ Matrix<T> X = A; X = B + f * X; same(c, X, vh::add(a, b, f, T(1)), "A=B+f*A"); }
	{ Matrix<T> X = A; X = f * (X + B); same(c, X, vh::add(a, b, f, f), "A=f*(A+B)"); }
	{ Matrix<T> X = A; X = f * (B - X); same(c, X, vh::add(a, b, -f, f), "A=f*(B-A)"); }
	{ Matrix<T> X = A; X = X * D; same(c, X, vh::mul(a, d), "A=A*D"); }
	{ Matrix<T> X = D; X = A * X; same(c, X, vh::mul(a, d), "D=A*D"); }
	{ Matrix<T> X = D; X = f * A * X; vh::Ref<T> w = vh::mul(a, d); same(c, X, vh::add(w, w, f, T(0)), "D=f*A*D"); }
	if (n == m) {
		{ Matrix<T> X = A; X = X * X; same(c, X, vh::mul(a, a), "A=A*A"); }
		{ Matrix<T> X = A; X = f * X * X; vh::Ref<T> w = vh::mul(a, a); same(c, X, vh::add(w, w, f, T(0)), "A=f*A*A"); }
		{ Matrix<T> X = A; X += X; same(c, X, vh::add(a, a, T(1), T(1)), "A+=A"); }
		{ Matrix<T> X = A; X += f * X; same(c, X, vh::add(a, a, T(1), f), "A+=f*A"); }
		{ Matrix<T> X = A; X -= X; same(c, X, vh::add(a, a, T(0), T(0)), "A-=A"); }
	}
	// mixed real scalar and complex matrix
	if (vh::IsCplx<T>::value) {
		Matrix<T> X = fresh();
		X = g * A;
		same(c, X, vh::add(a, a, T(g), T(0)), "real*A");
		X = B;
		X += g * A;
		same(c, X, vh::add(b, a, T(1), T(g)), "B+=real*A");
	}
	// matrix * vector and vector * matrix
	{
		std::vector<T> x(m), y(n), z(r.range(0, 3), T(5)), w(n, T(0)), w2(m, T(0));
		for (auto& t : x) t = vh::RandVal<T>::get(r);
		for (auto& t : y) t = vh::RandVal<T>::get(r);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j) {
				w[i] += a(i, j) * x[j];
				w2[j] += y[i] * a(i, j);
			}
		z <= A* x;
		sameV(c, z, w, "A*x");
		z <= y* A;
		sameV(c, z, w2, "y*A");
	}
	// free functions
	{
		Matrix<T> X;
		transposeConjugate(X, A);
		same(c, X, vh::adj(a), "transposeConjugate(B,A)");
		same(c, transposeConjugate(A), vh::adj(a), "transposeConjugate(A)");
		Matrix<T> Y;
		transpose(Y, A);
		same(c, Y, vh::tr(a), "transpose");
		Matrix<T> Z = A;
		Z.conjugate();
		vh::Ref<T> w = a;
		for (auto& t : w.d) t = vh::cconj(t);
		same(c, Z, w, "conjugate");
		Matrix<T> O;
		outerProduct(O, A, D);
		vh::Ref<T> o(n * m, m * k);
		for (size_t i1 = 0; i1 < n; ++i1)
			for (size_t j1 = 0; j1 < m; ++j1)
				for (size_t i2 = 0; i2 < m; ++i2)
					for (size_t j2 = 0; j2 < k; ++j2) o(i1 + i2 * n, j1 + j2 * m) = a(i1, j1) * d(i2, j2);
		same(c, O, o, "outerProduct");
		double nn = 0;
		size_t nz = 0;
		for (auto& t : a.d) {
			nn += vh::cabs1(t) * vh::cabs1(t);
			if (t != T(0)) ++nz;
		}
		EXPECT(std::fabs(norm2(A) - nn) < 1e-9 * (1 + nn), "norm2", norm2(A) << " want " << nn);
		EXPECT(A.nonZeros() == nz, "nonZeros", A.nonZeros() << " want " << nz);
		EXPECT(isZero(A) == (a.maxabs() == 0), "isZero", "wrong");
		Matrix<T> zero(n, m);
		EXPECT(isZero(zero), "isZero", "fresh matrix is not zero");
		zero(r.range(0, n - 1), r.range(0, m - 1)) = T(1e-3);
		EXPECT(!isZero(zero), "isZero", "one entry set");
	}
	if (n == m) {
		vh::Ref<T> tt = rnd<T>(r, n, k, ints);
		Matrix<T> X = A;
		rotate(X, dense(tt));
		same(c, X, vh::mul(vh::adj(tt), vh::mul(a, tt)), "rotate");
		same(c, multiplyTransposeConjugate(A, B), vh::mul(vh::adj(a), b), "multiplyTransposeConjugate C");
		same(c, multiplyTransposeConjugate(A, B, 'N'), vh::mul(vh::tr(a), b), "multiplyTransposeConjugate T");
		vh::Ref<T> h = vh::add(a, vh::adj(a), T(1), T(1)), ah = vh::add(a, vh::adj(a), T(1), T(-1));
		EXPECT(isHermitian(dense(h)), "isHermitian", "A+A^H");
		EXPECT(isAntiHermitian(dense(ah)), "isAntiHermitian", "A-A^H");
		if (ints) {
			EXPECT(isHermitian(A) == (vh::dist(a, vh::adj(a)) == 0), "isHermitian", vh::str(a));
			EXPECT(isAntiHermitian(A) == (vh::dist(a, vh::add(vh::adj(a), a, T(-1), T(0))) == 0), "isAntiHermitian", vh::str(a));
		}
		Matrix<T> I = A;
		I.setToIdentity();
		same(c, I, vh::ident<T>(n), "setToIdentity");
		EXPECT(isTheIdentity(I), "isTheIdentity", "identity refused");
		size_t p = r.range(0, n - 1), q = r.range(0, n - 1);
		I(p, q) += T(0.5);
		EXPECT(!isTheIdentity(I), "isTheIdentity", "accepted 0.5 at " << p << "," << q);
	} else {
		EXPECT(vh::throws([&]() { isHermitian(A); }), "refusal", "isHermitian of rectangular");
		EXPECT(vh::throws([&]() { isAntiHermitian(A); }), "refusal", "isAntiHermitian of rectangular");
		Matrix<T> X = A;
		EXPECT(vh::throws([&]() { X.setToIdentity(); }), "refusal", "setToIdentity of rectangular");
		same(c, X, a, "refused setToIdentity");
	}
	if (n * m != m * k) {
		Matrix<T> X = D;
		EXPECT(vh::throws([&]() { X += f * A; }), "refusal", "+= of different sizes");
		X = D;
		EXPECT(vh::throws([&]() { X += A * f; }), "refusal", "+= of different sizes");
		X = D;
		EXPECT(vh::throws([&]() { X -= A; }), "refusal", "-= of different sizes");
		same(c, X, d, "refused -=");
	}
	same(c, A, a, "operand A afterwards");
	same(c, B, b, "operand B afterwards");
	same(c, D, d, "operand D afterwards");
}
FAMILY(expressions_double, 6000, 150000) { expressions<double>(c); }
FAMILY(expressions_complex, 6000, 150000) { expressions<cplx>(c); }

// the same on larger matrices, one operation at a time
template <typename T> void large(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(7, 40), m = r.range(7, 40), k = r.range(1, 40);
	switch (r.range(0, 3)) {
	case 0: n = r.range(40, 140); break;
	case 1: m = r.range(40, 140); break;
	case 2: k = r.range(40, 140); break;
	}
	vh::Ref<T> a = rnd<T>(r, n, m, false), b = rnd<T>(r, n, m, false), d = rnd<T>(r, m, k, false);
	Matrix<T> A = dense(a), B = dense(b), D = dense(d), X;
	T f = vh::RandVal<T>::get(r);
	c.desc("sizes " + std::to_string(n) + " " + std::to_string(m) + " " + std::to_string(k));
	c.nontrivial(c.index * 37 + 5);
	X = A + B, same(c, X, vh::add(a, b, T(1), T(1)), "large A+B");
	X = A - B, same(c, X, vh::add(a, b, T(1), T(-1)), "large A-B");
	X = f * A, same(c, X, vh::add(a, a, f, T(0)), "large f*A");
	X = A * D, same(c, X, vh::mul(a, d), "large A*D");
	X = B, X += A, same(c, X, vh::add(b, a, T(1), T(1)), "large B+=A");
	X = B, X -= A, same(c, X, vh::add(b, a, T(1), T(-1)), "large B-=A");
	X = B, X *= f, same(c, X, vh::add(b, b, f, T(0)), "large B*=f");
	std::vector<T> x(m), y(n), w;
	for (auto& t : x) t = vh::RandVal<T>::get(r);
	for (auto& t : y) t = vh::RandVal<T>::get(r);
	w <= A * x;
	std::vector<T> z(n, T(0));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) z[i] += a(i, j) * x[j];
	sameV(c, w, z, "large A*x");
	Matrix<T> Y;
	transposeConjugate(Y, A);
	same(c, Y, vh::adj(a), "large adjoint");
	same(c, A, a, "operand A afterwards");
	c.count("large matrices checked");
}
FAMILY(large_double, 150, 3000) { large<double>(c); }
FAMILY(large_complex, 150, 3000) { large<cplx>(c); }

template <typename T> void container(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.dim(0, 6, 70), m = r.dim(0, 6, 70);
	vh::Ref<T> a = rnd<T>(r, n, m, false);
	Matrix<T> A = dense(a);
	c.desc(vh::str(a));
	c.nontrivial(vh::str(a));
	same(c, A, a, "elements");
	T v = vh::RandVal<T>::get(r);
	{
		Matrix<T> X(n, m, v);
		vh::Ref<T> w(n, m);
		for (auto& t : w.d) t = v;
		same(c, X, w, "ctor(value)");
		Matrix<T> Z(n, m);
		same(c, Z, vh::Ref<T>(n, m), "ctor zero");
		Matrix<T> S = A;
		S.setTo(v);
		same(c, S, w, "setTo");
		Matrix<T> E;
		E.resize(n, m, v);
		same(c, E, w, "resize(value) of empty");
	}
	{
		std::vector<T> data(n * m + r.range(0, 3), T(9));
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j) data[i + j * n] = a(i, j);
		Matrix<T> X(data, n, m);
		same(c, X, a, "ctor(data)");
		if (n * m > 0) {
			data.resize(n * m - 1);
			EXPECT(vh::throws([&]() { Matrix<T> Y(data, n, m); }), "refusal", "ctor(data) too short");
		}
	}
	{
		Matrix<T> X(A), Y;
		same(c, X, a, "copy");
		Y = A;
		same(c, Y, a, "assignment");
		Matrix<T> Z(std::move(X));
		same(c, Z, a, "move");
		EXPECT(Z == Y, "operator==", "copy and move differ");
		if (n * m) {
			Z(n - 1, m - 1) += T(1);
			EXPECT(!(Z == Y), "operator==", "different contents are equal");
			Z(n - 1, m - 1) = a(n - 1, m - 1);
		}
		if (n != m) {
			Matrix<T> W(A.data(), m, n);
			EXPECT(!(W == A), "operator==", "different shapes are equal");
		}
		vh::Ref<T> b = rnd<T>(r, r.range(0, 4), r.range(0, 4), true);
		Matrix<T> B = dense(b);
		Z.swap(B);
		same(c, Z, b, "swap");
		same(c, B, a, "swap");
		Z.clear();
		same(c, Z, vh::Ref<T>(0, 0), "clear");
		Z.resize(n, m);
		EXPECT(Z.rows() == n && Z.cols() == m, "resize", "shape");
		if (n > 0) {
			Matrix<T> Q = A;
			size_t m2 = r.range(0, 8);
			Q.resize(n, m2); // appends or drops columns
			vh::Ref<T> w(n, m2);
			for (size_t i = 0; i < n; ++i)
				for (size_t j = 0; j < std::min(m, m2); ++j) w(i, j) = a(i, j);
			same(c, Q, w, "resize columns");
			EXPECT(vh::throws([&]() { Q.resize(n + 1, m2); }), "refusal", "resize changes rows");
		}
	}
	if (n && m) {
		std::stringstream ss;
		ss.precision(17);
		ss << A;
		Matrix<T> X;
		ss >> X;
		same(c, X, a, "text round trip");
		std::istringstream bad("");
		EXPECT(vh::throws([&]() { Matrix<T> Y; bad >> Y; }), "refusal", "reading past the end");
		std::string dir = c.scratch();
		std::string fn = dir + "/m.txt";
		{
			std::ofstream fo(fn);
			fo.precision(17);
			fo << A;
		}
		std::ifstream fi(fn);
		Matrix<T> Z(fi);
		same(c, Z, a, "file ctor");
		// binary descriptor round trip
		std::string fb = dir + "/m.bin";
		int fd = open(fb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		A.print(fd);
		lseek(fd, 0, SEEK_SET);
		Matrix<T> W;
		W.read(fd);
		close(fd);
		same(c, W, a, "binary round trip");
		// thresholded print
		double eps = 0.5;
		std::stringstream sp;
		sp.precision(17);
		A.print(sp, eps);
		Matrix<T> P;
		sp >> P;
		vh::Ref<T> w = a;
		for (auto& t : w.d)
			if (PsimagLite::norm(t) < eps) t = T(0);
		same(c, P, w, "print(eps)");
		// views
		MatrixNonOwned<T> view(A);
		const Matrix<T>& constA = A;
		MatrixNonOwned<const T> mview(constA);
		const MatrixNonOwned<const T> cview(constA);
		const MatrixNonOwned<T>& vview = view;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j) {
				EXPECT(view(i, j) == a(i, j) && cview(i, j) == a(i, j) && mview(i, j) == a(i, j) && vview(i, j) == a(i, j), "view", "at " << i << "," << j);
			}
		view(n - 1, 0) = T(3);
		EXPECT(A(n - 1, 0) == T(3), "view", "write not seen");
		size_t off = r.range(0, 5);
		typename Vector<T>::Type buf(off + n * m + 2, T(7));
		MatrixNonOwned<T> v2(n, m, buf, off);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j) v2(i, j) = a(i, j);
		for (size_t q = 0; q < buf.size(); ++q) {
			T want = T(7);
			if (q >= off && q < off + n * m) want = a((q - off) % n, (q - off) / n);
			EXPECT(buf[q] == want, "view(offset)", "slot " << q);
		}
		EXPECT(&view.getVector() != nullptr && v2.getVector().size() == buf.size(), "view", "vector");
	}
}
FAMILY(container_double, 3000, 60000) { container<double>(c); }
FAMILY(container_complex, 3000, 60000) { container<cplx>(c); }
// the printed forms for people and other programs say what the matrix says
template <typename T> T scan(std::istream& is)
{
	T v;
	is >> v;
	return v;
}
template <typename T> void printed(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 9), m = r.range(1, 9);
	// few different values, some of them opposite, so that letters repeat
	std::vector<T> pool;
	size_t np = r.chance(0.15) ? r.range(20, 60) : r.range(1, 20);
	for (size_t i = 0; i < np; ++i) {
		T v = vh::RandVal<T>::getInt(r);
		if (r.chance(0.3)) v = T(double(i) + 1);
		if (r.chance(0.3)) v = v * T(0.125) + T(double(i));
		pool.push_back(v);
		if (r.chance(0.4)) pool.push_back(-v);
	}
	vh::Ref<T> a(n, m);
	double p0 = r.real(0, 0.8);
	for (auto& t : a.d) t = r.chance(p0) ? T(0) : pool[r.range(0, pool.size() - 1)];
	Matrix<T> A = dense(a);
	c.desc(vh::str(a));
	c.nontrivial(vh::str(a));
	c.sample(vh::str(a));
	// mathematica
	{
		std::stringstream os;
		os.precision(17);
		mathematicaPrint(os, A);
		std::string t;
		char ch;
		auto want = [&](const char* lit) {
			for (const char* q = lit; *q; ++q) {
				EXPECT(os >> ch && ch == *q, "mathematica form", "expected '" << lit << "' in " << os.str());
			}
		};
		want("m:={");
		for (size_t i = 0; i < n; ++i) {
			want("{");
			for (size_t j = 0; j < m; ++j) {
				T v = scan<T>(os);
				EXPECT(os && v == a(i, j), "mathematica form", "element " << i << "," << j << " in " << os.str());
				if (j + 1 < m) want(",");
			}
			want("}");
			if (i + 1 < n) want(",");
		}
		want("}");
		EXPECT(!(os >> ch), "mathematica form", "trailing text in " << os.str());
	}
	// symbolic: letters stand for values, a minus sign for the opposite value
	{
		std::vector<T> distinct;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j) {
				if (a(i, j) == T(0)) continue;
				bool seen = false;
				for (auto& d : distinct)
					if (d == a(i, j) || d == -a(i, j)) seen = true;
				if (!seen) distinct.push_back(a(i, j));
			}
		std::stringstream os;
		os.precision(17);
		if (distinct.size() > 25) {
			EXPECT(vh::throws([&]() { symbolicPrint(os, A); }), "symbolic form", distinct.size() << " values were given letters");
		} else {
			symbolicPrint(os, A);
			std::string head, line;
			size_t rn = 0, rm = 0;
			os >> rn >> rm;
			EXPECT(rn == n && rm == m, "symbolic form", "header of " << os.str());
			std::vector<std::string> cell(n * m);
			for (auto& t : cell) os >> t;
			os >> line;
			EXPECT(line.find_first_not_of('-') == std::string::npos, "symbolic form", "separator of " << os.str());
			std::map<char, T> val;
			char ch, eq;
			while (os >> ch >> eq) {
				EXPECT(eq == '=' && !val.count(ch), "symbolic form", "table of " << os.str());
				val[ch] = scan<T>(os);
			}
			EXPECT(val.size() == distinct.size(), "symbolic form", "letters of " << os.str());
			for (size_t i = 0; i < n; ++i)
				for (size_t j = 0; j < m; ++j) {
					std::string t = cell[i * m + j];
					T v(0);
					if (t != "0") {
						bool neg = t[0] == '-';
						EXPECT(t.size() == 1u + neg && val.count(t[neg]), "symbolic form", "cell '" << t << "'");
						v = neg ? -val[t[neg]] : val[t[neg]];
					}
					EXPECT(v == a(i, j), "symbolic form", "element " << i << "," << j << " is " << v << " in " << os.str());
				}
			c.count("symbolic forms");
		}
	}
	// the non-zero elements by rows, then those of the diagonal
	{
		std::stringstream os;
		os.precision(17);
		printNonZero(A, os);
		std::string line;
		std::getline(os, line);
		std::ostringstream h;
		h << "#size=" << n << "x" << m;
		EXPECT(line == h.str(), "non-zero form", line);
		std::vector<T> got, want;
		while (std::getline(os, line) && line[0] != '#') {
			std::istringstream is(line);
			T v;
			while (is >> v) got.push_back(v);
		}
		EXPECT(line == "#diagonal non-zero", "non-zero form", line);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j)
				if (a(i, j) != T(0)) want.push_back(a(i, j));
		EXPECT(got == want, "non-zero form", os.str());
		got.clear();
		want.clear();
		T v;
		while (os >> v) got.push_back(v);
		for (size_t i = 0; i < std::min(n, m); ++i)
			if (a(i, i) != T(0)) want.push_back(a(i, i));
		EXPECT(got == want, "non-zero form", "diagonal of " << os.str());
	}
}
FAMILY(printed_double, 1500, 30000) { printed<double>(c); }
FAMILY(printed_complex, 1500, 30000) { printed<cplx>(c); }
FAMILY(real_to_complex, 300, 3000)
{
	vh::Ref<double> a = rnd<double>(c.rng, c.rng.range(1, 5), c.rng.range(1, 5), false);
	Matrix<cplx> m(dense(a));
	vh::Ref<cplx> w(a.r, a.c);
	for (size_t i = 0; i < a.d.size(); ++i) w.d[i] = a.d[i];
	c.nontrivial(vh::str(a));
	same(c, m, w, "complex from real");
}

template <typename T> void vectors(Ctx& c)
{
	typedef typename Real<T>::Type R;
	vh::Rng& r = c.rng;
	size_t n = r.dim(0, 12, 400);
	bool ints = r.chance(0.5);
	auto rv = [&](size_t k) {
		std::vector<T> v(k);
		for (auto& t : v) t = ints ? vh::RandVal<T>::getInt(r) : vh::RandVal<T>::get(r);
		return v;
	};
	std::vector<T> x = rv(n), y = rv(n), z = rv(n), u = rv(n), w(n);
	T f = vh::RandVal<T>::getInt(r), g = vh::RandVal<T>::getInt(r), h = vh::RandVal<T>::getInt(r), k = vh::RandVal<T>::getInt(r);
	c.desc("x=" + vh::str(x) + " y=" + vh::str(y));
	c.nontrivial(vh::str(x) + vh::str(y));
	c.sample("x=" + vh::str(x) + " y=" + vh::str(y));
#define VEC(expr, ref, name)                                   \
	{                                                      \
		std::vector<T> o = rv(r.range(0, 14));         \
		o <= expr;                                     \
		for (size_t i = 0; i < n; ++i) w[i] = ref;     \
		sameV(c, o, w, name);                          \
	}
	VEC(f * x, f * x[i], "f*x")
	VEC(x * f, f * x[i], "x*f")
	VEC(x + y, x[i] + y[i], "x+y")
	VEC(x - y, x[i] - y[i], "x-y")
	VEC(x + f * y, x[i] + f * y[i], "x+f*y")
	VEC(f * x + y, f * x[i] + y[i], "f*x+y")
	VEC(f * (x + y), f * (x[i] + y[i]), "f*(x+y)")
	VEC(f * (x - y), f * (x[i] - y[i]), "f*(x-y)")
	VEC(x - f * y, x[i] - f * y[i], "x-f*y")
	VEC(f * x + g * y + h * z + k * u, f * x[i] + g * y[i] + h * z[i] + k * u[i], "rk4 combination")
	VEC(x - f * y + g * z, x[i] - f * y[i] + g * z[i], "x-f*y+g*z")
	VEC(f * (g * x), f * g * x[i], "f*(g*x)")
#define ALI(stmt, ref, name)                                   \
	{                                                      \
		std::vector<T> o = x;                          \
		stmt;                                          \
		for (size_t i = 0; i < n; ++i) w[i] = ref;     \
		sameV(c, o, w, name);                          \
	}
	ALI(o <= o + y, x[i] + y[i], "x<=x+y")
	ALI(o <= y + o, x[i] + y[i], "x<=y+x")
	ALI(o <= y - o, y[i] - x[i], "x<=y-x")
	ALI(o <= f * o, f * x[i], "x<=f*x")
	ALI(o <= o + f * o, x[i] + f * x[i], "x<=x+f*x")
	ALI(o <= y + f * o, y[i] + f * x[i], "x<=y+f*x")
	ALI(o <= f * (y - o), f * (y[i] - x[i]), "x<=f*(y-x)")
	ALI(o <= y - f * o + g * o, y[i] - f * x[i] + g * x[i], "x<=y-f*x+g*x")
	ALI(o += y, x[i] + y[i], "x+=y")
	ALI(o -= y, x[i] - y[i], "x-=y")
	ALI(o += f * y, x[i] + f * y[i], "x+=f*y")
	ALI(o -= f * y, x[i] - f * y[i], "x-=f*y")
	ALI(o += o, x[i] + x[i], "x+=x")
	ALI(o += f * o, x[i] + f * x[i], "x+=f*x")
	ALI(o *= f, f * x[i], "x*=f")
	ALI(o /= T(4), x[i] / T(4), "x/=4")
	// products: v*w conjugates its right operand, scalarProduct the left one
	T p1 = 0, p2 = 0, sm = 0;
	double nn = 0;
	for (size_t i = 0; i < n; ++i) {
		p1 += x[i] * vh::cconj(y[i]);
		p2 += vh::cconj(x[i]) * y[i];
		sm += x[i];
		nn += vh::cabs1(x[i]) * vh::cabs1(x[i]);
	}
	EXPECT(vh::close(T(x * y), p1, 1e-9), "v*w", x * y << " want " << p1);
	EXPECT(vh::close(scalarProduct(x, y), p2, 1e-9), "scalarProduct", scalarProduct(x, y) << " want " << p2);
	EXPECT(std::fabs(PsimagLite::norm(x) - std::sqrt(nn)) < 1e-9, "norm", "vector norm");
	EXPECT(vh::close(PsimagLite::sum(x), sm, 1e-9), "sum", "vector sum");
	std::vector<T> other = rv(n + 1);
	EXPECT(vh::throws([&]() { T q = x * other; (void)q; }), "refusal", "v*w of different sizes");
	EXPECT(vh::throws([&]() { scalarProduct(x, other); }), "refusal", "scalarProduct of different sizes");
	if (n) {
		size_t at = r.range(0, n - 1);
		int want = 0;
		while (x[want] != x[at]) ++want;
		EXPECT(indexOrMinusOne(x, x[at]) == want, "indexOrMinusOne", "wrong");
		EXPECT(indexOrMinusOne(x, T(1e6)) == -1, "indexOrMinusOne", "absent");
	}
	// rows * vector
	size_t rows = r.range(0, 5);
	std::vector<std::vector<T>> mat(rows);
	std::vector<T> want(rows, T(0));
	for (size_t i = 0; i < rows; ++i) {
		mat[i] = rv(n);
		for (size_t j = 0; j < n; ++j) want[i] += mat[i][j] * x[j];
	}
	std::vector<T> prod = mat * x;
	sameV(c, prod, want, "rows*x");
	// text
	std::stringstream ss;
	ss.precision(17);
	ss << x;
	std::vector<T> back = rv(3);
	ss >> back;
	sameV(c, back, x, "text round trip");
	std::istringstream neg("-2 1 1");
	EXPECT(vh::throws([&]() { neg >> back; }), "refusal", "negative size");
	R rr = 2;
	(void)rr;
}
struct Source {
	typedef double value_type;
	std::vector<double> v;
	mutable size_t k;
	double random() const { return v.at(k++); }
};
FAMILY(random_fill, 300, 3000)
{
	Source s;
	s.k = 0;
	size_t n = c.rng.dim(0, 20, 400);
	for (size_t i = 0; i < n; ++i) s.v.push_back(c.rng.real(0, 1));
	double a = c.rng.real(-3, 3), b = c.rng.real(-3, 3);
	std::vector<double> v(n, 5);
	PsimagLite::randomizeVector(v, a, b, s);
	for (size_t i = 0; i < n; ++i) EXPECT(vh::close(v[i], a + b * s.v[i], 1e-12), "random fill", "entry " << i);
	EXPECT(v.size() == n && s.k == n, "random fill", "size");
	c.nontrivial(c.index);
}
FAMILY(vectors_double, 4000, 80000) { vectors<double>(c); }
FAMILY(vectors_complex, 4000, 80000) { vectors<cplx>(c); }

// scalar helpers for real and complex numbers
FAMILY(scalars, 500, 5000)
{
	vh::Rng& r = c.rng;
	cplx z(r.real(-3, 3), r.real(-3, 3));
	double x = r.real(-3, 3);
	c.nontrivial(c.index);
	EXPECT(PsimagLite::conj(z) == std::conj(z) && PsimagLite::conj(x) == x, "conj", z);
	EXPECT(PsimagLite::real(z) == z.real() && PsimagLite::real(x) == x, "real", z);
	EXPECT(PsimagLite::imag(z) == z.imag() && PsimagLite::imag(x) == 0, "imag", z);
	EXPECT(PsimagLite::norm(x) == std::fabs(x), "norm", x);
	EXPECT(vh::close(PsimagLite::norm(z), std::norm(z), 1e-12), "norm", z);
	int k = r.range(-4, 4);
	EXPECT(vh::close(k * z, cplx(k * z.real(), k * z.imag()), 1e-12), "int*complex", z);
}
template <typename T> void blas(Ctx& c)
{
	vh::Rng& r = c.rng;
	int n = r.range(1, 6), m = r.range(1, 6), k = r.range(1, 6);
	char ta = "NTC"[r.range(0, 2)], tb = "NTC"[r.range(0, 2)];
	vh::Ref<T> a = rnd<T>(r, ta == 'N' ? n : k, ta == 'N' ? k : n, false), b = rnd<T>(r, tb == 'N' ? k : m, tb == 'N' ? m : k, false), z = rnd<T>(r, n, m, false);
	T al = vh::RandVal<T>::get(r), be = r.chance(0.3) ? T(0) : vh::RandVal<T>::get(r);
	Matrix<T> A = dense(a), B = dense(b), Z = dense(z);
	psimag::BLAS::GEMM(ta, tb, n, m, k, al, &A(0, 0), A.rows(), &B(0, 0), B.rows(), be, &Z(0, 0), n);
	auto op = [](char t, const vh::Ref<T>& x) { return t == 'N' ? x : t == 'T' ? vh::tr(x) : vh::adj(x); };
	same(c, Z, vh::add(vh::mul(op(ta, a), op(tb, b)), z, al, be), "GEMM");
	std::vector<T> x(a.c), y(a.r, T(1)), w(a.r);
	for (auto& t : x) t = vh::RandVal<T>::get(r);
	for (size_t i = 0; i < a.r; ++i) {
		w[i] = be;
		for (size_t j = 0; j < a.c; ++j) w[i] += al * a(i, j) * x[j];
	}
	psimag::BLAS::GEMV('N', a.r, a.c, al, &A(0, 0), a.r, &x[0], 1, be, &y[0], 1);
	sameV(c, y, w, "GEMV");
	c.nontrivial(c.index * 3 + 7);
}
FAMILY(blas_double, 800, 10000) { blas<double>(c); }
FAMILY(blas_complex, 800, 10000) { blas<cplx>(c); }

// tiny and huge contents: nothing is lost because it is small, so that results are exact
template <typename T> void scaled(Ctx& c)
{
	vh::Rng& r = c.rng;
	double s = std::ldexp(1., r.chance(0.5) ? r.range(-200, -20) : r.range(0, 200));
	size_t n = r.dim(1, 6, 60), m = r.chance(0.4) ? n : r.dim(1, 6, 60), k = r.dim(1, 6, 60);
	auto make = [&](size_t x, size_t y) {
		vh::Ref<T> a = rnd<T>(r, x, y, true);
		double none = r.chance(0.5) ? 0 : r.real(0, 1);
		for (auto& t : a.d) t *= r.chance(none) ? 0 : s * (r.chance(0.1) ? 0.03125 : 1);
		return a;
	};
	auto exact = [&](const Matrix<T>& g, const vh::Ref<T>& w, const char* what) {
		EXPECT(g.rows() == w.r && g.cols() == w.c, std::string(what) + ":shape", g.rows() << "x" << g.cols());
		for (size_t i = 0; i < w.r; ++i)
			for (size_t j = 0; j < w.c; ++j) EXPECT(g(i, j) == w(i, j), std::string(what) + ":exact", "at " << i << "," << j << " got " << g(i, j) << " want " << w(i, j));
		c.count("exact results");
	};
	vh::Ref<T> a = make(n, m), b = make(n, m), d = make(m, k);
	Matrix<T> A = dense(a), B = dense(b), D = dense(d), X;
	c.desc("scale " + std::to_string(std::ilogb(s)) + " A=" + vh::str(a) + " B=" + vh::str(b) + " D=" + vh::str(d));
	c.nontrivial(c.seed * 1000003 + c.index);
	T f = vh::RandVal<T>::getInt(r);
	X = A + B, exact(X, vh::add(a, b, T(1), T(1)), "A+B");
	X = A - B, exact(X, vh::add(a, b, T(1), T(-1)), "A-B");
	X = f * A, exact(X, vh::add(a, a, f, T(0)), "f*A");
	X = A + f * B, exact(X, vh::add(a, b, T(1), f), "A+f*B");
	X = f * A + B, exact(X, vh::add(a, b, f, T(1)), "f*A+B");
	X = f * (A + B), exact(X, vh::add(a, b, f, f), "f*(A+B)");
	X = A * D, exact(X, vh::mul(a, d), "A*D");
	X = B, X += A, exact(X, vh::add(b, a, T(1), T(1)), "B+=A");
	X = B, X -= A, exact(X, vh::add(b, a, T(1), T(-1)), "B-=A");
	X = B, X += f * A, exact(X, vh::add(b, a, T(1), f), "B+=f*A");
	X = B, X *= f, exact(X, vh::add(b, b, f, T(0)), "B*=f");
	X = transposeConjugate(A), exact(X, vh::adj(a), "transposeConjugate");
	Matrix<T> Y;
	transpose(Y, A), exact(Y, vh::tr(a), "transpose");
	vh::Ref<T> b2 = make(n, k);
	exact(multiplyTransposeConjugate(A, dense(b2)), vh::mul(vh::adj(a), b2), "multiplyTransposeConjugate");
	exact(multiplyTransposeConjugate(A, dense(b2), 'N'), vh::mul(vh::tr(a), b2), "multiplyTransposeConjugate N");
	std::vector<T> x(m), y(n), z, w(n, T(0)), w2(m, T(0));
	for (auto& t : x) t = vh::RandVal<T>::getInt(r);
	for (auto& t : y) t = vh::RandVal<T>::getInt(r);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) {
			w[i] += a(i, j) * x[j];
			w2[j] += y[i] * a(i, j);
		}
	z <= A * x;
	EXPECT(z == w, "A*x:exact", "wrong");
	z <= y * A;
	EXPECT(z == w2, "y*A:exact", "wrong");
	double nn = 0;
	size_t nz = 0;
	for (auto& t : a.d) {
		nn += vh::cabs1(t) * vh::cabs1(t);
		if (t != T(0)) ++nz;
	}
	EXPECT(std::fabs(norm2(A) - nn) <= 1e-12 * nn, "norm2", norm2(A) << " want " << nn);
	EXPECT(A.nonZeros() == nz, "nonZeros", A.nonZeros() << " want " << nz);
	EXPECT(isZero(A) == (nz == 0), "isZero", "wrong");
	EXPECT((A == B) == (a.d == b.d), "operator==", "wrong");
	B = A;
	EXPECT(A == B, "operator==", "copies differ");
	size_t p = r.range(0, n - 1), q = r.range(0, m - 1);
	B(p, q) += T(s * 0.125);
	EXPECT(!(A == B), "operator==", "a difference at " << p << "," << q << " overlooked");
	Matrix<T> I(n, m);
	for (size_t i = 0; i < n && i < m; ++i) I(i, i) = 1;
	EXPECT(isTheIdentity(I) == (n == m), "isTheIdentity", "of ones on the diagonal of " << n << "x" << m);
	size_t e = r.range(0, std::min(n, m) - 1);
	do I(e, e) = vh::RandVal<T>::getInt(r) * (r.chance(0.5) ? 0.5 : 1.);
	while (I(e, e) == T(1));
	EXPECT(!isTheIdentity(I), "isTheIdentity", "accepted " << I(e, e) << " on the diagonal");
	std::ostringstream os;
	os.precision(17);
	os << A;
	std::istringstream is(os.str());
	Matrix<T> R;
	is >> R;
	exact(R, a, "text");
	// into a matrix in use: the text's contents, or a refusal
	Matrix<T> U(r.chance(0.5) ? n : r.range(1, 8), r.chance(0.5) ? m : r.range(1, 8));
	bool sameRows = U.rows() == n, refused = false;
	for (size_t i = 0; i < U.rows(); ++i)
		for (size_t j = 0; j < U.cols(); ++j) U(i, j) = 7;
	is.clear();
	is.str(os.str());
	try {
		is >> U;
	} catch (std::exception&) {
		refused = true;
	}
	EXPECT(!refused || !sameRows, "text into a used matrix", "refused for the same rows");
	if (!refused) exact(U, a, "text into a used matrix");
	c.count("texts read into used matrices");
}
FAMILY(scaled_double, 2000, 40000) { scaled<double>(c); }
FAMILY(scaled_complex, 2000, 40000) { scaled<cplx>(c); }
