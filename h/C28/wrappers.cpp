#include "AllocatorCpu.h"
#include "BLAS.h"
#include "LAPACK.h"
#include "vh.h"
#include <complex>
#include <type_traits>
namespace B = psimag::BLAS;
namespace L = psimag::LAPACK;
typedef vh::Ctx Ctx;
typedef std::complex<float> cf;
typedef std::complex<double> cd;
typedef std::complex<long double> W; // reference arithmetic
template <typename T> struct Tr { typedef T R; static const bool cplx = false; static const char* name() { return sizeof(T) == 4 ? "float" : "double"; } };
template <typename U> struct Tr<std::complex<U>> { typedef U R; static const bool cplx = true; static const char* name() { return sizeof(U) == 4 ? "complex<float>" : "complex<double>"; } };
template <typename T> static W w(const T& x) { return W(std::real(x), std::imag(x)); }
template <typename T> static T from(const W& x)
{
	if constexpr (Tr<T>::cplx) return T(x.real(), x.imag());
	else return T(x.real());
}
template <typename T> static T val(vh::Rng& r)
{
	typedef typename Tr<T>::R R;
	R a = r.range(-8, 8) / R(4), b = r.range(-8, 8) / R(4);
	if constexpr (Tr<T>::cplx) return T(a, b);
	else return a;
}
static W cj(const W& x, bool c) { return c ? std::conj(x) : x; }

// a vector with a stride, between guards
template <typename T> struct V {
	std::vector<T> b;
	int n, inc;
	V(vh::Rng& r, int n_) : n(n_)
	{
		static const int I[] = { 1, 1, 1, 2, 3, -1, -2 };
		inc = I[r.range(0, 6)];
		b.resize((n ? (n - 1) * std::abs(inc) + 1 : 0) + 6);
		for (auto& x : b) x = val<T>(r);
	}
	int at(int i) const { return 3 + (inc > 0 ? i * inc : (n - 1 - i) * -inc); }
	T& operator()(int i) { return b[at(i)]; }
	T* p() { return &b[3]; }
	std::string s() const { return " n" + std::to_string(n) + " inc" + std::to_string(inc); }
};
// column-major storage of r x c with a leading dimension, between guards
template <typename T> struct M {
	std::vector<T> b;
	int r, c, ld;
	M(vh::Rng& g, int r_, int c_) : r(r_), c(c_)
	{
		ld = std::max(1, r) + (g.chance(0.5) ? int(g.range(0, 3)) : 0);
		b.resize(size_t(ld) * c + 8);
		for (auto& x : b) x = val<T>(g);
	}
	int at(int i, int j) const { return 3 + i + j * ld; }
	T& operator()(int i, int j) { return b[at(i, j)]; }
	T* p() { return &b[3]; }
	std::string s() const { return " [" + std::to_string(r) + "x" + std::to_string(c) + " ld" + std::to_string(ld) + "]"; }
};
struct D { // plain dense reference matrix
	int r, c;
	std::vector<W> d;
	D(int r_, int c_) : r(r_), c(c_), d(size_t(r_) * c_) { }
	W& operator()(int i, int j) { return d[i + size_t(j) * r]; }
	W operator()(int i, int j) const { return d[i + size_t(j) * r]; }
};
template <typename T> static D dense(M<T>& m, int r, int c)
{
	D o(r, c);
	for (int i = 0; i < r; ++i)
		for (int j = 0; j < c; ++j) o(i, j) = w(m(i, j));
	return o;
}
static D op(const D& a, char t)
{
	if (t == 'N' || t == 'n') return a;
	D o(a.c, a.r);
	for (int i = 0; i < a.r; ++i)
		for (int j = 0; j < a.c; ++j) o(j, i) = cj(a(i, j), t == 'C' || t == 'c');
	return o;
}
static D mul(const D& a, const D& b)
{
	if (a.c != b.r) throw vh::HarnessError("shape");
	D o(a.r, b.c);
	for (int i = 0; i < a.r; ++i)
		for (int j = 0; j < b.c; ++j)
			for (int k = 0; k < a.c; ++k) o(i, j) += a(i, k) * b(k, j);
	return o;
}
static bool up(char c) { return c == 'U' || c == 'u'; }
static bool stored(char uplo, int i, int j) { return up(uplo) ? i <= j : i >= j; }
// symmetric (H: Hermitian) matrix from the stored triangle of any accessor
template <typename F> static D sym(int n, char uplo, bool herm, F f)
{
	D o(n, n);
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j) {
			W x = stored(uplo, i, j) ? f(i, j) : cj(f(j, i), herm);
			if (herm && i == j) x = W(x.real(), 0);
			o(i, j) = x;
		}
	return o;
}
template <typename F> static D tri(int n, char uplo, char diag, F f)
{
	D o(n, n);
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j) o(i, j) = (i == j && (diag == 'U' || diag == 'u')) ? W(1) : stored(uplo, i, j) ? f(i, j) : W(0);
	return o;
}
static int packed(char uplo, int n, int i, int j) { return up(uplo) ? i + j * (j + 1) / 2 : i + (2 * n - j - 1) * j / 2; }
// ab(...) band storage of a triangle with k off-diagonals
static int bandRow(char uplo, int k, int i, int j) { return up(uplo) ? k + i - j : i - j; }

template <typename T> struct Judge {
	Ctx& c;
	vh::Rng& r;
	std::string d, name;
	double tol;
	Judge(Ctx& c_) : c(c_), r(c_.rng), tol(std::is_same<typename Tr<T>::R, float>::value ? 2e-4 : 1e-11) { }
	char uplo() { static const char* s = "ULul"; return s[r.range(0, 3)]; }
	char trans()
	{
		static const char* s = "NTCntc";
		return s[r.range(0, 5)];
	}
	char diag() { static const char* s = "NUnu"; return s[r.range(0, 3)]; }
	char side() { static const char* s = "LRlr"; return s[r.range(0, 3)]; }
	int sz() { return r.chance(0.06) ? 0 : int(r.dim(1, 7, 90)); }
	void start(const std::string& n, const std::string& what)
	{
		name = n;
		d = n + "<" + Tr<T>::name() + "> " + what;
		c.desc(d);
	}
	// every element of the buffer: the ones written as expected, the others untouched
	void cmp(const std::vector<T>& got, const std::vector<T>& before, const std::vector<std::pair<int, W>>& want)
	{
		std::vector<W> e(before.size());
		std::vector<char> touched(before.size(), 0);
		for (auto& x : want) e[x.first] = x.second, touched[x.first] = 1;
		for (size_t i = 0; i < got.size(); ++i) {
			if (!touched[i]) {
				if (got[i] != before[i]) c.fail("blas-" + name, d + ": element " + std::to_string(i) + " of the storage, not part of the result, was changed");
				continue;
			}
			long double err = std::abs(w(got[i]) - e[i]);
			if (!(err <= tol * (1 + std::abs(e[i])))) {
				std::ostringstream m;
				m << d << ": element " << i << " is " << got[i] << " expected (" << (double)e[i].real() << "," << (double)e[i].imag() << ")";
				c.fail("blas-" + name, m.str());
			}
		}
		c.count("results compared");
		c.nontrivial(d);
	}
	void cmpM(M<T>& m, const std::vector<T>& before, const D& e, char tri_ = 0)
	{
		std::vector<std::pair<int, W>> want;
		for (int j = 0; j < e.c; ++j)
			for (int i = 0; i < e.r; ++i)
				if (!tri_ || stored(tri_, i, j)) want.push_back({ m.at(i, j), e(i, j) });
		cmp(m.b, before, want);
	}
	void cmpV(V<T>& v, const std::vector<T>& before, const std::vector<W>& e)
	{
		std::vector<std::pair<int, W>> want;
		for (int i = 0; i < v.n; ++i) want.push_back({ v.at(i), e[i] });
		cmp(v.b, before, want);
	}
	void same(const std::vector<T>& a, const std::vector<T>& before)
	{
		if (a != before) c.fail("blas-" + name, d + ": an input was changed");
	}
	std::vector<W> wv(V<T>& v)
	{
		std::vector<W> o;
		for (int i = 0; i < v.n; ++i) o.push_back(w(v(i)));
		return o;
	}
	static std::string ch(std::initializer_list<char> l)
	{
		std::string s;
		for (char x : l) s += std::string(" ") + x;
		return s;
	}
	static std::string sc(const T& a)
	{
		std::ostringstream o;
		o << " " << a;
		return o.str();
	}
	T scal() { return r.chance(0.15) ? T(0) : r.chance(0.15) ? T(1) : val<T>(r); }

	void gemm()
	{
		int m = sz(), n = sz(), k = sz();
		char ta = trans(), tb = trans();
		bool na = ta == 'N' || ta == 'n', nb = tb == 'N' || tb == 'n';
		M<T> a(r, na ? m : k, na ? k : m), b(r, nb ? k : n, nb ? n : k), x(r, m, n);
		T al = scal(), be = scal();
		start("GEMM", ch({ ta, tb }) + a.s() + b.s() + x.s() + sc(al) + sc(be));
		auto A = a.b, Bb = b.b, X = x.b;
		D e = mul(op(dense(a, a.r, a.c), ta), op(dense(b, b.r, b.c), tb));
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j) e(i, j) = w(al) * e(i, j) + w(be) * w(x(i, j));
		B::GEMM(ta, tb, m, n, k, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
		same(a.b, A), same(b.b, Bb);
		cmpM(x, X, e);
	}
	void symm(bool herm)
	{
		int m = sz(), n = sz();
		char s = side(), u = uplo();
		bool left = s == 'L' || s == 'l';
		int k = left ? m : n;
		M<T> a(r, k, k), b(r, m, n), x(r, m, n);
		T al = scal(), be = scal();
		start(herm ? "HEMM" : "SYMM", ch({ s, u }) + a.s() + b.s() + x.s() + sc(al) + sc(be));
		auto A = a.b, Bb = b.b, X = x.b;
		D S = sym(k, u, herm, [&](int i, int j) { return w(a(i, j)); }), bb = dense(b, m, n), e = left ? mul(S, bb) : mul(bb, S);
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j) e(i, j) = w(al) * e(i, j) + w(be) * w(x(i, j));
		if constexpr (Tr<T>::cplx) {
			if (herm) B::HEMM(s, u, m, n, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
			else B::SYMM(s, u, m, n, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
		} else B::SYMM(s, u, m, n, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
		same(a.b, A), same(b.b, Bb);
		cmpM(x, X, e);
	}
	void syrk(bool herm, bool two)
	{
		int n = sz(), k = sz();
		char u = uplo(), t = r.chance(0.5) ? 'N' : (herm ? 'C' : 'T');
		bool nt = t == 'N';
		M<T> a(r, nt ? n : k, nt ? k : n), b(r, nt ? n : k, nt ? k : n), x(r, n, n);
		T al = scal(), be = scal();
		if (herm) {
			if (!two) al = T(std::real(al));
			be = T(std::real(be));
			for (int i = 0; i < n; ++i) x(i, i) = T(std::real(x(i, i)));
		}
		start(std::string(herm ? "HER" : "SYR") + (two ? "2K" : "K"), ch({ u, t }) + a.s() + b.s() + x.s() + sc(al) + sc(be));
		auto A = a.b, Bb = b.b, X = x.b;
		char tt = herm ? 'C' : 'T';
		D da = op(dense(a, a.r, a.c), t), db = op(dense(b, b.r, b.c), t), e(n, n); // n x k
		if (two) {
			D p = mul(da, op(db, tt)), q = mul(db, op(da, tt));
			for (int i = 0; i < n; ++i)
				for (int j = 0; j < n; ++j) e(i, j) = w(al) * p(i, j) + cj(w(al), herm) * q(i, j) + w(be) * w(x(i, j));
		} else {
			D p = mul(da, op(da, tt));
			for (int i = 0; i < n; ++i)
				for (int j = 0; j < n; ++j) e(i, j) = w(al) * p(i, j) + w(be) * w(x(i, j));
		}
		if constexpr (Tr<T>::cplx) {
			if (herm && two) B::HER2k(u, t, n, k, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
			else if (herm) B::HERK(u, t, n, k, al, a.p(), a.ld, be, x.p(), x.ld);
			else if (two) B::SYR2k(u, t, n, k, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
			else B::SYRK(u, t, n, k, al, a.p(), a.ld, be, x.p(), x.ld);
		} else {
			if (two) B::SYR2K(u, t, n, k, al, a.p(), a.ld, b.p(), b.ld, be, x.p(), x.ld);
			else B::SYRK(u, t, n, k, al, a.p(), a.ld, be, x.p(), x.ld);
		}
		same(a.b, A), same(b.b, Bb);
		cmpM(x, X, e, u);
	}
	void well(M<T>& a)
	{ // a triangle that can be solved with
		for (int i = 0; i < std::min(a.r, a.c); ++i) a(i, i) = T(r.chance(0.5) ? 4 : -4) + a(i, i) * T(0.5);
	}
	void trmm(bool solve)
	{
		int m = sz(), n = sz();
		char s = side(), u = uplo(), t = trans(), dg = diag();
		bool left = s == 'L' || s == 'l';
		int k = left ? m : n;
		M<T> a(r, k, k), b(r, m, n);
		if (solve) {
			for (auto& x : a.b) x *= T(0.125);
			well(a);
		}
		T al = scal();
		start(solve ? "TRSM" : "TRMM", ch({ s, u, t, dg }) + a.s() + b.s() + sc(al));
		auto A = a.b, Bb = b.b;
		D S = op(tri(k, u, dg, [&](int i, int j) { return w(a(i, j)); }), t), bb = dense(b, m, n);
		if (solve) B::TRSM(s, u, t, dg, m, n, al, a.p(), a.ld, b.p(), b.ld);
		else B::TRMM(s, u, t, dg, m, n, al, a.p(), a.ld, b.p(), b.ld);
		same(a.b, A);
		if (!solve) {
			D e = left ? mul(S, bb) : mul(bb, S);
			for (auto& x : e.d) x *= w(al);
			cmpM(b, Bb, e);
			return;
		}
		D x = dense(b, m, n), back = left ? mul(S, x) : mul(x, S);
		std::vector<T> got = Bb; // the product back, in the place of the solution
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j) {
				long double err = std::abs(back(i, j) - w(al) * bb(i, j));
				if (!(err <= 50 * tol)) c.fail("blas-TRSM", d + ": the solution does not solve");
				bb(i, j) = x(i, j);
			}
		cmpM(b, Bb, bb); // guards
	}
	void gemv()
	{
		int m = sz(), n = sz();
		char t = trans();
		bool nt = t == 'N' || t == 'n';
		M<T> a(r, m, n);
		V<T> x(r, nt ? n : m), y(r, nt ? m : n);
		T al = scal(), be = scal();
		start("GEMV", ch({ t }) + a.s() + x.s() + y.s() + sc(al) + sc(be));
		mv(op(dense(a, m, n), t), x, y, al, be, a.b, m == 0 || n == 0, [&] { B::GEMV(t, m, n, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc); });
	}
	template <typename F> void mv(const D& A, V<T>& x, V<T>& y, T al, T be, std::vector<T>& store, bool quick, F f)
	{
		auto S = store, X = x.b, Y = y.b;
		std::vector<W> e = wv(y);
		for (int i = 0; i < y.n && !quick; ++i) {
			W s = 0;
			for (int j = 0; j < x.n; ++j) s += A(i, j) * w(x(j));
			e[i] = w(al) * s + w(be) * e[i];
		}
		f();
		same(store, S), same(x.b, X);
		cmpV(y, Y, e);
	}
	void gbmv()
	{
		int m = sz(), n = sz();
		int kl = r.range(0, std::max(0, m - 1)), ku = r.range(0, std::max(0, n - 1));
		char t = trans();
		bool nt = t == 'N' || t == 'n';
		M<T> a(r, kl + ku + 1, n);
		V<T> x(r, nt ? n : m), y(r, nt ? m : n);
		T al = scal(), be = scal();
		start("GBMV", ch({ t }) + a.s() + x.s() + y.s() + " kl" + std::to_string(kl) + " ku" + std::to_string(ku) + sc(al) + sc(be));
		D A(m, n);
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j)
				if (i - j <= kl && j - i <= ku) A(i, j) = w(a(ku + i - j, j));
		mv(op(A, t), x, y, al, be, a.b, m == 0 || n == 0, [&] { B::GBMV(t, m, n, kl, ku, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc); });
	}
	// kind 0 full, 1 band, 2 packed; symmetric or Hermitian times a vector
	void symv(bool herm, int kind)
	{
		int n = sz(), k = kind == 1 ? int(r.range(0, std::max(0, n - 1))) : n - 1;
		char u = uplo();
		M<T> a(r, kind == 1 ? k + 1 : kind == 2 ? n * (n + 1) / 2 : n, kind == 2 ? 1 : n);
		V<T> x(r, n), y(r, n);
		T al = scal(), be = scal();
		static const char* N[2][3] = { { "SYMV", "SBMV", "SPMV" }, { "HEMV", "HBMV", "HPMV" } };
		start(N[herm][kind], ch({ u }) + a.s() + x.s() + y.s() + sc(al) + sc(be));
		D A = sym(n, u, herm, [&](int i, int j) { return std::abs(i - j) > k ? W(0) : kind == 0 ? w(a(i, j)) : kind == 1 ? w(a(bandRow(u, k, i, j), j)) : w(a.p()[packed(u, n, i, j)]); });
		mv(A, x, y, al, be, a.b, n == 0, [&] {
			if constexpr (Tr<T>::cplx) {
				if (kind == 0) B::HEMV(u, n, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc);
				if (kind == 1) B::HBMV(u, n, k, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc);
				if (kind == 2) B::HPMV(u, n, al, a.p(), x.p(), x.inc, be, y.p(), y.inc);
			} else {
				if (kind == 0) B::SYMV(u, n, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc);
				if (kind == 1) B::SBMV(u, n, k, al, a.p(), a.ld, x.p(), x.inc, be, y.p(), y.inc);
				if (kind == 2) B::SPMV(u, n, al, a.p(), x.p(), x.inc, be, y.p(), y.inc);
			}
		});
	}
	void trmv(bool solve, int kind)
	{
		int n = sz(), k = kind == 1 ? int(r.range(0, std::max(0, n - 1))) : n - 1;
		char u = uplo(), t = trans(), dg = diag();
		M<T> a(r, kind == 1 ? k + 1 : kind == 2 ? n * (n + 1) / 2 : n, kind == 2 ? 1 : n);
		auto loc = [&](int i, int j) -> T& { return kind == 0 ? a(i, j) : kind == 1 ? a(bandRow(u, k, i, j), j) : a.p()[packed(u, n, i, j)]; };
		if (solve) {
			for (auto& x : a.b) x *= T(0.125);
			for (int i = 0; i < n; ++i) loc(i, i) = T(r.chance(0.5) ? 4 : -4) + loc(i, i);
		}
		V<T> x(r, n);
		static const char* N[2][3] = { { "TRMV", "TBMV", "TPMV" }, { "TRSV", "TBSV", "TPSV" } };
		start(N[solve][kind], ch({ u, t, dg }) + a.s() + x.s() + " k" + std::to_string(k));
		D A = op(tri(n, u, dg, [&](int i, int j) { return std::abs(i - j) > k ? W(0) : w(loc(i, j)); }), t);
		auto S = a.b, X = x.b;
		std::vector<W> v = wv(x), e(n);
		if (!solve) {
			if (kind == 0) B::TRMV(u, t, dg, n, a.p(), a.ld, x.p(), x.inc);
			if (kind == 1) B::TBMV(u, t, dg, n, k, a.p(), a.ld, x.p(), x.inc);
			if (kind == 2) B::TPMV(u, t, dg, n, a.p(), x.p(), x.inc);
		} else {
			if (kind == 0) B::TRSV(u, t, dg, n, a.p(), a.ld, x.p(), x.inc);
			if (kind == 1) B::TBSV(u, t, dg, n, k, a.p(), a.ld, x.p(), x.inc);
			if (kind == 2) B::TPSV(u, t, dg, n, a.p(), x.p(), x.inc);
		}
		same(a.b, S);
		std::vector<W> g = wv(x), in = solve ? g : v;
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j) e[i] += A(i, j) * in[j];
		if (!solve) {
			cmpV(x, X, e);
			return;
		}
		for (int i = 0; i < n; ++i)
			if (!(std::abs(e[i] - v[i]) <= 50 * tol)) c.fail("blas-" + name, d + ": the solution does not solve");
		cmpV(x, X, g);
	}
	void ger(bool conj)
	{
		int m = sz(), n = sz();
		M<T> a(r, m, n);
		V<T> x(r, m), y(r, n);
		T al = scal();
		start(Tr<T>::cplx ? (conj ? "GERC" : "GERU") : "GER", a.s() + x.s() + y.s() + sc(al));
		auto A = a.b, X = x.b, Y = y.b;
		D e(m, n);
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < n; ++j) e(i, j) = w(a(i, j)) + w(al) * w(x(i)) * cj(w(y(j)), conj);
		if constexpr (Tr<T>::cplx) {
			if (conj) B::GERC(m, n, al, x.p(), x.inc, y.p(), y.inc, a.p(), a.ld);
			else B::GERU(m, n, al, x.p(), x.inc, y.p(), y.inc, a.p(), a.ld);
		} else B::GER(m, n, al, x.p(), x.inc, y.p(), y.inc, a.p(), a.ld);
		same(x.b, X), same(y.b, Y);
		cmpM(a, A, e);
	}
	// rank one or two update of a triangle, full or packed
	void syr(bool two, bool pack)
	{
		const bool herm = Tr<T>::cplx;
		int n = sz();
		char u = uplo();
		M<T> a(r, pack ? n * (n + 1) / 2 : n, pack ? 1 : n);
		auto where = [&](int i, int j) { return pack ? 3 + packed(u, n, i, j) : a.at(i, j); };
		V<T> x(r, n), y(r, n);
		T al = scal();
		if (herm) {
			if (!two) al = T(std::real(al));
			for (int i = 0; i < n; ++i) a.b[where(i, i)] = T(std::real(a.b[where(i, i)]));
		}
		start(std::string(herm ? (pack ? "HPR" : "HER") : (pack ? "SPR" : "SYR")) + (two ? "2" : ""), ch({ u }) + a.s() + x.s() + y.s() + sc(al));
		auto A = a.b, X = x.b, Y = y.b;
		std::vector<std::pair<int, W>> want;
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j) {
				if (!stored(u, i, j)) continue;
				W e = w(A[where(i, j)]);
				if (!two) e += w(al) * w(x(i)) * cj(w(x(j)), herm);
				else e += w(al) * w(x(i)) * cj(w(y(j)), herm) + cj(w(al), herm) * w(y(i)) * cj(w(x(j)), herm);
				want.push_back({ where(i, j), e });
			}
		if constexpr (Tr<T>::cplx) {
			if (two && pack) B::HPR2(u, n, al, x.p(), x.inc, y.p(), y.inc, a.p());
			else if (two) B::HER2(u, n, al, x.p(), x.inc, y.p(), y.inc, a.p(), a.ld);
			else if (pack) B::HPR(u, n, al, x.p(), x.inc, a.p());
			else B::HER(u, n, al, x.p(), x.inc, a.p(), a.ld);
		} else {
			if (two && pack) B::SPR2(u, n, al, x.p(), x.inc, y.p(), y.inc, a.p());
			else if (two) B::SYR2(u, n, al, x.p(), x.inc, y.p(), y.inc, a.p(), a.ld);
			else if (pack) B::SPR(u, n, al, x.p(), x.inc, a.p());
			else B::SYR(u, n, al, x.p(), x.inc, a.p(), a.ld);
		}
		same(x.b, X), same(y.b, Y);
		cmp(a.b, A, want);
	}
	void level1(int what)
	{
		int n = sz();
		V<T> x(r, n), y(r, n);
		if (what == 2) x.inc = std::abs(x.inc), y.inc = std::abs(y.inc);
		T al = scal();
		static const char* N[] = { "AXPY", "COPY", "SCAL", "DOT" };
		start(N[what], x.s() + y.s() + sc(al));
		auto X = x.b, Y = y.b;
		std::vector<W> e(n);
		W dot = 0;
		for (int i = 0; i < n; ++i) {
			dot += w(x(i)) * w(y(i));
			e[i] = what == 0 ? w(al) * w(x(i)) + w(y(i)) : what == 1 ? w(x(i)) : what == 2 ? w(al) * w(y(i)) : w(y(i));
		}
		if (what == 0) B::AXPY(n, al, x.p(), x.inc, y.p(), y.inc);
		if (what == 1) B::COPY(n, x.p(), x.inc, y.p(), y.inc);
		if (what == 2) B::SCAL(n, al, y.p(), y.inc);
		if constexpr (std::is_same<T, double>::value)
			if (what == 3) {
				double g = B::DOT(n, x.p(), x.inc, y.p(), y.inc);
				if (!(std::fabs(g - (double)dot.real()) <= 1e-11)) c.fail("blas-DOT", d + ": " + std::to_string(g) + " expected " + std::to_string((double)dot.real()));
			}
		same(x.b, X);
		cmpV(y, Y, e);
	}
	void any()
	{
		const bool cx = Tr<T>::cplx;
		switch (r.range(0, 18)) {
		case 0: gemm(); break;
		case 1: symm(cx && r.chance(0.5)); break;
		case 2: symm(cx); break;
		case 3: syrk(cx && r.chance(0.5), false); break;
		case 4: syrk(cx && r.chance(0.5), true); break;
		case 5: trmm(false); break;
		case 6: trmm(true); break;
		case 7: gemv(); break;
		case 8: gbmv(); break;
		case 9: symv(cx, 0); break;
		case 10: symv(cx, 1); break;
		case 11: symv(cx, 2); break;
		case 12:
		case 13: trmv(false, r.range(0, 2)); break;
		case 14:
		case 15: trmv(true, r.range(0, 2)); break;
		case 16: ger(cx && r.chance(0.5)); break;
		case 17: syr(r.chance(0.5), r.chance(0.5)); break;
		default: level1(r.range(0, std::is_same<T, double>::value ? 3 : 2));
		}
	}

	// ---- LAPACK -------------------------------------------------------
	typedef typename Tr<T>::R R;
	void near(const D& a, const D& b, const char* what, double f = 300)
	{
		for (size_t i = 0; i < a.d.size(); ++i)
			if (!(std::abs(a.d[i] - b.d[i]) <= f * tol)) c.fail(std::string("lapack-") + name, d + ": " + what);
	}
	static D eye(int n)
	{
		D o(n, n);
		for (int i = 0; i < n; ++i) o(i, i) = 1;
		return o;
	}
	void guards(const std::vector<T>& b, const std::vector<T>& before, const M<T>& m)
	{
		std::vector<char> in(b.size(), 0);
		for (int j = 0; j < m.c; ++j)
			for (int i = 0; i < m.r; ++i) in[m.at(i, j)] = 1;
		for (size_t i = 0; i < b.size(); ++i)
			if (!in[i] && b[i] != before[i]) c.fail("lapack-" + name, d + ": storage outside the matrix was changed");
	}
	void gesv()
	{
		int n = r.range(1, 7), k = r.range(1, 4);
		M<T> a(r, n, n), b(r, n, k);
		for (int i = 0; i < n; ++i) a(i, i) += T(9);
		if (n > 1 && r.chance(0.5)) // needs pivoting
			for (int j = 0; j < n; ++j) std::swap(a(0, j), a(n - 1, j));
		bool singular = r.chance(0.15);
		if (singular)
			for (int j = 0; j < n; ++j) a(j, n - 1) = T(0);
		start("GESV", a.s() + b.s() + (singular ? " singular" : ""));
		D A = dense(a, n, n), Bd = dense(b, n, k);
		auto sa = a.b, sb = b.b;
		std::vector<int> piv(n + 1, -7);
		int info = -99;
		L::GESV(n, k, a.p(), a.ld, &piv[0], b.p(), b.ld, info);
		guards(a.b, sa, a), guards(b.b, sb, b);
		if (piv[n] != -7) c.fail("lapack-GESV", d + ": pivots beyond the end");
		if (singular) {
			if (info <= 0) c.fail("lapack-GESV", d + ": info " + std::to_string(info) + " for a singular matrix");
			c.count("singular matrices reported");
			return;
		}
		if (info) c.fail("lapack-GESV", d + ": info " + std::to_string(info));
		near(mul(A, dense(b, n, k)), Bd, "the solution does not solve");
		c.count("factorizations judged");
		c.nontrivial(d);
	}
	void getrf()
	{
		bool square = r.chance(0.7);
		int n = r.range(1, 7), m = square ? n : int(r.range(1, 7));
		M<T> a(r, m, n);
		for (int i = 0; i < std::min(m, n); ++i) a(i, i) += T(9);
		if (m > 1 && r.chance(0.5))
			for (int j = 0; j < n; ++j) std::swap(a(0, j), a(m - 1, j));
		start("GETRF", a.s());
		D A = dense(a, m, n);
		auto sa = a.b;
		int q = std::min(m, n), info = -99;
		std::vector<int> piv(q + 1, -7);
		L::GETRF(m, n, a.p(), a.ld, &piv[0], info);
		guards(a.b, sa, a);
		if (info || piv[q] != -7) c.fail("lapack-GETRF", d + ": info " + std::to_string(info));
		D l(m, q), u(q, n);
		for (int i = 0; i < m; ++i)
			for (int j = 0; j < q; ++j) l(i, j) = i == j ? W(1) : i > j ? w(a(i, j)) : W(0);
		for (int i = 0; i < q; ++i)
			for (int j = i; j < n; ++j) u(i, j) = w(a(i, j));
		D p = mul(l, u);
		for (int i = q - 1; i >= 0; --i) {
			if (piv[i] < 1 || piv[i] > m) c.fail("lapack-GETRF", d + ": pivot " + std::to_string(piv[i]));
			for (int j = 0; j < n; ++j) std::swap(p(i, j), p(piv[i] - 1, j));
		}
		near(p, A, "P*L*U is not the matrix");
		c.count("factorizations judged");
		c.nontrivial(d);
		if (!square) return;
		name = "GETRI";
		int lw = -1;
		T query[2] = {};
		L::GETRI(n, a.p(), a.ld, &piv[0], query, lw, info);
		if (info || std::real(query[0]) < n) c.fail("lapack-GETRI", d + ": workspace query");
		lw = int(std::real(query[0]));
		std::vector<T> work(lw + 2, T(5));
		L::GETRI(n, a.p(), a.ld, &piv[0], &work[0], lw, info);
		guards(a.b, sa, a);
		if (info || work[lw] != T(5)) c.fail("lapack-GETRI", d + ": info " + std::to_string(info));
		near(mul(A, dense(a, n, n)), eye(n), "not the inverse");
		c.count("inverses judged");
	}
	void svd(bool dd)
	{
		int m = r.range(1, 7), n = r.range(1, 7), q = std::min(m, n);
		bool all = r.chance(0.5);
		char job = all ? 'A' : 'S';
		int uc = all ? m : q, vr = all ? n : q;
		M<T> a(r, m, n), u(r, m, uc), v(r, vr, n);
		start(dd ? "GESDD" : "GESVD", ch({ job }) + a.s() + u.s() + v.s());
		D A = dense(a, m, n);
		auto sa = a.b, su = u.b, sv = v.b;
		std::vector<R> s(q + 1, R(-3)), rwork(5 * q * q + 7 * q * std::max(m, n) + 100);
		std::vector<int> iwork(8 * q + 1, -7);
		int info = -99, lw = -1;
		T query[2] = {};
		int M_ = m, N_ = n, lda = a.ld, ldu = u.ld, ldv = v.ld;
		char job2 = job;
		std::vector<T> work(1);
		for (int pass = 0; pass < 2; ++pass) {
			T* wp = pass ? &work[0] : query;
			if (dd) L::GESDD(&job, &M_, &N_, a.p(), &lda, &s[0], u.p(), &ldu, v.p(), &ldv, wp, &lw, &rwork[0], &iwork[0], &info);
			else L::GESVD(&job, &job2, &M_, &N_, a.p(), &lda, &s[0], u.p(), &ldu, v.p(), &ldv, wp, &lw, &rwork[0], &info);
			if (info) c.fail("lapack-" + name, d + ": info " + std::to_string(info));
			if (!pass) lw = std::max(int(std::real(query[0])), 1) + 8, work.resize(lw);
		}
		guards(a.b, sa, a), guards(u.b, su, u), guards(v.b, sv, v);
		if (s[q] != R(-3)) c.fail("lapack-" + name, d + ": singular values beyond the end");
		D U = dense(u, m, uc), Vt = dense(v, vr, n), S(uc, vr);
		for (int i = 0; i < q; ++i) {
			S(i, i) = s[i];
			if (s[i] < 0 || (i && s[i] > s[i - 1])) c.fail("lapack-" + name, d + ": singular values not in descending order");
		}
		near(mul(mul(U, S), Vt), A, "U*S*V is not the matrix");
		near(mul(op(U, 'C'), U), eye(uc), "U is not an isometry");
		near(mul(Vt, op(Vt, 'C')), eye(vr), "V is not an isometry");
		c.count("decompositions judged");
		c.nontrivial(d);
	}
	void tridiagonal()
	{
		if constexpr (!Tr<T>::cplx) {
			int n = r.range(1, 9);
			std::vector<T> dd(n + 1, T(77)), ee(std::max(1, n), T(77));
			for (int i = 0; i < n; ++i) dd[i] = val<T>(r);
			for (int i = 0; i + 1 < n; ++i) ee[i] = val<T>(r);
			D A(n, n);
			for (int i = 0; i < n; ++i) A(i, i) = w(dd[i]);
			for (int i = 0; i + 1 < n; ++i) A(i, i + 1) = A(i + 1, i) = w(ee[i]);
			start("STEQR", " n" + std::to_string(n));
			std::vector<T> d1 = dd, e1 = ee, d2 = dd, e2 = ee, work(2 * n + 1, T(77));
			M<T> z(r, n, n);
			auto sz_ = z.b;
			int info = -99, nn = n;
			L::STEQR('I', n, &d1[0], &e1[0], z.p(), z.ld, &work[0], &info);
			guards(z.b, sz_, z);
			if (info || d1[n] != T(77)) c.fail("lapack-STEQR", d + ": info " + std::to_string(info));
			D Z = dense(z, n, n), S(n, n);
			for (int i = 0; i < n; ++i) S(i, i) = w(d1[i]);
			near(mul(A, Z), mul(Z, S), "not eigenvectors");
			near(mul(op(Z, 'T'), Z), eye(n), "eigenvectors not orthonormal");
			name = "STERF";
			info = -99;
			L::STERF(&nn, &d2[0], &e2[0], &info);
			if (info || d2[n] != T(77)) c.fail("lapack-STERF", d + ": info " + std::to_string(info));
			for (int i = 0; i < n; ++i) {
				if (i && d2[i] < d2[i - 1]) c.fail("lapack-STERF", d + ": not ascending");
				if (!(std::fabs(d2[i] - d1[i]) <= 300 * tol)) c.fail("lapack-STERF", d + ": eigenvalues differ between the two routines");
			}
			c.count("spectra judged");
			c.nontrivial(d);
		}
	}
	void lapack()
	{
		switch (r.range(0, 4)) {
		case 0: gesv(); break;
		case 1: getrf(); break;
		case 2: svd(true); break;
		case 3: svd(false); break;
		default: tridiagonal();
		}
	}
};

template <typename T> static void blas(Ctx& c)
{
	Judge<T> j(c);
	int n = c.rng.range(1, 8);
	for (int i = 0; i < n; ++i) j.any();
}
template <typename T> static void lapack(Ctx& c)
{
	Judge<T> j(c);
	j.lapack();
}
FAMILY(blas_float, 3000, 60000) { blas<float>(c); }
FAMILY(blas_double, 3000, 60000) { blas<double>(c); }
FAMILY(blas_cfloat, 3000, 60000) { blas<cf>(c); }
FAMILY(blas_cdouble, 3000, 60000) { blas<cd>(c); }
FAMILY(lapack_float, 1500, 30000) { lapack<float>(c); }
FAMILY(lapack_double, 1500, 30000) { lapack<double>(c); }
FAMILY(lapack_cfloat, 1500, 30000) { lapack<cf>(c); }
FAMILY(lapack_cdouble, 1500, 30000) { lapack<cd>(c); }
FAMILY(version, 8, 8)
{
	int a = 0, b = 0, p = 0;
	L::ilaver_(&a, &b, &p);
	bool want = a > 3 || (a == 3 && b >= 3); // LAPACK routines are thread safe since 3.3
	if (L::isThreadSafe() != want) c.fail("thread-safe", "LAPACK " + std::to_string(a) + "." + std::to_string(b) + " is reported " + (want ? "unsafe" : "safe"));
	c.nontrivial(uint64_t(a * 1000 + b));
}
