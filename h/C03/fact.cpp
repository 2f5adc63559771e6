#include "LAPACK.h"
#include "Matrix.h"
#include "Svd.h"
#include "vh.h"
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::complex<float> C;
typedef vh::Ctx Ctx;
extern unsigned long vhLapackCalls;
// The reference LAPACK ends the process on an illegal argument; vendor libraries report
// it through info and return.  The second behaviour lets the caller's checks be observed.
extern "C" void xerbla_(const char*, int*, size_t) { }

template <typename T> struct Dbl { typedef double Type; };
template <typename T> struct Dbl<std::complex<T>> { typedef Z Type; };
template <typename T> struct Eps { static double v() { return 1e-11; } };
template <> struct Eps<float> { static double v() { return 2e-4; } };
template <> struct Eps<C> { static double v() { return 2e-4; } };
inline double up(float x) { return x; }
inline double up(double x) { return x; }
template <typename T> Z up(const std::complex<T>& x) { return Z(x.real(), x.imag()); }
template <typename T> void down(T& y, const T& x) { y = x; }
inline void down(float& y, double x) { y = x; }
inline void down(C& y, const Z& x) { y = C(x.real(), x.imag()); }

template <typename T> vh::Ref<typename Dbl<T>::Type> toRef(const Matrix<T>& m)
{
	vh::Ref<typename Dbl<T>::Type> a(m.rows(), m.cols());
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.cols(); ++j) a(i, j) = up(m(i, j));
	return a;
}
// fills m from a reference matrix, rounding to its type; returns the rounded one
template <typename T> vh::Ref<typename Dbl<T>::Type> load(Matrix<T>& m, const vh::Ref<typename Dbl<T>::Type>& a)
{
	m = Matrix<T>(a.r, a.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j) down(m(i, j), a(i, j));
	return toRef(m);
}
template <typename D> vh::Ref<D> rnd(vh::Rng& r, size_t n, size_t m)
{
	vh::Ref<D> a(n, m);
	for (auto& x : a.d) x = vh::RandVal<D>::get(r);
	return a;
}
// random unitary: product of Householder reflections
template <typename D> vh::Ref<D> unitary(vh::Rng& r, size_t n)
{
	vh::Ref<D> q = vh::ident<D>(n);
	for (int k = 0; k < 3; ++k) {
		std::vector<D> v(n);
		double s = 0;
		for (auto& x : v) {
			x = vh::RandVal<D>::get(r);
			s += std::norm(x);
		}
		if (s == 0) continue;
		vh::Ref<D> h = vh::ident<D>(n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) h(i, j) -= 2.0 * v[i] * vh::cconj(v[j]) / s;
		q = vh::mul(q, h);
	}
	return q;
}
static const char* kinds[] = { "random", "degenerate", "diagonal", "zero", "identity", "integer", "rank1", "tridiagonal", "scaled" };
template <typename D> vh::Ref<D> herm(vh::Rng& r, size_t n, int kind)
{
	vh::Ref<D> a(n, n);
	switch (kind) {
	case 1: {
		vh::Ref<D> q = unitary<D>(r, n), d(n, n);
		for (size_t i = 0; i < n; ++i) d(i, i) = r.range(-1, 2);
		a = vh::mul(q, vh::mul(d, vh::adj(q)));
		for (size_t i = 0; i < n; ++i) {
			a(i, i) = vh::creal(a(i, i));
			for (size_t j = 0; j < i; ++j) a(i, j) = vh::cconj(a(j, i));
		}
		return a;
	}
	case 2:
		for (size_t i = 0; i < n; ++i) a(i, i) = r.range(-4, 4);
		return a;
	case 3: return a;
	case 4: return vh::ident<D>(n);
	case 5:
		a = vh::randHerm<D>(r, n);
		for (size_t i = 0; i < n; ++i) {
			a(i, i) = r.range(-3, 3);
			for (size_t j = 0; j < i; ++j) {
				a(i, j) = vh::RandVal<D>::getInt(r);
				a(j, i) = vh::cconj(a(i, j));
			}
		}
		return a;
	case 6: {
		vh::Ref<D> v = rnd<D>(r, n, 1);
		a = vh::mul(v, vh::adj(v));
		for (size_t i = 0; i < n; ++i) a(i, i) = vh::creal(a(i, i));
		return a;
	}
	case 7:
		a = vh::randHerm<D>(r, n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
				if (i > j + 1 || j > i + 1) a(i, j) = 0;
		return a;
	case 8: {
		a = vh::randHerm<D>(r, n);
		double f = std::pow(10.0, (double)r.range(-7, 7));
		for (auto& x : a.d) x *= f;
		return a;
	}
	}
	return vh::randHerm<D>(r, n);
}
template <typename D> double unitaryErr(const vh::Ref<D>& v) // columns orthonormal?
{
	return vh::dist(vh::mul(vh::adj(v), v), vh::ident<D>(v.c));
}

template <typename T> void diagCase(Ctx& c)
{
	typedef typename Dbl<T>::Type D;
	typedef typename Real<T>::Type R;
	vh::Rng& r = c.rng;
	int kind = r.range(0, 8);
	size_t n = r.chance(0.1) ? 1 : r.dim(1, c.thorough ? 40 : 20, 90);
	if (n > 30 && kind != 0) n = 12;
	Matrix<T> m;
	vh::Ref<D> a = load(m, herm<D>(r, n, kind));
	c.desc(std::string(kinds[kind]) + " " + vh::str(a));
	c.sample(std::string(kinds[kind]) + " " + vh::str(a));
	c.nontrivial(vh::str(a));
	std::vector<double> w = vh::eigvals(a);
	double tol = Eps<T>::v() * (1e-30 + a.maxabs()) * n;
	std::vector<R> eigs(r.range(0, 3), 7.0);
	Matrix<T> v = m;
	diag(v, eigs, r.chance(0.8) ? 'V' : 'v');
	EXPECT(eigs.size() == n, "diag:size", eigs.size());
	for (size_t i = 0; i < n; ++i) {
		EXPECT(i == 0 || eigs[i] >= eigs[i - 1], "diag:order", "at " << i);
		EXPECT(std::fabs(eigs[i] - w[i]) <= tol, "diag:eigenvalue", i << ": " << eigs[i] << " want " << w[i]);
	}
	vh::Ref<D> V = toRef(v);
	EXPECT(V.r == n && V.c == n, "diag:shape", V.r << "x" << V.c);
	EXPECT(unitaryErr(V) <= Eps<T>::v() * n, "diag:orthonormal", unitaryErr(V));
	vh::Ref<D> W(n, n);
	for (size_t i = 0; i < n; ++i) W(i, i) = eigs[i];
	double e = vh::dist(vh::mul(V, vh::mul(W, vh::adj(V))), a);
	EXPECT(e <= 4 * tol, "diag:reconstruct", e);
	std::vector<R> eigs2;
	v = m;
	diag(v, eigs2, 'N');
	EXPECT(eigs2.size() == n, "diag:size", "N mode");
	for (size_t i = 0; i < n; ++i) EXPECT(std::fabs(eigs2[i] - w[i]) <= tol, "diag:eigenvalueN", i << ": " << eigs2[i] << " want " << w[i]);
	c.count("eigenpairs checked", n);
	// refusals
	if (r.chance(0.3)) {
		Matrix<T> q(n, n + r.range(1, 3)), q2(n + r.range(1, 3), n), q0;
		EXPECT(vh::throws([&]() { diag(q, eigs, 'V'); }), "diag:refusal", "wide matrix accepted");
		EXPECT(vh::throws([&]() { diag(q2, eigs, 'V'); }), "diag:refusal", "tall matrix accepted");
		char bad = "XZ1 AS"[r.range(0, 5)];
		EXPECT(vh::throws([&]() { Matrix<T> x = m; diag(x, eigs, bad); }), "diag:refusal", "mode accepted: " << bad);
		EXPECT(vh::throws([&]() { diag(q0, eigs, 'V'); }), "diag:refusal", "empty matrix accepted");
		c.count("refusals checked", 4);
	}
	c.count("LAPACK calls monitored", vhLapackCalls);
	vhLapackCalls = 0;
}
FAMILY(diag_double, 2400, 16000) { diagCase<double>(c); }
FAMILY(diag_complex, 2400, 12000) { diagCase<Z>(c); }
FAMILY(diag_float, 1800, 8000) { diagCase<float>(c); }
FAMILY(diag_cfloat, 1800, 8000) { diagCase<C>(c); }

FAMILY(geev, 4800, 32000)
{
	vh::Rng& r = c.rng;
	size_t n = r.dim(1, c.thorough ? 24 : 12, 60);
	int kind = r.range(0, 5);
	vh::Ref<Z> a = rnd<Z>(r, n, n);
	if (kind == 1)
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < i; ++j) a(i, j) = 0;
	if (kind == 2) a = vh::randHerm<Z>(r, n);
	if (kind == 3)
		for (auto& x : a.d) x = x.real();
	if (kind == 4) a = unitary<Z>(r, n);
	if (kind == 5) {
		double f = std::pow(10.0, (double)r.range(-6, 6));
		for (auto& x : a.d) x *= f;
	}
	c.desc(vh::str(a));
	c.sample(vh::str(a));
	c.nontrivial(vh::str(a));
	bool L = r.chance(0.6), Rt = r.chance(0.6);
	if (!L && !Rt) Rt = true;
	Matrix<Z> m, vl(n, n), vr(n, n);
	load(m, a);
	std::vector<Z> w(n);
	geev(L ? 'V' : 'N', Rt ? 'V' : 'N', m, w, vl, vr);
	Z tra = 0, sum = 0;
	for (size_t i = 0; i < n; ++i) {
		tra += a(i, i);
		sum += w[i];
	}
	double tol = 1e-11 * n * (1e-30 + a.maxabs());
	EXPECT(vh::close(tra, sum, 10 * tol), "geev:trace", tra << " vs " << sum);
	for (size_t k = 0; k < n; ++k) {
		for (int side = 0; side < 2; ++side) {
			if (side ? !L : !Rt) continue;
			const Matrix<Z>& v = side ? vl : vr;
			double nn = 0, res = 0;
			for (size_t i = 0; i < n; ++i) {
				nn += std::norm(v(i, k));
				Z s = 0;
				for (size_t j = 0; j < n; ++j) s += side ? std::conj(v(j, k)) * a(j, i) : a(i, j) * v(j, k);
				s -= w[k] * (side ? std::conj(v(i, k)) : v(i, k));
				res = std::max(res, std::abs(s));
			}
			EXPECT(std::fabs(nn - 1) < 1e-9, side ? "geev:leftNorm" : "geev:rightNorm", nn);
			EXPECT(res <= tol * 10, side ? "geev:left" : "geev:right", "residual " << res << " for " << w[k]);
			c.count("general eigenvectors checked");
		}
	}
	if (kind == 2) {
		std::vector<double> e = vh::eigvals(a), g;
		for (auto& x : w) g.push_back(x.real());
		std::sort(g.begin(), g.end());
		for (size_t i = 0; i < n; ++i) EXPECT(std::fabs(g[i] - e[i]) < tol * 10, "geev:hermitian", g[i] << " want " << e[i]);
	}
	if (r.chance(0.3)) {
		load(m, a);
		EXPECT(vh::throws([&]() { geev('X', 'V', m, w, vl, vr); }), "geev:refusal", "mode X accepted");
		EXPECT(vh::throws([&]() { geev('V', 'Q', m, w, vl, vr); }), "geev:refusal", "mode Q accepted");
		Matrix<Z> q(n, n + 1), q2(n + 1, n);
		EXPECT(vh::throws([&]() { geev('N', 'V', q, w, vl, vr); }), "geev:refusal", "wide matrix accepted");
		EXPECT(vh::throws([&]() { geev('N', 'V', q2, w, vl, vr); }), "geev:refusal", "tall matrix accepted");
		c.count("refusals checked", 4);
	}
}

template <typename T> void inverseCase(Ctx& c)
{
	typedef typename Dbl<T>::Type D;
	vh::Rng& r = c.rng;
	size_t n = r.dim(1, c.thorough ? 30 : 16, 70);
	int kind = r.range(0, 5);
	vh::Ref<D> a = rnd<D>(r, n, n);
	if (kind == 1) { // permutation times scaling
		std::vector<size_t> p(n);
		for (size_t i = 0; i < n; ++i) p[i] = i;
		for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.range(0, i - 1)]);
		a = vh::Ref<D>(n, n);
		for (size_t i = 0; i < n; ++i) a(i, p[i]) = r.chance(0.5) ? 2 : -0.5;
	}
	if (kind == 2) a = unitary<D>(r, n);
	if (kind == 3) // zero diagonal needs pivoting
		for (size_t i = 0; i < n && n > 2; ++i) a(i, i) = 0;
	if (kind == 4)
		for (size_t i = 0; i < n; ++i) a(i, i) += D(4.0 * n);
	bool singular = kind == 5;
	if (singular) {
		size_t z = r.range(0, n - 1);
		bool row = r.chance(0.5);
		for (size_t i = 0; i < n; ++i) (row ? a(z, i) : a(i, z)) = 0;
	}
	Matrix<T> m;
	a = load(m, a);
	c.desc(vh::str(a));
	c.sample(vh::str(a));
	c.nontrivial(vh::str(a));
	if (singular) {
		EXPECT(vh::throws([&]() { inverse(m); }), "inverse:singular", "accepted");
		c.count("refusals checked");
		return;
	}
	inverse(m);
	vh::Ref<D> b = toRef(m);
	EXPECT(b.r == n && b.c == n, "inverse:shape", b.r);
	double kappa = n * a.maxabs() * b.maxabs();
	double tol = Eps<T>::v() * 1e-1 * n * (1 + kappa);
	double e = vh::dist(vh::mul(a, b), vh::ident<D>(n)), e2 = vh::dist(vh::mul(b, a), vh::ident<D>(n));
	EXPECT(e <= tol && e2 <= tol, "inverse:identity", e << " " << e2 << " tol " << tol);
	c.count("inverses checked");
	if (r.chance(0.3)) {
		Matrix<T> q(n, n + 1), q2(n + 1, n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) q(i, j) = q2(i, j) = m(i, j);
		EXPECT(vh::throws([&]() { inverse(q); }), "inverse:refusal", "wide accepted");
		EXPECT(vh::throws([&]() { inverse(q2); }), "inverse:refusal", "tall accepted");
		c.count("refusals checked", 2);
	}
	c.count("LAPACK calls monitored", vhLapackCalls);
	vhLapackCalls = 0;
}
FAMILY(inverse_double, 3000, 20000) { inverseCase<double>(c); }
FAMILY(inverse_complex, 3000, 20000) { inverseCase<Z>(c); }
FAMILY(inverse_float, 1200, 8000) { inverseCase<float>(c); }
FAMILY(inverse_cfloat, 1200, 8000) { inverseCase<C>(c); }

template <typename T> void svdCase(Ctx& c)
{
	typedef typename Dbl<T>::Type D;
	typedef typename Real<T>::Type R;
	vh::Rng& r = c.rng;
	size_t n = r.dim(1, c.thorough ? 40 : 18, 80), m = r.dim(1, c.thorough ? 40 : 18, 80);
	if (r.chance(0.1)) n = 60, m = r.range(1, 5);
	if (r.chance(0.1)) m = 60, n = r.range(1, 5);
	int kind = r.range(0, 5);
	vh::Ref<D> a = rnd<D>(r, n, m);
	if (kind == 1) a = vh::Ref<D>(n, m);
	if (kind == 2) {
		size_t k = r.range(1, std::min(n, m));
		a = vh::mul(rnd<D>(r, n, k), rnd<D>(r, k, m));
	}
	if (kind == 3)
		for (auto& x : a.d) x = vh::RandVal<D>::getInt(r);
	if (kind == 4 && n == m) a = unitary<D>(r, n);
	if (kind == 5) {
		double f = std::pow(10.0, (double)r.range(-6, 6));
		for (auto& x : a.d) x *= f;
	}
	Matrix<T> A;
	a = load(A, a);
	char jobz = r.chance(0.5) ? 'A' : 'S';
	bool sdd = r.chance(0.5);
	c.desc(std::string(1, jobz) + (sdd ? " gesdd " : " gesvd ") + vh::str(a));
	c.sample(std::string(1, jobz) + (sdd ? " gesdd " : " gesvd ") + vh::str(a));
	c.nontrivial(jobz + (sdd ? 1 : 0) + vh::hashStr(vh::str(a)));
	Svd<T> svd(sdd ? "gesdd" : "gesvd");
	EXPECT(svd.name() == (sdd ? "gesdd" : "gesvd") && svd.canTryAgain() == sdd, "svd:name", svd.name());
	Svd<T> svdDefault;
	EXPECT(svdDefault.name() == "gesdd", "svd:defaultName", svdDefault.name());
	std::vector<R> s(r.range(0, 2), 3.0);
	Matrix<T> vt;
	if (r.chance(0.2)) vt.resize(jobz == 'A' ? m : std::min(n, m), m);
	svd(jobz, A, s, vt);
	size_t mn = std::min(n, m), uc = jobz == 'A' ? n : mn, vr = jobz == 'A' ? m : mn;
	EXPECT(s.size() == mn, "svd:size", s.size());
	EXPECT(A.rows() == n && A.cols() == uc, "svd:shapeU", A.rows() << "x" << A.cols());
	EXPECT(vt.rows() == vr && vt.cols() == m, "svd:shapeV", vt.rows() << "x" << vt.cols());
	double tol = Eps<T>::v() * (n + m) * (1e-30 + a.maxabs());
	for (size_t i = 0; i < mn; ++i) EXPECT(s[i] >= 0 && (i == 0 || s[i] <= s[i - 1]), "svd:order", i << ": " << s[i]);
	vh::Ref<D> U = toRef(A), V = vh::adj(toRef(vt)), S(uc, vr);
	for (size_t i = 0; i < mn; ++i) S(i, i) = s[i];
	EXPECT(unitaryErr(U) <= Eps<T>::v() * n, "svd:U", unitaryErr(U));
	EXPECT(unitaryErr(V) <= Eps<T>::v() * m, "svd:V", unitaryErr(V));
	double e = vh::dist(vh::mul(U, vh::mul(S, vh::adj(V))), a);
	EXPECT(e <= tol, "svd:reconstruct", e);
	c.count("singular values checked", mn);
	if (r.chance(0.3)) {
		Matrix<T> q;
		load(q, a);
		char bad = "NOVXas"[r.range(0, 5)];
		EXPECT(vh::throws([&]() { svd(bad, q, s, vt); }), "svd:refusal", "mode accepted: " << bad);
		Svd<T> other(r.chance(0.5) ? "gesvdx" : "");
		EXPECT(!other.canTryAgain(), "svd:canTryAgain", "unknown");
		EXPECT(vh::throws([&]() { other('A', q, s, vt); }), "svd:refusal", "backend accepted");
		c.count("refusals checked", 2);
	}
	c.count("LAPACK calls monitored", vhLapackCalls);
	vhLapackCalls = 0;
}
FAMILY(svd_double, 3000, 20000) { svdCase<double>(c); }
FAMILY(svd_complex, 3000, 20000) { svdCase<Z>(c); }
FAMILY(svd_float, 1200, 8000) { svdCase<float>(c); }
FAMILY(svd_cfloat, 1200, 8000) { svdCase<C>(c); }

// power series with scaling and squaring
static vh::Ref<Z> seriesExp(vh::Ref<Z> a)
{
	int sq = 0;
	while (a.maxabs() * a.r > 0.5) {
		for (auto& x : a.d) x *= 0.5;
		++sq;
	}
	vh::Ref<Z> s = vh::ident<Z>(a.r), t = s;
	for (int k = 1; k < 30; ++k) {
		t = vh::mul(t, a);
		for (auto& x : t.d) x /= double(k);
		s = vh::add(s, t, Z(1), Z(1));
	}
	while (sq--) s = vh::mul(s, s);
	return s;
}
template <typename T> void expCase(Ctx& c)
{
	typedef typename Dbl<T>::Type D;
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 8);
	int kind = r.range(0, 7);
	Matrix<T> m;
	vh::Ref<D> a = load(m, herm<D>(r, n, kind));
	c.desc(vh::str(a));
	c.sample(vh::str(a));
	c.nontrivial(vh::str(a));
	const bool cx = vh::IsCplx<T>::value;
	vh::Ref<Z> g(n, n);
	for (size_t i = 0; i < a.d.size(); ++i) g.d[i] = Z(a.d[i]) * (cx ? Z(0, 1) : Z(1));
	vh::Ref<Z> want = seriesExp(g);
	Matrix<T> x = m;
	PsimagLite::exp(x);
	EXPECT(x.rows() == n && x.cols() == n, "exp:shape", x.rows());
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			EXPECT(vh::close(Z(x(i, j)), want(i, j), Eps<T>::v() * 100 * (1 + want.maxabs())), "exp:value", i << "," << j << ": " << x(i, j) << " want " << want(i, j));
	x = m;
	if constexpr (vh::IsCplx<T>::value) {
		for (auto& y : g.d) y *= M_PI;
		want = seriesExp(g);
		expIpi(x);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) EXPECT(vh::close(Z(x(i, j)), want(i, j), 1e-8), "expIpi:value", i << "," << j << ": " << x(i, j) << " want " << want(i, j));
		Matrix<T> q(n, n + 1);
		EXPECT(vh::throws([&]() { expIpi(q); }), "expIpi:refusal", "wide accepted");
	} else {
		EXPECT(vh::throws([&]() { expIpi(x); }), "expIpi:refusal", "real accepted");
	}
	Matrix<T> q(n, n + 1), q2(n + 1, n);
	EXPECT(vh::throws([&]() { PsimagLite::exp(q); }), "exp:refusal", "wide accepted");
	EXPECT(vh::throws([&]() { PsimagLite::exp(q2); }), "exp:refusal", "tall accepted");
	c.count("exponentials checked");
}
FAMILY(exp_double, 2400, 16000) { expCase<double>(c); }
FAMILY(exp_complex, 2400, 16000) { expCase<Z>(c); }
