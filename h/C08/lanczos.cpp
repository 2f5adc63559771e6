#include "CrsMatrix.h"
#include "DavidsonSolver.h"
#include "LanczosSolver.h"
#include "ParametersForSolver.h"
#include "PsimagLite.h"
#include "vh.h"
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef ParametersForSolver<double> Params;

// operator given by a dense reference matrix; counts its applications
template <typename T> struct Op {
	typedef T value_type;
	const vh::Ref<T>& h;
	mutable size_t calls;
	mutable bool nan;
	Op(const vh::Ref<T>& h_) : h(h_), calls(0), nan(false) { }
	SizeType rows() const { return h.r; }
	SizeType cols() const { return h.c; }
	void matrixVectorProduct(std::vector<T>& x, const std::vector<T>& y) const
	{
		++calls;
		for (size_t i = 0; i < h.r; ++i) {
			T s = 0;
			for (size_t j = 0; j < h.c; ++j) s += h(i, j) * y[j];
			x[i] += s;
			if (!(vh::cabs1(y[i]) < 1e300)) nan = true;
		}
	}
};
static const char* kinds[] = { "random", "chain", "diagonal", "clustered", "degenerate", "constant", "blocks", "lowrank" };
// the spectrum of kinds 4.. is degenerate
template <typename T> vh::Ref<T> makeH(vh::Rng& r, size_t n, int kind)
{
	vh::Ref<T> h(n, n);
	switch (kind) {
	case 1:
		for (size_t i = 0; i + 1 < n; ++i) h(i, i + 1) = h(i + 1, i) = T(-1);
		for (size_t i = 0; i < n; ++i) h(i, i) = T(r.real(-0.5, 0.5));
		return h;
	case 2: {
		double x = r.real(-3, 3);
		for (size_t i = 0; i < n; ++i) h(i, i) = T(x), x += r.real(0.2, 1);
		return h;
	}
	case 0: return vh::randHerm<T>(r, n);
	default: break;
	}
	// given spectrum in a random basis
	std::vector<double> w(n);
	double c0 = r.chance(0.3) ? 0 : r.real(-3, 3), c1 = c0 + r.real(0.5, 2);
	for (size_t i = 0; i < n; ++i) {
		if (kind == 3) w[i] = (i < n / 3) ? -4 + 0.05 * i : 2 + 0.1 * i;
		else if (kind == 4) w[i] = c0 + double(i / 3);
		else if (kind == 5) w[i] = c0;
		else if (kind == 6) w[i] = (i % 2) ? c0 : c1;
		else w[i] = (i < 2) ? c1 : 0;
	}
	if (r.chance(0.3)) {
		for (size_t i = 0; i < n; ++i) h(i, i) = T(w[i]);
		return h;
	}
	vh::Ref<T> q = vh::ident<T>(n); // product of Householder reflections
	for (int k = 0; k < 2; ++k) {
		std::vector<T> u(n);
		double s = 0;
		for (size_t i = 0; i < n; ++i) u[i] = vh::RandVal<T>::get(r), s += std::norm(u[i]);
		vh::Ref<T> p = vh::ident<T>(n);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) p(i, j) -= (2.0 / s) * u[i] * vh::cconj(u[j]);
		q = vh::mul(q, p);
	}
	vh::Ref<T> d(n, n);
	for (size_t i = 0; i < n; ++i) d(i, i) = T(w[i]);
	h = vh::mul(vh::mul(q, d), vh::adj(q));
	for (size_t i = 0; i < n; ++i) {
		h(i, i) = T(vh::creal(h(i, i)));
		for (size_t j = i + 1; j < n; ++j) h(j, i) = vh::cconj(h(i, j));
	}
	return h;
}
template <typename T> std::vector<T> randVec(vh::Rng& r, size_t n)
{
	std::vector<T> v(n);
	double s = 0;
	while (!(s > 1e-2)) {
		s = 0;
		for (size_t i = 0; i < n; ++i) v[i] = vh::RandVal<T>::get(r), s += std::norm(v[i]);
	}
	return v;
}
template <typename T> double norm2(const std::vector<T>& v)
{
	double s = 0;
	for (auto& x : v) s += std::norm(x);
	return std::sqrt(s);
}
template <typename T> T dot(const std::vector<T>& a, const std::vector<T>& b)
{
	T s = 0;
	for (size_t i = 0; i < a.size(); ++i) s += vh::cconj(a[i]) * b[i];
	return s;
}
template <typename T> double residual(const vh::Ref<T>& h, const std::vector<T>& z, double e)
{
	double s = 0;
	for (size_t i = 0; i < h.r; ++i) {
		T x = -e * z[i];
		for (size_t j = 0; j < h.c; ++j) x += h(i, j) * z[j];
		s += std::norm(x);
	}
	return std::sqrt(s);
}
template <typename T> struct Problem {
	size_t n;
	int kind;
	vh::Ref<T> h;
	std::vector<double> w;
	double scale;
	std::vector<T> init;
	Problem(Ctx& c, bool degenerate)
	{
		n = c.rng.range(1, c.thorough ? 60 : 36);
		if (c.rng.chance(0.35)) n = c.rng.range(1, 6);
		else if (c.rng.chance(0.008))
			n = c.rng.range(40, 110);
		kind = c.rng.range(0, degenerate ? 7 : 3);
		h = makeH<T>(c.rng, n, kind);
		w = vh::eigvals(h);
		scale = std::max(1.0, std::max(std::fabs(w.front()), std::fabs(w.back())));
		init = randVec<T>(c.rng, n);
		std::ostringstream o;
		o << "n=" << n << " kind=" << kinds[kind] << " E0=" << w[0] << " h=" << vh::str(h);
		c.desc(o.str().substr(0, 900));
		c.nontrivial(o.str());
		if (c.index < 5) c.sample(o.str().substr(0, 100));
	}
};
static Params params()
{
	Params p;
	p.lotaMemory = true;
	return p;
}
// levels computed by the solver, counted from below
template <typename T> void ground(Ctx& c)
{
	typedef LanczosSolver<Params, Op<T>, std::vector<T>> Solver;
	Problem<T> pr(c, true);
	const size_t n = pr.n;
	Params p = params();
	p.steps = n + c.rng.range(0, 50);
	if (c.rng.chance(0.5)) p.options = "reortho";
	p.tolerance = c.rng.chance(0.5) ? 1e-12 : 1e-10;
	Op<T> op(pr.h);
	Solver s(op, p);
	double e = 1e9;
	std::vector<T> z(n);
	if (c.rng.chance(0.3)) z = randVec<T>(c.rng, n); // old contents of the output do not matter
	std::vector<T> init = pr.init;
	s.computeOneState(e, z, init, 0);
	EXPECT(init == pr.init, "lanczos:init changed", "");
	EXPECT(!op.nan, "lanczos:nan", "the solver applied the operator to a vector with NaN or Inf");
	EXPECT(vh::close(e, pr.w[0], 1e-7 * pr.scale), "lanczos:ground energy", e << " but " << pr.w[0] << " after " << s.steps() << " steps, options " << p.options);
	EXPECT(vh::close(norm2(z), 1.0, 1e-7), "lanczos:ground norm", norm2(z));
	double r = residual(pr.h, z, e);
	EXPECT(r <= 2e-4 * pr.scale, "lanczos:ground vector", "residual " << r << " energy " << e << " after " << s.steps());
	EXPECT(s.steps() <= p.steps && s.steps() <= n && op.calls <= std::min(p.steps, n), "lanczos:steps", s.steps() << " operator applications " << op.calls << " allowed " << p.steps);
	c.count("ground states checked");
	// same inputs, same results: fresh solver
	Op<T> op2(pr.h);
	Solver s2(op2, p);
	double e2 = 0;
	std::vector<T> z2(n);
	s2.computeOneState(e2, z2, init, 0);
	EXPECT(e2 == e && z2 == z && s.steps() == s2.steps(), "lanczos:repeat", "energies " << e << " " << e2);
	if (c.rng.chance(0.3)) {
		// and the same solver again
		std::vector<T> z3(n);
		double e3 = 0;
		s.computeOneState(e3, z3, init, 0);
		EXPECT(vh::close(e3, e, 1e-9 * pr.scale), "lanczos:again", "energies " << e << " " << e3);
		EXPECT(residual(pr.h, z3, e3) <= 2e-4 * pr.scale, "lanczos:again vector", "");
	}
}
FAMILY(ground_real, 1200, 6000) { ground<double>(c); }
FAMILY(ground_complex, 1200, 6000) { ground<std::complex<double>>(c); }

// excited levels, re-orthogonalized, no degenerate levels
template <typename T> void excited(Ctx& c)
{
	typedef LanczosSolver<Params, Op<T>, std::vector<T>> Solver;
	Problem<T> pr(c, false);
	const size_t n = pr.n;
	Params p = params();
	p.steps = n + c.rng.range(0, 20);
	p.options = c.rng.chance(0.5) ? "reortho" : "none,reortho";
	p.tolerance = c.rng.chance(0.3) ? -1 : 1e-12;
	size_t k = c.rng.range(0, n - 1);
	if (c.rng.chance(0.6)) k = std::min(n - 1, size_t(c.rng.range(0, 4)));
	Op<T> op(pr.h);
	Solver s(op, p);
	double e = 1e9;
	std::vector<T> z(n);
	s.computeOneState(e, z, pr.init, k);
	EXPECT(vh::close(e, pr.w[k], 1e-7 * pr.scale), "excited:energy", "level " << k << " is " << e << " but " << pr.w[k] << " after " << s.steps() << " steps");
	EXPECT(vh::close(norm2(z), 1.0, 1e-7), "excited:norm", norm2(z));
	EXPECT(residual(pr.h, z, e) <= 2e-4 * pr.scale, "excited:vector", "level " << k << " residual " << residual(pr.h, z, e) << " after " << s.steps());
	EXPECT(op.calls <= std::min(p.steps, n), "excited:steps", op.calls);
	c.count("excited states checked");

	Op<T> op2(pr.h);
	Solver s2(op2, p);
	std::vector<double> eigs;
	size_t m = std::min(n, k + c.rng.range(0, 2));
	std::vector<std::vector<T>> zz(m, std::vector<T>(n));
	if (c.rng.chance(0.3))
		for (auto& x : zz) x = randVec<T>(c.rng, n);
	s2.computeAllStatesBelow(eigs, zz, pr.init, k);
	size_t have = std::min(m, k + 1);
	EXPECT(eigs.size() >= k + 1, "below:count", eigs.size() << " levels for " << k);
	for (size_t i = 0; i <= k; ++i)
		EXPECT(vh::close(eigs[i], pr.w[i], 1e-7 * pr.scale), "below:energy", "level " << i << " of " << k << " is " << eigs[i] << " but " << pr.w[i]);
	for (size_t i = 0; i + 1 < eigs.size(); ++i) EXPECT(eigs[i] <= eigs[i + 1], "below:order", i);
	for (size_t i = 0; i < have; ++i) {
		EXPECT(residual(pr.h, zz[i], eigs[i]) <= 2e-4 * pr.scale, "below:vector", "level " << i << " residual " << residual(pr.h, zz[i], eigs[i]));
		for (size_t j = 0; j <= i; ++j)
			EXPECT(vh::close(dot(zz[j], zz[i]), T(i == j), 1e-8), "below:orthonormal", i << "," << j << " " << dot(zz[j], zz[i]));
	}
	c.count("levels below checked", k + 1);
}
FAMILY(excited_real, 800, 4000) { excited<double>(c); }
FAMILY(excited_complex, 800, 4000) { excited<std::complex<double>>(c); }

// the tridiagonal matrix is the projection on the stored basis
template <typename T> void projection(Ctx& c)
{
	typedef LanczosSolver<Params, Op<T>, std::vector<T>> Solver;
	Problem<T> pr(c, true);
	const size_t n = pr.n;
	Params p = params();
	bool reortho = c.rng.chance(0.6);
	if (reortho) p.options = "reortho";
	p.steps = c.rng.range(1, n + 5);
	p.tolerance = c.rng.chance(0.5) ? 1e-10 : (c.rng.chance(0.5) ? -1 : 1e-3);
	p.eigsForStop = c.rng.range(1, 4);
	p.minSteps = c.rng.range(0, 8);
	if (c.rng.chance(0.2)) p.tolerance = 1e6, p.minSteps = c.rng.range(0, 20); // any step settles
	Op<T> op(pr.h);
	Solver s(op, p);
	TridiagonalMatrix<double> ab;
	s.decomposition(pr.init, ab);
	size_t m = ab.size();
	EXPECT(m > 0 && m <= std::min(p.steps, n), "proj:size", m << " for " << p.steps);
	if (reortho && n > 4) { // never less than the steps asked for
		EXPECT(m >= std::min(std::min(size_t(p.minSteps), size_t(p.steps)), n), "proj:minimum steps", m << " steps for a minimum of " << p.minSteps << " with " << n << " rows");
		c.count("minimum steps checked");
	}
	EXPECT(s.steps() == m && op.calls <= p.steps, "proj:steps", s.steps() << " size " << m);
	Matrix<T> V;
	s.lanczosVectorsSwap(V);
	EXPECT(V.rows() == n && V.cols() == m, "proj:basis shape", V.rows() << "x" << V.cols() << " with " << m << " steps");
	double nrm = norm2(pr.init);
	for (size_t i = 0; i < n; ++i)
		EXPECT(vh::close(V(i, 0), pr.init[i] / T(nrm), 1e-12), "proj:first", i << " " << V(i, 0));
	vh::Ref<T> v(n, m), t(m, m);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) v(i, j) = V(i, j);
	Matrix<double> dense;
	ab.buildDenseMatrix(dense);
	EXPECT(dense.rows() == m && dense.cols() == m, "proj:dense shape", "");
	vh::Ref<double> td(m, m);
	for (size_t i = 0; i < m; ++i) {
		td(i, i) = ab.a(i);
		if (i + 1 < m) td(i, i + 1) = td(i + 1, i) = ab.b(i + 1);
	}
	for (size_t i = 0; i < m; ++i)
		for (size_t j = 0; j < m; ++j) {
			EXPECT(dense(i, j) == td(i, j), "proj:dense", i << "," << j);
			t(i, j) = T(td(i, j));
		}
	// H V = V T up to the last column
	vh::Ref<T> hv = vh::mul(pr.h, v), vt = vh::mul(v, t);
	for (size_t j = 0; j + 1 < m; ++j)
		for (size_t i = 0; i < n; ++i)
			EXPECT(vh::close(hv(i, j), vt(i, j), 1e-9 * pr.scale * std::sqrt(double(n))), "proj:recurrence", "column " << j << " of " << m << ": " << hv(i, j) << " " << vt(i, j));
	for (size_t j = 0; j < m; ++j) {
		double s2 = 0;
		T a = 0;
		for (size_t i = 0; i < n; ++i) s2 += std::norm(v(i, j)), a += vh::cconj(v(i, j)) * hv(i, j);
		EXPECT(vh::close(s2, 1.0, 1e-9), "proj:norm", "column " << j << " of " << m << " has norm^2 " << s2);
		EXPECT(vh::close(a, T(ab.a(j)), 1e-9 * pr.scale), "proj:diagonal", j << ": " << a << " " << ab.a(j));
	}
	if (reortho || m <= 2) {
		EXPECT(vh::dist(vh::mul(vh::adj(v), v), vh::ident<T>(m)) < 1e-9, "proj:orthonormal", "overlap error " << vh::dist(vh::mul(vh::adj(v), v), vh::ident<T>(m)) << " for " << m);
		double d = vh::dist(vh::mul(vh::adj(v), hv), t);
		EXPECT(d < 1e-9 * pr.scale * n, "proj:projection", d);
		c.count("projections checked");
	}
	// eigenvalues of the leading blocks
	std::vector<double> prev;
	for (size_t k = 2; k <= m; ++k) {
		std::vector<double> e;
		ab.diag(e, k);
		vh::Ref<double> tk(k, k);
		for (size_t i = 0; i < k; ++i)
			for (size_t j = 0; j < k; ++j) tk(i, j) = td(i, j);
		std::vector<double> w = vh::eigvals(tk);
		for (size_t i = 0; i < k; ++i) EXPECT(vh::close(e.at(i), w[i], 1e-9 * pr.scale), "tridiagonal:diag", "block " << k << " level " << i << ": " << e[i] << " " << w[i]);
		if (k == m) {
			// stopped early only when the levels asked for had settled
			if (m < std::min(p.steps, n) && m >= 3 && reortho)
				for (size_t i = 0; i < std::min(size_t(p.eigsForStop), m - 1); ++i)
					EXPECT(std::fabs(w[i] - prev[i]) < p.tolerance + 1e-9 * pr.scale, "proj:stopped early", "level " << i << " moved by " << w[i] - prev[i] << " in step " << m << " of " << p.steps);
		}
		prev = w;
		c.count("tridiagonal spectra checked");
	}
}
FAMILY(projection_real, 1000, 5000) { projection<double>(c); }
FAMILY(projection_complex, 1000, 5000) { projection<std::complex<double>>(c); }

// sparse matrices through the same door
FAMILY(sparse, 600, 3000)
{
	typedef std::complex<double> T;
	Problem<T> pr(c, false);
	Matrix<T> m(pr.n, pr.n);
	for (size_t i = 0; i < pr.n; ++i)
		for (size_t j = 0; j < pr.n; ++j) m(i, j) = pr.h(i, j);
	CrsMatrix<T> crs(m);
	Params p = params();
	p.steps = pr.n + 10;
	p.options = "reortho";
	LanczosSolver<Params, CrsMatrix<T>, std::vector<T>> s(crs, p);
	LanczosOrDavidsonBase<Params, CrsMatrix<T>, std::vector<T>>& base = s;
	double e;
	std::vector<T> z(pr.n);
	base.computeOneState(e, z, pr.init, 0);
	EXPECT(vh::close(e, pr.w[0], 1e-7 * pr.scale), "sparse:energy", e << " " << pr.w[0]);
	EXPECT(residual(pr.h, z, e) <= 2e-4 * pr.scale, "sparse:vector", "");
	c.count("ground states checked");
}
// operators of high rank whose levels are known: a chain of n sites, in any gauge
template <typename T> struct Chain {
	typedef T value_type;
	size_t n;
	double a, t;
	std::vector<T> g;
	mutable size_t calls = 0;
	size_t rows() const { return n; }
	size_t rank() const { return n; }
	size_t cols() const { return n; }
	void matrixVectorProduct(std::vector<T>& x, const std::vector<T>& y) const
	{
		++calls;
		for (size_t i = 0; i < n; ++i) {
			x[i] += a * y[i];
			if (i + 1 < n) x[i] += t * g[i] * y[i + 1];
			if (i) x[i] += t * vh::cconj(g[i - 1]) * y[i - 1];
		}
	}
};
static void phase(vh::Rng& r, double& g) { g = r.chance(0.5) ? 1 : -1; }
static void phase(vh::Rng& r, std::complex<double>& g) { g = std::polar(1.0, r.real(-3, 3)); }
template <typename T> static void chain(Ctx& c)
{
	vh::Rng& r = c.rng;
	Chain<T> h;
	h.n = r.range(60, c.thorough ? 500 : 260);
	h.a = r.real(-3, 3), h.t = r.real(0.2, 2);
	h.g.resize(h.n);
	for (auto& g : h.g) phase(r, g);
	size_t k = r.chance(0.5) ? 0 : r.range(1, 6);
	Params p = params();
	p.steps = h.n;
	p.options = "reortho";
	p.tolerance = k ? -1 : 1e-12;
	if (k) p.minSteps = h.n;
	std::ostringstream o;
	o << "chain of " << h.n << " a=" << h.a << " t=" << h.t << " level " << k;
	c.desc(o.str());
	c.nontrivial(o.str());
	c.sample(o.str());
	auto level = [&](size_t q) { return h.a - 2 * h.t * std::cos(M_PI * (q + 1) / (h.n + 1.0)); };
	std::vector<T> init = randVec<T>(r, h.n), z(h.n);
	LanczosSolver<Params, Chain<T>, std::vector<T>> s(h, p);
	double e = 1e9, sc = 5 + 2 * h.t;
	s.computeOneState(e, z, init, k);
	EXPECT(vh::close(e, level(k), 1e-7 * sc), "chain:energy", e << " but " << level(k) << " after " << s.steps() << " steps");
	EXPECT(vh::close(norm2(z), 1.0, 1e-7), "chain:norm", norm2(z));
	auto res = [&](const std::vector<T>& v, double x) {
		std::vector<T> w(h.n);
		h.matrixVectorProduct(w, v);
		for (size_t i = 0; i < h.n; ++i) w[i] -= x * v[i];
		return norm2(w);
	};
	EXPECT(h.calls <= h.n, "chain:steps", h.calls);
	EXPECT(res(z, e) <= 2e-4 * sc, "chain:vector", "residual " << res(z, e) << " after " << s.steps());
	// the basis stays orthonormal to the end
	LanczosSolver<Params, Chain<T>, std::vector<T>> s2(h, p);
	TridiagonalMatrix<double> ab;
	s2.decomposition(init, ab);
	Matrix<T> V;
	s2.lanczosVectorsSwap(V);
	size_t m = ab.size();
	EXPECT(V.rows() == h.n && V.cols() == m, "chain:basis", V.rows() << "x" << V.cols() << " for " << m << " steps");
	for (int q = 0; q < 400; ++q) {
		size_t i = r.chance(0.3) ? m - 1 : r.range(0, m - 1), j = r.chance(0.2) ? i : r.chance(0.2) ? 0 : r.range(0, m - 1);
		T x = 0;
		for (size_t l = 0; l < h.n; ++l) x += vh::cconj(V(l, i)) * V(l, j);
		EXPECT(vh::close(x, T(i == j), 1e-8), "chain:orthonormal", i << "," << j << " of " << m << ": " << x);
	}
	c.count("long chains solved");
}
FAMILY(chain_real, 60, 300) { chain<double>(c); }
FAMILY(chain_complex, 40, 200) { chain<std::complex<double>>(c); }
// refusals
FAMILY(refuse, 800, 2000)
{
	typedef double T;
	typedef LanczosSolver<Params, Op<T>, std::vector<T>> Solver;
	Problem<T> pr(c, false);
	size_t n = pr.n;
	Op<T> op(pr.h);
	Params p = params();
	p.options = c.rng.chance(0.5) ? "reortho" : "";
	int what = c.rng.range(0, 7);
	size_t bad = c.rng.chance(0.5) ? n + c.rng.range(1, 5) : n - c.rng.range(1, n);
	double e = 0;
	std::vector<T> z(n);
	bool t = false;
	const char* name = "";
	if (what == 0) {
		name = "initial vector";
		Solver s(op, p);
		std::vector<T> v = randVec<T>(c.rng, std::max(bad, size_t(1)));
		v.resize(bad);
		t = vh::throws([&]() { s.computeOneState(e, z, v, 0); });
	} else if (what == 1) {
		name = "output vector";
		Solver s(op, p);
		z.resize(bad);
		t = vh::throws([&]() { s.computeOneState(e, z, pr.init, 0); });
	} else if (what == 2) {
		name = "lotaMemory";
		p.lotaMemory = false;
		t = vh::throws([&]() { Solver s(op, p); });
	} else if (what == 3) {
		name = "level";
		Solver s(op, p);
		t = vh::throws([&]() { s.computeOneState(e, z, pr.init, n + c.rng.range(0, 3)); });
	} else if (what == 4) {
		name = "levels";
		Solver s(op, p);
		std::vector<double> eigs;
		std::vector<std::vector<T>> zz(1, std::vector<T>(n));
		t = vh::throws([&]() { s.computeAllStatesBelow(eigs, zz, pr.init, n + c.rng.range(1, 3)); });
	} else if (what == 6) {
		name = "reortho";
		typedef LanczosOrDavidsonBase<Params, Op<T>, std::vector<T>> Base;
		p.lotaMemory = false;
		p.options = "reortho";
		t = vh::throws([&]() { Base::isReorthoEnabled(p); });
		p.options = "";
		EXPECT(!Base::isReorthoEnabled(p), "reortho enabled", "without asking");
		p.options = "reortho", p.lotaMemory = true;
		EXPECT(Base::isReorthoEnabled(p), "reortho not enabled", "though asked");
	} else if (what == 7) {
		name = "dense projection";
		TridiagonalMatrix<double> ab;
		ab.resize(n, 1);
		Matrix<double> m;
		t = vh::throws([&]() { ab.buildDenseMatrix(m, n + c.rng.range(1, 4)); });
		TridiagonalMatrix<double> none;
		EXPECT(vh::throws([&]() { none.buildDenseMatrix(m); }), "accepted:dense projection", "empty");
		size_t k = c.rng.range(1, n);
		for (size_t i = 0; i < n; ++i) ab.a(i) = c.rng.real(-1, 1), ab.b(i) = c.rng.real(-1, 1);
		ab.buildDenseMatrix(m, k);
		bool ok = m.rows() == k && m.cols() == k;
		for (size_t i = 0; ok && i < k; ++i)
			for (size_t j = 0; j < k; ++j) ok = ok && m(i, j) == (i == j ? ab.a(i) : j == i + 1 ? ab.b(j) : i == j + 1 ? ab.b(i) : 0);
		EXPECT(ok, "dense projection", "leading " << k << " of " << n);
	} else {
		name = "davidson";
		DavidsonSolver<Params, Op<T>, std::vector<T>> s(op, p);
		t = vh::throws([&]() { s.computeOneState(e, z, pr.init, 0); });
	}
	EXPECT(t, std::string("accepted:") + name, "size " << bad << " for rank " << n);
	c.count("refusals checked");
}
