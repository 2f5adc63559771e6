#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "ChebyshevSerializer.h"
#include "ChebyshevSolver.h"
#include "ContinuedFraction.h"
#include "CrsMatrix.h"
#include "ContinuedFractionCollection.h"
#include "Io/IoSimple.h"
#include "LanczosSolver.h"
#include "PsimagLite.h"
#include "vh.h"
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;
typedef TridiagonalMatrix<double> Tri;
typedef ContinuedFraction<Tri> CF;
typedef ContinuedFractionCollection<CF> CFC;
typedef ParametersForSolver<double> Params;

// x_0 of (shift - s*T) x = e_0 : the corner of the resolvent, by the recursion of the fraction
static Z corner(const std::vector<double>& a, const std::vector<double>& b, Z z, double eg, int s)
{
	// 1/(z - s*eg + s*a0 - b1^2/(z - s*eg + s*a1 - ...))
	Z d = 0;
	for (size_t i = a.size(); i-- > 0;) {
		Z x = z - double(s) * (eg - a[i]);
		if (i + 1 < a.size()) x -= b[i + 1] * b[i + 1] / d;
		d = x;
	}
	return 1.0 / d;
}
struct One {
	std::vector<double> a, b;
	double eg;
	Z weight;
	int isign;
	Z operator()(Z z) const
	{
		if (weight == Z(0)) return 0;
		return weight * corner(a, b, z, eg, isign);
	}
	Tri tri() const
	{
		Tri t;
		t.resize(a.size(), 0);
		for (size_t i = 0; i < a.size(); ++i) t.a(i) = a[i], t.b(i) = b[i];
		return t;
	}
	CF cf() const
	{
		Params p;
		p.Eg = eg;
		p.weight = weight.real();
		p.isign = isign;
		return CF(tri(), p);
	}
	double size() const { return std::abs(weight) + 1; }
};
static One draw(Ctx& c, bool zero)
{
	One o;
	size_t n = c.rng.chance(0.2) ? 1 : c.rng.dim(1, 25, 300);
	for (size_t i = 0; i < n; ++i) {
		o.a.push_back(c.rng.real(-3, 3));
		o.b.push_back(i == 0 ? 0 : c.rng.chance(0.03) ? 0 : c.rng.real(0, 2));
	}
	o.eg = c.rng.real(-4, 4);
	o.isign = c.rng.chance(0.5) ? 1 : -1;
	o.weight = c.rng.real(0.1, 3) * (c.rng.chance(0.3) ? -1 : 1);
	if (zero && c.rng.chance(0.2)) o.weight = 0;
	return o;
}
static PlotParams<double> drawPlot(Ctx& c, bool matsu, size_t& n)
{
	// steps that are exact, and others; also shorter than one step
	double step, w1 = 0.25 * c.rng.range(-12, 12);
	bool exact = c.rng.chance(0.5);
	step = exact ? 0.25 * c.rng.range(1, 4) : c.rng.real(0.05, 0.5);
	size_t m = c.rng.dim(1, 20, 900);
	double frac = c.rng.chance(0.5) ? 0 : c.rng.real(0.05, 0.95);
	n = m - (frac > 0 ? 0 : 0);
	double w2 = w1 + (m - 1) * step + (frac > 0 ? frac : 1.0) * step;
	double delta = c.rng.real(0.05, 0.3);
	if (!matsu) return PlotParams<double>(w1, w2, step, delta, 0, 0);
	n = c.rng.dim(1, 20, 600);
	return PlotParams<double>(w1, w2, step, delta, c.rng.real(1, 10), n);
}
// the grid may be plotted into a result with room already made for it
template <typename V, typename P> void plotInto(Ctx& c, V& v, size_t n, P plot, const char* what)
{
	plot(v);
	size_t m = c.rng.chance(0.3) ? n : c.rng.range(1, 2 * n + 2);
	V r(m, typename V::value_type(-777, 777));
	plot(r);
	bool ok = r.size() == m && v.size() == n;
	for (size_t i = 0; ok && i < m; ++i) ok = (i < n) ? r[i] == v[i] : r[i] == typename V::value_type(-777, 777);
	EXPECT(ok, std::string(what) + ":room", "a result made with room for " << m << " of " << n << " points differs from one made empty");
	c.count("plots into given room");
}
template <typename F> void checkPlot(Ctx& c, const CF::PlotDataType& v, const PlotParams<double>& p, size_t n, F f, double scale, double tol, const char* what)
{
	std::string w = what;
	EXPECT(v.size() == n, w + ":grid size", v.size() << " points but " << n << " from " << p.omega1 << " to " << p.omega2 << " step " << p.deltaOmega << " matsubaras " << p.numberOfMatsubaras);
	for (size_t i = 0; i < n; ++i) {
		Z z = p.numberOfMatsubaras ? Z(p.delta, (2.0 * i + 1) * M_PI / p.beta) : Z(p.omega1 + i * p.deltaOmega, p.delta);
		double x = p.numberOfMatsubaras ? z.imag() : z.real();
		EXPECT(vh::close(v[i].first, x, 1e-9), w + ":frequency", "point " << i << " is " << v[i].first << " but " << x);
		Z y = f(z);
		EXPECT(vh::close(v[i].second, y, tol * scale), w + ":value", "at " << z << " " << v[i].second << " but " << y);
	}
	c.count("grid points checked", n);
}
FAMILY(fraction, 15000, 20000)
{
	One o = draw(c, true);
	std::ostringstream d;
	d << "n=" << o.a.size() << " a=" << vh::str(o.a) << " b=" << vh::str(o.b) << " Eg=" << o.eg << " w=" << o.weight << " s=" << o.isign;
	c.desc(d.str());
	c.nontrivial(d.str());
	CF cf = o.cf();
	if (c.rng.chance(0.3)) {
		CF other(c.rng.chance(0.5) ? FREQ_REAL : FREQ_MATSUBARA);
		if (c.rng.chance(0.5)) { // used before, with others of as many coefficients
			One o2 = o;
			for (auto& x : o2.a) x += c.rng.real(-1, 1);
			if (c.rng.chance(0.3)) o2.eg += 1;
			other.set(o2.tri(), o2.eg, o2.weight.real(), c.rng.chance(0.5) ? o2.isign : -o2.isign);
		}
		other.set(o.tri(), o.eg, o.weight.real(), o.isign);
		EXPECT(other.size() == cf.size(), "cf:size", "");
		Z z(0.3, 0.7);
		EXPECT(vh::close(other.iOfOmega(z, o.eg, o.isign), cf.iOfOmega(z, o.eg, o.isign), 1e-12), "cf:set", "");
	}
	EXPECT(cf.size() == o.a.size(), "cf:size", "");
	for (int k = 0; k < 6; ++k) {
		Z z(c.rng.real(-5, 5), (c.rng.chance(0.5) ? 1 : -1) * c.rng.real(0.1, 2));
		double eg = c.rng.real(-2, 2);
		int s = c.rng.chance(0.5) ? 1 : -1;
		One p = o;
		p.eg = eg, p.isign = s;
		Z x = cf.iOfOmega(z, eg, s), y = p(z);
		EXPECT(vh::close(x, y, 1e-9 * o.size()), "cf:resolvent", "z=" << z << " offset " << eg << " sign " << s << ": " << x << " but " << y);
		c.count("resolvent values checked");
	}
	size_t n;
	PlotParams<double> p = drawPlot(c, c.rng.chance(0.4), n);
	CF::PlotDataType v;
	plotInto(c, v, n, [&](CF::PlotDataType& r) { cf.plot(r, p); }, "cf");
	checkPlot(c, v, p, n, o, o.size(), 1e-9, "cf");
}
// fraction from a Lanczos run on an operator: full resolvent element
FAMILY(lanczos_fraction, 300, 3000)
{
	size_t n = c.rng.range(1, 14);
	vh::Ref<double> h = vh::randHerm<double>(c.rng, n);
	std::vector<double> init(n);
	double nrm = 0;
	for (auto& x : init) x = c.rng.real(-1, 1), nrm += x * x;
	if (nrm < 1e-2) return;
	std::ostringstream d;
	d << "h=" << vh::str(h);
	c.desc(d.str());
	c.nontrivial(d.str());
	Matrix<double> m(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) m(i, j) = h(i, j);
	CrsMatrix<double> crs(m);
	Params p;
	p.lotaMemory = true;
	p.options = "reortho";
	p.tolerance = -1;
	p.steps = n + 3;
	LanczosSolver<Params, CrsMatrix<double>, std::vector<double>> s(crs, p);
	Tri ab;
	s.decomposition(init, ab);
	p.Eg = c.rng.real(-2, 2);
	p.isign = -1;
	p.weight = nrm;
	CF cf(ab, p);
	std::vector<double> w;
	vh::Ref<double> v;
	vh::jacobiReal(h, w, v);
	for (int k = 0; k < 4; ++k) {
		Z z(c.rng.real(-4, 4), c.rng.real(0.1, 1));
		Z sum = 0;
		for (size_t l = 0; l < n; ++l) {
			double o = 0;
			for (size_t i = 0; i < n; ++i) o += v(i, l) * init[i];
			sum += o * o / (z + p.Eg - w[l]);
		}
		Z x = cf.iOfOmega(z, p.Eg, p.isign);
		EXPECT(vh::close(x, sum, 1e-8 * (1 + nrm)), "cf:operator", "z=" << z << ": " << x << " but " << sum);
		c.count("resolvent values checked");
	}
}
FAMILY(collection, 600, 6000)
{
	size_t m = c.rng.dim(1, 5, 40);
	bool ms = c.rng.chance(0.4);
	std::vector<One> os;
	CFC col(ms ? FREQ_MATSUBARA : FREQ_REAL);
	std::ostringstream d;
	double scale = 0;
	for (size_t i = 0; i < m; ++i) {
		os.push_back(draw(c, true));
		col.push(os[i].cf());
		d << " n=" << os[i].a.size() << " w=" << os[i].weight << " a=" << vh::str(os[i].a);
		scale += os[i].size();
	}
	c.desc(d.str());
	c.nontrivial(d.str());
	EXPECT(col.size() == m, "coll:size", col.size());
	auto f = [&](Z z) {
		Z s = 0;
		for (auto& o : os) s += o(z);
		return s;
	};
	size_t n;
	PlotParams<double> p = drawPlot(c, ms, n);
	CF::PlotDataType v;
	col.plot(v, p);
	checkPlot(c, v, p, n, f, scale, 1e-9, "coll");
	size_t k = c.rng.range(0, m - 1);
	CF::PlotDataType v1;
	col.plotOne(k, v1, p);
	checkPlot(c, v1, p, n, os[k], scale, 1e-9, "coll one");
	// save and load
	String fn = c.scratch() + "/coll.txt";
	{
		IoSimple::Out out(fn);
		col.write(out);
	}
	IoSimple::In in(fn);
	CFC back(in);
	EXPECT(back.size() == m, "coll:reloaded size", back.size() << " of " << m);
	CF::PlotDataType v2;
	back.plot(v2, p);
	checkPlot(c, v2, p, n, f, scale, 1e-7, "coll reloaded");
	c.count("collections reloaded");
	if (c.rng.chance(0.1)) { // nothing saved is nothing to load
		{
			IoSimple::Out out(fn);
			CFC(FREQ_REAL).write(out);
		}
		try {
			IoSimple::In in0(fn);
			CFC none(in0);
		} catch (const std::exception&) {
			c.count("empty collections refused");
			return;
		}
		c.fail("coll:empty", "a collection of no continued fractions was loaded");
	}
}
FAMILY(reload, 600, 6000)
{
	One o = draw(c, true);
	std::ostringstream d;
	d << "n=" << o.a.size() << " a=" << vh::str(o.a) << " b=" << vh::str(o.b) << " Eg=" << o.eg << " w=" << o.weight << " s=" << o.isign;
	c.desc(d.str());
	c.nontrivial(d.str());
	CF cf(c.rng.chance(0.4) ? FREQ_MATSUBARA : FREQ_REAL);
	cf.set(o.tri(), o.eg, o.weight.real(), o.isign);
	String fn = c.scratch() + "/cf.txt";
	{
		IoSimple::Out out(fn);
		cf.write(out, "");
	}
	IoSimple::In in(fn);
	CF back(in);
	EXPECT(back.freqType() == cf.freqType(), "reload:kind", "Matsubara or real");
	EXPECT(back.size() == cf.size(), "reload:size", "");
	size_t n;
	PlotParams<double> p = drawPlot(c, cf.freqType() == FREQ_MATSUBARA, n);
	CF::PlotDataType v;
	back.plot(v, p);
	checkPlot(c, v, p, n, o, o.size(), 1e-7, "reload");
	c.count("fractions reloaded");
}
// Chebyshev polynomials
FAMILY(chebyshev, 20000, 20000)
{
	int m = c.rng.range(0, 300);
	if (c.rng.chance(0.5)) m = c.rng.range(0, 20);
	double th = c.rng.real(0, M_PI), x = std::cos(th);
	if (c.rng.chance(0.1)) x = c.rng.chance(0.5) ? 1 : -1, th = std::acos(x);
	ChebyshevFunction<double> f;
	ChebyshevFunctionExplicit<double> g;
	// three-term recurrence, forwards
	double t0 = 1, t1 = x;
	for (int i = 0; i < m; ++i) {
		double t = 2 * x * t1 - t0;
		t0 = t1, t1 = t;
	}
	double tol = 1e-12 * (m + 1) * (m + 1) + 1e-12;
	EXPECT(vh::close(f(m, x), std::cos(m * th), tol) || vh::close(f(m, x), t0, tol), "cheb:value", "T_" << m << "(" << x << ")=" << f(m, x) << " but " << t0);
	EXPECT(vh::close(g(m, x), std::cos(m * th), tol) || vh::close(g(m, x), t0, tol), "cheb:explicit", "T_" << m << "(" << x << ")=" << g(m, x) << " but " << t0);
	c.count("polynomials checked");
	c.nontrivial(vh::hashStr(vh::str(std::vector<double> { double(m), x })));
}
typedef ChebyshevSerializer<std::vector<double>> CS;
typedef CS::KernelParametersType KP;
static void checkCheb(Ctx& c, const CS& cs, const std::vector<double>& mu, const Params& par, double tol, const char* what)
{
	std::string w = what;
	size_t N = mu.size();
	size_t n;
	PlotParams<double> p = drawPlot(c, false, n);
	size_t cut = c.rng.chance(0.4) ? 0 : c.rng.range(1, N + 3);
	int type = c.rng.range(0, 2);
	double lambda = c.rng.real(0.5, 4);
	KP kp(type == 0 ? KP::JACKSON : type == 1 ? KP::LORENTZ : KP::DIRICHLET, cut, lambda);
	size_t M = (cut == 0 || cut > N) ? N : cut;
	CS::PlotDataType v;
	plotInto(c, v, n, [&](CS::PlotDataType& r) { cs.plot(r, p, kp); }, what);
	EXPECT(v.size() == n, w + ":grid", v.size() << " points but " << n);
	for (size_t i = 0; i < n; ++i) {
		double om = p.omega1 + i * p.deltaOmega;
		double x = (om + par.Eg - par.b) * par.oneOverA;
		EXPECT(vh::close(v[i].first, om, 1e-9), w + ":frequency", v[i].first << " but " << om);
		double y = 0;
		if (std::fabs(std::fabs(x) - 1) < 1e-6) continue; // edge of the band
		if (std::fabs(x) < 1) {
			double th = std::acos(x);
			for (size_t k = 0; k < M; ++k) {
				double g = 1;
				if (type == 0) g = ((M + 1.0 - k) * std::cos(M_PI * k / (M + 1.0)) + std::sin(M_PI * k / (M + 1.0)) / std::tan(M_PI / (M + 1.0))) / (M + 1.0);
				if (type == 1) g = std::sinh(lambda * (1 - k / double(M))) / std::sinh(lambda);
				y += (k ? 2 : 1) * g * mu[k] * std::cos(k * th);
			}
			y /= std::sqrt(1 - x * x);
		}
		EXPECT(vh::close(v[i].second, y, tol * N * (1 + std::fabs(y))), w + ":value", "kernel " << type << " cutoff " << cut << " of " << N << " moments at " << om << ": " << v[i].second << " but " << y);
		c.count("kernel values checked");
	}
}
FAMILY(kernel, 600, 6000)
{
	size_t N = c.rng.range(1, 40);
	Tri ab;
	ab.resize(N, 0);
	std::vector<double> mu(N);
	for (size_t k = 0; k < N; ++k) {
		mu[k] = c.rng.real(-1, 1);
		if (k & 1) ab.b(k / 2) = mu[k];
		else ab.a(k / 2) = mu[k];
	}
	Params par;
	par.Eg = c.rng.real(-1, 1);
	par.b = c.rng.real(-1, 1);
	par.oneOverA = c.rng.real(0.1, 0.6);
	c.desc("moments " + vh::str(mu));
	c.nontrivial(vh::str(mu));
	CS cs(ab, par);
	checkCheb(c, cs, mu, par, 1e-9, "kernel");
	String fn = c.scratch() + "/cheb.txt";
	{
		IoSimple::Out out(fn);
		cs.write(out, "");
		if (c.rng.chance(0.3)) cs.write(out, "");
	}
	IoSimple::In in(fn);
	in.advance(CS::stringMarker(), c.rng.chance(0.5) ? IoSimple::In::LAST_INSTANCE : 0);
	CS back(in);
	checkCheb(c, back, mu, par, 1e-6, "kernel reloaded");
	c.count("kernels reloaded");
}
FAMILY(moments, 60, 600)
{
	size_t n = c.rng.range(2, 12);
	vh::Ref<double> h = vh::randHerm<double>(c.rng, n);
	if (c.rng.chance(0.4)) {
		double s = c.rng.real(-9, 9);
		for (size_t i = 0; i < n; ++i) h(i, i) += s;
	}
	std::vector<double> w;
	vh::Ref<double> v;
	vh::jacobiReal(h, w, v);
	if (w.back() - w.front() < 0.1) return;
	std::vector<double> init(n);
	for (auto& x : init) x = c.rng.real(-1, 1);
	std::ostringstream d;
	d << "h=" << vh::str(h);
	c.desc(d.str());
	c.nontrivial(d.str());
	Matrix<double> m(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) m(i, j) = h(i, j);
	CrsMatrix<double> crs(m);
	Params p;
	p.lotaMemory = true;
	ChebyshevSolver<Params, CrsMatrix<double>, std::vector<double>> s(crs, p);
	EXPECT(p.oneOverA > 0, "moments:scale", p.oneOverA);
	for (double x : w) EXPECT(std::fabs((x - p.b) * p.oneOverA) <= 1, "moments:range", "eigenvalue " << x << " scaled to " << (x - p.b) * p.oneOverA);
	Tri ab;
	s.decomposition(init, ab);
	EXPECT(ab.size() == 2 * s.steps(), "moments:size", ab.size());
	for (size_t k = 0; k < 2 * s.steps(); ++k) {
		double mu = 0;
		for (size_t l = 0; l < n; ++l) {
			double o = 0;
			for (size_t i = 0; i < n; ++i) o += v(i, l) * init[i];
			mu += o * o * std::cos(k * std::acos((w[l] - p.b) * p.oneOverA));
		}
		double x = (k & 1) ? ab.b(k / 2) : ab.a(k / 2);
		EXPECT(vh::close(x, mu, 1e-8 * (1 + n)), "moments:value", "moment " << k << " is " << x << " but " << mu);
	}
	c.count("moments checked", 2 * s.steps());
}
