#include "Complex.h"
#include "Fermi.h"
#include "Integrator.h"
#include "LinearPrediction.h"
#include "Matrix.h"
#include "Minimizer.h"
#include "PsimagLite.h"
#include "RootFindingBisection.h"
#include "RungeKutta.h"
#include "SpecialFunctions.h"
#include "vh.h"
#include <functional>
#include <memory>
using namespace PsimagLite;
#include "AkimaSpline.h"
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;
typedef std::vector<double> VD;

// ---- roots
struct Fn {
	typedef double RealType;
	std::function<double(double)> f;
	mutable long calls = 0;
	double lo = 0, hi = 0;
	mutable bool outside = false;
	double operator()(double x) const
	{
		++calls;
		outside = outside || !(x >= lo && x <= hi);
		return f(x);
	}
};
FAMILY(roots, 20000, 200000)
{
	vh::Rng& r = c.rng;
	Fn fn;
	double root = r.real(-3, 3), L = 0; // a bound of the slope
	int kind = r.range(0, 6);
	std::vector<double> e;
	double beta = 0, target = 0;
	double sgn = r.chance(0.5) ? 1 : -1;
	double a = root - std::pow(10., r.real(-3, 1.9)), b = root + std::pow(10., r.real(-3, 1.9));
	double span = std::max(std::fabs(a), std::fabs(b));
	switch (kind) {
	case 0: {
		double k = std::pow(10., r.real(-3, 3));
		L = k;
		fn.f = [=](double x) { return sgn * k * (x - root); };
		break;
	}
	case 1:
		L = 3 * 4 * (span + 3) * (span + 3);
		fn.f = [=](double x) { return sgn * std::pow(x - root, 3); };
		break;
	case 2:
		L = 1;
		fn.f = [=](double x) { return sgn * std::atan(x - root); };
		break;
	case 3: { // the filling of levels, for the chemical potential
		for (int i = r.range(1, 12); i > 0; --i) e.push_back(r.real(-4, 4));
		beta = std::pow(10., r.real(-1, 2));
		target = r.real(0.05, 0.95) * e.size();
		L = beta * e.size();
		a = -100, b = 100;
		sgn = 1;
		fn.f = [=](double m) {
			double s = -target;
			for (double x : e) s += fermi(beta * (x - m));
			return s;
		};
		break;
	}
	case 4: // several roots
		a = -r.real(0.1, 3), b = r.real(0.1, 3);
		L = 20;
		fn.f = [=](double x) { return sgn * std::sin(7 * x + root); };
		break;
	case 5: // a jump: no root
		L = 0;
		fn.f = [=](double x) { return x < root ? -sgn : sgn; };
		break;
	default: // the root is an end or there is none
		L = 1;
		fn.f = [=](double x) { return sgn * ((x - root) * (x - root) + 0.5); };
		break;
	}
	double tol = std::pow(10., r.real(-12, -1));
	size_t iter = r.chance(0.3) ? r.range(0, 8) : 100;
	if (r.chance(0.2) && kind != 3) std::swap(a, b);
	fn.lo = std::min(a, b), fn.hi = std::max(a, b);
	const double S = r.chance(0.15) ? std::pow(10., r.real(-60, 60)) : 1; // the same in other units
	if (S != 1) {
		std::function<double(double)> g = fn.f;
		fn.f = [=](double x) { return S * g(x); };
		tol *= S, L *= S;
	}
	if (S == 1 && kind <= 2 && r.chance(0.3) && tol > 1e-9 * L * (span + 3)) { // as many halvings as it takes are enough
		double x = a, y = b, fx = fn.f(a), m = 0, fm = 0;
		size_t k = 0;
		for (; k < 200; ++k) {
			m = (x + y) / 2, fm = fn.f(m);
			if (std::fabs(fm) < tol) break;
			if ((fm > 0) == (fx > 0)) x = m, fx = fm;
			else
				y = m;
		}
		if (std::fabs(fm) < 0.9 * tol && fn.f(a) * fn.f(b) < 0) {
			iter = k + 1;
			c.desc("kind " + std::to_string(kind) + " iterations " + std::to_string(iter));
			RootFindingBisection<Fn> find(fn, a, b, iter, tol);
			double got = 0;
			bool ok = true;
			try {
				got = find();
			} catch (const std::exception&) {
				ok = false;
			}
			EXPECT(ok, "root:iterations", "no root in " << iter << " iterations, halving number " << iter << " finds it");
			EXPECT(std::fabs(fn.f(got)) <= tol, "root:value", "f(" << got << ") = " << fn.f(got));
			if (k > 0) {
				RootFindingBisection<Fn> less(fn, a, b, (k + 1) / 2, tol);
				bool refused = vh::throws([&] { less(); });
				EXPECT(refused, "root:iterations", "a root in " << (k + 1) / 2 << " iterations but it takes " << iter);
			}
			c.count("iteration limits checked");
			fn.calls = 0;
		}
	}
	std::ostringstream d;
	d.precision(17);
	d << "kind " << kind << " scale " << S << " root " << root << " in " << a << "," << b << " iterations " << iter << " tolerance " << tol;
	c.desc(d.str());
	c.nontrivial(d.str());
	double fa = fn.f(a), fb = fn.f(b);
	bool brackets = fa * fb < 0, refused = false, failed = false;
	double x = 0;
	try {
		RootFindingBisection<Fn> find(fn, a, b, iter, tol);
		try {
			x = find();
			EXPECT(find() == x, "root:again", "a second search differs");
		} catch (const std::exception& e) {
			failed = true;
		}
	} catch (const std::exception& e) {
		refused = true;
	}
	EXPECT(refused == !brackets, "root:bracket", "f is " << fa << " and " << fb << " at the ends but it was" << (refused ? "" : " not") << " refused");
	if (refused) {
		c.count("brackets refused");
		return;
	}
	EXPECT(!fn.outside, "root:outside", "the function was asked outside the bracket");
	if (failed) {
		// enough halvings bring the value within the tolerance, up to rounding
		double need = L > 0 ? std::log2(L * (fn.hi - fn.lo) / tol) + 2 : 1e9;
		bool rounding = tol < 64 * 2.3e-16 * L * (span + 100) + 1e-13 * S;
		EXPECT(kind == 5 || rounding || iter <= std::max(need, 0.0) + 1, "root:failed", "no root after " << iter << " iterations, " << need << " are enough");
		c.count("failures reported");
		return;
	}
	EXPECT(kind != 5, "root:jump", "a root " << x << " of a step");
	EXPECT(x >= fn.lo && x <= fn.hi, "root:range", "root " << x << " outside " << fn.lo << "," << fn.hi);
	EXPECT(std::fabs(fn.f(x)) <= tol, "root:value", "f(" << x << ") = " << fn.f(x) << " for tolerance " << tol);
	EXPECT(fn.calls <= long(2 * iter) + 6, "root:calls", fn.calls << " evaluations in two searches of at most " << iter << " iterations");
	c.count("roots found");
}
// ---- quadrature
struct Quad {
	typedef double RealType;
	typedef std::function<double(double)> Params;
	Params f;
	static double function(double x, void* p) { return (*static_cast<Params*>(p))(x); }
	Params& params() { return f; }
};
FAMILY(quadrature, 4000, 40000)
{
	vh::Rng& r = c.rng;
	Quad q;
	double eps = r.chance(0.5) ? 1e-9 : std::pow(10., r.real(-10, -4));
	double k = r.real(0.3, 4), s = r.real(-2, 2), A = r.real(-3, 3), want = 0;
	double a = r.real(-3, 3), b = r.chance(0.1) ? a : a + r.real(-4, 4);
	std::function<double(double)> F; // an antiderivative
	int kind = r.range(0, 4);
	switch (kind) {
	case 0: {
		VD p;
		for (int i = r.range(1, 8); i > 0; --i) p.push_back(r.real(-1, 1));
		q.f = [=](double x) {
			double y = 0;
			for (double z : p) y = y * x + z;
			return y;
		};
		F = [=](double x) {
			double y = 0;
			for (size_t i = 0; i < p.size(); ++i) y = y * x + p[i] / double(p.size() - i);
			return y * x;
		};
		break;
	}
	case 1:
		q.f = [=](double x) { return A * std::exp(k * x); };
		F = [=](double x) { return A / k * std::exp(k * x); };
		break;
	case 2:
		q.f = [=](double x) { return A * std::cos(3 * k * x + s); };
		F = [=](double x) { return A / (3 * k) * std::sin(3 * k * x + s); };
		break;
	case 3:
		q.f = [=](double x) { return A / (1 + k * k * (x - s) * (x - s)); };
		F = [=](double x) { return A / k * std::atan(k * (x - s)); };
		break;
	default: // kinks, with their places given
		q.f = [=](double x) { return A * std::sqrt(std::fabs(x - s)); };
		F = [=](double x) { return A * (x > s ? 1 : -1) * 2. / 3 * std::pow(std::fabs(x - s), 1.5); };
		break;
	}
	std::unique_ptr<Integrator<Quad>> in(r.chance(0.02) ? new Integrator<Quad>(q) : new Integrator<Quad>(q, eps, eps, 2000));
	std::ostringstream d;
	d.precision(17);
	int how = r.range(0, 3);
	d << "kind " << kind << " how " << how << " from " << a << " to " << b << " k " << k << " s " << s << " A " << A << " eps " << eps;
	c.desc(d.str());
	c.nontrivial(d.str());
	double got = 0;
	if (how <= 1 || kind <= 2) {
		VD pts = { a, b };
		if (kind == 4 || how == 1) { // break points in ascending order
			pts = { std::min(a, b), std::max(a, b) };
			if (kind == 4 && s > pts[0] && s < pts[1]) pts.insert(pts.begin() + 1, s);
			for (int i = r.range(0, 2); i > 0; --i) pts.push_back(r.real(pts[0], pts.back() == pts[0] ? pts[0] + 1e-9 : pts.back()));
			std::sort(pts.begin(), pts.end());
			a = pts[0], b = pts.back();
			if (pts.back() - pts[0] < 1e-6) return;
			bool distinct = true;
			for (size_t i = 1; i < pts.size(); ++i) distinct = distinct && pts[i] - pts[i - 1] > 1e-9;
			if (!distinct) return;
			got = (*in)(pts, Integrator<Quad>::INTEG_QAGP);
		}
		else
			got = r.chance(0.5) ? (*in)(pts) : (*in)(pts, Integrator<Quad>::INTEG_QAG, r.range(1, 6));
		want = F(b) - F(a);
	}
	else { // to infinity: of a bell or a Lorentzian
		if (kind == 4) {
			q.f = [=](double x) { return A * std::exp(-k * (x - s) * (x - s)); };
			F = [=](double x) { return A * std::sqrt(M_PI / k) * 0.5 * std::erf(std::sqrt(k) * (x - s)); };
		}
		double end = kind == 4 ? A * std::sqrt(M_PI / k) * 0.5 : A / k * M_PI / 2;
		if (how == 2) {
			if (kind == 3 && k < 1.5 && r.chance(0.4)) a = r.real(-40, 20); // from far away
			got = in->toInfinity(a);
			want = end - F(a);
		}
		else {
			got = (*in)();
			want = 2 * end;
		}
		c.count("infinite ranges");
	}
	double tol = std::max(eps, eps * std::fabs(want)) * 2 + 1e-12 * (std::fabs(F(a)) + std::fabs(F(b)));
	EXPECT(std::fabs(got - want) <= tol, "quadrature", "integral is " << got << " not " << want << ", off by " << got - want << " for " << eps);
	VD few(r.range(0, 1), 1.0);
	EXPECT(vh::throws([&] { (*in)(few); }) && vh::throws([&] { (*in)(few, Integrator<Quad>::INTEG_QAGP); }), "quadrature:points", "an interval without its ends was accepted");
	c.count("integrals checked");
}
// ---- special functions
static Z lnGammaRef(Z z)
{
	// Stirling's series after shifting to the right
	Z s = 0;
	while (z.real() < 15) {
		s -= std::log(z);
		z += 1.0;
	}
	Z z2 = z * z, t = 1.0 / z;
	static const double b[] = { 1. / 12, -1. / 360, 1. / 1260, -1. / 1680, 1. / 1188, -691. / 360360, 1. / 156 };
	Z x = (z - 0.5) * std::log(z) - z + 0.5 * std::log(2 * M_PI);
	for (double c : b) {
		x += c * t;
		t /= z2;
	}
	return x + s;
}
FAMILY(special, 8000, 80000)
{
	vh::Rng& r = c.rng;
	Z z(r.real(0.01, 12), r.chance(0.3) ? 0.0 : r.real(-12, 12));
	if (r.chance(0.3)) z = Z(r.real(-6, 0), (r.chance(0.5) ? 1 : -1) * r.real(0.05, 5));
	double x = std::pow(10., r.real(-4, 3));
	std::ostringstream d;
	d.precision(17);
	d << z << " " << x;
	c.desc(d.str());
	c.nontrivial(d.str());
	Z g = LnGammaFunction(z), w = lnGammaRef(z);
	auto turn = [](double a) { return std::fabs(std::remainder(a, 2 * M_PI)); };
	EXPECT(std::fabs(g.real() - w.real()) <= 1e-10 * (1 + std::abs(w)), "lngamma", "ln|gamma(" << z << ")| is " << g.real() << " not " << w.real());
	EXPECT(turn(g.imag() - w.imag()) <= 1e-10 * (1 + std::abs(w)), "lngamma:phase", "phase of gamma(" << z << ") is " << g.imag() << " not " << w.imag());
	Z g1 = LnGammaFunction(z + 1.0), lz = std::log(z);
	EXPECT(std::fabs((g1 - g - lz).real()) <= 1e-10 * (1 + std::abs(w)) && turn((g1 - g - lz).imag()) <= 1e-10 * (1 + std::abs(w)), "lngamma:recurrence", "gamma(z+1) is not z gamma(z) for " << z);
	if (z.imag() == 0) EXPECT(std::fabs(g.real() - std::lgamma(z.real())) <= 1e-11 * (1 + std::fabs(g.real())), "lngamma:real", g << " not " << std::lgamma(z.real()));
	// the cosine integral
	double ci = Ci(x), ref = 0;
	if (x < 12) {
		long double t = 1, s = 0.577215664901532860606512090082402431L + std::log((long double)x);
		for (int k = 1; k < 60; ++k) {
			t *= -(long double)x * x / ((2 * k - 1) * (2 * k));
			s += t / (2 * k);
		}
		ref = double(s);
	}
	else if (x > 40) { // asymptotic series
		double f = 0, h = 0, t = 1;
		for (int k = 0; k < 10; ++k) {
			f += t;
			h += t * (2 * k + 1);
			t *= -double(2 * k + 1) * (2 * k + 2) / (x * x);
		}
		ref = std::sin(x) / x * f - std::cos(x) / (x * x) * h;
	}
	else
		return;
	EXPECT(std::fabs(ci - ref) <= 1e-10 * (1 + std::fabs(ref)), "ci", "Ci(" << x << ") is " << ci << " not " << ref);
	c.count("special values checked");
}
// ---- minimization
struct Bowl {
	typedef double FieldType;
	int kind = 0;
	std::vector<VD> h; // positive definite
	VD x0;
	double f0 = 0;
	size_t size() const { return x0.size(); }
	double operator()(const VD& v) const
	{
		double s = 0;
		for (size_t i = 0; i < v.size(); ++i)
			for (size_t j = 0; j < v.size(); ++j) s += 0.5 * (v[i] - x0[i]) * h[i][j] * (v[j] - x0[j]);
		return f0 + (kind == 0 ? s : std::sqrt(1 + s)); // both convex
	}
	void df(VD& g, const VD& v) const
	{
		double s = 0;
		for (size_t i = 0; i < v.size(); ++i) {
			g[i] = 0;
			for (size_t j = 0; j < v.size(); ++j) g[i] += h[i][j] * (v[j] - x0[j]);
			s += 0.5 * g[i] * (v[i] - x0[i]);
		}
		if (kind == 1)
			for (auto& x : g) x /= 2 * std::sqrt(1 + s);
	}
};
FAMILY(minimum, 3000, 30000)
{
	vh::Rng& r = c.rng;
	Bowl f;
	size_t n = r.range(1, 4);
	f.kind = r.range(0, 1);
	f.f0 = r.real(-5, 5);
	f.x0.resize(n);
	VD x(n);
	for (auto& y : f.x0) y = r.real(-3, 3);
	for (auto& y : x) y = r.real(-5, 5);
	if (r.chance(0.05)) x = f.x0;
	std::vector<VD> b(n, VD(n, 0));
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) b[i][j] = r.real(-1, 1);
	f.h = b;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) {
			f.h[i][j] = i == j ? r.real(0.3, 2) : 0;
			for (size_t k = 0; k < n; ++k) f.h[i][j] += b[k][i] * b[k][j];
		}
	bool simplex = r.chance(0.5), enough = r.chance(0.8);
	size_t maxIter = enough ? 3000 : r.range(0, 12);
	bool verbose = r.chance(0.02);
	std::ostringstream d;
	d.precision(17);
	d << (simplex ? "simplex" : "gradient") << " n " << n << " kind " << f.kind << " from " << vh::str(x) << " minimum at " << vh::str(f.x0) << " iterations " << maxIter;
	c.desc(d.str());
	c.nontrivial(d.str());
	Minimizer<double, Bowl> m(f, maxIter, verbose);
	VD start = x;
	for (int twice = r.range(1, 2); twice > 0; --twice) {
		double before = f(x);
		double tol = std::pow(10., r.real(-8, -5));
		int it = simplex ? m.simplex(x, r.real(0.2, 2), tol) : m.conjugateGradient(x, r.real(0.01, 1), 0.1, tol, verbose ? 3 : 0);
		EXPECT(x.size() == n, "minimum:size", x.size());
		EXPECT(f(x) <= before + 1e-12 * (1 + std::fabs(before)), "minimum:worse", "the value at the result is " << f(x) << ", " << before << " at the start");
		EXPECT(it <= int(maxIter) && -it <= int(maxIter), "minimum:iterations", it << " iterations of at most " << maxIter);
		if (m.status() == Minimizer<double, Bowl>::GSL_SUCCESS) {
			EXPECT(m.statusString() == "GSL_SUCCESS", "minimum:status", m.statusString());
			VD g(n);
			f.df(g, x);
			double gn = 0;
			for (double y : g) gn += y * y;
			gn = std::sqrt(gn);
			if (!simplex) EXPECT(gn <= tol * 1.0001 + 1e-300, "minimum:gradient", "gradient " << gn << " for tolerance " << tol);
			EXPECT(f(x) - f.f0 - (f.kind == 1) <= (simplex ? 1e-4 : 10 * tol * tol + 1e-12), "minimum:value", "the value is " << f(x) - f.f0 - (f.kind == 1) << " above the minimum for tolerance " << tol);
			c.count("minima reached");
		}
		else {
			// a simplex can creep without an end
			if (enough && simplex) {
				EXPECT(it == int(maxIter) && m.statusString() == "GSL_CONTINUE", "minimum:status", it << " " << m.statusString());
				c.count("failures reported");
			}
			else if (enough) { // no progress is possible at the minimum, up to rounding
				EXPECT(it <= 0 && m.statusString() == "UNKNOWN", "minimum:failed", it << " iterations " << m.statusString());
				c.count("failures reported");
			}
			else {
				bool cut = m.status() != Minimizer<double, Bowl>::GSL_CONTINUE || (it == int(maxIter) && m.statusString() == "GSL_CONTINUE");
				EXPECT(cut, "minimum:status", it << " " << m.statusString());
				c.count("searches cut short");
			}
		}
	}
	VD bad(n + (r.chance(0.5) ? 1 : -1), 0.5);
	EXPECT(vh::throws([&] { m.simplex(bad); }) && vh::throws([&] { m.conjugateGradient(bad); }), "minimum:mismatch", "a starting point of " << bad.size() << " coordinates was accepted for " << n);
}
// ---- splines
FAMILY(spline, 12000, 120000)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(0, 14);
	VD x(n), s(n);
	double at = r.real(-5, 5), m = r.real(-3, 3), q = r.real(-3, 3);
	int kind = r.range(0, 3);
	bool uniform = r.chance(0.3);
	for (size_t i = 0; i < n; ++i) {
		x[i] = at;
		at += uniform ? 0.5 : r.chance(0.1) ? 1e-3 : r.real(0.05, 3);
		s[i] = kind == 0 ? r.real(-2, 2) : kind == 1 ? m * x[i] + q : kind == 2 ? double(r.range(-2, 2)) : std::sin(x[i]);
	}
	std::ostringstream d;
	d.precision(17);
	d << "kind " << kind << " nodes " << vh::str(x) << " values " << vh::str(s);
	c.desc(d.str());
	c.nontrivial(d.str());
	VD other(n + (n && r.chance(0.5) ? -1 : 1), 1.0);
	bool sizes = vh::throws([&] { AkimaSpline<VD> y(x, other); });
	EXPECT(sizes, "spline:sizes", "accepted " << n << " nodes and " << other.size() << " values");
	if (n < 3) {
		EXPECT(vh::throws([&] { AkimaSpline<VD> y(x, s); }), "spline:few", "accepted " << n << " nodes");
		return;
	}
	{ // nodes out of order or repeated
		VD y = x;
		size_t i = r.range(0, n - 2);
		if (r.chance(0.5)) std::swap(y[i], y[i + 1]);
		else
			y[i + 1] = y[i];
		EXPECT(vh::throws([&] { AkimaSpline<VD> z(y, s); }), "spline:order", "accepted nodes " << vh::str(y));
	}
	AkimaSpline<VD> sp(x, s);
	double scale = 0, slope = 0;
	VD dl(n - 1);
	for (size_t i = 0; i + 1 < n; ++i) {
		dl[i] = (s[i + 1] - s[i]) / (x[i + 1] - x[i]);
		slope = std::max(slope, std::fabs(dl[i]));
	}
	for (double y : s) scale = std::max(scale, std::fabs(y));
	EXPECT(sp.getInterval().first == x[0] && sp.getInterval().second == x[n - 1], "spline:interval", sp.getInterval().first << "," << sp.getInterval().second);
	for (size_t i = 0; i < n; ++i) EXPECT(std::fabs(sp(x[i]) - s[i]) <= 1e-11 * (scale + slope * 40), "spline:node", "the value at node " << x[i] << " is " << sp(x[i]) << " not " << s[i]);
	// slopes as the definition has them
	auto D = [&](int k) -> double { // divided differences with two more at both ends
		if (k >= 0 && k < int(n) - 1) return dl[k];
		if (k == -1) return 2 * dl[0] - dl[1];
		if (k == -2) return 3 * dl[0] - 2 * dl[1];
		if (k == int(n) - 1) return 2 * dl[n - 2] - dl[n - 3];
		return 3 * dl[n - 2] - 2 * dl[n - 3];
	};
	VD t(n);
	std::vector<bool> sure(n);
	for (int i = 0; i < int(n); ++i) {
		double w1 = std::fabs(D(i + 1) - D(i)), w2 = std::fabs(D(i - 1) - D(i - 2)), sum = w1 + w2;
		sure[i] = true;
		if (sum <= 1e-7 * (slope + 1e-300)) {
			t[i] = 0.5 * (D(i - 1) + D(i));
			sure[i] = std::fabs(D(i) - D(i - 1)) <= 1e-12 * slope || sum == 0; // rounding decides otherwise
			if (std::fabs(D(i) - D(i - 1)) > 1e-12 * slope && kind != 2) sure[i] = false;
			if (kind == 2 && !uniform) sure[i] = std::fabs(D(i) - D(i - 1)) <= 1e-12 * slope;
		}
		else
			t[i] = (w1 * D(i - 1) + w2 * D(i)) / sum;
	}
	for (size_t i = 0; i + 1 < n; ++i) {
		double h = x[i + 1] - x[i];
		for (int k = 0; k < 3; ++k) {
			double u = r.unit(), y = x[i] + u * h;
			if (y > x[i + 1] || y < x[i]) continue;
			double got = sp(y);
			if (kind == 1) EXPECT(std::fabs(got - (m * y + q)) <= 1e-10 * (1 + std::fabs(m * y) + std::fabs(q)), "spline:line", "a line is " << got << " at " << y << " not " << m * y + q);
			if (sure[i] && sure[i + 1]) {
				u = (y - x[i]) / h;
				double want = s[i] * (1 + 2 * u) * (1 - u) * (1 - u) + s[i + 1] * u * u * (3 - 2 * u) + h * t[i] * u * (1 - u) * (1 - u) - h * t[i + 1] * u * u * (1 - u);
				EXPECT(std::fabs(got - want) <= 1e-7 * (scale + slope * (h + 1)), "spline:value", "value " << got << " at " << y << " not " << want);
				c.count("spline values checked");
			}
		}
	}
	for (size_t i = 1; i + 1 < n; ++i) { // the slopes of both sides
		double h = 1e-4 * std::min(x[i] - x[i - 1], x[i + 1] - x[i]);
		double left = (sp(x[i]) * 1.5 - 2 * sp(x[i] - h) + 0.5 * sp(x[i] - 2 * h)) / h, right = (-1.5 * sp(x[i]) + 2 * sp(x[i] + h) - 0.5 * sp(x[i] + 2 * h)) / h;
		EXPECT(std::fabs(left - right) <= 2e-5 * slope + 1e-9 * (scale + std::fabs(x[i]) * slope) / h, "spline:slope", "slopes " << left << " and " << right << " at node " << x[i]);
		c.count("slopes compared");
	}
	for (double y : { x[0] - r.real(1e-9, 3), x[n - 1] + r.real(1e-9, 3), std::nan("") }) EXPECT(vh::throws([&] { (void)sp(y); }), "spline:outside", "a value at " << y << " outside " << x[0] << "," << x[n - 1]);
	c.count("splines checked");
}
// ---- time stepping
template <typename T> struct Rhs { // y' = (A + t B) y
	std::vector<std::vector<T>> a, b;
	std::vector<T> operator()(double t, const std::vector<T>& y) const
	{
		std::vector<T> z(y.size(), T(0));
		for (size_t i = 0; i < y.size(); ++i)
			for (size_t j = 0; j < y.size(); ++j) z[i] += (a[i][j] + t * b[i][j]) * y[j];
		return z;
	}
};
template <typename T> static std::vector<T> oneStep(const Rhs<T>& f, double t, double h, const std::vector<T>& y)
{
	auto lin = [&](const std::vector<T>& k, double s) {
		std::vector<T> z = y;
		for (size_t i = 0; i < z.size(); ++i) z[i] += s * k[i];
		return z;
	};
	auto k1 = f(t, y), k2 = f(t + h / 2, lin(k1, h / 2)), k3 = f(t + h / 2, lin(k2, h / 2)), k4 = f(t + h, lin(k3, h));
	std::vector<T> z = y;
	for (size_t i = 0; i < z.size(); ++i) z[i] += h / 6 * (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]);
	return z;
}
template <typename T> static void stepping(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 4), N = r.chance(0.1) ? 0 : r.range(1, 30);
	Rhs<T> f;
	f.a.assign(n, std::vector<T>(n)), f.b = f.a;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) f.a[i][j] = vh::RandVal<T>::get(r), f.b[i][j] = vh::RandVal<T>::get(r) * 0.3;
	double t0 = r.chance(0.5) ? 0 : r.real(-2, 2), h = r.chance(0.5) ? 0.1 : r.real(0.01, 0.2);
	if (r.chance(0.15)) h = r.real(0.2, 1.5), N = r.range(0, 6); // large steps follow the method too
	if (r.chance(0.02)) h = r.real(0.001, 0.01), N = r.range(200, 700);
	std::vector<T> y(n);
	for (auto& z : y) z = vh::RandVal<T>::get(r);
	std::ostringstream d;
	d.precision(17);
	d << "n " << n << " t0 " << t0 << " h " << h << " steps " << N << " y " << vh::str(y);
	c.desc(d.str());
	c.nontrivial(d.str());
	typedef std::vector<T> V;
	std::vector<V> res, want;
	bool ex = r.chance(0.5);
	double off = r.chance(0.5) ? 0 : r.real(0.05, 0.9), end = t0 + (double(N) + off) * h;
	if (ex && off == 0 && t0 == 0) end = std::strtod(std::to_string(N * h).c_str(), 0), h = h == 0.1 ? 0.1 : end / std::max(N, size_t(1)); // as a user writes it
	if (ex && !(h > 0)) ex = false, h = 0.1;
	{
		RungeKutta<double, Rhs<T>, V> rk(f, h);
		if (ex) rk.solveEx(res, t0, end, y);
		else
			rk.solve(res, t0, N, y);
		V z = y;
		for (size_t i = 0; i < N; ++i) {
			want.push_back(z);
			z = oneStep(f, t0 + i * h, h, z);
		}
		if (r.chance(0.1)) {
			std::vector<V> none;
			EXPECT(vh::throws([&] { rk.solveEx(none, t0, t0 - 5 * h, y); }), "rk:backwards", "an end before the start was accepted");
			RungeKutta<double, Rhs<T>, V> zero(f, 0.0);
			EXPECT(vh::throws([&] { zero.solveEx(none, t0, t0 + 1, y); }), "rk:nostep", "a step of zero was accepted");
		}
		// order four: halving the step divides the error by 16
		if (N >= 2 && n <= 3) {
			auto endOf = [&](int parts) {
				double hh = 0.2 / parts;
				RungeKutta<double, Rhs<T>, V> k(f, hh);
				std::vector<V> out;
				k.solve(out, t0, parts + 1, y);
				return out.back();
			};
			V fine = endOf(256), e1 = endOf(4), e2 = endOf(8);
			double d1 = 0, d2 = 0;
			for (size_t i = 0; i < n; ++i) d1 += std::abs(e1[i] - fine[i]), d2 += std::abs(e2[i] - fine[i]);
			if (d1 > 1e-9) {
				EXPECT(d2 <= d1 / 8, "rk:order", "the error goes from " << d1 << " to " << d2 << " when the step is halved");
				c.count("orders measured");
			}
		}
	}
	EXPECT(res.size() == N, "rk:count", res.size() << " times instead of " << N << " from " << t0 << " to " << end << " in steps of " << h << (ex ? " (end given)" : ""));
	for (size_t i = 0; i < N; ++i) {
		double sc = 1;
		for (auto& z : want[i]) sc = std::max(sc, std::abs(z));
		EXPECT(res[i].size() == n, "rk:size", res[i].size());
		for (size_t j = 0; j < n; ++j) EXPECT(std::abs(res[i][j] - want[i][j]) <= 1e-10 * sc * double(i + 1), "rk:value", "component " << j << " at step " << i << " is " << res[i][j] << " not " << want[i][j]);
		c.count("steps compared");
	}
}
FAMILY(long_stepping, 3, 20)
{
	vh::Rng& r = c.rng;
	size_t N = r.range(65530, 140000);
	double h = r.real(0.5, 1) * 1e-4, w = r.real(0.5, 2), q = r.real(0.1, 1);
	Rhs<double> f;
	f.a = { { 0, -w }, { w, 0 } };
	f.b = { { 0, -q }, { q, 0 } };
	c.desc("rotation, " + std::to_string(N) + " steps");
	c.nontrivial(std::to_string(N));
	RungeKutta<double, Rhs<double>, VD> rk(f, h);
	std::vector<VD> res;
	if (r.chance(0.5)) rk.solve(res, 0, N, VD { 1, 0 });
	else
		rk.solveEx(res, 0, (double(N) + 0.5) * h, VD { 1, 0 });
	EXPECT(res.size() == N, "rk:count", res.size() << " times instead of " << N);
	for (size_t i = 0; i < N; ++i) {
		double t = i * h, p = w * t + q * t * t / 2;
		EXPECT(std::fabs(res[i][0] - std::cos(p)) < 1e-8 && std::fabs(res[i][1] - std::sin(p)) < 1e-8, "rk:value", "step " << i);
	}
	c.count("long runs checked");
}
FAMILY(stepping, 6000, 60000)
{
	if (c.rng.chance(0.5)) stepping<double>(c);
	else
		stepping<Z>(c);
}
// ---- prediction
FAMILY(prediction, 8000, 80000)
{
	vh::Rng& r = c.rng;
	size_t p = r.range(1, 5), n = 2 * r.range(p, 12);
	VD coef(p), y(n + 40);
	int kind = r.range(0, 2);
	if (kind == 0)
		for (auto& x : coef) x = double(r.range(-1, 1));
	else if (kind == 1)
		for (auto& x : coef) x = r.real(-1, 1);
	else { // from roots on or inside the unit circle
		std::vector<Z> poly(1, 1);
		size_t k = 0;
		auto mul = [&](Z root) {
			poly.push_back(0);
			for (size_t i = poly.size() - 1; i > 0; --i) poly[i] -= root * poly[i - 1];
		};
		while (k < p) {
			if (k + 2 <= p && r.chance(0.7)) {
				Z q = std::polar(r.real(0.6, 0.99), r.real(0.2, 3));
				mul(q);
				mul(std::conj(q));
				k += 2;
			}
			else {
				mul(r.real(-0.98, 0.98));
				++k;
			}
		}
		for (size_t i = 0; i < p; ++i) coef[i] = -poly[i + 1].real();
	}
	for (size_t i = 0; i < p; ++i) y[i] = kind == 0 ? double(r.range(-3, 3)) : r.real(-1, 1);
	for (size_t i = p; i < y.size(); ++i)
		for (size_t j = 0; j < p; ++j) y[i] += coef[j] * y[i - 1 - j];
	VD data(y.begin(), y.begin() + n);
	std::ostringstream d;
	d.precision(17);
	d << "order " << p << " data " << vh::str(data);
	c.desc(d.str());
	// orders and lengths that do not fit
	{
		VD odd(y.begin(), y.begin() + n - 1);
		EXPECT(vh::throws([&] { LinearPrediction<double> l(odd, 1); }), "predict:odd", "an odd number of points was accepted");
		size_t badp = r.chance(0.3) ? 0 : n / 2 + r.range(1, 5);
		EXPECT(vh::throws([&] { LinearPrediction<double> l(data, badp); }), "predict:order", "order " << badp << " was accepted for " << n << " points");
	}
	// how well the data determine the coefficients
	size_t h = n / 2;
	vh::Ref<double> g(p, p);
	double big = 0;
	for (size_t l = 0; l < p; ++l)
		for (size_t j = 0; j < p; ++j)
			for (size_t i = h; i < 2 * h; ++i) g(l, j) += y[i - l - 1] * y[i - j - 1];
	VD ev = vh::eigvals(g);
	for (double x : data) big = std::max(big, std::fabs(x));
	double cond = ev[0] > 0 ? ev.back() / ev[0] : 1e300;
	if (ev.back() == 0 || big == 0) { // nothing to learn from
		EXPECT(vh::throws([&] { LinearPrediction<double> l(data, p); }), "predict:zero", "zeros were continued");
		c.count("undetermined data refused");
		return;
	}
	if (p > 1 && r.chance(0.1)) { // obeys a recurrence of lower order: exactly singular, or refused
		VD same(n, double(r.range(1, 5)));
		bool refused = vh::throws([&] {
			LinearPrediction<double> l(same, p);
			l.predict(4);
			for (size_t i = 0; i < n + 4; ++i) EXPECT(std::fabs(l(i) - same[0]) < 1e-6 * same[0], "predict:constant", "a constant " << same[0] << " is continued as " << l(i));
		});
		if (refused) c.count("undetermined data refused");
	}
	if (cond > 1e7) return;
	c.nontrivial(d.str());
	LinearPrediction<double> lp(data, p);
	size_t total = n;
	std::vector<size_t> asked;
	bool inside = kind == 2, again = r.chance(0.3), two = inside && r.chance(0.3) && cond < 1e4;
	if (again) lp.linearPredictionfunction(data, p);
	double tol = 1e-14 * cond * (n + 20), worst = big;
	if (two) {
		lp.predict2(p);
		total += p;
		size_t other = p + r.range(1, 3);
		EXPECT(vh::throws([&] { lp.predict2(other); }) && vh::throws([&] { lp.predict2(0); }), "predict2:order", "another order was accepted");
	}
	for (int k = r.range(0, 3); k > 0; --k) {
		size_t q = r.range(0, 6);
		lp.predict(q);
		total += q;
		if (r.chance(0.3)) lp.linearPredictionfunction(data, p);
	}
	// errors grow as solutions of the recurrence do
	double grow = 1;
	{
		VD e(p, 0);
		e[0] = 1;
		VD q = e;
		q.resize(40 + p);
		for (size_t i = p; i < q.size(); ++i) {
			q[i] = 0;
			for (size_t j = 0; j < p; ++j) q[i] += std::fabs(coef[j]) * std::fabs(q[i - 1 - j]);
			if (i < p + 25) grow += q[i];
		}
	}
	if (!(tol * grow < 1e-5)) return;
	for (size_t i = 0; i < total; ++i) {
		worst = std::max(worst, std::fabs(y[i]));
		double t = i < n ? 0 : (tol * grow + (two ? 1e-7 : 0)) * worst * double(i);
		EXPECT(std::fabs(lp(i) - y[i]) <= t, i < n ? "predict:data" : "predict:value", "point " << i << " is " << lp(i) << " not " << y[i] << " (allowed " << t << ")");
	}
	if (total > n) c.count("points predicted", total - n);
}
// ---- Fermi functions
FAMILY(fermi, 12000, 120000)
{
	vh::Rng& r = c.rng;
	static const double special[] = { 0, -0.0, 50, -50, 20, -20, 700, -700, 800, -800, 1e300, -1e300, INFINITY, -INFINITY };
	double x = r.chance(0.2) ? special[r.range(0, 13)] : r.chance(0.5) ? r.real(-60, 60) : r.real(-3, 3);
	c.desc(vh::str(VD(1, x)));
	c.nontrivial(x);
	double f = fermi(x), g = fermi(-x), want = double(1.0L / (1.0L + std::exp((long double)x)));
	EXPECT(std::fabs(f - want) <= 1e-15, "fermi", "fermi(" << x << ") = " << f << " not " << want);
	if (std::fabs(x) < 50) EXPECT(std::fabs(f - want) <= 1e-14 * want, "fermi:relative", "fermi(" << x << ") = " << f << " not " << want);
	EXPECT(std::fabs(f + g - 1) <= 1e-15 && f >= 0 && f <= 1, "fermi:sum", f << " + " << g);
	double p = fermiPrime(x);
	EXPECT(std::fabs(p + want * (1 - want)) <= 1e-15 && p <= 0, "fermi:prime", "derivative at " << x << " is " << p);
	EXPECT(p == fermiPrime(-x), "fermi:even", p);
	double l = logfermi(x), lw = x > 0 ? -x - std::log1p(std::exp(-x)) : -std::log1p(std::exp(x));
	EXPECT(l == lw || std::fabs(l - lw) <= 3e-9, "fermi:log", "logfermi(" << x << ") = " << l << " not " << lw);
	double y = x + r.real(0, 1);
	EXPECT(fermi(y) <= f + 1e-16 && logfermi(y) <= l + 3e-9, "fermi:decreasing", "at " << x << " and " << y);
	float fx = float(x), ff = fermi(fx);
	EXPECT(std::fabs(double(ff) - double(1.0L / (1.0L + std::exp((long double)fx)))) <= 3e-7, "fermi:float", ff);
	c.count("identities checked");
}
