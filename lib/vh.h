// Small harness library: deterministic case families, executed in supervised
// child processes; every case is judged by an oracle written in the family.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <complex>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { }
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	// uniform in [lo,hi], inclusive
	int64_t range(int64_t lo, int64_t hi)
	{
		return lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1));
	}
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
	bool chance(double p) { return unit() < p; }
	// a size: mostly in [lo,hi], and now and then up to big
	int64_t dim(int64_t lo, int64_t hi, int64_t big) { return chance(0.015) ? range(hi, big) : range(lo, hi); }
	template <typename C> auto& pick(C& c) { return c[next() % c.size()]; }
	template <typename C> const auto& pick(const C& c) { return c[next() % c.size()]; }
};

struct HarnessError : public std::runtime_error {
	HarnessError(const std::string& s) : std::runtime_error(s) { }
};
struct CaseEnd { };

struct Ctx {
	Rng rng;
	bool thorough;
	uint64_t index;   // case number in the family
	uint64_t seed;
	const char* family;
	bool reported;
	Ctx(uint64_t s) : rng(s), thorough(false), index(0), seed(s), family(""), reported(false) { }
	// describe the current case (kept where a crash can still find it)
	void desc(const std::string&);
	// record a violation and end the case
	[[noreturn]] void fail(const std::string& key, const std::string& msg);
	// the case is non-trivial, and distinct by this hash
	void nontrivial(uint64_t hash);
	void nontrivial(const std::string& s);
	void count(const char* what, uint64_t n = 1);
	void sample(const std::string&);
	std::string scratch(); // private scratch directory, removed by the parent
};

typedef void (*FamilyFn)(Ctx&);
struct Reg { Reg(const char* name, FamilyFn f, uint64_t q, uint64_t t, int timeoutSec); };

std::string readStdout();   // what the case printed on stdout so far
std::string readStderr();
uint64_t hashStr(const std::string&);

} // namespace vh

#define FAMILY_T(name, q, t, tmo)                                                         \
	static void fam_##name(vh::Ctx&);                                                \
	static vh::Reg reg_##name(#name, fam_##name, q, t, tmo);                         \
	static void fam_##name([[maybe_unused]] vh::Ctx& c)
#define FAMILY(name, q, t) FAMILY_T(name, q, t, 40)
// one fixed input, normally the witness of a finding
#define PROBE(name) FAMILY_T(probe_##name, 1, 1, 20)

#define EXPECT(cond, key, msg)                                                            \
	do {                                                                             \
		if (!(cond)) {                                                           \
			std::ostringstream vh_os;                                        \
			vh_os.precision(17);                                             \
			vh_os << msg;                                                    \
			c.fail(key, vh_os.str());                                        \
		}                                                                        \
	} while (0)

namespace vh {

// true if f throws a std::exception
template <typename F> bool throws(F f)
{
	try {
		f();
	} catch (const CaseEnd&) {
		throw;
	} catch (const HarnessError&) {
		throw;
	} catch (const std::exception&) {
		return true;
	} catch (...) { // H5::Exception and the like
		return true;
	}
	return false;
}

inline double cabs1(double x) { return std::fabs(x); }
inline double cabs1(float x) { return std::fabs(x); }
template <typename T> double cabs1(const std::complex<T>& x) { return std::abs(x); }
// NaN-safe closeness
template <typename A, typename B> bool close(const A& a, const B& b, double tol)
{
	return cabs1(a - b) <= tol;
}

template <typename T> struct RandVal;
template <> struct RandVal<double> {
	static double get(Rng& r) { return r.real(-2, 2); }
	static double getInt(Rng& r) { return r.range(-3, 3); }
};
template <> struct RandVal<float> {
	static float get(Rng& r) { return r.real(-2, 2); }
	static float getInt(Rng& r) { return r.range(-3, 3); }
};
template <typename T> struct RandVal<std::complex<T>> {
	static std::complex<T> get(Rng& r)
	{
		T a = r.real(-2, 2);
		T b = r.real(-2, 2);
		return std::complex<T>(a, b);
	}
	static std::complex<T> getInt(Rng& r)
	{
		T a = r.range(-3, 3);
		T b = r.range(-3, 3);
		return std::complex<T>(a, b);
	}
};
template <> struct RandVal<int> {
	static int get(Rng& r) { return r.range(-9, 9); }
	static int getInt(Rng& r) { return r.range(-9, 9); }
};

inline double cconj(double x) { return x; }
inline float cconj(float x) { return x; }
template <typename T> std::complex<T> cconj(const std::complex<T>& x) { return std::conj(x); }
inline double creal(double x) { return x; }
template <typename T> T creal(const std::complex<T>& x) { return x.real(); }
template <typename T> struct IsCplx { static const bool value = false; };
template <typename T> struct IsCplx<std::complex<T>> { static const bool value = true; };

// Plain reference matrix (row-major, independent of the code under test)
template <typename T> struct Ref {
	size_t r, c;
	std::vector<T> d;
	Ref(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), d(r_ * c_, T(0)) { }
	T& operator()(size_t i, size_t j) { return d.at(i * c + j); }
	const T& operator()(size_t i, size_t j) const { return d.at(i * c + j); }
	double maxabs() const
	{
		double m = 0;
		for (auto& x : d) m = std::max(m, cabs1(x));
		return m;
	}
};
template <typename T> Ref<T> mul(const Ref<T>& a, const Ref<T>& b)
{
	if (a.c != b.r) throw HarnessError("mul");
	Ref<T> x(a.r, b.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t k = 0; k < a.c; ++k)
			for (size_t j = 0; j < b.c; ++j)
				x(i, j) += a(i, k) * b(k, j);
	return x;
}
template <typename T> Ref<T> adj(const Ref<T>& a)
{
	Ref<T> x(a.c, a.r);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			x(j, i) = cconj(a(i, j));
	return x;
}
template <typename T> Ref<T> tr(const Ref<T>& a)
{
	Ref<T> x(a.c, a.r);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			x(j, i) = a(i, j);
	return x;
}
template <typename T> Ref<T> add(const Ref<T>& a, const Ref<T>& b, T f, T g)
{
	Ref<T> x(a.r, a.c);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			x(i, j) = f * a(i, j) + g * b(i, j);
	return x;
}
template <typename T> Ref<T> ident(size_t n)
{
	Ref<T> x(n, n);
	for (size_t i = 0; i < n; ++i) x(i, i) = T(1);
	return x;
}
template <typename T> double dist(const Ref<T>& a, const Ref<T>& b)
{
	if (a.r != b.r || a.c != b.c) return 1e300;
	double m = 0;
	for (size_t i = 0; i < a.d.size(); ++i) {
		double x = cabs1(a.d[i] - b.d[i]);
		if (!(x <= m)) m = (x == x) ? x : 1e300;
	}
	return m;
}
template <typename T> std::string str(const Ref<T>& a)
{
	std::ostringstream o;
	o.precision(17);
	o << a.r << "x" << a.c << "[";
	for (size_t i = 0; i < a.d.size() && i < 60; ++i) o << (i ? " " : "") << a.d[i];
	o << "]";
	return o.str();
}
template <typename T> std::string str(const std::vector<T>& a)
{
	std::ostringstream o;
	o.precision(17);
	o << a.size() << "[";
	for (size_t i = 0; i < a.size() && i < 60; ++i) o << (i ? " " : "") << a[i];
	o << "]";
	return o.str();
}
// Hermitian reference matrix
template <typename T> Ref<T> randHerm(Rng& r, size_t n)
{
	Ref<T> a(n, n);
	for (size_t i = 0; i < n; ++i) {
		a(i, i) = T(creal(RandVal<T>::get(r)));
		for (size_t j = i + 1; j < n; ++j) {
			a(i, j) = RandVal<T>::get(r);
			a(j, i) = cconj(a(i, j));
		}
	}
	return a;
}
// Eigenvalues (ascending) and eigenvectors (columns of V) of a Hermitian matrix by
// cyclic Jacobi on the real symmetric embedding when complex.
inline void jacobiReal(Ref<double> a, std::vector<double>& w, Ref<double>& v)
{
	size_t n = a.r;
	v = ident<double>(n);
	for (int sweep = 0; sweep < 100; ++sweep) {
		double off = 0;
		for (size_t i = 0; i < n; ++i)
			for (size_t j = i + 1; j < n; ++j) off += a(i, j) * a(i, j);
		if (off < 1e-300) break;
		for (size_t p = 0; p < n; ++p)
			for (size_t q = p + 1; q < n; ++q) {
				if (std::fabs(a(p, q)) < 1e-300) continue;
				double th = (a(q, q) - a(p, p)) / (2 * a(p, q));
				double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
				double cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
				for (size_t k = 0; k < n; ++k) {
					double x = a(k, p), y = a(k, q);
					a(k, p) = cs * x - sn * y;
					a(k, q) = sn * x + cs * y;
				}
				for (size_t k = 0; k < n; ++k) {
					double x = a(p, k), y = a(q, k);
					a(p, k) = cs * x - sn * y;
					a(q, k) = sn * x + cs * y;
				}
				for (size_t k = 0; k < n; ++k) {
					double x = v(k, p), y = v(k, q);
					v(k, p) = cs * x - sn * y;
					v(k, q) = sn * x + cs * y;
				}
			}
	}
	std::vector<size_t> idx(n);
	for (size_t i = 0; i < n; ++i) idx[i] = i;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = i + 1; j < n; ++j)
			if (a(idx[j], idx[j]) < a(idx[i], idx[i])) std::swap(idx[i], idx[j]);
	w.resize(n);
	Ref<double> v2(n, n);
	for (size_t i = 0; i < n; ++i) {
		w[i] = a(idx[i], idx[i]);
		for (size_t k = 0; k < n; ++k) v2(k, i) = v(k, idx[i]);
	}
	v = v2;
}
inline std::vector<double> eigvals(const Ref<double>& a)
{
	std::vector<double> w;
	Ref<double> v;
	jacobiReal(a, w, v);
	return w;
}
inline std::vector<double> eigvals(const Ref<std::complex<double>>& a)
{
	size_t n = a.r;
	Ref<double> b(2 * n, 2 * n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) {
			b(i, j) = b(i + n, j + n) = a(i, j).real();
			b(i + n, j) = a(i, j).imag();
			b(i, j + n) = -a(i, j).imag();
		}
	std::vector<double> w, r;
	Ref<double> v;
	jacobiReal(b, w, v);
	for (size_t i = 0; i < n; ++i) r.push_back(w[2 * i]);
	return r;
}

} // namespace vh
#endif
