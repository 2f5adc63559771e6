#include "Concurrency.h"
#include "GemmR.h"
#include "LAPACK.h"
#include "LoadBalancerWeights.h"
#include "Matrix.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "Svd.h"
#include "vh.h"
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::complex<float> C;
typedef vh::Ctx Ctx;
extern unsigned long vhLapackCalls, vhLapackFailed;
extern thread_local bool vhLapackFail;
extern std::atomic<unsigned> vhCreateDelay;
extern std::atomic<unsigned long> vhCreated;
extern "C" void xerbla_(const char*, int*, size_t) { }

enum { DC, QR, FALLBACK, EIG, EIGVALS, INV, PRODUCT, EXP, ROTATE, OUTER, KINDS };
static const char* names[] = { "gesdd", "gesvd", "fallback", "diag", "eigenvalues", "inverse", "product", "exp", "rotate", "outer" };

template <typename T> struct Task {
	int kind;
	char job;
	bool fails; // the first backend refuses
	bool nan = false; // the second backend may never end
	int delay;
	Matrix<T> a, b; // the input, shared and constant
};
template <typename T> struct Out {
	typedef typename Real<T>::Type R;
	std::vector<R> s;
	Matrix<T> u, vt;
	bool threw = false, again = false;
	int runs = 0;
	std::string backend;
};
static void busy(int d)
{
	if (d == 1) sched_yield();
	else if (d > 1)
		usleep(d);
}
// what a user's task does, with its own copies
template <typename T> void work(const Task<T>& t, Out<T>& o)
{
	++o.runs;
	busy(t.delay);
	o.u = t.a;
	try {
		switch (t.kind) {
		case DC:
		case QR:
		case FALLBACK: {
			vhLapackFail = t.kind == FALLBACK && t.fails;
			Svd<T> svd(t.kind == QR ? "gesvd" : "gesdd");
			o.backend = svd.name();
			try {
				svd(t.job, o.u, o.s, o.vt);
			} catch (const std::exception&) {
				vhLapackFail = false;
				if (!svd.canTryAgain() || t.nan) throw;
				o.again = true;
				busy(t.delay);
				o.u = t.a;
				Svd<T> second("gesvd");
				o.backend = second.name();
				second(t.job, o.u, o.s, o.vt);
			}
			break;
		}
		case EIG:
		case EIGVALS:
			o.s.resize(o.u.rows());
			diag(o.u, o.s, t.kind == EIG ? 'V' : 'N');
			if (t.kind == EIGVALS) o.u = Matrix<T>(1, 1); // not specified
			break;
		case INV: inverse(o.u); break;
		case PRODUCT: {
			Matrix<T> m(t.a.rows(), t.b.cols());
			GemmR<T> g(false, 3, 1);
			g('N', 'N', t.a.rows(), t.b.cols(), t.a.cols(), T(1), &t.a(0, 0), t.a.rows(), &t.b(0, 0), t.b.rows(), T(0), &m(0, 0), m.rows());
			o.u = t.a * t.b;
			o.vt = m;
			break;
		}
		case EXP: exp(o.u); break;
		case ROTATE: rotate(o.u, t.b); break;
		default: outerProduct(o.vt, t.a, t.b); break;
		}
	} catch (const std::exception&) {
		o.threw = true;
		o.u.clear(), o.vt.clear(), o.s.clear();
	}
	vhLapackFail = false;
	busy(t.delay);
}
template <typename X> static bool same(const X& a, const X& b) { return a == b || (a != a && b != b); }
template <typename T> static bool same(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j)
			if (!same(a(i, j), b(i, j))) return false;
	return true;
}
template <typename T> static Matrix<T> randomMatrix(vh::Rng& r, size_t n, size_t m, bool herm)
{
	Matrix<T> a(n, m);
	int shape = r.range(0, 5);
	double f = shape == 1 ? std::pow(10., r.range(-6, 6)) : 1;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < m; ++j) {
			T v = shape == 2 ? vh::RandVal<T>::getInt(r) : vh::RandVal<T>::get(r);
			a(i, j) = v * T(f);
			if (shape == 3 && i) a(i, j) = a(0, j) * T(double(i)); // rank one
			if (shape == 4 && i != j) a(i, j) = 0;
		}
	if (herm)
		for (size_t i = 0; i < n; ++i) {
			a(i, i) = T(vh::creal(a(i, i)));
			for (size_t j = 0; j < i; ++j) a(i, j) = vh::cconj(a(j, i));
		}
	return a;
}
template <typename T> static Z up(const T& x) { return Z(vh::creal(x), 0); }
template <typename T> static Z up(const std::complex<T>& x) { return Z(x.real(), x.imag()); }
template <typename T> static vh::Ref<Z> ref(const Matrix<T>& m)
{
	vh::Ref<Z> a(m.rows(), m.cols());
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.cols(); ++j) a(i, j) = up(m(i, j));
	return a;
}
template <typename T> struct Eps { static double v() { return 1e-11; } };
template <> struct Eps<float> { static double v() { return 3e-4; } };
template <> struct Eps<C> { static double v() { return 3e-4; } };

// the task's answer is right
template <typename T> static void judge(Ctx& c, const Task<T>& t, const Out<T>& o, bool nan)
{
	if (t.kind == FALLBACK) {
		EXPECT(nan || o.again == t.fails, "again", "the second backend was" << (o.again ? "" : " not") << " used");
		EXPECT(nan || o.backend == (o.again ? "gesvd" : "gesdd"), "backend", o.backend);
		if (o.again) c.count("fallbacks taken");
	}
	if (nan) EXPECT(o.threw, "nan", "a matrix that is not a number was decomposed");
	if (o.threw) return;
	vh::Ref<Z> a = ref(t.a), u = ref(o.u), v = ref(o.vt);
	double sc = a.maxabs() * (1 + std::max(a.r, a.c)), e = Eps<T>::v();
	if (t.kind <= FALLBACK) {
		size_t n = t.a.rows(), m = t.a.cols(), k = std::min(n, m);
		EXPECT(o.s.size() == k && u.r == n && v.c == m && u.c == (t.job == 'A' ? n : k) && v.r == (t.job == 'A' ? m : k), "svd:shape", u.r << "x" << u.c << " " << o.s.size() << " " << v.r << "x" << v.c);
		vh::Ref<Z> p(n, m);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < m; ++j)
				for (size_t l = 0; l < k; ++l) p(i, j) += u(i, l) * double(o.s[l]) * v(l, j);
		EXPECT(vh::dist(p, a) <= e * sc, "svd:product", "U S V is " << vh::dist(p, a) << " away");
		EXPECT(vh::dist(vh::mul(vh::adj(u), u), vh::ident<Z>(u.c)) <= 10 * e && vh::dist(vh::mul(v, vh::adj(v)), vh::ident<Z>(v.r)) <= 10 * e, "svd:orthogonal", "not orthogonal");
		for (size_t l = 0; l < k; ++l) EXPECT(o.s[l] >= 0 && (l == 0 || o.s[l] <= o.s[l - 1]), "svd:order", vh::str(o.s));
		c.count("decompositions judged");
	}
	else if (t.kind == PRODUCT) {
		vh::Ref<Z> p = vh::mul(a, ref(t.b));
		sc *= 1 + ref(t.b).maxabs();
		EXPECT(vh::dist(p, u) <= e * sc && vh::dist(p, v) <= e * sc, "product", "the product is " << vh::dist(p, u) << "," << vh::dist(p, v) << " away");
		c.count("products judged");
	}
}
template <typename T> struct Helper {
	const std::vector<Task<T>>& tasks;
	std::vector<Out<T>>& out;
	SizeType tasksNumber() const { return tasks.size(); }
	SizeType tasks_() const { return tasks.size(); }
	void doTask(SizeType i, SizeType) { work(tasks[i], out[i]); }
};
template <typename T> struct Wrapped : public Helper<T> {
	Wrapped(const std::vector<Task<T>>& t, std::vector<Out<T>>& o) : Helper<T> { t, o } { }
	SizeType tasks() const { return Helper<T>::tasks_(); }
};

template <typename T> static void compare(Ctx& c)
{
	vh::Rng& r = c.rng;
	static const bool prepared = [] { Concurrency::mode = Concurrency::PTHREADS; return true; }();
	(void)prepared;
	size_t n = r.range(0, 14), t = r.dim(1, 12, 40);
	std::vector<Task<T>> tasks(n);
	std::ostringstream d;
	d << "threads " << t << ":";
	size_t top = r.dim(12, c.thorough ? 24 : 12, 70);
	for (size_t i = 0; i < n; ++i) {
		Task<T>& x = tasks[i];
		x.kind = r.chance(0.6) ? r.range(0, FALLBACK) : r.range(0, KINDS - 1);
		x.job = r.chance(0.5) ? 'A' : 'S';
		x.fails = r.chance(0.5);
		x.delay = r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : r.range(2, 60);
		size_t p = r.range(1, top), q = x.kind <= FALLBACK || x.kind == PRODUCT || x.kind == OUTER ? r.range(1, top) : p;
		if (x.kind == OUTER) p = 1 + p % 4, q = 1 + q % 4;
		bool herm = x.kind == EIG || x.kind == EIGVALS || x.kind == EXP;
		if (i && r.chance(0.2) && tasks[i - 1].kind == x.kind) x.a = tasks[i - 1].a, x.b = tasks[i - 1].b, x.nan = tasks[i - 1].nan;
		else {
			x.a = randomMatrix<T>(r, p, q, herm);
			x.b = randomMatrix<T>(r, x.kind == OUTER ? 2 : x.a.cols(), x.kind == OUTER ? 3 : r.range(1, top), false);
			if (x.kind == EXP)
				for (size_t k = 0; k < p; ++k)
					for (size_t l = 0; l < p; ++l) x.a(k, l) = x.a(k, l) * T(1e-6);
			if ((x.kind == DC || x.kind == FALLBACK) && r.chance(0.03) && p < 5 && q < 5) x.a(r.range(0, p - 1), r.range(0, q - 1)) = std::nan(""), x.nan = true;
		}
		d << " " << names[x.kind] << (x.kind <= FALLBACK ? std::string(1, x.job) : "") << (x.kind == FALLBACK && x.fails ? "!" : "") << x.a.rows() << "x" << x.a.cols();
	}
	c.desc(d.str());
	if (n > 1 && t > 1) c.nontrivial(d.str());
	std::vector<Task<T>> keep = tasks;
	std::vector<Out<T>> serial(n);
	size_t at0 = 0;
	for (auto& o : serial) work(tasks[at0++], o);
	for (size_t i = 0; i < n; ++i) judge(c, tasks[i], serial[i], tasks[i].nan);
	unsigned long calls = vhLapackCalls;
	int rounds = r.range(1, 3);
	std::vector<SizeType> w(n);
	for (; rounds > 0; --rounds) {
		t = r.range(1, 12);
		std::vector<Out<T>> out(n);
		std::vector<size_t> order(n);
		for (size_t i = 0; i < n; ++i) order[i] = i, w[i] = r.range(0, 30);
		for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.range(0, i - 1)]);
		vhCreateDelay = r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : r.range(2, 100);
		CodeSectionParams cs(t, 1, r.chance(0.1), r.chance(0.3) ? 1 << 21 : 0);
		int how = r.range(0, 5);
		size_t at = 0, cnt = n;
		switch (how) {
		case 0: {
			Parallelizer2<> p(cs);
			p.parallelFor(0, n, [&](SizeType i, SizeType) { work(tasks[i], out[i]); });
			break;
		}
		case 1: {
			Parallelizer2<LoadBalancerWeights> p(cs);
			p.parallelFor(0, n, [&](SizeType i, SizeType) { work(tasks[order[i]], out[order[i]]); }, w);
			break;
		}
		case 2: { // in two pieces
			at = r.range(0, n);
			Parallelizer2<> p(cs);
			p.parallelFor(at, n, [&](SizeType i, SizeType) { work(tasks[i], out[i]); });
			p.parallelFor(0, at, [&](SizeType i, SizeType) { work(tasks[i], out[i]); });
			break;
		}
		case 3: {
			Wrapped<T> h(tasks, out);
			Parallelizer<Wrapped<T>> p(cs);
			p.loopCreate(h);
			break;
		}
		case 4: {
			Wrapped<T> h(tasks, out);
			Parallelizer<Wrapped<T>, LoadBalancerWeights> p(cs);
			p.loopCreate(h, w);
			break;
		}
		default: { // all tasks several times over
			std::vector<std::vector<Out<T>>> many(3, std::vector<Out<T>>(n));
			Parallelizer2<> p(cs);
			p.parallelFor(0, 3 * n, [&](SizeType i, SizeType) { work(tasks[order[i / 3]], many[i % 3][order[i / 3]]); });
			for (int k = 0; k < 2; ++k)
				for (size_t i = 0; i < n; ++i) EXPECT(same(many[k][i].u, many[2][i].u) && same(many[k][i].vt, many[2][i].vt), "twins", names[tasks[i].kind] << " task " << i << " with " << t << " threads");
			out = many[r.range(0, 2)];
			break;
		}
		}
		(void)cnt;
		for (size_t i = 0; i < n; ++i) {
			const Out<T>&a = serial[i], &b = out[i];
			EXPECT(b.runs == 1, "runs", "task " << i << " ran " << b.runs << " times with " << t << " threads, loop " << how);
			EXPECT(a.threw == b.threw && a.again == b.again && a.backend == b.backend, "outcome", names[tasks[i].kind] << " task " << i << " threw " << b.threw << " not " << a.threw << ", retried " << b.again << " not " << a.again);
			bool sv = a.s.size() == b.s.size();
			for (size_t k = 0; sv && k < a.s.size(); ++k) sv = same(a.s[k], b.s[k]);
			EXPECT(sv, "values", names[tasks[i].kind] << " task " << i << " with " << t << " threads, loop " << how << ": " << vh::str(b.s) << " not " << vh::str(a.s));
			EXPECT(same(a.u, b.u) && same(a.vt, b.vt), "vectors", names[tasks[i].kind] << " task " << i << " with " << t << " threads, loop " << how << " differs from the serial result");
			EXPECT(same(tasks[i].a, keep[i].a) && same(tasks[i].b, keep[i].b), "input", "the input of task " << i << " changed");
			c.count("parallel results compared");
		}
	}
	c.count("LAPACK calls monitored", vhLapackCalls - calls);
	c.count("threads created", vhCreated.exchange(0));
	vhCreateDelay = 0;
}
FAMILY(real_, 900, 9000) { compare<double>(c); }
FAMILY(complex_, 900, 9000) { compare<Z>(c); }
FAMILY(single, 400, 4000)
{
	if (c.rng.chance(0.5)) compare<float>(c);
	else
		compare<C>(c);
}
// decompositions inside tasks of an outer loop, each with a loop of its own
FAMILY(nested, 300, 3000)
{
	vh::Rng& r = c.rng;
	size_t n = r.range(1, 6), m = r.range(1, 4), t = r.range(1, 4), t2 = r.range(1, 3), sz = r.range(1, 8);
	std::vector<Task<Z>> tasks(n * m);
	for (auto& x : tasks) {
		x.kind = r.range(0, FALLBACK), x.job = 'S', x.fails = r.chance(0.5), x.delay = r.range(0, 1);
		x.a = randomMatrix<Z>(r, sz, r.range(1, 8), false);
	}
	std::ostringstream d;
	d << n << "x" << m << " decompositions of " << sz << " rows, threads " << t << "x" << t2 << " " << r.next() % 1000000;
	c.desc(d.str());
	c.nontrivial(d.str());
	Concurrency::mode = Concurrency::PTHREADS;
	std::vector<Out<Z>> serial(n * m), out(n * m);
	for (size_t i = 0; i < n * m; ++i) work(tasks[i], serial[i]);
	Parallelizer2<> p((CodeSectionParams(t)));
	p.parallelFor(0, n, [&](SizeType i, SizeType) {
		Parallelizer2<> q((CodeSectionParams(t2)));
		q.parallelFor(0, m, [&](SizeType j, SizeType) { work(tasks[i * m + j], out[i * m + j]); });
	});
	for (size_t i = 0; i < n * m; ++i) {
		EXPECT(out[i].runs == 1 && out[i].s == serial[i].s && same(out[i].u, serial[i].u) && same(out[i].vt, serial[i].vt), "nested", "task " << i << " differs from the serial result");
		c.count("parallel results compared");
	}
}
