// Workloads whose tasks share nothing; ThreadSanitizer is the oracle.
#include "Concurrency.h"
#include "GemmR.h"
#include "LoadBalancerWeights.h"
#include "MersenneTwister.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "ProgressIndicator.h"
#include "PsiBase64.h"
#include "Random48.h"
#include "RandomForTests.h"
#include "Sort.h"
#include "Svd.h"
#include "vh.h"
#include <atomic>
#include <thread>
using namespace PsimagLite;
typedef vh::Ctx Ctx;
extern std::atomic<unsigned> vhCreateDelay;
extern std::atomic<unsigned long> vhCreated;

static void pause(int d)
{
	if (d == 1) sched_yield();
	else if (d > 1) usleep(d);
}
static std::vector<int> delays(Ctx& c, size_t n)
{
	std::vector<int> v(n);
	int k = c.rng.range(0, 2);
	for (auto& x : v) x = k == 0 ? 0 : k == 1 ? c.rng.range(0, 1) : (c.rng.chance(0.2) ? c.rng.range(1, 80) : 0);
	return v;
}
static void jitter(Ctx& c) { vhCreateDelay = c.rng.chance(0.5) ? 0 : c.rng.chance(0.5) ? 1 : c.rng.range(2, 100); }
static void done(Ctx& c, size_t tasks)
{
	c.count("tasks run under TSan", tasks);
	c.count("threads created under TSan", vhCreated.exchange(0));
}
static std::string show(Ctx& c, size_t a, size_t b, size_t d)
{
	std::ostringstream o;
	o << "tasks=" << a << " threads=" << b << " extra=" << d;
	c.desc(o.str());
	c.sample(o.str());
	c.nontrivial(o.str() + std::to_string(c.seed));
	return o.str();
}
struct Work {
	const std::vector<double>& in;
	std::vector<double>& out;
	std::vector<long>& perThread;
	const std::vector<int>& dly;
	SizeType tasks() const { return out.size(); }
	void doTask(SizeType i, SizeType th)
	{
		pause(dly[i]);
		double s = 0;
		for (double x : in) s += x;
		out[i] += s + i;
		perThread[Concurrency::storageIndex(th)] += i;
	}
};
// tasks write adjacent elements and per-thread accumulators; everything is read afterwards
FAMILY(loops, 3200, 12000)
{
	size_t n = c.rng.dim(0, 80, 3000), t = c.rng.dim(1, 9, 60);
	show(c, n, t, 0);
	jitter(c);
	Concurrency::mode = Concurrency::PTHREADS;
	std::vector<double> in(5, 1.5), out(n, 0);
	std::vector<long> per(Concurrency::storageSize(t), 0);
	std::vector<int> dly = delays(c, n);
	Work w { in, out, per, dly };
	std::vector<SizeType> wt(n);
	for (auto& x : wt) x = c.rng.range(0, 50);
	CodeSectionParams cs(t, 1, c.rng.chance(0.3), c.rng.chance(0.3) ? 1 << 21 : 0);
	int reps = c.rng.range(1, 3);
	for (int k = 0; k < reps; ++k) {
		switch (c.rng.range(0, 3)) {
		case 0: {
			Parallelizer<Work> p(cs);
			p.loopCreate(w);
			break;
		}
		case 1: {
			Parallelizer<Work, LoadBalancerWeights> p(cs);
			p.loopCreate(w, wt);
			break;
		}
		case 2: {
			Parallelizer2<> p(cs);
			p.parallelFor(0, n, [&w](SizeType i, SizeType th) { w.doTask(i, th); });
			break;
		}
		case 3: {
			Parallelizer2<LoadBalancerWeights> p(cs);
			p.parallelFor(0, n, [&w](SizeType i, SizeType th) { w.doTask(i, th); }, wt);
			break;
		}
		}
		in[0] += 1; // the joined tasks may no longer read it
	}
	double want = 0, got = 0;
	long gl = 0, wl = 0;
	for (size_t i = 0; i < n; ++i) {
		got += out[i];
		for (int k = 0; k < reps; ++k) want += 7.5 + k + i;
		wl += reps * i;
	}
	for (long x : per) gl += x;
	EXPECT(std::fabs(got - want) < 1e-9 && gl == wl, "loops:result", got << " want " << want);
	done(c, n * reps);
}
// parallel loops inside parallel loops, with and without affinities
FAMILY(nested, 1600, 6000)
{
	size_t n = c.rng.range(1, 6), m = c.rng.range(1, 8), t = c.rng.range(2, 5), t2 = c.rng.range(1, 4);
	show(c, n, t, t2 * 100 + m);
	jitter(c);
	bool aff = c.rng.chance(0.5);
	std::vector<std::vector<double>> out(n, std::vector<double>(m, 0));
	struct Inner {
		std::vector<double>& o;
		SizeType tasks() const { return o.size(); }
		void doTask(SizeType i, SizeType) { o[i] += i + 1; }
	};
	struct Outer {
		std::vector<std::vector<double>>& o;
		CodeSectionParams cs;
		SizeType tasks() const { return o.size(); }
		void doTask(SizeType i, SizeType)
		{
			Inner in { o[i] };
			Parallelizer<Inner> p(cs);
			p.loopCreate(in);
			Parallelizer2<> p2(cs);
			std::vector<double>& x = o[i];
			p2.parallelFor(0, x.size(), [&x](SizeType j, SizeType) { x[j] *= 2; });
		}
	} o { out, CodeSectionParams(t2, 1, aff, 0) };
	Parallelizer<Outer> p(CodeSectionParams(t, t2, aff && c.rng.chance(0.5), 0));
	p.loopCreate(o);
	for (auto& v : out)
		for (size_t j = 0; j < m; ++j) EXPECT(v[j] == 2.0 * (j + 1), "nested:result", v[j]);
	done(c, n * m * 2);
}
FAMILY(gemm, 2400, 8000)
{
	size_t t = c.rng.range(1, 8);
	int nb = c.rng.range(1, 6), m = c.rng.range(1, 24), n = c.rng.range(1, 24), k = c.rng.range(1, 8);
	show(c, m * n, t, nb * 100 + k);
	jitter(c);
	std::vector<double> A(m * k, 1), B(k * n, 2), C(m * n, 1);
	GemmR<double> g(false, nb, t);
	g('N', 'N', m, n, k, 1.0, &A[0], m, &B[0], k, 0.5, &C[0], m);
	for (double x : C) EXPECT(std::fabs(x - (2.0 * k + 0.5)) < 1e-12, "gemm:result", x);
	done(c, 1);
}
// several multiplies at once, each threaded
FAMILY(gemm_concurrent, 1200, 3200)
{
	size_t outer = c.rng.range(2, 4), t = c.rng.range(1, 4);
	int nb = c.rng.range(2, 5), n = c.rng.range(4, 16);
	show(c, outer, t, n * 100 + nb);
	jitter(c);
	std::vector<double> A(n * n, 1), B(n * n, 2);
	std::vector<std::vector<double>> C(outer, std::vector<double>(n * n, 0));
	Parallelizer2<> p((CodeSectionParams(outer)));
	p.parallelFor(0, outer, [&](SizeType i, SizeType) {
		GemmR<double> g(false, nb, t);
		g('N', 'T', n, n, n, 1.0, &A[0], n, &B[0], n, 0.0, &C[i][0], n);
	});
	for (auto& v : C)
		for (double x : v) EXPECT(std::fabs(x - 2.0 * n) < 1e-12, "gemm:result", x);
	done(c, outer);
}
// the library's mutex excludes, and publishes what it guards
FAMILY(mutex, 2400, 8000)
{
	size_t n = c.rng.range(2, 60), t = c.rng.range(2, 9);
	show(c, n, t, 1);
	jitter(c);
	Concurrency::MutexType mutex;
	Concurrency::mutexInit(&mutex);
	long counter = 0;
	std::vector<int> log;
	std::atomic<int> inside { 0 };
	int worst = 0;
	std::vector<int> dly = delays(c, n);
	Parallelizer2<> p((CodeSectionParams(t)));
	p.parallelFor(0, n, [&](SizeType i, SizeType) {
		Concurrency::mutexLock(&mutex);
		int k = inside.fetch_add(1, std::memory_order_relaxed);
		if (k > worst) worst = k;
		++counter;
		log.push_back(i);
		pause(dly[i]);
		inside.fetch_sub(1, std::memory_order_relaxed);
		Concurrency::mutexUnlock(&mutex);
	});
	Concurrency::mutexDestroy(&mutex);
	EXPECT(worst == 0, "mutex:exclusion", worst + 1 << " tasks inside the critical section");
	EXPECT(counter == (long)n && log.size() == n, "mutex:count", counter);
	c.count("critical sections observed", n);
	done(c, n);
}
// shared services used from the tasks
FAMILY(services, 1600, 6000)
{
	size_t n = c.rng.range(2, 24), t = c.rng.range(2, 8);
	show(c, n, t, 2);
	jitter(c);
	Concurrency::mode = Concurrency::PTHREADS;
	Concurrency::setOptions(CodeSectionParams(t, 1, false, 0));
	std::vector<double> out(n, 0);
	std::vector<std::string> text(n);
	std::ostringstream os;
	std::vector<int> dly = delays(c, n);
	int kind = c.rng.range(0, 3);
	Parallelizer2<> p(Concurrency::codeSectionParams);
	std::atomic<int> zero { 0 };
	p.parallelFor(0, n, [&](SizeType i, SizeType th) {
		pause(dly[i]);
		// configuration is read, output is issued by the first thread only
		CodeSectionParams cs = Concurrency::codeSectionParams;
		out[i] += cs.npthreads + Concurrency::storageIndex(0) + Concurrency::nprocs() + (Concurrency::hasPthreads() ? 1 : 0) + (Concurrency::root() ? 1 : 0);
		ProgressIndicator pr("caller", th);
		pr.printline("line\n", os);
		pr.print("some", os);
		if (th == 0) zero.fetch_add(1, std::memory_order_relaxed);
		text[i] = ttos(i) + " " + ttos(1.5 * i);
		if (kind == 0) {
			MersenneTwister mt(100 + i);
			out[i] += mt() >= 0 ? 1 : 0;
		} else if (kind == 1) {
			Vector<SizeType>::Type v(10), perm(10);
			for (SizeType k = 0; k < 10; ++k) v[k] = (k * 7 + i) % 10;
			Sort<Vector<SizeType>::Type> sort;
			sort.sort(v, perm);
			out[i] += v[0] == 0 ? 1 : 0;
		} else if (kind == 2) {
			Matrix<double> a(3, 2), vt;
			for (int r = 0; r < 3; ++r)
				for (int q = 0; q < 2; ++q) a(r, q) = r + q * q + 1;
			Vector<double>::Type s;
			Svd<double> svd(i & 1 ? "gesdd" : "gesvd");
			svd('S', a, s, vt);
			out[i] += s.size() == 2 ? 1 : 0;
		} else {
			PsiBase64::Encode e("abc" + ttos(i));
			PsiBase64::Decode d(e());
			out[i] += d() == "abc" + ttos(i) ? 1 : 0;
		}
	});
	for (size_t i = 0; i < n; ++i) EXPECT(out[i] == t + 1 + 1 + 1 + 1, "services:value", i << ": " << out[i]);
	std::string s = os.str();
	size_t lines = 0;
	for (size_t q = 0; (q = s.find("line\n", q)) != std::string::npos; ++q) ++lines;
	EXPECT(lines == (size_t)zero.load(), "services:progress", lines << " lines, want " << zero.load());
	done(c, n);
}
// independent loops started by unrelated threads
FAMILY(unrelated, 1200, 4000)
{
	size_t k = c.rng.range(2, 4), n = c.rng.range(1, 20), t = c.rng.range(1, 4);
	show(c, n, t, k);
	jitter(c);
	bool aff = c.rng.chance(0.5);
	std::vector<std::vector<double>> out(k, std::vector<double>(n, 0));
	std::vector<std::thread> th;
	struct H {
		std::vector<double>& o;
		SizeType tasks() const { return o.size(); }
		void doTask(SizeType i, SizeType) { o[i] += 1; }
	};
	for (size_t q = 0; q < k; ++q)
		th.emplace_back([&out, q, t, aff]() {
			H h { out[q] };
			Parallelizer<H, LoadBalancerWeights> p(CodeSectionParams(t, 1, aff, 0));
			p.loopCreate(h);
		});
	for (auto& x : th) x.join();
	for (auto& v : out)
		for (double x : v) EXPECT(x == 1, "unrelated:result", x);
	done(c, n * k);
}
