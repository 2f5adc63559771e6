// the library built without threads: loops run here, once per index, and anything else is refused
#ifdef USE_PTHREADS
#error compile without USE_PTHREADS
#endif
#include "Concurrency.h"
#include "InterNode.h"
#include "LoadBalancerWeights.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "evlog.h"
#include <fcntl.h>
#include <sys/wait.h>
using namespace PsimagLite;
namespace {
struct HelperN {
	EvLog& log;
	size_t n;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType th) { log.run(t, th); }
};
struct Order {
	std::vector<size_t>& seen;
	size_t n;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType) { seen.push_back(t); }
};
}
template <typename B> void one(vh::Ctx& c, const char* what)
{
	size_t n = c.rng.range(0, 40);
	CodeSectionParams cs(1, c.rng.range(1, 3), c.rng.chance(0.5), c.rng.chance(0.5) ? 0 : 1 << 20);
	std::vector<SizeType> w(n);
	for (auto& x : w) x = c.rng.range(0, 9);
	typedef Parallelizer<HelperN, B> P;
	P p(cs);
	EXPECT(p.threads() == 1 && p.mpiProcs() == 1 && !p.affinities() && p.stackSize() == 0, "no threads:settings", p.threads() << " threads, affinities " << p.affinities() << ", stack " << p.stackSize());
	p.setAffinities(c.rng.chance(0.5));
	EXPECT(!p.affinities(), "no threads:affinities", "");
	for (int k = 0; k < 3; ++k) {
		EvLog log(c.rng, 0, n);
		HelperN h { log, n };
		if (k == 0) p.loopCreate(h);
		if constexpr (std::is_same<B, LoadBalancerWeights>::value) {
			if (k == 1) p.loopCreate(h, w);
			if (k == 2) p.loopCreate(h, B(w, 1));
		} else if (k)
			p.loopCreate(h, B(n, 1));
		log.check(c, 1, what);
	}
	std::vector<size_t> seen;
	Order o { seen, n };
	Parallelizer<Order, B> q(cs);
	q.loopCreate(o);
	bool ok = seen.size() == n;
	for (size_t i = 0; ok && i < n; ++i) ok = seen[i] == i;
	EXPECT(ok, "no threads:order", what);
	c.nontrivial(c.index);
	size_t bad = c.rng.chance(0.2) ? 0 : c.rng.range(2, 9);
	EXPECT(vh::throws([&]() { P r((CodeSectionParams(bad))); }), "no threads:accepted", bad << " threads");
	EXPECT(vh::throws([&]() { Parallelizer2<> r((CodeSectionParams(bad))); }), "no threads:accepted", bad << " threads, ranges");
	c.count("serial refusals checked", 2);
}
FAMILY(no_threads, 300, 1500)
{
	one<LoadBalancerDefault>(c, "Parallelizer without threads");
	one<LoadBalancerWeights>(c, "Parallelizer without threads, weights");
	size_t lo = c.rng.range(0, 50), hi = lo + c.rng.range(0, 60);
	if (c.rng.chance(0.1) && lo) hi = lo - 1;
	EvLog log(c.rng, lo, hi);
	Parallelizer2<> p(CodeSectionParams(1));
	p.parallelFor(lo, hi, [&log](SizeType i, SizeType th) { log.run(i, th); });
	log.check(c, 1, "Parallelizer2 without threads");
	EXPECT(p.numberOfThreads() == 1, "no threads:ranges", p.numberOfThreads());
}
FAMILY(no_threads_settings, 100, 400)
{
	// settings are global: each case in its own process
	fflush(0);
	size_t n1 = c.rng.chance(0.4) ? 1 : c.rng.range(0, 6), n2 = c.rng.chance(0.5) ? 1 : c.rng.range(2, 4);
	int what = c.rng.range(0, 1);
	pid_t p = fork();
	if (p == 0) {
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 1), dup2(fd, 2);
		int rc = 0;
		if (Concurrency::codeSectionParams.npthreads != 1 || Concurrency::codeSectionParams.npthreadsLevelTwo != 1) rc = 1;
		if (Concurrency::hasPthreads() || Concurrency::hasMpi()) rc = 2;
		Concurrency::MutexType m = 0;
		Concurrency::mutexInit(&m), Concurrency::mutexLock(&m), Concurrency::mutexUnlock(&m), Concurrency::mutexDestroy(&m);
		bool t = false;
		if (what == 0) {
			int argc = 1;
			char name[] = "x";
			char* av[] = { name, 0 };
			char** argv = av;
			t = vh::throws([&]() { Concurrency con(&argc, &argv, n1); });
			if (t != (n1 != 1)) rc = 3;
			if (!t && (Concurrency::hasPthreads() || Concurrency::codeSectionParams.npthreads != 1 || Concurrency::storageSize(1) != 1 || Concurrency::storageIndex(0) != 0)) rc = 4;
		} else {
			t = vh::throws([&]() { Concurrency::setOptions(CodeSectionParams(n1, n2, false, 0)); });
			if (t != (n1 != 1 || n2 != 1)) rc = 5;
		}
		_exit(rc);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st);
	const char* msg[] = { "", "settings before any were given", "threads or MPI claimed before start", "start with or without threads", "settings after start", "options with threads" };
	EXPECT(rc >= 0 && rc <= 5, "no threads:process", "ended with " << rc);
	EXPECT(rc == 0, std::string("no threads:") + msg[rc], n1 << " and " << n2 << " threads asked for");
	c.count("serial settings checked");
}
