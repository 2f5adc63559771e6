// the serial fall-backs, and the deprecated thread pool
#include "Concurrency.h"
#include "NoPthreadsNg.h"
#define Parallelizer2 Parallelizer2SerialVersion
#include "Parallelizer2Serial.h"
#undef Parallelizer2
#include "LoadBalancerWeights.h"
#include "Pthreads.h"
#include "evlog.h"
using namespace PsimagLite;
namespace {
struct HelperS {
	EvLog& log;
	size_t n;
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType th) { log.run(t, th); }
	void thread_function_(SizeType threadNum, SizeType blockSize, SizeType total, pthread_mutex_t*)
	{
		for (SizeType p = 0; p < blockSize; ++p) {
			SizeType t = threadNum * blockSize + p;
			if (t >= total) break;
			log.run(t, threadNum);
		}
	}
};
}
FAMILY(serial_ng, 300, 1000)
{
	size_t n = c.rng.range(0, 60);
	EvLog log(c.rng, 0, n), log2(c.rng, 0, n);
	HelperS h { log, n }, h2 { log2, n };
	NoPthreadsNg<HelperS> p(CodeSectionParams(1));
	p.loopCreate(h);
	log.check(c, 1, "NoPthreadsNg");
	NoPthreadsNg<HelperS, LoadBalancerWeights> p2(CodeSectionParams(1));
	p2.loopCreate(h2, std::vector<SizeType>(n, 3));
	log2.check(c, 1, "NoPthreadsNg:weights");
	EXPECT(vh::throws([&]() { NoPthreadsNg<HelperS> q(CodeSectionParams(c.rng.range(2, 9))); }), "NoPthreadsNg:threads", "more than one thread accepted");
}
FAMILY(serial_p2, 300, 1000)
{
	size_t lo = c.rng.range(0, 50), hi = lo + c.rng.range(0, 60);
	if (c.rng.chance(0.1) && lo) hi = lo - 1;
	EvLog log(c.rng, lo, hi);
	Parallelizer2SerialVersion<> p(CodeSectionParams(1));
	p.parallelFor(lo, hi, [&log](SizeType i, SizeType th) { log.run(i, th); });
	log.check(c, 1, "Parallelizer2Serial");
	EXPECT(p.numberOfThreads() == 1, "Parallelizer2Serial:threads", p.numberOfThreads());
	EXPECT(vh::throws([&]() { Parallelizer2SerialVersion<> q(CodeSectionParams(c.rng.range(2, 9))); }), "Parallelizer2Serial:threads", "more than one thread accepted");
}
FAMILY(old_pthreads, 200, 1000)
{
	size_t n = c.rng.range(0, 60), t = c.rng.range(1, 9);
	EvLog log(c.rng, 0, n);
	HelperS h { log, n };
	Pthreads<HelperS> p(t);
	p.loopCreate(n, h);
	log.check(c, t, "Pthreads");
}
