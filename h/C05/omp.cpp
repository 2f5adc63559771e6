#include "PsimagLite.h"
#define Parallelizer2 Parallelizer2OmpVersion
#include "Parallelizer2OpenMP.h"
#undef Parallelizer2
#include "evlog.h"
using namespace PsimagLite;
FAMILY(openmp, 300, 2000)
{
	size_t t = c.rng.range(1, 9), lo = c.rng.range(0, 50), hi = lo + c.rng.range(0, 60);
	if (c.rng.chance(0.1) && lo) hi = lo - 1;
	EvLog log(c.rng, lo, hi);
	Parallelizer2OmpVersion<> p((CodeSectionParams(t)));
	EXPECT(p.numberOfThreads() == t, "OpenMP:numberOfThreads", p.numberOfThreads() << " want " << t);
	p.parallelFor(lo, hi, [&log](SizeType i, SizeType th) { log.run(i, th); });
	log.check(c, t, "OpenMP");
}
