#include "Concurrency.h"
#include <sched.h>
#include "InterNode.h"
#include "LoadBalancerWeights.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "evlog.h"
using namespace PsimagLite;
typedef vh::Ctx Ctx;

struct Helper {
	EvLog& log;
	size_t n;
	Helper(EvLog& l, size_t n_) : log(l), n(n_) { }
	SizeType tasks() const { return n; }
	void doTask(SizeType t, SizeType th) { log.run(t, th); }
};
static CodeSectionParams params(Ctx& c, size_t nthreads, bool aff)
{
	static const size_t stacks[] = { 0, 0, 1000, 1 << 20, 4 << 20, 8 << 20 };
	size_t st = stacks[c.rng.range(0, 5)];
	vhCreateDelay = c.rng.chance(0.5) ? 0 : c.rng.chance(0.5) ? 1 : c.rng.range(2, 200);
	return CodeSectionParams(nthreads, 1, aff && c.rng.chance(0.3), st);
}
static void sizes(Ctx& c, size_t& tasks, size_t& nthreads)
{
	int k = c.rng.range(0, 5);
	nthreads = c.rng.dim(1, c.thorough ? 24 : 12, 130);
	tasks = k == 0 ? 0 : k == 1 ? c.rng.range(1, 3) : k == 2 ? nthreads + c.rng.range(-1, 1) : k == 3 ? nthreads * c.rng.range(1, 6) + c.rng.range(-1, 1) : c.rng.dim(0, 150, 9000);
	std::ostringstream o;
	o << "tasks=" << tasks << " threads=" << nthreads;
	c.desc(o.str());
	c.sample(o.str());
}
static std::vector<SizeType> weights(Ctx& c, size_t n)
{
	std::vector<SizeType> w(n);
	int k = c.rng.range(0, 3);
	for (auto& x : w) x = k == 0 ? 1 : k == 1 ? c.rng.range(0, 3) : k == 2 ? c.rng.range(1, 1000) : (c.rng.chance(0.1) ? 100000 : 1);
	return w;
}
FAMILY(ng_default, 500, 3000)
{
	size_t n, t;
	sizes(c, n, t);
	EvLog log(c.rng, 0, n), log2(c.rng, 0, n);
	Helper h(log, n), h2(log2, n);
	Parallelizer<Helper> p(params(c, t, true));
	p.loopCreate(h);
	log.check(c, t, "PthreadsNg");
	p.loopCreate(h2); // a second loop on the same object
	log2.check(c, t, "PthreadsNg:again");
	log.stillQuiet(c, "PthreadsNg");
}
FAMILY(ng_weights, 500, 3000)
{
	size_t n, t;
	sizes(c, n, t);
	EvLog log(c.rng, 0, n), log2(c.rng, 0, n), log3(c.rng, 0, n);
	Helper h(log, n), h2(log2, n), h3(log3, n);
	Parallelizer<Helper, LoadBalancerWeights> p(params(c, t, true));
	std::vector<SizeType> w = weights(c, n), w0 = w;
	p.loopCreate(h, w);
	log.check(c, t, "weights");
	EXPECT(w == w0, "weights:input", "weights changed");
	p.loopCreate(h2); // no weights given
	log2.check(c, t, "noweights");
	LoadBalancerWeights lb(weights(c, n), t);
	p.loopCreate(h3, lb);
	log3.check(c, t, "balancer");
	log.stillQuiet(c, "weights");
	log2.stillQuiet(c, "noweights");
}
// threads asked to stay on processors of their own do, as far as there are processors
struct Pinned {
	size_t n;
	std::vector<cpu_set_t> seen;
	std::vector<int> ran;
	Pinned(size_t n_, size_t t) : n(n_), seen(t), ran(t, 0) { }
	SizeType tasks() const { return n; }
	void doTask(SizeType, SizeType th)
	{
		if (ran[th]++) return;
		CPU_ZERO(&seen[th]);
		if (pthread_getaffinity_np(pthread_self(), sizeof(cpu_set_t), &seen[th])) ran[th] = -1000000;
	}
};
FAMILY(affinity, 150, 1500)
{
	size_t t = c.rng.range(1, 12), n = t * c.rng.range(1, 4);
	bool aff = c.rng.chance(0.8);
	std::ostringstream o;
	o << "tasks=" << n << " threads=" << t << " affinities=" << aff;
	c.desc(o.str());
	c.sample(o.str());
	cpu_set_t all, after;
	CPU_ZERO(&all);
	if (sched_getaffinity(0, sizeof(all), &all)) return;
	size_t ncpu = CPU_COUNT(&all);
	c.nontrivial(o.str());
	Pinned h(n, t);
	Parallelizer<Pinned> p(CodeSectionParams(t, 1, aff, 0));
	p.loopCreate(h);
	CPU_ZERO(&after);
	sched_getaffinity(0, sizeof(after), &after);
	EXPECT(CPU_EQUAL(&all, &after), "affinity:caller", "the calling thread's own processors changed");
	cpu_set_t used;
	CPU_ZERO(&used);
	size_t single = 0;
	for (size_t i = 0; i < t; ++i) {
		EXPECT(h.ran[i] > 0, "affinity:thread", "thread " << i << " ran " << h.ran[i] << " of " << n);
		cpu_set_t in;
		CPU_AND(&in, &h.seen[i], &all);
		EXPECT(CPU_EQUAL(&in, &h.seen[i]), "affinity:outside", "thread " << i << " may run where the process may not");
		if (!aff || i >= ncpu) {
			EXPECT(CPU_EQUAL(&h.seen[i], &all), "affinity:unpinned", "thread " << i << " is restricted to " << CPU_COUNT(&h.seen[i]) << " of " << ncpu);
			continue;
		}
		CPU_AND(&in, &h.seen[i], &used);
		EXPECT(CPU_COUNT(&h.seen[i]) == 1 && CPU_COUNT(&in) == 0, "affinity:own", "thread " << i << " of " << t << " has " << CPU_COUNT(&h.seen[i]) << " processors, " << CPU_COUNT(&in) << " of them another thread's");
		CPU_OR(&used, &used, &h.seen[i]);
		++single;
	}
	c.count("threads seen on a processor of their own", single);
}
FAMILY(ng_balancer, 200, 1000)
{
	size_t n, t;
	sizes(c, n, t);
	EvLog log(c.rng, 0, n);
	Helper h(log, n);
	Parallelizer<Helper> p(params(c, t, true));
	LoadBalancerDefault lb(n, t);
	p.loopCreate(h, lb);
	log.check(c, t, "balancerDefault");
}
FAMILY(p2_range, 500, 3000)
{
	size_t n, t;
	sizes(c, n, t);
	size_t lo = c.rng.chance(0.4) ? 0 : c.rng.range(1, 1000), hi = lo + n;
	if (c.rng.chance(0.1) && lo) hi = lo - c.rng.range(1, lo); // empty: end before start
	EvLog log(c.rng, lo, hi), log2(c.rng, lo, hi);
	Parallelizer2<> p(params(c, t, false));
	EXPECT(p.numberOfThreads() == t, "numberOfThreads", p.numberOfThreads());
	auto lambda = [&log](SizeType i, SizeType th) { log.run(i, th); };
	p.parallelFor(lo, hi, lambda);
	log.check(c, t, "parallelFor");
	p.parallelFor(lo, hi, [&log2](SizeType i, SizeType th) { log2.run(i, th); });
	log2.check(c, t, "parallelFor:again");
	log.stillQuiet(c, "parallelFor");
}
FAMILY(p2_weights, 500, 3000)
{
	size_t n, t;
	sizes(c, n, t);
	size_t lo = c.rng.chance(0.4) ? 0 : c.rng.range(1, 1000), hi = lo + n;
	EvLog log(c.rng, lo, hi), log2(c.rng, lo, hi), log3(c.rng, lo, hi);
	Parallelizer2<LoadBalancerWeights> p(params(c, t, false));
	p.parallelFor(lo, hi, [&log](SizeType i, SizeType th) { log.run(i, th); }, weights(c, n));
	log.check(c, t, "parallelForW");
	p.parallelFor(lo, hi, [&log2](SizeType i, SizeType th) { log2.run(i, th); });
	log2.check(c, t, "parallelForW:noweights");
	LoadBalancerWeights lb(weights(c, n), t);
	p.parallelFor(lo, hi, [&log3](SizeType i, SizeType th) { log3.run(i, th); }, lb);
	log3.check(c, t, "parallelForW:balancer");
}
FAMILY(internode, 300, 1000)
{
	size_t lo = c.rng.range(0, 50), hi = lo + c.rng.range(0, 60);
	if (c.rng.chance(0.1) && lo) hi = lo - 1;
	EvLog log(c.rng, lo, hi);
	InterNode<> in(PsimagLite::MPI::COMM_WORLD);
	in.parallelFor(lo, hi, [&log](SizeType i, SizeType th) { log.run(i, th); });
	log.check(c, 1, "internode");
	EXPECT(in.size() == 1, "internode:size", in.size());
}
// loops started from inside the tasks of a loop
FAMILY_T(nested, 150, 800, 60)
{
	size_t to = c.rng.range(1, 4), ti = c.rng.range(1, 4), no = c.rng.range(0, 8), ni = c.rng.range(0, 10);
	bool innerNg = c.rng.chance(0.5), outerNg = c.rng.chance(0.5);
	std::ostringstream o;
	o << "outer " << no << " tasks " << to << " threads, inner " << ni << " tasks " << ti << " threads " << innerNg << outerNg;
	c.desc(o.str());
	c.sample(o.str());
	EvLog outer(c.rng, 0, no);
	std::vector<EvLog*> inner;
	for (size_t i = 0; i < no; ++i) inner.push_back(new EvLog(c.rng, 0, ni));
	CodeSectionParams pi = params(c, ti, false);
	auto body = [&](size_t i) {
		if (innerNg) {
			Helper h(*inner[i], ni);
			Parallelizer<Helper> p(pi);
			p.loopCreate(h);
		} else {
			Parallelizer2<> p(pi);
			p.parallelFor(0, ni, [&](SizeType j, SizeType th) { inner[i]->run(j, th); });
		}
	};
	struct Outer {
		EvLog& log;
		std::function<void(size_t)> f;
		size_t n;
		SizeType tasks() const { return n; }
		void doTask(SizeType t, SizeType th)
		{
			log.rec(t, th, 0);
			f(t);
			log.plain[t] += 1;
			log.rec(t, th, 1);
		}
	} ho { outer, body, no };
	CodeSectionParams po = params(c, to, false);
	if (outerNg) {
		Parallelizer<Outer> p(po);
		p.loopCreate(ho);
	} else {
		Parallelizer2<> p(po);
		p.parallelFor(0, no, [&ho](SizeType t, SizeType th) { ho.doTask(t, th); });
	}
	outer.check(c, to, "nested:outer");
	for (size_t i = 0; i < no; ++i) inner[i]->check(c, ti, "nested:inner");
	for (auto* p : inner) delete p;
}
// per-thread partial results, sized and indexed the documented way
FAMILY(reduce, 400, 2000)
{
	size_t n, t;
	sizes(c, n, t);
	Concurrency::mode = Concurrency::PTHREADS;
	std::vector<long> v(n);
	long want = 0;
	for (auto& x : v) want += (x = c.rng.range(-1000, 1000));
	SizeType ss = Concurrency::storageSize(t);
	EXPECT(ss == t, "storageSize", ss);
	std::vector<long> part(ss, 0);
	struct Sum {
		std::vector<long>&v, &part;
		SizeType tasks() const { return v.size(); }
		void doTask(SizeType i, SizeType th) { part.at(Concurrency::storageIndex(th)) += v[i]; }
	} s { v, part };
	if (c.rng.chance(0.5)) {
		Parallelizer<Sum> p(params(c, t, true));
		p.loopCreate(s);
	} else {
		Parallelizer2<> p(params(c, t, false));
		p.parallelFor(0, n, [&](SizeType i, SizeType th) { part.at(Concurrency::storageIndex(th)) += v[i]; });
	}
	long got = 0;
	for (long x : part) got += x;
	EXPECT(got == want, "reduce", got << " want " << want);
	c.count("reductions checked");
	if (n > 1) c.nontrivial(vh::str(v) + std::to_string(t));
}
// several loops at once from unrelated threads
FAMILY_T(concurrent_loops, 100, 500, 60)
{
	size_t k = c.rng.range(2, 4);
	std::vector<EvLog*> logs;
	std::vector<size_t> ns, ts;
	for (size_t i = 0; i < k; ++i) {
		ns.push_back(c.rng.range(0, 40));
		ts.push_back(c.rng.range(1, 5));
		logs.push_back(new EvLog(c.rng, 0, ns[i]));
	}
	CodeSectionParams pr = params(c, 1, false);
	std::vector<pthread_t> th(k);
	struct Arg {
		EvLog* l;
		size_t n, t, stack;
	};
	std::vector<Arg> args;
	for (size_t i = 0; i < k; ++i) args.push_back(Arg { logs[i], ns[i], ts[i], pr.stackSize });
	for (size_t i = 0; i < k; ++i)
		pthread_create(
		    &th[i], nullptr, [](void* p) -> void* {
			    Arg& a = *static_cast<Arg*>(p);
			    Helper h(*a.l, a.n);
			    Parallelizer<Helper> x(CodeSectionParams(a.t, 1, false, a.stack));
			    x.loopCreate(h);
			    return nullptr;
		    },
		    &args[i]);
	for (size_t i = 0; i < k; ++i) pthread_join(th[i], nullptr);
	for (size_t i = 0; i < k; ++i) logs[i]->check(c, ts[i], "concurrent");
	for (auto* p : logs) delete p;
}
