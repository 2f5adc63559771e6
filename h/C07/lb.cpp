#include "PsimagLite.h"
#include "LoadBalancerDefault.h"
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
#include "vh.h"
#include <set>
using namespace PsimagLite;
typedef vh::Ctx Ctx;

// every task assigned to exactly one thread; returns the number of tasks per thread
template <typename LB> std::vector<size_t> partition(Ctx& c, const LB& lb, size_t n, size_t t, std::vector<size_t>& owner, const char* what)
{
	std::string w = what;
	owner.assign(n, t);
	std::vector<size_t> sizes(t, 0);
	for (size_t th = 0; th < t; ++th) {
		size_t b = lb.blockSize(th);
		EXPECT(b <= n, w + ":blockSize", "thread " << th << " has " << b << " of " << n);
		bool ended = false;
		for (size_t p = 0; p < b; ++p) {
			size_t task = lb.taskNumber(th, p);
			// the loops stop at the first number past the end
			if (task >= n) {
				ended = true;
				continue;
			}
			EXPECT(!ended, w + ":lost", "task " << task << " comes after a number past the end");
			EXPECT(owner[task] == t, w + ":twice", "task " << task << " given to " << owner[task] << " and " << th);
			owner[task] = th;
			++sizes[th];
		}
	}
	for (size_t i = 0; i < n; ++i) EXPECT(owner[i] < t, w + ":missing", "task " << i << " of " << n << " given to no thread of " << t);
	c.count("assignments checked", n);
	return sizes;
}
static void shape(Ctx& c, size_t& n, size_t& t)
{
	switch (c.rng.range(0, 4)) {
	case 0: t = c.rng.range(1, 8), n = c.rng.range(0, 20); break;
	case 1: t = c.rng.range(1, 64), n = c.rng.range(0, 300); break;
	case 2: t = c.rng.range(2, 40), n = c.rng.range(0, t); break;
	case 3: t = c.rng.range(1, 20), n = t * c.rng.range(0, 8) + c.rng.range(0, 2); break;
	default: t = c.rng.range(1, 200), n = c.rng.range(0, c.thorough ? 5000 : 1200);
	}
	std::ostringstream o;
	o << "tasks=" << n << " threads=" << t;
	c.desc(o.str());
	c.sample(o.str());
}
template <typename LB> void contiguous(Ctx& c, const char* what)
{
	size_t n, t;
	shape(c, n, t);
	LB lb(n, t);
	std::vector<size_t> owner;
	std::vector<size_t> s = partition(c, lb, n, t, owner, what);
	for (size_t x : s) EXPECT(x <= (n + t - 1) / t, std::string(what) + ":balance", "a thread has " << x << " of " << n << " tasks on " << t << " threads");
	if (n) c.nontrivial(n * 1000003 + t);
}
FAMILY(lb_default, 6000, 60000) { contiguous<LoadBalancerDefault>(c, "default"); }
FAMILY(lb_mpi, 6000, 60000) { contiguous<LoadBalancerMpi>(c, "mpi"); }
FAMILY(lb_equal, 4000, 40000)
{
	size_t n, t;
	shape(c, n, t);
	LoadBalancerWeights lb(n, t);
	std::vector<size_t> owner;
	std::vector<size_t> s = partition(c, lb, n, t, owner, "equal");
	for (size_t x : s) EXPECT(x <= (n + t - 1) / t, "equal:balance", "a thread has " << x << " of " << n << " tasks on " << t << " threads");
	if (n) c.nontrivial(n * 1000003 + t);
}
FAMILY(lb_weights, 12000, 100000)
{
	size_t n, t;
	shape(c, n, t);
	std::vector<SizeType> w(n);
	int k = c.rng.range(0, 7);
	for (size_t i = 0; i < n; ++i) {
		SizeType& x = w[i];
		switch (k) {
		case 0: x = c.rng.range(0, 1); break;
		case 1: x = c.rng.range(1, 10); break;
		case 2: x = c.rng.range(0, 100000); break;
		case 3: x = i; break;
		case 4: x = n - i; break;
		case 6: x = c.rng.range(0, 1L << 40); break; // more than fits in 32 bits
		case 5: x = c.rng.chance(0.05) ? 1000000 : c.rng.range(1, 5); break;
		default: x = 0;
		}
	}
	std::vector<SizeType> w0 = w;
	LoadBalancerWeights lb(w, t);
	EXPECT(w == w0, "weights:input", "changed");
	std::vector<size_t> owner;
	partition(c, lb, n, t, owner, "weights");
	size_t listed = 0;
	for (size_t th = 0; th < t; ++th) listed += lb.blockSize(th);
	EXPECT(listed == n, "weights:blockSize", "sizes add up to " << listed << " not " << n);
	std::vector<double> load(t, 0);
	double total = 0, big = 0;
	for (size_t i = 0; i < n; ++i) {
		load[owner[i]] += w[i];
		total += w[i];
		big = std::max(big, double(w[i]));
	}
	for (size_t th = 0; th < t; ++th) EXPECT(load[th] <= total / t + big + 1e-6, "weights:balance", "thread " << th << " carries " << load[th] << " average " << total / t << " largest " << big);
	if (n) c.nontrivial(vh::str(w) + std::to_string(t) + std::to_string(vh::hashStr(std::string((const char*)w.data(), w.size() * sizeof(SizeType)))));
	c.count("weighted balances checked");
}
