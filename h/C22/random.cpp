#include "ApplicationInfo.h"
#include "Complex.h"
#include "Io/IoNg.h"
#include "MersenneTwister.h"
#include "PsimagLite.h"
#include "Random48.h"
#include "RandomForTests.h"
#include "vh.h"
#include <memory>
#include <random>
#include <set>
namespace shipped { // the checker that comes with the library
#define main shippedMain
#include "../examples/checkRunId.cpp"
#undef main
}
using namespace PsimagLite;
typedef vh::Ctx Ctx;
typedef std::complex<double> Z;

// the clock and the process number are inputs of the run identifier
static bool fakeOn;
static pid_t fakePid;
static long fakeSec, fakeUsec;
static time_t fakeTime;
extern "C" {
pid_t __real_getpid();
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
pid_t __wrap_getpid() { return fakeOn ? fakePid : __real_getpid(); }
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
	if (!fakeOn) return __real_gettimeofday(tv, tz);
	tv->tv_sec = fakeSec;
	tv->tv_usec = fakeUsec;
	return 0;
}
time_t __wrap_time(time_t* t)
{
	if (!fakeOn) return __real_time(t);
	if (t) *t = fakeTime;
	return fakeTime;
}
}

static unsigned seedOf(vh::Rng& r)
{
	static const unsigned s[] = { 0, 1, 2, 5489, 0x7fffffffu, 0x80000000u, 0xffffffffu };
	return r.chance(0.2) ? s[r.range(0, 6)] : unsigned(r.next());
}
// several generators asked in turn, each with its own reference
FAMILY(twister, 6000, 60000)
{
	vh::Rng& r = c.rng;
	size_t k = r.range(1, 4);
	std::vector<std::unique_ptr<MersenneTwister>> g;
	std::vector<std::mt19937> ref;
	String d;
	for (size_t i = 0; i < k; ++i) {
		unsigned s = seedOf(r);
		d += std::to_string(s) + " ";
		g.emplace_back(new MersenneTwister(s));
		ref.emplace_back(s);
	}
	size_t steps = r.chance(0.5) ? r.range(1, 100) : r.range(500, c.thorough ? 8000 : 2600);
	c.desc("seeds " + d + " steps " + std::to_string(steps));
	c.nontrivial(d + std::to_string(steps));
	double pSeed = r.chance(0.3) ? 0.01 : 0.0;
	for (size_t n = 0; n < steps; ++n) {
		size_t i = r.range(0, k - 1);
		double x = r.unit();
		if (x < pSeed) {
			unsigned s = seedOf(r);
			g[i]->seed(s);
			ref[i].seed(s);
			c.count("generators seeded again");
		}
		else if (x < pSeed * 1.5) { // a copy goes on alone
			g[i].reset(new MersenneTwister(*g[r.range(0, k - 1)]));
			// which one it was is found by its next number
			MersenneTwister probe(*g[i]);
			unsigned first = probe.random();
			bool found = false;
			for (size_t j = 0; j < k && !found; ++j) {
				std::mt19937 m = ref[j];
				if (m() == first) ref[i] = ref[j], found = true;
			}
			EXPECT(found, "copy", "a copied generator continues with " << first);
		}
		else if (r.chance(0.5)) {
			unsigned a = g[i]->random(), b = ref[i]();
			EXPECT(a == b, "stream", "number " << n << " is " << a << " not " << b);
		}
		else {
			double a = (*g[i])();
			unsigned b = ref[i]();
			EXPECT(a >= 0 && a <= 1, "interval", "number " << n << " is " << a);
			EXPECT(std::fabs(a - double(b) / 4294967295.0) <= 3e-10, "real", "number " << n << " is " << a << " not " << double(b) / 4294967295.0);
		}
		c.count("numbers compared");
	}
	EXPECT(MersenneTwister::max() == 4294967295u, "max", MersenneTwister::max());
}
FAMILY(ranks, 3000, 20000)
{
	vh::Rng& r = c.rng;
	unsigned s = seedOf(r);
	size_t n = r.chance(0.1) ? r.range(100, 400) : r.range(2, 30);
	c.desc("seed " + std::to_string(s) + " ranks " + std::to_string(n));
	c.nontrivial(c.index + 1);
	std::map<std::vector<unsigned>, size_t> streams;
	std::map<std::vector<double>, size_t> streams48;
	std::map<long, size_t> seeds48;
	for (size_t i = 0; i < n; ++i) {
		MersenneTwister a(s, i, n), b(s, i, n);
		std::vector<unsigned> v(4), w(4);
		for (auto& x : v) x = a.random();
		for (auto& x : w) x = b.random();
		EXPECT(v == w, "ranks:same", "rank " << i << " of " << n << " does not repeat its stream");
		EXPECT(!streams.count(v), "ranks:equal", "ranks " << streams[v] << " and " << i << " of " << n << " have the same stream");
		streams[v] = i;
		Random48<double> x(long(s), i, n);
		std::vector<double> p(4), q(4);
		for (auto& y : p) y = x();
		Random48<double> z(long(s), i, n);
		EXPECT(x.seed() == z.seed(), "ranks48:seed", "rank " << i << " has seeds " << x.seed() << " and " << z.seed());
		for (auto& y : q) y = z.random();
		EXPECT(p == q, "ranks48:same", "rank " << i << " of " << n << " does not repeat its stream");
		EXPECT(!streams48.count(p), "ranks48:equal", "ranks " << streams48[p] << " and " << i << " of " << n << " have the same stream, of seed " << x.seed());
		streams48[p] = i;
		c.count("ranks compared");
	}
}
// drand48's definition
struct Lcg {
	uint64_t x = 0;
	void seed(long s) { x = ((uint64_t(s) & 0xffffffffu) << 16) + 0x330e; }
	double next()
	{
		x = (x * 0x5deece66dull + 0xb) & ((1ull << 48) - 1);
		return std::ldexp(double(x), -48);
	}
};
template <typename T> static void random48(Ctx& c)
{
	vh::Rng& r = c.rng;
	long s = r.chance(0.5) ? r.range(0, 100000) : long(r.next());
	size_t n = r.chance(0.5) ? 1 : r.range(2, 40), rank = r.range(0, n - 1);
	c.desc("seed " + std::to_string(s) + " rank " + std::to_string(rank) + " of " + std::to_string(n));
	c.nontrivial(s);
	Random48<T> a = n == 1 && r.chance(0.5) ? Random48<T>(s) : Random48<T>(s, rank, n);
	Lcg l;
	l.seed(a.seed());
	size_t steps = r.range(1, 300);
	for (size_t i = 0; i < steps; ++i) {
		if (r.chance(0.01)) { // from the start again, or from another seed
			long t = r.chance(0.5) ? a.seed() : long(r.next());
			a.seed(t);
			l.seed(t);
			EXPECT(a.seed() == t, "48:seed", "the seed is " << a.seed() << " not " << t);
			c.count("generators seeded again");
		}
		if (r.chance(0.05)) { // generators that keep their own state do not disturb it
			MersenneTwister m(7);
			m.random();
			RandomForTests<double> f(3);
			f();
			std::vector<double> w(3, 1);
		}
		T x = r.chance(0.5) ? a() : a.random();
		double y = l.next();
		EXPECT(x == T(y), "48:stream", "number " << i << " is " << x << " not " << T(y));
		EXPECT(std::abs(x) >= 0 && std::abs(x) <= 1, "48:interval", x);
		c.count("numbers compared");
	}
}
FAMILY(random48, 4000, 40000)
{
	switch (c.rng.range(0, 2)) {
	case 0:
		return random48<double>(c);
	case 1:
		return random48<float>(c);
	default:
		return random48<Z>(c);
	}
}
FAMILY(minimal, 4000, 40000)
{
	vh::Rng& r = c.rng;
	int s = r.chance(0.1) ? 1 : r.chance(0.1) ? 2147483646 : r.range(1, 2147483646);
	c.desc("seed " + std::to_string(s));
	c.nontrivial(s);
	RandomForTests<double> a(s), b(s);
	RandomForTests<float> f(s);
	std::minstd_rand0 m(s);
	size_t steps = r.range(1, 400);
	for (size_t i = 0; i < steps; ++i) {
		double x = a(), y = double(m()) / 2147483647.0;
		EXPECT(x == y, "minimal:stream", "number " << i << " is " << x << " not " << y);
		EXPECT(x > 0 && x < 1, "minimal:interval", x);
		float z = f();
		EXPECT(z >= 0 && z <= 1 && std::fabs(z - x) < 1e-6, "minimal:float", z << " not " << x);
		if (r.chance(0.5)) b();
		c.count("numbers compared");
	}
	// any seed gives numbers of the interval
	RandomForTests<double> o(r.chance(0.1) ? 0 : r.chance(0.1) ? INT_MIN : r.chance(0.1) ? INT_MAX : int(r.next()));
	for (size_t i = 0; i < 50; ++i) {
		double x = o();
		EXPECT(x > 0 && x < 1, "minimal:interval", "number " << i << " of any seed is " << x);
	}
}
template <typename T> static void fill(Ctx& c)
{
	vh::Rng& r = c.rng;
	size_t n = r.chance(0.1) ? r.range(500, 2000) : r.range(1, 40);
	std::vector<T> v(n, T(7)), w(n);
	fakeTime = r.range(0, 2000000000);
	fakeOn = true;
	fillRandom(v);
	fillRandom(w);
	fakeOn = false;
	double s = 0;
	size_t differ = 0;
	for (size_t i = 0; i < n; ++i) s += std::norm(v[i]), differ += v[i] != v[0];
	EXPECT(std::fabs(s - 1) <= 1e-5 * (sizeof(T) == 4 ? 1 : 1e-5), "fill:norm", "a filled vector of " << n << " has squared norm " << s);
	EXPECT(n < 3 || differ, "fill:constant", "a vector of equal entries");
	EXPECT(v == w, "fill:same", "two fills of the same second differ");
	std::vector<T> e;
	EXPECT(vh::throws([&] { fillRandom(e); }), "fill:empty", "an empty vector was filled");
	c.nontrivial(vh::str(v));
	c.count("vectors filled");
}
FAMILY(fill, 2000, 20000)
{
	switch (c.rng.range(0, 2)) {
	case 0:
		return fill<double>(c);
	case 1:
		return fill<float>(c);
	default:
		return fill<Z>(c);
	}
}
FAMILY(runid, 12000, 150000)
{
	vh::Rng& r = c.rng;
	fakePid = r.chance(0.5) ? r.range(1, 32768) : r.range(1, 4194304);
	fakeUsec = r.range(0, 999999);
	fakeSec = r.range(0, 2000000000);
	String d = "pid " + std::to_string(fakePid) + " usec " + std::to_string(fakeUsec);
	c.desc(d);
	c.nontrivial(d);
	fakeOn = r.chance(0.95);
	std::unique_ptr<ApplicationInfo> a(new ApplicationInfo("app")), b(new ApplicationInfo("app"));
	bool was = fakeOn;
	String id = a->runId();
	EXPECT(id.size() >= 3 && id.size() <= 22 && id.find_first_not_of("0123456789") == String::npos, "runid:form", "run id '" << id << "'");
	EXPECT(a->runId() == id, "runid:constant", "the run id changed");
	if (was) EXPECT(b->runId() == id, "runid:same", "run ids " << id << " and " << b->runId());
	unsigned long n = std::strtoul(id.substr(0, id.size() - 2).c_str(), 0, 10);
	EXPECT(__builtin_popcountl(n) == std::atoi(id.substr(id.size() - 2).c_str()), "runid:bits", "run id " << id << " has " << __builtin_popcountl(n) << " bits");
	EXPECT(shipped::checkRunId(id, "vh"), "runid:checker", "the shipped checker refuses " << id);
	if (was) {
		EXPECT(a->pid() == unsigned(fakePid), "pid", a->pid());
		++fakePid;
		ApplicationInfo o("app");
		EXPECT(o.runId() != id, "runid:unique", "two processes at the same time have run id " << id);
		--fakePid;
		fakeUsec = (fakeUsec + 1) % 1000000;
		ApplicationInfo p("app");
		EXPECT(p.runId() != id, "runid:unique", "one process at two times has run id " << id);
		// a changed digit is noticed unless the bits agree
		String bad = id;
		size_t at = r.range(0, id.size() - 1);
		bad[at] = char('0' + (bad[at] - '0' + r.range(1, 9)) % 10);
		unsigned long nb = std::strtoul(bad.substr(0, id.size() - 2).c_str(), 0, 10);
		bool good = __builtin_popcountl(nb) == std::atoi(bad.substr(id.size() - 2).c_str());
		if (bad.size() < 21) EXPECT(shipped::checkRunId(bad, "vh") == good, "runid:altered", "altered run id " << bad << " of " << id);
		EXPECT(!shipped::checkRunId(id.substr(0, r.range(0, 2)), "vh"), "runid:short", "a short id passes");
		// what is printed
		EXPECT(a->unixTime() == fakeSec && a->unixTime(true) == fakeUsec, "time", a->unixTime());
		std::ostringstream os;
		os << *a;
		String text = os.str();
		EXPECT(text.find("RunID=" + id + "\n") != String::npos && text.find("UnixTimeStart=" + std::to_string(fakeSec) + "\n") != String::npos && text.find("SizeType=8") != String::npos, "printed", text);
		if (r.chance(0.02)) {
			String fn = c.scratch() + "/a" + ttos(c.index);
			{
				IoNg::Out out(fn, IoNg::ACC_TRUNC);
				out.write(*a, "Info");
				a->finalize();
				++fakeSec;
				out.write(*a, "Info");
			}
			IoNg::In in(fn);
			String name, rid;
			long t0 = 0, t1 = 0;
			in.read(name, "Info/Name");
			in.read(rid, "Info/RunId");
			in.read(t0, "Info/UnixTimeStart");
			in.read(t1, "Info/UnixTimeEnd");
			EXPECT(name == "app" && rid == id && t1 == fakeSec && t0 == fakeSec - 1, "stored", name << " " << rid << " " << t0 << " " << t1);
			std::ostringstream os2;
			os2 << *a;
			EXPECT(os2.str().find("UnixTimeEnd=" + std::to_string(fakeSec) + "\n") != String::npos, "printed", os2.str());
			unlink(fn.c_str());
			c.count("run ids stored");
		}
	}
	fakeOn = false;
	c.count("run ids checked");
}
FAMILY(env, 200, 1000)
{
	String n = "VH_ENV_" + std::to_string(c.rng.range(0, 5)), v = std::to_string(c.rng.next());
	ApplicationInfo::setEnv(n, v);
	EXPECT(getenv(n.c_str()) && v == getenv(n.c_str()), "env", "not set");
	EXPECT(vh::throws([&] { ApplicationInfo::setEnv("", v); }) && vh::throws([&] { ApplicationInfo::setEnv("A=B", v); }), "env", "a bad name was accepted");
	c.nontrivial(v);
}
