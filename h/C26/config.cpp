#include "InputNg.h"
#include "Concurrency.h"
#include "InputCheckBase.h"
#include "InterNode.h"
#include "LabelDisabled.h"
#include "LoadBalancerWeights.h"
#include "Options.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "ParametersForSolver.h"
#include "vh.h"
#include <atomic>
#include <fenv.h>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <unistd.h>
using namespace PsimagLite;
typedef vh::Ctx Ctx;

struct Check : public InputCheckBase {
	std::string extra;
	std::string import() const { return extra; }
	bool check(const String&, const std::vector<String>&, SizeType) const { return false; }
	void check(const String&, const String&, SizeType) { }
	bool checkSimpleLabel(const String&, SizeType) const { return false; }
};
typedef InputNg<Check> Input;

// an input that remembers what it was asked
struct Recorder {
	std::map<String, String> have;
	std::vector<String> asked;
	template <typename T> void readline(T& t, String label)
	{
		asked.push_back(label);
		auto it = have.find(label);
		if (it == have.end()) throw RuntimeError("no " + label);
		std::istringstream is(it->second);
		is >> t;
	}
};
static String num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
enum Kind { INT, REAL, TEXT };
struct Item {
	const char* name;
	Kind kind;
	double def;
};
static const Item items[] = { { "Steps", INT, 200 }, { "MinSteps", INT, 4 }, { "Eps", REAL, 1e-12 }, { "StepsForEnergyConvergence", INT, 1000000 }, { "EigsForStop", INT, 1 },
	{ "Options", TEXT, 0 }, { "OneOverA", REAL, 0 }, { "B", REAL, 0 }, { "Energy", REAL, 0 }, { "NoSaveLanczosVectors", INT, 0 } };

template <typename R> static void judge(Ctx& c, const ParametersForSolver<R>& p, const std::vector<String>& want, const String& text)
{
	auto is = [&](const char* what, double got, const String& w) {
		double x = std::strtod(w.c_str(), 0);
		EXPECT(got == double(R(x)), String("solver:") + what, what << " is " << got << " not " << w << " with\n" << text);
	};
	is("Steps", p.steps, want[0]);
	is("MinSteps", p.minSteps, want[1]);
	is("Eps", p.tolerance, want[2]);
	is("StepsForEnergyConvergence", p.stepsForEnergyConvergence, want[3]);
	is("EigsForStop", p.eigsForStop, want[4]);
	EXPECT(p.options == want[5], "solver:Options", "options are " << p.options << " not " << want[5] << " with\n" << text);
	is("OneOverA", p.oneOverA, want[6]);
	is("B", p.b, want[7]);
	is("Energy", p.Eg, want[8]);
	EXPECT(p.lotaMemory == (std::atoi(want[9].c_str()) <= 0), "solver:memory", "lotaMemory is " << p.lotaMemory << " for NoSaveLanczosVectors " << want[9] << " with\n" << text);
	EXPECT(p.weight == 0 && p.isign == 0, "solver:rest", p.weight << " " << p.isign);
	c.count("parameters compared", 10);
}
template <typename R> static void solver(Ctx& c)
{
	vh::Rng& r = c.rng;
	static const char* prefixes[] = { "Lanczos", "Davidson", "Solver", "L", "LanczosB", "Excited" };
	String prefix = prefixes[r.range(0, 5)];
	int ind = r.chance(0.3) ? -1 : r.chance(0.1) ? r.range(9, 12) : r.range(0, 4);
	double density = r.chance(0.3) ? 0.1 : r.real(0.1, 0.7);
	bool ainur = r.chance(0.15);
	struct Line {
		String label, value;
		Kind kind;
	};
	std::vector<Line> lines;
	std::vector<String> want;
	Recorder rec;
	for (auto& it : items) {
		auto value = [&]() -> String {
			if (it.kind == INT) return std::to_string(&it == &items[9] ? r.range(ainur ? 0 : -1, 2) : r.range(0, 1000000));
			if (it.kind == REAL) return num(r.chance(0.3) ? std::pow(10., r.range(-14, 3)) : r.real(-5, 5));
			String s;
			for (int k = r.range(1, 8); k > 0; --k) s += char('a' + r.range(0, 25));
			return s;
		};
		std::map<int, String> have; // -1: without an index
		for (int k = -1; k <= (ind > 5 ? 13 : 6); ++k)
			if (r.chance(density)) {
				have[k] = value();
				lines.push_back({ prefix + (k < 0 ? String("") : std::to_string(k)) + it.name, have[k], it.kind });
			}
		String w = it.kind == TEXT ? "none" : num(it.def);
		if (have.count(-1)) w = have[-1];
		if (ind >= 0)
			for (auto& x : have)
				if (x.first >= 0 && x.first <= ind) w = x.second; // ascending: the largest stays
		want.push_back(w);
		if (ind >= 0 && have.count(ind)) c.count("exact index");
		else if (ind >= 0 && have.size() && have.rbegin()->first >= 0 && have.lower_bound(0)->first < ind)
			c.count("smaller index");
		else if (have.count(-1))
			c.count("without index");
		else
			c.count("defaults");
	}
	// labels of others
	for (int k = r.range(0, 3); k > 0; --k) lines.push_back({ "Other" + std::to_string(k) + "Steps", std::to_string(k), INT });
	for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[r.range(0, i - 1)]);
	String text, import;
	for (auto& l : lines) {
		rec.have[l.label + "="] = l.value;
		if (ainur) {
			import += String(l.kind == INT ? "integer" : l.kind == REAL ? "real" : "string") + " " + l.label + ";\n";
			text += l.label + "=" + (l.kind == TEXT ? "\"" + l.value + "\"" : l.value) + ";\n";
		}
		else
			text += l.label + "=" + l.value + "\n";
	}
	std::ostringstream d;
	d << prefix << " index " << ind << (ainur ? " ainur" : "") << "\n" << text;
	c.desc(d.str());
	c.nontrivial(d.str());
	ParametersForSolver<R> q(rec, prefix, ind);
	judge(c, q, want, d.str());
	if (!ainur) text = "First=1\n" + text;
	Check chk;
	std::unique_ptr<Input::Readable> io;
	if (ainur) {
		chk.extra = import + "integer First;\n";
		text = "##Ainur1.0\nFirst=1;\n" + text;
	}
	Input::Writeable w(chk, text);
	io.reset(new Input::Readable(w));
	ParametersForSolver<R> p(*io, prefix, ind);
	judge(c, p, want, d.str());
	ParametersForSolver<R> again(*io, prefix, ind);
	judge(c, again, want, d.str());
	ParametersForSolver<R> def;
	EXPECT(def.steps == 200 && def.minSteps == 4 && def.tolerance == R(1e-12) && def.stepsForEnergyConvergence == 1000000 && def.eigsForStop == 1 && def.oneOverA == 0 && def.b == 0 && def.Eg == 0, "solver:default", "defaults");
}
FAMILY(parameters, 3000, 30000)
{
	if (c.rng.chance(0.8)) solver<double>(c);
	else
		solver<float>(c);
}
// ---- options
FAMILY(options, 6000, 60000)
{
	vh::Rng& r = c.rng;
	std::vector<String> pool = { "a", "b", "ab", "twositedmrg", "vectorwithoffsets", "useSvd", "usesvd", "nofiniteloops", "none", "exact diag", "x=1" }, reg;
	for (auto& s : pool)
		if (r.chance(0.5)) reg.push_back(s);
	std::vector<String> reg0 = reg;
	SizeType mode = r.range(0, 2);
	Options::Writeable w(reg, mode);
	if (r.chance(0.5)) reg.push_back("late"), reg.erase(reg.begin());
	std::ostringstream d;
	d << "mode " << mode << " registered " << vh::str(reg0) << ":";
	size_t warned = 0;
	for (int k = r.range(1, 3); k > 0; --k) {
		std::vector<String> list;
		String text;
		bool onlyKnown = r.chance(0.5);
		for (int i = r.range(0, 6); i > 0; --i) {
			String s = r.chance(0.1) ? String("late") : r.pick(pool);
			if (onlyKnown && std::find(reg0.begin(), reg0.end(), s) == reg0.end()) continue;
			list.push_back(s);
		}
		if (r.chance(0.1)) text = ",";
		for (size_t i = 0; i < list.size(); ++i) text += (i ? (r.chance(0.1) ? ",," : ",") : "") + list[i];
		if (r.chance(0.1)) text += ",";
		d << " [" << text << "]";
		c.desc(d.str());
		size_t unknown = 0;
		std::set<String> unk;
		for (auto& s : list)
			if (std::find(reg0.begin(), reg0.end(), s) == reg0.end()) ++unknown, unk.insert(s);
		std::unique_ptr<Options::Readable> o;
		bool threw = false;
		String what;
		try {
			o.reset(new Options::Readable(w, text));
		} catch (const std::exception& e) {
			threw = true;
			what = e.what();
		}
		EXPECT(threw == (mode == Options::Writeable::STRICT && unknown > 0), "options:refused", d.str() << (threw ? " refused " + what : String(" accepted")));
		if (threw) {
			bool named = false;
			for (auto& s : unk) named |= what.find(s) != String::npos;
			EXPECT(named, "options:message", what);
			c.count("unknown options refused");
			continue;
		}
		if (mode == Options::Writeable::PERMISSIVE) {
			std::cerr.flush();
			String err = vh::readStderr();
			size_t lines = 0;
			for (size_t p = 0; (p = err.find("WARNING", p)) != String::npos; ++p) ++lines;
			EXPECT(lines == warned + unknown, "options:warned", lines - warned << " warnings for " << unknown << " unknown options in " << text);
			warned = lines;
			if (unknown) c.count("unknown options reported");
		}
		std::vector<String> ask = pool;
		ask.push_back("late");
		ask.push_back("");
		ask.push_back("A");
		ask.push_back("exact");
		ask.push_back(text + "x");
		for (auto& s : ask) {
			bool want = mode != Options::Writeable::DISABLED && std::find(list.begin(), list.end(), s) != list.end();
			EXPECT(o->isSet(s) == want, "options:set", s << " is " << (want ? "not " : "") << "set by [" << text << "] mode " << mode);
			c.count("options queried");
		}
	}
	c.nontrivial(d.str());
}
// ---- labels switched off
FAMILY(disabled, 1500, 15000)
{
	vh::Rng& r = c.rng;
	LabelDisabled l;
	std::set<String> model;
	std::ostringstream d;
	for (int k = r.range(0, 15); k > 0; --k) {
		String s;
		for (int i = r.range(0, 3); i > 0; --i) s += char('a' + r.range(0, 2));
		if (r.chance(0.5)) {
			l.disable(s);
			model.insert(s);
			Concurrency::mpiDisable(s);
			d << " -" << s;
		}
		d << " ?" << s;
		EXPECT(l(s) == (model.count(s) > 0), "disabled", s << " after" << d.str());
		Concurrency::mode = Concurrency::PTHREADS;
		EXPECT(!Concurrency::isMpiDisabled(s), "disabled:mpi", "disabled without MPI");
		SizeType rank = r.range(0, 5), block = r.range(0, 9), rank0 = rank, block0 = block;
		Concurrency::mpiDisableIfNeeded(rank, block, s, 77);
		EXPECT(rank == rank0 && block == block0, "disabled:mpi", "changed without MPI");
		c.count("labels queried");
	}
	c.desc(d.str());
	c.nontrivial(d.str());
}
// ---- settings in force
// what the threads are created with (their stacks may be larger: they are reused)
static std::mutex askedMutex;
static std::vector<size_t> asked;
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p)
{
	size_t s = 0;
	if (a) pthread_attr_getstacksize(a, &s);
	{
		std::lock_guard<std::mutex> g(askedMutex);
		asked.push_back(s);
	}
	return __real_pthread_create(t, a, f, p);
}
struct Seen {
	std::mutex m;
	std::map<SizeType, std::set<size_t>> stack;
	std::map<SizeType, std::set<int>> cpus;
	std::map<SizeType, long> tasks;
	std::set<long> tids;
	void here(SizeType thread)
	{
		pthread_attr_t a;
		size_t sz = 0;
		void* base = 0;
		pthread_getattr_np(pthread_self(), &a);
		pthread_attr_getstack(&a, &base, &sz);
		pthread_attr_destroy(&a);
		cpu_set_t set;
		CPU_ZERO(&set);
		sched_getaffinity(0, sizeof set, &set);
		int cpu = -1;
		if (CPU_COUNT(&set) == 1)
			for (int i = 0; i < CPU_SETSIZE; ++i)
				if (CPU_ISSET(i, &set)) cpu = i;
		std::lock_guard<std::mutex> g(m);
		stack[thread].insert(sz);
		cpus[thread].insert(cpu);
		++tasks[thread];
		tids.insert(gettid());
	}
};
struct Observer {
	Seen& seen;
	SizeType n;
	SizeType tasks() const { return n; }
	void doTask(SizeType, SizeType t) { seen.here(t); }
};
FAMILY(settings, 1500, 12000)
{
	vh::Rng& r = c.rng;
	size_t t = r.range(1, 12), t2 = r.range(1, 3), n = r.chance(0.2) ? r.range(0, 3) : r.range(t, 4 * t), stack = 0;
	bool aff = r.chance(0.5);
	if (r.chance(0.6)) stack = r.range(32, 1024) * 16384;
	int how = r.range(0, 4);
	std::ostringstream d;
	d << t << " threads " << t2 << (aff ? " pinned" : "") << " stack " << stack << " tasks " << n << " loop " << how;
	c.desc(d.str());
	c.nontrivial(d.str());
	static int argc = 1;
	static char name[] = "program", *args[] = { name, 0 };
	static char** argv = args;
	CodeSectionParams ask(t, t2, aff, stack);
	bool scoped = r.chance(0.3);
	auto check = [&](const CodeSectionParams& cs, SizeType a, SizeType b, bool f, size_t s, const char* when) {
		EXPECT(cs.npthreads == a && cs.npthreadsLevelTwo == b && cs.setAffinities == f && cs.stackSize == s, "settings", when << ": " << cs.npthreads << " " << cs.npthreadsLevelTwo << " " << cs.setAffinities << " " << cs.stackSize);
		c.count("settings queried");
	};
	Concurrency::codeSectionParams = CodeSectionParams(1);
	check(CodeSectionParams(t), t, 1, false, 0, "one argument");
	{
		Concurrency con(&argc, &argv, t);
		fedisableexcept(FE_ALL_EXCEPT);
		EXPECT(Concurrency::codeSectionParams.npthreads == t && Concurrency::codeSectionParams.npthreadsLevelTwo == 1, "settings:start", Concurrency::codeSectionParams.npthreads << " threads instead of " << t);
		EXPECT(Concurrency::hasPthreads() && !Concurrency::hasMpi() && Concurrency::root() && Concurrency::rank() == 0 && Concurrency::nprocs() == 1, "settings:mode", Concurrency::mode);
		if (!scoped) Concurrency::setOptions(ask);
		else { // as a program that changes its settings for a while
			CodeSectionParams other(r.range(1, 9), r.range(1, 3), !aff, r.range(0, 2) * 65536);
			CodeSectionParams saved = ask;
			Concurrency::setOptions(other);
			check(Concurrency::codeSectionParams, other.npthreads, other.npthreadsLevelTwo, other.setAffinities, other.stackSize, "other options");
			Concurrency::setOptions(saved);
		}
		check(Concurrency::codeSectionParams, t, t2, aff, stack, "options");
		check(ask, t, t2, aff, stack, "the argument");
	}
	check(Concurrency::codeSectionParams, t, t2, aff, stack, "after the concurrency object");
	for (size_t i = 0; i < t; ++i) EXPECT(Concurrency::storageIndex(i) == i, "settings:storage", Concurrency::storageIndex(i));
	EXPECT(Concurrency::storageSize(t) == t, "settings:storage", Concurrency::storageSize(t));
	cpu_set_t mine;
	CPU_ZERO(&mine);
	sched_getaffinity(0, sizeof mine, &mine);
	Seen seen;
	asked.clear();
	const CodeSectionParams& cs = Concurrency::codeSectionParams;
	bool ng = how == 1 || how == 2;
	switch (how) {
	case 0: {
		Parallelizer2<> p(cs);
		EXPECT(p.numberOfThreads() == t, "settings:threads", p.numberOfThreads());
		p.parallelFor(0, n, [&](SizeType, SizeType th) { seen.here(th); });
		break;
	}
	case 1: {
		Observer o { seen, n };
		Parallelizer<Observer> p(cs);
		EXPECT(p.affinities() == aff && p.stackSize() == stack, "settings:loop", p.affinities() << " " << p.stackSize());
		p.loopCreate(o);
		break;
	}
	case 2: {
		Observer o { seen, n };
		Parallelizer<Observer, LoadBalancerWeights> p(cs);
		std::vector<SizeType> w(n, 1);
		p.setAffinities(!aff);
		EXPECT(p.affinities() == !aff, "settings:loop", p.affinities());
		p.setAffinities(aff);
		p.loopCreate(o, w);
		break;
	}
	case 3: {
		Parallelizer2<LoadBalancerWeights> p(cs);
		std::vector<SizeType> w(n, 1);
		p.parallelFor(0, n, [&](SizeType, SizeType th) { seen.here(th); }, w);
		break;
	}
	default: { // nested: the inner loop has the second level's threads
		std::mutex m;
		std::map<SizeType, SizeType> per;
		Parallelizer2<> p(cs);
		p.parallelFor(0, n, [&](SizeType i, SizeType th) {
			seen.here(th);
			CodeSectionParams in(cs.npthreadsLevelTwo, 1, false, cs.stackSize);
			Parallelizer2<> q(in);
			std::set<SizeType> used;
			q.parallelFor(0, 2 * t2, [&](SizeType, SizeType k) {
				std::lock_guard<std::mutex> g(m);
				used.insert(k);
			});
			std::lock_guard<std::mutex> g(m);
			per[i] = used.size();
		});
		for (auto& x : per) EXPECT(x.second == t2, "settings:nested", x.second << " threads of the second level instead of " << t2);
		break;
	}
	}
	// every thread asked for takes part when there are tasks for all
	EXPECT(seen.tasks.size() <= t, "settings:more", seen.tasks.size() << " threads instead of " << t);
	if (n % t == 0 && n >= t) EXPECT(seen.tasks.size() == t, "settings:fewer", seen.tasks.size() << " threads instead of " << t << " for " << n << " tasks");
	bool single = ng && (t == 1 || n <= 1); // may run in the caller's thread
	for (auto& x : seen.stack)
		for (size_t s : x.second) {
			if (stack && !single) {
				EXPECT(s >= stack, "settings:stack", "the stack of thread " << x.first << " is " << s << " not " << stack);
				c.count("stacks observed");
			}
		}
	for (size_t s : asked) EXPECT(stack == 0 || s == stack, "settings:stack", "a thread was created with a stack of " << s << " not " << stack);
	if (ng && !single) {
		std::set<int> used;
		for (auto& x : seen.cpus) {
			for (int cpu : x.second) {
				if (!aff) EXPECT(cpu == -1 || CPU_COUNT(&mine) == 1, "settings:pinned", "thread " << x.first << " is bound to processor " << cpu);
				else if (x.first < size_t(CPU_COUNT(&mine))) {
					EXPECT(cpu >= 0 && CPU_ISSET(cpu, &mine), "settings:unpinned", "thread " << x.first << " is on processor " << cpu);
					EXPECT(used.insert(cpu).second, "settings:shared", "two threads are bound to processor " << cpu);
					c.count("bindings observed");
				}
			}
			EXPECT(x.second.size() == 1, "settings:moves", "thread " << x.first << " changed its processors");
		}
	}
	cpu_set_t after;
	CPU_ZERO(&after);
	sched_getaffinity(0, sizeof after, &after);
	EXPECT(CPU_EQUAL(&mine, &after), "settings:caller", "the caller's processors changed");
	c.count("loops observed");
}
// ---- loops over nodes, without MPI
FAMILY(nodes, 1000, 10000)
{
	vh::Rng& r = c.rng;
	size_t a = r.range(0, 30), b = r.range(0, 40);
	c.desc(std::to_string(a) + ".." + std::to_string(b));
	if (b > a + 1) c.nontrivial(a * 100 + b);
	InterNode<> in(MPI::COMM_WORLD);
	EXPECT(in.size() == 1, "nodes:size", in.size());
	std::vector<int> ran(50, 0);
	in.parallelFor(a, b, [&](SizeType i, SizeType th) { EXPECT(i < 50 && th == 0, "nodes:task", i << " " << th); ++ran[i]; });
	for (size_t i = 0; i < 50; ++i) EXPECT(ran[i] == (i >= a && i < b), "nodes:runs", "task " << i << " of " << a << ".." << b << " ran " << ran[i] << " times");
	c.count("node loops");
}
