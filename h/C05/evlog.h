// Event log written by the tasks themselves (relaxed atomics: adds no ordering of its own)
#ifndef EVLOG_H
#define EVLOG_H
#include "vh.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
struct Ev {
	uint32_t task;
	uint32_t thread;
	uint8_t end;
	pthread_t tid;
};
extern std::atomic<unsigned> vhCreateDelay; // microseconds after each pthread_create
extern std::atomic<unsigned long> vhCreated, vhJoined;
class EvLog {
public:
	std::vector<Ev> ev;
	std::atomic<uint64_t> n { 0 };
	std::vector<int> delay; // per task
	std::vector<int> plain; // unsynchronised effects of the tasks
	size_t lo, hi;
	EvLog(vh::Rng& r, size_t lo_, size_t hi_) : lo(lo_), hi(hi_)
	{
		size_t t = hi > lo ? hi - lo : 0;
		ev.resize(4 * t + 64);
		plain.assign(t, 0);
		delay.resize(t);
		int style = r.range(0, t > 1000 ? 2 : 3);
		for (auto& d : delay) d = style == 0 ? 0 : style == 1 ? r.range(0, 1) : style == 2 ? (r.chance(0.1) ? r.range(50, 300) : 0) : r.range(0, 30);
	}
	void rec(size_t task, size_t thread, int end)
	{
		uint64_t k = n.fetch_add(1, std::memory_order_relaxed);
		if (k < ev.size()) ev[k] = Ev { (uint32_t)task, (uint32_t)thread, (uint8_t)end, pthread_self() };
	}
	void run(size_t task, size_t thread)
	{
		rec(task, thread, 0);
		if (task >= lo && task < hi) {
			int d = delay[task - lo];
			if (d == 1) sched_yield();
			else if (d > 1) usleep(d);
			plain[task - lo] += 1;
		}
		rec(task, thread, 1);
	}
	// judge, once the loop has returned
	void check(vh::Ctx& c, size_t nthreads, const char* what)
	{
		std::string w = what;
		uint64_t total = n.load(std::memory_order_relaxed);
		size_t tasks = hi > lo ? hi - lo : 0;
		EXPECT(total <= ev.size(), w + ":count", total << " events for " << tasks << " tasks");
		std::vector<int> st(tasks, 0), en(tasks, 0);
		std::vector<long> open(nthreads, -1);
		uint64_t h = 1469598103934665603ULL;
		for (uint64_t k = 0; k < total; ++k) {
			const Ev& e = ev[k];
			EXPECT(e.task >= lo && e.task < hi, w + ":range", "task " << e.task << " outside [" << lo << "," << hi << ")");
			EXPECT(e.thread < nthreads, w + ":threadNumber", "task " << e.task << " got thread " << e.thread << " of " << nthreads);
			h = (h ^ (e.task * 2 + e.end)) * 1099511628211ULL;
			if (!e.end) {
				++st[e.task - lo];
				EXPECT(open[e.thread] < 0, w + ":threadShared", "thread number " << e.thread << " used by tasks " << open[e.thread] << " and " << e.task << " at the same time");
				open[e.thread] = e.task;
			} else {
				++en[e.task - lo];
				EXPECT(open[e.thread] == (long)e.task, w + ":threadShared", "thread number " << e.thread << " mixed up at task " << e.task);
				open[e.thread] = -1;
			}
		}
		for (size_t t = 0; t < tasks; ++t) {
			EXPECT(st[t] == 1, w + ":once", "task " << lo + t << " ran " << st[t] << " times");
			EXPECT(en[t] == 1, w + ":joined", "task " << lo + t << " had not finished when the loop returned");
			EXPECT(plain[t] == 1, w + ":visible", "effect of task " << lo + t << " reads " << plain[t]);
		}
		EXPECT(n.load() == total, w + ":late", "tasks ran after the loop returned");
		c.count("task events checked", total);
		c.count("loops checked");
		if (tasks > 1) c.nontrivial(h);
	}
	void stillQuiet(vh::Ctx& c, const char* what)
	{
		size_t tasks = hi > lo ? hi - lo : 0;
		EXPECT(n.load() == 2 * tasks, std::string(what) + ":late", "tasks ran after the loop returned");
	}
};
#endif
