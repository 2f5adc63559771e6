#include "evlog.h"
std::atomic<unsigned> vhCreateDelay { 0 };
std::atomic<unsigned long> vhCreated { 0 }, vhJoined { 0 };
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p)
{
	int r = __real_pthread_create(t, a, f, p);
	vhCreated.fetch_add(1, std::memory_order_relaxed);
	unsigned d = vhCreateDelay.load(std::memory_order_relaxed);
	if (d == 1) sched_yield();
	else if (d) usleep(d);
	return r;
}
