// simthread.hpp -- pthread mutexes and condition variables of the coroutines of sched.hpp.
#pragma once
#include "sched.hpp"
#include <pthread.h>
#include <time.h>
namespace st {
struct Mutex { int owner; int depth; };
struct Waiter { int id; bool woken, spurious; uint64_t since; };
struct Cond { std::vector<Waiter *> w; };
static std::map<void *, Mutex> mx; static std::map<void *, Cond> cv;
static uint64_t clock_, wakes; // wakes: coroutines woken by a signal or broadcast
static void (*on_sleep)(int id);          // a coroutine goes to sleep on a condition variable
static uint64_t asleep_since[sched::MAXC]; // 0: not asleep
static bool waited[sched::MAXC];           // slept since the harness cleared it
static void reset() { mx.clear(); cv.clear(); clock_ = 1; wakes = 0; memset(asleep_since, 0, sizeof asleep_since); memset(waited, 0, sizeof waited); }
enum { GARBAGE = 0xa5 }; // what the harness fills an object's memory with before it is constructed: must not be used as a mutex or condition variable
static bool garbage(const void *p, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char *) p)[i] != GARBAGE) return false; return true; }
static Mutex &M(void *m) { auto i = mx.find(m); if (i == mx.end()) { if (garbage(m, sizeof(pthread_mutex_t))) mc::fail("a mutex is used that was never initialised"); Mutex x = { -2, 0 }; i = mx.insert(std::make_pair(m, x)).first; } return i->second; }
static Cond &C(void *c) { auto i = cv.find(c); if (i == cv.end()) { if (garbage(c, sizeof(pthread_cond_t))) mc::fail("a condition variable is used that was never initialised"); i = cv.insert(std::make_pair(c, Cond())).first; } return i->second; }
static int self() { return sched::id(); } // -1: the main context
static void lock(void *m)
{
	sched::quiet++; Mutex &x = M(m); sched::quiet--;
	if (!sched::active()) { if (x.owner != -2) mc::fail("the mutex is still locked by %d", x.owner); x.owner = -1; return; }
	sched::point("mutex lock");
	sched::quiet++; Mutex *p = &M(m); int i = self();
	sched::block("mutex lock", [p]() { return p->owner == -2; });
	p->owner = i; sched::quiet--;
}
static void unlock(void *m)
{
	if (sched::active()) sched::point("mutex unlock");
	sched::quiet++; Mutex &x = M(m); if (x.owner != self()) mc::fail("a mutex is unlocked by a thread that does not hold it"); x.owner = -2; sched::quiet--;
}
static int wait(void *c, void *m, bool timed)
{
	if (!sched::active()) mc::fail("a wait that cannot end");
	sched::point("condition wait"); sched::quiet++; int i = self();
	Mutex &x = M(m); if (x.owner != i) mc::fail("condition wait without holding the mutex");
	Waiter w = { i, false, false, ++clock_ }; if (mc::g().devs_left > 0 && mc::choose_dev(2)) w.spurious = true;
	C(c).w.push_back(&w); x.owner = -2; asleep_since[i] = w.since; waited[i] = true; if (on_sleep) on_sleep(i);
	Waiter *p = &w; sched::block("condition wait", [p]() { return p->woken || p->spurious; });
	if (!w.woken) { auto &v = C(c).w; for (size_t k = 0; k < v.size(); k++) if (v[k] == &w) { v.erase(v.begin() + k); break; } mc::note("%s wakes up spuriously", sched::me->name); }
	asleep_since[i] = 0; sched::quiet--;
	lock(m); return w.woken || !timed ? 0 : ETIMEDOUT;
}
static void signal(void *c, bool all)
{
	if (sched::active()) sched::point(all ? "condition broadcast" : "condition signal");
	sched::quiet++; auto &v = C(c).w; ++clock_;
	while (!v.empty()) { size_t k = 0; if (!all && v.size() > 1 && sched::active()) k = mc::choose(v.size()); v[k]->woken = true; asleep_since[v[k]->id] = 0; wakes++; v.erase(v.begin() + k); if (!all) break; }
	sched::quiet--;
}
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { sched::quiet++; st::Mutex x = { -2, 0 }; st::mx[m] = x; sched::quiet--; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { sched::quiet++; st::mx.erase(m); sched::quiet--; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { st::lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { st::unlock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (sched::active()) sched::point("mutex trylock"); sched::quiet++; st::Mutex &x = st::M(m); int r = EBUSY; if (x.owner == -2) { x.owner = st::self(); r = 0; } sched::quiet--; return r; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { sched::quiet++; st::cv[c] = st::Cond(); sched::quiet--; return 0; }
int pthread_cond_destroy(pthread_cond_t *c) noexcept { sched::quiet++; st::cv.erase(c); sched::quiet--; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return st::wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return st::wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return st::wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { st::signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { st::signal(c, true); return 0; }
}
