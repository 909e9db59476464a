// C35: two threads call the library on data of their own.  The second one runs at every load, store, function entry and
// exit of the first one's code, in a real thread; each must get what it gets alone.
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <sys/stat.h>
#include "threads.h"
using namespace mc;
typedef std::string S;
void tops_reset();

static thread_local int who = -1; // whose clock
static long clock_of() { return who == 1 ? 1234567890 : 987654321; }
extern "C" int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = clock_of(); tv->tv_usec = who == 1 ? 250000 : 750000; return 0; }
extern "C" time_t time(time_t *t) { time_t x = clock_of(); if (t) *t = x; return x; }
extern "C" int clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = clock_of(); ts->tv_nsec = 1; return 0; }

struct Actor { const TOp *op; int v; S got; long target; long count; int stop_signal; };
static Actor act[2];              // 0: runs in the main thread, 1: in the worker
static sem_t go_, back_; static pthread_t worker_; static int worker_pid = 0; static bool b_started, b_ended;
static thread_local int self = -1; static thread_local bool armed = false;

static void call(int i) { who = act[i].v; act[i].got = act[i].op->fn(act[i].v); who = -1; }
static void *work(void *) { self = 1; for (;;) { while (sem_wait(&go_)) {} armed = act[1].target >= 0; act[1].count = 0; call(1); armed = false; __atomic_store_n(&b_ended, true, __ATOMIC_SEQ_CST); sem_post(&back_); } return NULL; }
static bool wait_back(int sec) // false: it did not come back (it waits for something that the other thread holds)
{
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); ts.tv_sec += sec; for (;;) { if (!sem_timedwait(&back_, &ts)) return true; if (errno == ETIMEDOUT) return false; }
}
static bool pending; // the worker was given the processor and has not come back yet
static sem_t resume_;
static void to_b() { if (pending) return; pending = true; if (!b_started) { b_started = true; sem_post(&go_); } else sem_post(&resume_); if (wait_back(5)) pending = false; }
extern "C" void sched_access(void *, unsigned, int)
{
	if (!armed) return;
	Actor &a = act[self]; if (a.count++ != a.target) return;
	armed = false;
	int e = errno;
	if (self == 0) to_b();
	else { sem_post(&back_); while (sem_wait(&resume_)) {} }
	errno = e;
}
extern "C" void sched_enter() { sched_access(NULL, 0, 0); }
static void start()
{
	if (worker_pid == getpid()) return;
	worker_pid = getpid(); sem_init(&go_, 0, 0); sem_init(&back_, 0, 0); sem_init(&resume_, 0, 0); self = 0;
	const char *e = getenv("MC_SCRATCH"); static S d; d = S(e ? e : "/tmp") + "/threads." + std::to_string(getpid()); mkdir(d.c_str(), 0755); tops_init(d.c_str());
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (pthread_create(&worker_, &at, work, NULL)) internal_error("pthread_create");
	static char sd[600]; snprintf(sd, sizeof sd, "%s", d.c_str()); g().at_end = [] { rmdir(sd); };
}
// what a call gives when nobody else runs, and how many points it has
static S solo_[2][64]; static long points_[2][64]; static bool have_[2][64];
static void solo(int o, int v, int thread)
{
	if (have_[v][o]) return;
	for (int round = 0; round < 2; round++) // the first round may initialise something
	{
		tops_reset(); act[thread].op = &TOPS[o]; act[thread].v = v; act[thread].target = -1; act[thread].count = 0;
		// (counting: armed with an unreachable target)
		if (thread == 0) { act[0].target = 1l << 60; armed = true; call(0); armed = false; points_[v][o] = act[0].count; solo_[v][o] = act[0].got; }
	}
	have_[v][o] = true;
}
static void judge(int o, int v, int thread)
{
	MC_CHECK(act[thread].got == solo_[v][o], "%s gives %s when another thread calls %s meanwhile, and %s alone", TOPS[o].name, show(act[thread].got).c_str(), act[1 - thread].op->name, show(solo_[v][o]).c_str());
}
static void execute(int oa, int ob, int va, long i, long j) // a runs to its point i, b to its point j (-1: to its end), a to its end, b to its end
{
	int vb = 1 - va; tops_reset();
	act[0].op = &TOPS[oa]; act[0].v = va; act[0].target = i; act[0].count = 0; act[0].got.clear();
	act[1].op = &TOPS[ob]; act[1].v = vb; act[1].target = j; act[1].got.clear();
	b_started = b_ended = pending = false;
	armed = true; call(0); armed = false;
	for (int k = 0; k < 3 && !__atomic_load_n(&b_ended, __ATOMIC_SEQ_CST); k++) { if (pending) { if (!wait_back(60)) fail("%s in another thread never ends after %s", TOPS[ob].name, TOPS[oa].name); pending = false; } else to_b(); }
	if (!b_ended) fail("%s in another thread never ends", TOPS[ob].name);
	step(2); judge(oa, va, 0); judge(ob, vb, 1);
}
SCENARIO("C35", "switch-once", QUICK, THOROUGH, "every ordered pair of 30 calls: the second one runs, in another thread, at every load, store, function entry and exit of the first one")
{
	start(); int oa = choose(NTOPS), va = choose(2), ob = choose(NTOPS); shard_here(); solo(oa, va, 0); solo(ob, 1 - va, 0);
	long i = choose(points_[va][oa] + 1); nontrivial(); note("%s(%d) is interrupted at point %ld of %ld by %s(%d)", TOPS[oa].name, va, i, points_[va][oa], TOPS[ob].name, 1 - va);
	state(hmix(hmix(hmix(oa, va), ob), i)); execute(oa, ob, va, i, -1); outcome(hstr(hstr(1, act[0].got), act[1].got));
}
SCENARIO("C35", "switch-twice", QUICK, THOROUGH, "two threads in the same call with different data: the first one stops at every point, the second one at every point, the first one ends, the second one ends (calls of at most 250, thorough 1100, points)")
{
	start(); int o = choose(NTOPS), va = choose(2); solo(o, va, 0); solo(o, 1 - va, 0); long max = g().tier ? 1100 : 250;
	if (points_[0][o] > max || points_[1][o] > max) return;
	long i = choose(points_[va][o] + 1); shard_here(); long j = choose(points_[1 - va][o] + 1); nontrivial(); note("%s: stopped at points %ld and %ld", TOPS[o].name, i, j);
	state(hmix(hmix(hmix(hmix(99, o), va), i), j)); execute(o, o, va, i, j); outcome(hstr(hstr(1, act[0].got), act[1].got));
}
SCENARIO("C35", "points", QUICK, THOROUGH, "each call alone, again and again: the same result")
{
	start(); int o = choose(NTOPS), v = choose(2); solo(o, v, 0); nontrivial(); note("%s(%d): %ld points, %s", TOPS[o].name, v, points_[v][o], show(solo_[v][o]).c_str());
	for (int k = 0; k < 3; k++) { tops_reset(); act[0].op = &TOPS[o]; act[0].v = v; act[0].target = -1; call(0); step(); MC_CHECK(act[0].got == solo_[v][o], "%s gives %s and then %s", TOPS[o].name, show(solo_[v][o]).c_str(), show(act[0].got).c_str()); }
}
MC_MAIN
