// sched.hpp -- controlled scheduler: the threads or processes of a scenario are coroutines of this process, and every
// scheduling decision is a choice of the explorer.
//
//   sched::Run r(preemptions);            // at most that many switches away from a runnable coroutine
//   r.add("writer", [&]{ ... });          // coroutine 0, 1, ...
//   r.go();                               // until all have ended, or nobody can go on
//   r.deadlock / r.c[i].state
//
// A coroutine calls sched::point("...") before each shared access (wrappers of system calls, locks and -- with the
// instrumentation of tsan_rt.cpp -- loads and stores of registered memory do it), and sched::block(pred) to wait.
// Where sched::kill_budget allows, a point may also kill the coroutine (sched::on_kill is told).
#pragma once
#include "mc.hpp"
#include <errno.h>
#include <functional>
#include <sys/mman.h>

extern "C" void *__cxa_get_globals() noexcept;
extern "C" void sched_swap(void **save, void *load);
__asm__(".text\n.globl sched_swap\n.type sched_swap,@function\nsched_swap:\n"
	"pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
	"movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
	"popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size sched_swap,.-sched_swap\n");

namespace sched {
enum State { READY, BLOCKED, DONE, KILLED };
enum { STACK = 256 * 1024, MAXC = 8 };
struct Co
{
	void *sp; char *stack; State state; const char *name; std::function<void()> fn; std::function<bool()> pred; const char *why;
	int err, quiet, moves; struct { void *a; unsigned b; } eh; bool killable, waiting;
};
struct Run;
static Run *run; static Co *me; static void *main_sp; static struct { void *a; unsigned b; } main_eh; static bool pruned;
static int kill_budget;                       // kills left in this execution
static void (*on_kill)(int i); static int quiet;  // quiet > 0: no points
static std::function<void()> observer;        // called at every scheduling step, in the main context
static char *stacks[MAXC];

struct Run
{
	Co c[MAXC]; int n, cur, preempts; bool deadlock, fixed; uint64_t steps; // fixed: no choices, the lowest first
	Run(int p) : n(0), cur(-1), preempts(p), deadlock(false), fixed(false), steps(0) {}
	void add(const char *name, std::function<void()> f, bool killable = false)
	{
		if (n == MAXC) mc::internal_error("too many coroutines");
		if (!stacks[n])
		{
			char *m = (char *) mmap(NULL, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (m == MAP_FAILED) mc::internal_error("no memory for a stack");
			mprotect(m, 4096, PROT_NONE); stacks[n] = m + 4096;
		}
		Co &x = c[n]; x.stack = stacks[n]; x.state = READY; x.name = name; x.fn = f; x.err = x.quiet = x.moves = 0; x.eh.a = NULL; x.eh.b = 0; x.killable = killable; x.waiting = false; x.why = "";
		void **sp = (void **) (x.stack + STACK); *--sp = NULL; *--sp = (void *) &entry; for (int k = 0; k < 6; k++) *--sp = NULL; x.sp = sp; n++;
	}
	static void entry();
	void resume(int i)
	{
		me = &c[i]; run = this; auto *eh = (decltype(&main_eh)) __cxa_get_globals(); main_eh.a = eh->a; main_eh.b = eh->b; eh->a = me->eh.a; eh->b = me->eh.b;
		int e = errno, q = quiet; errno = me->err; quiet = me->quiet; sched_swap(&main_sp, me->sp); me->err = errno; errno = e; me->quiet = quiet; quiet = q;
		eh = (decltype(&main_eh)) __cxa_get_globals(); me->eh.a = eh->a; me->eh.b = eh->b; eh->a = main_eh.a; eh->b = main_eh.b; me = NULL;
		if (pruned) { pruned = false; run = NULL; mc::g().prune_hook = NULL; throw mc::Prune(); }
	}
	bool enabled(int i) { return c[i].state == READY || (c[i].state == BLOCKED && c[i].pred()); }
	// runs until all end or nobody is enabled
	void go();
	uint64_t snapshot();
	bool all_done() { for (int i = 0; i < n; i++) if (c[i].state != DONE && c[i].state != KILLED) return false; return true; }
	std::string blocked() { std::string s; for (int i = 0; i < n; i++) if (c[i].state == BLOCKED) { if (!s.empty()) s += ", "; s += std::string(c[i].name) + " in " + c[i].why; } return s; }
};
MC_NOINSTR static void prune_in_coroutine() { if (!me) return; pruned = true; Co *x = me; sched_swap(&x->sp, main_sp); }
inline void Run::entry()
{
	Co *x = me;
	try { x->fn(); } catch (const std::exception &e) { mc::fail("%s: an exception escapes: %s", x->name, e.what()); }
	x->state = DONE; sched_swap(&x->sp, main_sp); abort();
}
inline void Run::go()
{
	mc::g().prune_hook = prune_in_coroutine; run = this;
	for (;;)
	{
		int en[MAXC], k = 0; bool cur_on = cur >= 0 && !c[cur].waiting && enabled(cur);
		if (cur_on) en[k++] = cur;
		for (int i = 0; i < n; i++) if (i != cur && enabled(i)) en[k++] = i;
		if (cur >= 0 && c[cur].waiting && enabled(cur)) en[k++] = cur; // a wait that may end now need not
		if (observer) observer();
		if (!k) break;
		if (++steps > 20000) mc::fail("the execution does not end (livelock): %s runs", cur >= 0 ? c[cur].name : "?");
		int pick = 0;
		if (k > 1 && !fixed) { if (!cur_on) { mc::g().prune_hook = NULL; pick = mc::choose(k); mc::g().prune_hook = prune_in_coroutine; } else if (preempts > 0) { mc::g().prune_hook = NULL; pick = mc::choose(k); mc::g().prune_hook = prune_in_coroutine; if (pick) preempts--; } }
		if (en[pick] != cur) mc::note("-- %s", c[en[pick]].name);
		if (k > 1) mc::state(snapshot()); cur = en[pick]; c[cur].state = READY; c[cur].moves++; mc::step(); resume(cur);
	}
	deadlock = !all_done(); run = NULL; mc::g().prune_hook = NULL;
}
MC_NOINSTR inline int id() { return me ? (int) (me - run->c) : -1; }
MC_NOINSTR inline void die() // the running coroutine is killed
{
	Co *x = me; x->state = KILLED; mc::note("%s is killed", x->name); if (on_kill) on_kill(id()); sched_swap(&x->sp, main_sp); abort();
}
MC_NOINSTR inline void point(const char *what)
{
	if (!me || quiet) return;
	if (me->killable && kill_budget > 0) { quiet++; bool k = mc::choose(2); quiet--; if (k) { kill_budget--; quiet++; mc::note("killed before %s", what); quiet--; die(); } }
	if (run->preempts > 0 || true) { Co *x = me; sched_swap(&x->sp, main_sp); }
	if (mc::g().tracing && what && *what) { quiet++; mc::note("%s: %s", me->name, what); quiet--; }
}
inline void block(const char *why, std::function<bool()> p)
{
	if (!me) { if (!p()) mc::fail("waiting for ever in %s: nobody else is there", why); return; }
	if (p()) return;
	Co *x = me; x->pred = p; x->why = why; x->state = BLOCKED; quiet++; mc::note("%s waits in %s", x->name, why); quiet--; sched_swap(&x->sp, main_sp);
}
// a wait that may end at any time (a timeout, an interruption): leaving it costs no preemption
inline void wait_open(const char *why) { Co *x = me; if (!x) return; x->pred = []() { return true; }; x->why = why; x->state = BLOCKED; x->waiting = true; quiet++; mc::note("%s waits in %s", x->name, why); quiet--; sched_swap(&x->sp, main_sp); x->waiting = false; }
inline bool active() { return me != NULL; }

// ---- memory whose loads and stores are points (tsan_rt.cpp calls in)
struct Region { char *b, *e; const char *name; };
static Region regions[64]; static int nregions;
static void (*access_hook)(void *p, unsigned n, bool w);
MC_NOINSTR static void region_add(void *p, size_t n, const char *name) { if (nregions == 64) mc::internal_error("too many regions"); regions[nregions].b = (char *) p; regions[nregions].e = (char *) p + n; regions[nregions].name = name; nregions++; }
MC_NOINSTR static void region_del(void *p) { for (int i = 0; i < nregions; i++) if (regions[i].b == p) { regions[i] = regions[--nregions]; return; } }
// for the evidence only: where each coroutine is, and what the registered memory holds
MC_NOINSTR inline uint64_t Run::snapshot()
{
	uint64_t h = n; for (int i = 0; i < n; i++) h = mc::hmix(h, c[i].moves << 2 | c[i].state);
	for (int i = 0; i < nregions; i++) { size_t z = regions[i].e - regions[i].b; if (z > 256) z = 256; for (size_t k = 0; k + 8 <= z; k += 8) { uint64_t v; __builtin_memcpy(&v, regions[i].b + k, 8); if (v) h = mc::hmix(h, v + k); } }
	return h;
}
} // namespace sched
extern "C" MC_NOINSTR __attribute__((used)) void sched_access(void *p, unsigned n, int w)
{
	using namespace sched;
	if (quiet || (!me && !access_hook)) return;
	for (int i = 0; i < nregions; i++) if ((char *) p >= regions[i].b && (char *) p < regions[i].e)
	{
		char t[80]; const char *what = "";
		if (mc::g().tracing) { quiet++; snprintf(t, sizeof t, "%s %s+%ld (%u)", w ? "store" : "load", regions[i].name, (long) ((char *) p - regions[i].b), n); quiet--; what = t; }
		point(what); if (access_hook) { quiet++; access_hook(p, n, w); quiet--; } return;
	}
}
