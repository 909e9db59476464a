// C06, C07: the thread queue under a controlled scheduler.
#include "simthread.hpp"
#include <new>
#include "coda/synque.hpp"
using namespace mc;
typedef std::string S;

// memory that the queue allocates comes from a registered pool, so that its loads and stores are scheduling points
static char pool[1 << 20] __attribute__((aligned(64))); static size_t pool_used; static int under_[sched::MAXC + 1];
static int &under() { return under_[sched::id() + 1]; }
void *operator new(size_t n) { if (under() && !sched::quiet) { size_t k = (n + 31) & ~size_t(15); if (pool_used + k > sizeof pool) internal_error("pool"); void *p = pool + pool_used; pool_used += k; return p; } void *p = malloc(n); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { if ((char *) p >= pool && (char *) p < pool + sizeof pool) return; free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
struct Under { Under() { under()++; } ~Under() { under()--; } };

struct El // two words that belong together
{
	volatile int a, b;
	El(int x = 0) : a(x), b(x * 3) {}
	El(const El &o) { a = o.a; b = o.b; }
	El &operator=(const El &o) { a = o.a; b = o.b; return *this; }
};
typedef coda::synque<El> Q;

// ------------------------------------------------------------------ operations and their histories
enum Kind { ADD, SIGNAL, GET0, GETW, BATCH0, BATCHW, SIZE, NK };
struct Op { Kind k; int arg; };
static const Op OPS[] = { { ADD, 0 }, { GETW, 0 }, { GET0, 0 }, { BATCHW, 0 }, { BATCHW, 1 }, { BATCH0, 2 }, { SIZE, 0 }, { SIGNAL, 0 }, { BATCHW, -1 }, { BATCH0, 1 } };
static S opname(const Op &o) { char b[40]; static const char *const N[] = { "add", "signal", "get(no wait)", "get(wait)", "get(batch of %d, no wait)", "get(batch of %d, wait)", "size" }; snprintf(b, sizeof b, N[o.k], o.arg); return b; }
struct Ev { int thread; Op op; uint64_t call, ret; int rc, val; std::vector<int> got; bool waited; };
static uint64_t now_;
static std::vector<Ev> H; static bool waiting_ok[sched::MAXC];
static int fresh;
static std::vector<int> initial;

static void sleeps(int i) { if (!waiting_ok[i]) fail("a call that must not wait goes to sleep"); }
static int whole(const El &e) { if (e.b != e.a * 3) fail("a torn element: %d/%d", e.a, e.b); return e.a; }
static std::vector<std::deque<El> *> outs; // deleted at the end of the execution: part of an output may live in the pool
static void perform(Q &q, const Op &o, int t)
{
	Ev e; e.thread = t; e.op = o; e.rc = 0; e.val = 0; e.waited = false; e.ret = 0; size_t at;
	sched::quiet++; e.val = o.k == ADD ? ++fresh : 0; e.call = ++now_; at = H.size(); H.push_back(e); st::waited[t] = false; waiting_ok[t] = o.k == GETW || o.k == BATCHW; note("%s starts %s", sched::me->name, opname(o).c_str()); sched::quiet--;
	int rc = 0, val = e.val; std::vector<int> got;
	switch (o.k)
	{
	case ADD: { El x(val); Under u; q.add(x); break; }
	case SIGNAL: { Under u; q.signal(); break; }
	case GET0: case GETW: { El x(-7); { Under u; rc = q.get(x, o.k == GETW ? 1 + t % 2 : 0); } sched::quiet++; if (rc == 0) got.push_back(whole(x)); else if (x.a != -7) fail("an unsuccessful get changes the element"); sched::quiet--; break; }
	case BATCH0: case BATCHW:
	{
		sched::quiet++; std::deque<El> *out = new std::deque<El>; outs.push_back(out); out->push_back(El(-1)); out->push_back(El(-2)); sched::quiet--;
		{ Under u; rc = q.get(*out, o.arg, o.k == BATCHW ? (o.arg == 1 ? -1 : 1) : 0); }
		sched::quiet++; if (out->size() < 2 || whole((*out)[0]) != -1 || whole((*out)[1]) != -2) fail("a batch removal changes the previous contents of the output");
		for (size_t i = 2; i < out->size(); i++) got.push_back(whole((*out)[i])); sched::quiet--;
		break;
	}
	case SIZE: { Under u; val = (int) q.size(); break; }
	default: break;
	}
	sched::quiet++; Ev &r = H[at]; r.rc = rc; r.val = val; r.got = got; r.ret = ++now_; r.waited = st::waited[t];
	if (g().tracing) { S s; for (int x : got) s += " " + std::to_string(x); note("%s ends %s: %d%s", sched::me->name, opname(o).c_str(), o.k == SIZE ? val : rc, s.c_str()); }
	sched::quiet--;
}
// is there an order, consistent with real time, in which a simple queue gives these results?
static bool lin(std::vector<bool> &done, std::vector<int> &q, size_t left, const std::vector<int> &final)
{
	if (!left) return q == final;
	uint64_t minret = ~0ull; for (size_t i = 0; i < H.size(); i++) if (!done[i] && H[i].ret && H[i].ret < minret) minret = H[i].ret;
	for (size_t i = 0; i < H.size(); i++)
	{
		const Ev &e = H[i]; if (done[i] || !e.ret || e.call > minret) continue;
		std::vector<int> save = q; bool ok = true;
		switch (e.op.k)
		{
		case ADD: q.push_back(e.val); break;
		case SIGNAL: break;
		case SIZE: ok = (int) q.size() == e.val; break;
		case GET0: case GETW: if (e.rc == 0) { ok = !q.empty() && e.got.size() == 1 && e.got[0] == q[0]; if (ok) q.erase(q.begin()); } else ok = e.rc == -1 && q.empty() && (e.op.k == GET0 || e.waited); break;
		case BATCH0: case BATCHW:
			if (e.rc == 0) { size_t n = q.size(); if (e.op.arg > 0 && (size_t) e.op.arg < n) n = e.op.arg; ok = n > 0 && e.got == std::vector<int>(q.begin(), q.begin() + n); if (ok) q.erase(q.begin(), q.begin() + n); }
			else ok = e.rc == -1 && e.got.empty() && q.empty() && (e.op.k == BATCH0 || e.waited);
			break;
		default: break;
		}
		if (ok) { done[i] = true; if (lin(done, q, left - 1, final)) return true; done[i] = false; }
		q = save;
	}
	return false;
}
static S history()
{
	S s; for (auto &e : H) { char b[80]; snprintf(b, sizeof b, "thread %d [%d,%d] ", e.thread, (int) e.call, (int) e.ret); s += b + opname(e.op); if (e.ret) { s += " = "; s += std::to_string(e.op.k == SIZE || e.op.k == ADD ? e.val : e.rc); for (int x : e.got) s += " " + std::to_string(x); } else s += " blocked"; s += "; "; }
	return s;
}
static void execute(const std::vector<std::vector<Op>> &prog, int pre, int preempts, int spurious)
{
	st::reset(); pool_used = 0; memset(under_, 0, sizeof under_); H.clear(); now_ = 0; fresh = 0; initial.clear(); st::on_sleep = sleeps;
	static char buf[sizeof(Q)] __attribute__((aligned(64)));
	Q *q; memset(buf, st::GARBAGE, sizeof buf); { Under u; q = new (buf) Q; for (int i = 0; i < pre; i++) { El e(100 + i); q->add(e); initial.push_back(100 + i); } }
	sched::nregions = 0; sched::region_add(buf, sizeof buf, "queue"); sched::region_add(pool, sizeof pool, "pool");
	sched::Run r(preempts); static const char *const N[] = { "T0", "T1", "T2", "T3" };
	for (size_t t = 0; t < prog.size(); t++) { const std::vector<Op> *p = &prog[t]; r.add(N[t], [p, q, t]() { for (auto &o : *p) perform(*q, o, (int) t); }); }
	g().devs_left = spurious; r.go(); g().devs_left = 0; sched::nregions = 0; if (r.steps > 3) nontrivial();
	// who is still there?
	for (int t = 0; t < r.n; t++) if (r.c[t].state == sched::BLOCKED && !st::asleep_since[t]) fail("%s never gets the lock; %s", r.c[t].name, history().c_str());
	for (auto &m : st::mx) MC_CHECK(m.second.owner == -2, "the queue stays locked; %s", history().c_str());
	std::vector<int> rest; size_t sz; { Under u; sz = q->size(); }
	for (;;) { El x(-7); int rc; { Under u; rc = q->get(x, 0); } if (rc) break; rest.push_back(whole(x)); if (rest.size() > 50) fail("the queue never runs empty"); }
	MC_CHECK(sz == rest.size(), "the queue reports %zu elements and holds %zu; %s", sz, rest.size(), history().c_str());
	uint64_t since = ~0ull; int who = -1;
	for (int t = 0; t < r.n; t++) if (st::asleep_since[t]) { if (st::asleep_since[t] < since) { since = st::asleep_since[t]; who = t; } }
	if (who >= 0)
	{
		MC_CHECK(rest.empty(), "%s sleeps although %zu elements are there; %s", N[who], rest.size(), history().c_str());
	}
	std::vector<bool> done(H.size(), false); size_t left = 0; for (auto &e : H) if (e.ret) left++;
	std::vector<int> m = initial;
	MC_CHECK(lin(done, m, left, rest), "no order explains: %s left %s", history().c_str(), [&] { S s; for (int x : rest) s += std::to_string(x) + " "; return s; }().c_str());
	uint64_t h = 1; for (auto &e : H) { h = hmix(h, e.thread * 100 + e.op.k); h = hmix(h, e.rc); for (int x : e.got) h = hmix(h, x); h = hmix(h, e.ret != 0); } outcome(h);
	{ Under u; q->~Q(); }
	for (auto *o : outs) delete o;
	outs.clear();
}
// signals and additions that start while somebody sleeps must each wake somebody
static uint64_t sig_while_asleep;
static int count_threads(int n) { return n; }

static void choose_program(std::vector<std::vector<Op>> &p, const std::vector<int> &len, int alpha)
{
	p.clear(); int last = -1;
	for (size_t t = 0; t < len.size(); t++)
	{
		std::vector<Op> o; int code = 0; for (int i = 0; i < len[t]; i++) { int k = choose(alpha); code = code * alpha + k; o.push_back(OPS[k]); }
		if (t && len[t] == len[t - 1] && code < last) throw Prune(); // the same threads in another order
		last = code; p.push_back(o);
	}
	shard_here();
}
SCENARIO("C06 C07", "pairs", QUICK, THOROUGH, "2 threads of 2 operations out of 8, 0..2 elements before, up to 2 (thorough 3) preemptions at every lock operation, load and store")
{
	int pre = choose(3); std::vector<std::vector<Op>> p; choose_program(p, std::vector<int>(2, 2), 8); execute(p, pre, g().tier ? 3 : 2, 0);
}
SCENARIO("C06 C07", "triples", QUICK, THOROUGH, "3 threads of 1 operation out of 8, 0..2 elements before, up to 2 (thorough 3) preemptions")
{
	int pre = choose(3); std::vector<std::vector<Op>> p; choose_program(p, std::vector<int>(3, 1), 8); execute(p, pre, g().tier ? 3 : 2, 0);
}
SCENARIO("C06 C07", "spurious", QUICK, THOROUGH, "2 threads of 2 operations out of 8, one spurious wake-up, 1 preemption (thorough 2)")
{
	std::vector<std::vector<Op>> p; choose_program(p, std::vector<int>(2, 2), 8); execute(p, 0, g().tier ? 2 : 1, 1);
}
SCENARIO("C06 C07", "waiters", QUICK, THOROUGH, "3 threads of 2 operations out of 4 (add, get, batch), empty or one element, 1 preemption (thorough 2)")
{
	static const int A[] = { 0, 1, 4, 7 }; int pre = choose(2); std::vector<std::vector<Op>> p; int last = -1;
	for (int t = 0; t < 3; t++) { int a = choose(4), b = choose(4), code = a * 4 + b; if (code < last) return; last = code; std::vector<Op> o; o.push_back(OPS[A[a]]); o.push_back(OPS[A[b]]); p.push_back(o); }
	shard_here(); execute(p, pre, g().tier ? 2 : 1, 0);
}
SCENARIO("C06", "sequential", QUICK, THOROUGH, "every sequence of up to 5 (thorough 7) operations out of 9 by one thread")
{
	int n = 1 + choose(g().tier ? 7 : 5); std::vector<std::vector<Op>> p(1); int size = 0;
	static const int A[] = { 0, 2, 5, 6, 9, 7, 1, 3, 4 };
	for (int i = 0; i < n; i++) { int k = choose(9); const Op &o = OPS[A[k]]; bool take = o.k == GETW || o.k == BATCHW; if (take && !size) return; if (o.k == ADD) size++; else if (o.k == GET0 || o.k == GETW) size -= size > 0; else if (o.k == BATCH0 || o.k == BATCHW) size -= o.arg > 0 && o.arg < size ? o.arg : size; p[0].push_back(o); }
	shard_here(); execute(p, 0, 0, 0);
}
SCENARIO("C06", "many", QUICK, THOROUGH, "adding 1..600, 32769 or 70000 elements (beyond one block of the deque) and removing them singly or in batches of 1, 7, 64, 128, 1000, the largest number, all")
{
	static const int B[] = { 0, 1, 7, 64, 128, -1, 1000, 2147483647 }; int n = 1 + choose(602), b = B[choose(8)]; if (n > 600) n = n == 601 ? 32769 : 70000; st::reset(); pool_used = 0; memset(under_, 0, sizeof under_); st::on_sleep = NULL; nontrivial();
	static char buf[sizeof(Q)] __attribute__((aligned(64))); memset(buf, st::GARBAGE, sizeof buf); Q &q = *new (buf) Q; for (int i = 0; i < n; i++) { El e(i); q.add(e); } MC_CHECK(q.size() == (size_t) n, "the size is %zu after %d additions", q.size(), n); step(n);
	int at = 0;
	while (at < n)
	{
		if (b == 0) { El x; MC_CHECK(q.get(x, at & 1) == 0 && whole(x) == at, "element %d of %d: %d", at, n, x.a); at++; }
		else { std::deque<El> out; MC_CHECK(q.get(out, b, at & 1) == 0, "batch fails"); size_t want = b > 0 && b < n - at ? b : n - at; MC_CHECK(out.size() == want, "a batch of %d out of %d gives %zu", b, n - at, out.size()); for (auto &x : out) { MC_CHECK(whole(x) == at, "element %d: %d", at, x.a); at++; } }
		MC_CHECK(q.size() == (size_t) (n - at), "the size is %zu, not %d", q.size(), n - at);
	}
	El x; MC_CHECK(q.get(x, 0) == -1, "the queue is not empty at the end"); q.~Q();
}
// every signal and addition wakes one sleeper
SCENARIO("C07", "wake", QUICK, THOROUGH, "1..3 consumers asleep, then 1..3 (thorough 4) additions or signals by one or two threads, 1 (thorough 2) preemptions: each wakes one sleeper while there is one")
{
	int nc = 1 + choose(3), two = choose(2), nx = 1 + choose(g().tier ? 4 : 3); std::vector<int> x; for (int i = 0; i < nx; i++) x.push_back(choose(2));
	std::vector<int> how; for (int i = 0; i < nc; i++) how.push_back(choose(2)); shard_here();
	st::reset(); pool_used = 0; memset(under_, 0, sizeof under_); H.clear(); now_ = 0; fresh = 0; initial.clear(); st::on_sleep = sleeps; nontrivial();
	static char buf[sizeof(Q)] __attribute__((aligned(64))); Q *q; memset(buf, st::GARBAGE, sizeof buf); { Under u; q = new (buf) Q; }
	static const char *const N[] = { "consumer 0", "consumer 1", "consumer 2", "producer 0", "producer 1" };
	sched::Run r(0); for (int i = 0; i < nc; i++) { int h = how[i]; r.add(N[i], [q, h, i]() { Op o = { h ? BATCHW : GETW, 1 }; perform(*q, o, i); }); }
	// the consumers go to sleep first
	{ sched::Run &rr = r; g().devs_left = 0; rr.fixed = true; rr.go(); rr.fixed = false; for (int i = 0; i < nc; i++) MC_CHECK(st::asleep_since[i], "a consumer does not wait on an empty queue"); }
	int split = two ? (nx + 1) / 2 : nx; const std::vector<int> *px = &x;
	auto producer = [px, q](int a, int b, int t) { for (int i = a; i < b; i++) { Op o = { (*px)[i] ? ADD : SIGNAL, 0 }; perform(*q, o, t); } };
	int t0 = r.n; r.add(N[3], [=]() { producer(0, split, t0); }); if (split < nx) { int t1 = r.n; r.add(N[4], [=]() { producer(split, nx, t1); }); }
	sched::nregions = 0; sched::region_add(buf, sizeof buf, "queue"); sched::region_add(pool, sizeof pool, "pool");
	r.preempts = g().tier ? 2 : 1; r.cur = -1; r.go(); sched::nregions = 0;
	int asleep = 0, adds = 0, got = 0, none = 0; for (int i = 0; i < nc; i++) asleep += r.c[i].state == sched::BLOCKED; for (int i : x) adds += i;
	for (auto &e : H) if (e.ret && (e.op.k == GETW || e.op.k == BATCHW)) { if (e.rc == 0) got += e.got.size(); else none++; }
	for (int i = 0; i < r.n; i++) MC_CHECK(r.c[i].state == sched::DONE || st::asleep_since[i], "%s is stuck; %s", r.c[i].name, history().c_str());
	int woken = nc - asleep; MC_CHECK(woken >= (nx < nc ? nx : nc), "%d additions and signals wake only %d of %d sleepers; %s", nx, woken, nc, history().c_str());
	size_t left; { Under u; left = q->size(); } MC_CHECK((int) left == adds - got, "%d added, %d taken, %zu left", adds, got, left);
	MC_CHECK(!(asleep && left), "a consumer sleeps although %zu elements are there; %s", left, history().c_str()); outcome(hmix(hmix(got, none), asleep));
	{ Under u; q->~Q(); }
}
MC_MAIN
