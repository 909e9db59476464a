// C12..C14: the shared-memory queue on simulated System V IPC; a process is a coroutine with its own object and attachment.
#include "simipc.hpp"
#include <deque>
#include <new>
#include <set>
#include "coda/shm_queue.hpp"
using namespace mc;
typedef std::string S;
typedef uint64_t u64;

struct Rec : shm_queue::serializable // 16 bytes that belong together
{
	u64 id; Rec(u64 i = 0) : id(i) {}
	bool serialize(void *p) const { ((u64 *) p)[0] = id; ((u64 *) p)[1] = id * 3 + 1; return true; }
	bool deserialize(const void *p)
	{
		const u64 *w = (const u64 *) p; u64 a = w[0], b = w[1]; if (!a && !b) return false;
		sched::quiet++; if (b != a * 3 + 1) fail("a record is received modified: %lld/%lld", (long long) a, (long long) b); sched::quiet--;
		id = a; return true;
	}
	size_t size() const { return 16; }
};
typedef shm_queue::queue<Rec> Q;
enum { NPROC = 5 };
static const char *const PN[] = { "P0", "P1", "P2", "P3", "P4" };
typedef std::vector<u64> Box;
static S show(const Box &b) { S s = "["; for (u64 x : b) s += (s.size() > 1 ? " " : "") + std::to_string(x); return s + "]"; }
static S show(const std::deque<Box> &q) { S s; for (auto &b : q) s += show(b); return s.empty() ? "nothing" : s; }
static char buf_[NPROC][sizeof(Q)] __attribute__((aligned(64)));
static Q &obj(int i) { return *(Q *) buf_[i]; }
static Q &make(int i) { memset(buf_[i], 0xA5, sizeof buf_[i]); return *new (buf_[i]) Q; }
struct As { int old; As(int p) : old(ipc::as) { ipc::as = p; } ~As() { ipc::as = old; } };
static const char *const FN = "/q";
static uint32_t BS = 32, NB = 3; static u64 fresh;
static Q &up(int i) { if (ipc::attached(i)) ipc::process_ends(i); Q &q = make(i); As a(i); q.connect(FN, BS, NB); return q; }
static void down(int i) { Q &q = obj(i); As a(i); q.~Q(); if (!strcmp(g().prop, "C13")) MC_CHECK(!ipc::attached(i), "destroying %s leaves the memory attached", PN[i]); }
static bool unlocked() { for (int i = 0; i < ipc::NSETS; i++) if (ipc::sets[i].alive) for (int p = 0; p < ipc::NP; p++) for (int k = 0; k < ipc::sets[i].n; k++) if (ipc::sets[i].adj[p][k]) return false; return true; }

// takes one box: false if there is none
static bool take(Q &q, Box &b, short fl = IPC_NOWAIT, long usec = 0)
{
	b.clear(); if (!q.unflush(fl, usec)) return false;
	Rec r; while (q.get(r)) { sched::quiet++; b.push_back(r.id); if (b.size() > BS) fail("a box does not end"); sched::quiet--; }
	return true;
}
static void put(Q &q, u64 id) { Rec r(id); if (!q.put(r)) fail("put of a record that fits fails"); }

// ------------------------------------------------------------------ C12: sequences
static void sequences(uint32_t bs, uint32_t nb, int depth)
{
	ipc::reset(); BS = bs; NB = nb; fresh = 0; size_t per = bs / 16; for (int i = 0; i < 4; i++) up(i);
	std::deque<Box> m; Box cur[2]; int n = 0; u64 dropped = 0;
	auto flushed = [&](int w) { if (m.size() < nb - 1) m.push_back(cur[w]); else dropped++; cur[w].clear(); };
	for (; n < depth; n++)
	{
		uint32_t c = choose(8); if (!c) break; step();
		switch (c)
		{
		case 1: case 2: { int w = c - 1; As a(w); u64 id = ++fresh; note("P%d puts %d", w, (int) id); put(obj(w), id); if (cur[w].size() == per) flushed(w); cur[w].push_back(id); break; }
		case 3: case 4: { int w = c - 3; if (cur[w].empty()) return; As a(w); note("P%d flushes", w); obj(w).flush(); flushed(w); break; }
		case 5: case 6:
		{
			int r = c - 3; As a(r); Box b; bool k = take(obj(r), b); note("P%d takes %s", r, k ? show(b).c_str() : "nothing");
			MC_CHECK(k == !m.empty(), "taking a box %s; the queue holds %s", k ? "succeeds" : "fails", show(m).c_str()); if (k) { MC_CHECK(b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); }
			break;
		}
		case 7:
		{
			As a(2); static const long T[] = { 0, 1, 999999, 1000000, 2500000 }; long t = T[n % 5]; Box b; u64 s0 = ipc::slept_us[2]; bool k = take(obj(2), b, 0, t); u64 s = ipc::slept_us[2] - s0; note("P2 takes within %ld us", t);
			MC_CHECK(k == !m.empty(), "taking a box with a timeout %s; the queue holds %s", k ? "succeeds" : "fails", show(m).c_str()); if (k) { MC_CHECK(b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); MC_CHECK(!s, "a reader waits although a box is there"); }
			else MC_CHECK(s <= (u64) t, "a reader waits for %llu us, its timeout is %ld us", (unsigned long long) s, t);
			break;
		}
		}
		for (int i = 0; i < 4; i++) { As a(i); int k = obj(i).boxes_in_queue(); MC_CHECK(k == (int) m.size() && obj(i).pages_used() == m.size(), "%d boxes are reported, %zu are queued", k, m.size()); }
		state(hmix(hmix(m.size(), cur[0].size()), hmix(cur[1].size(), nb)));
	}
	if (n > 2) nontrivial();
	{ As a(3); Box b; while (!m.empty()) { MC_CHECK(take(obj(3), b) && b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); } MC_CHECK(!take(obj(3), b), "a box is received twice: %s", show(b).c_str()); }
	for (int i = 0; i < 4; i++) down(i); MC_CHECK(unlocked(), "a lock is still held at the end"); outcome(hmix(dropped, n));
}
SCENARIO("C12", "sequences/2", QUICK, THOROUGH, "every sequence of up to 7 (thorough 9) operations (puts and flushes of two writers, takes of two readers) on a ring of 2 boxes of 1 record") { sequences(16, 2, g().tier ? 9 : 7); }
SCENARIO("C12", "sequences/3", QUICK, THOROUGH, "as sequences/2 on a ring of 3 boxes of 2 records, up to 8 (thorough 9)") { sequences(32, 3, g().tier ? 9 : 8); }
SCENARIO("C12", "sequences/4", THOROUGH, THOROUGH, "as sequences/2 on a ring of 4 boxes of 1 record, up to 9") { sequences(16, 4, 9); }
SCENARIO("C12", "wrap", QUICK, THOROUGH, "rings of 2..9 boxes of 1..5 records with a rest of 0..15 bytes: batches of every size put and taken alternately, several times around")
{
	uint32_t nb = 2 + choose(8), per = 1 + choose(5), rest = choose(4) * 5, k = 1 + choose(20); int level = choose(nb); nontrivial(); ipc::reset(); BS = per * 16 + rest; NB = nb; fresh = 0; up(0); up(1); u64 want = 1; std::deque<Box> m; Box cur;
	Q &w = obj(0), &r = obj(1); auto drain = [&](size_t left) { As a(1); Box b; while (m.size() > left) { MC_CHECK(take(r, b) && b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); } };
	auto flushed = [&]() { if (m.size() < nb - 1) m.push_back(cur); cur.clear(); };
	for (int round = 0; round < 30; round++)
	{
		for (uint32_t i = 0; i < k; i++) { As a(0); if (cur.size() == per) { flushed(); } put(w, ++fresh); cur.push_back(fresh); MC_CHECK(w.boxes_in_queue() == (int) m.size(), "%d boxes reported, %zu queued", w.boxes_in_queue(), m.size()); ipc::as = -1; if (m.size() == nb - 1 && round % 3) drain(level); step(); }
		{ As a(0); w.flush(); flushed(); } drain(round & 1 ? 0 : level);
	}
	drain(0); { As a(1); Box b; MC_CHECK(!take(r, b), "the queue is not empty"); } outcome(want); down(0); down(1);
}
SCENARIO("C12", "wrap/large", QUICK, THOROUGH, "rings of 127..70000 boxes of 1 record (35 lengths around powers of two) and rings of 3 boxes of 127..70000 records: filled until boxes are dropped (at 32767, where the semaphore ends, at the latest), partly and completely emptied, three times around")
{
	bool wide = choose(2); uint32_t n = biglen(), left = choose(3); shard_here(); nontrivial(); ipc::reset(); BS = wide ? n * 16 + 7 : 16; NB = wide ? 3 : n; fresh = 0; up(0); up(1); std::deque<Box> m; Q &w = obj(0), &r = obj(1); size_t per = wide ? n : 1, cap = NB - 1 > 32767 ? 32767 : NB - 1; // a semaphore counts to 32767
	for (int round = 0; round < 3; round++)
	{
		size_t k = round == 1 ? cap / 2 + 1 : cap + 2;
		{ As a(0); for (size_t i = 0; i < k; i++) { Box b; size_t len = wide && i % 2 ? per / 2 + 1 : per; for (size_t j = 0; j < len; j++) { put(w, ++fresh); b.push_back(fresh); } w.flush(); if (m.size() < cap) m.push_back(b); step(); int c = w.boxes_in_queue(); MC_CHECK(c == (int) m.size() && w.pages_used() == m.size(), "%d boxes are reported, %zu are queued", c, m.size()); } }
		{ As a(1); size_t keep = left == 0 ? 0 : left == 1 ? m.size() / 2 : m.size() > 1 ? 1 : 0; Box b; while (m.size() > keep) { MC_CHECK(take(r, b), "no box although %zu are queued", m.size()); MC_CHECK(b == m.front(), "received a box of %zu records starting with %llu, expected %zu starting with %llu", b.size(), (unsigned long long) (b.empty() ? 0 : b[0]), m.front().size(), (unsigned long long) m.front()[0]); m.pop_front(); } }
	}
	{ As a(1); Box b; while (!m.empty()) { MC_CHECK(take(r, b) && b == m.front(), "the last boxes are wrong"); m.pop_front(); } MC_CHECK(!take(r, b), "the queue is not empty"); outcome(n); } down(0); down(1);
}
// records of different sizes, by the reader and writer classes
struct Var : shm_queue::serializable
{
	S s; bool refuses; Var(const S &x = S(), bool r = false) : s(x), refuses(r) {}
	bool serialize(void *p) const { if (refuses) return false; char *c = (char *) p; c[0] = (char) (s.size() + 1); memcpy(c + 1, s.data(), s.size()); return true; }
	bool deserialize(const void *p) { const char *c = (const char *) p; if (!c[0]) return false; s.assign(c + 1, (unsigned char) c[0] - 1); return true; }
	size_t size() const { return 1 + s.size(); }
};
SCENARIO("C12", "variable", QUICK, THOROUGH, "every sequence of up to 6 (thorough 7) operations (put of a record of 1, 2, 7, 8, 15, 16 or 17 bytes, flush, take, put of a record that refuses to be written) on boxes of 16 bytes: whole records, in order, each box as full as it can be; a record that does not fit or refuses is reported as not put")
{
	typedef shm_queue::writer<Var> W; typedef shm_queue::reader<Var> R; static const int L[] = { 0, 1, 6, 7, 14, 15, 16 }; int depth = g().tier ? 7 : 6, n = 0; std::vector<int> ops; for (; n < depth; n++) { int c = choose(11); if (!c) break; ops.push_back(c); if (n == 1) shard_here(); } if (n < 2) shard_here(); if (n > 2) nontrivial();
	ipc::reset(); W w; R r; { As a(0); w.connect(FN, 16, 4); } { As a(1); r.connect(FN, 16, 4); } std::deque<std::vector<S>> m; std::vector<S> cur; size_t used = 0; int id = 0;
	auto flushed = [&]() { if (m.size() < 3) m.push_back(cur); cur.clear(); used = 0; };
	auto take = [&]() {
		As a(1); bool k = r.unflush(IPC_NOWAIT, 0); MC_CHECK(k == !m.empty(), "taking a box %s; %zu are queued", k ? "succeeds" : "fails", m.size()); if (!k) return;
		std::vector<S> b; for (;;) { Var v; if (!r.get(v)) break; b.push_back(v.s); if (b.size() > 16) fail("a box does not end"); } MC_CHECK(b == m.front(), "received %zu records, expected %zu, or another content", b.size(), m.front().size()); m.pop_front(); };
	for (int c : ops)
	{
		step(); if (c == 9) { take(); continue; } As a(0); if (c == 8) { if (cur.empty()) return; w.flush(); flushed(); continue; }
		if (c == 10) { if (cur.empty() || m.size() >= 3) return; /* whether the box goes is not judged; a dropped one would not be seen */ bool ok = w.put(Var(S(2, 'x'), true)); MC_CHECK(!ok, "put of a record that could not be written succeeds"); if (w.boxes_in_queue() == (int) m.size() + 1) flushed(); MC_CHECK(w.boxes_in_queue() == (int) m.size(), "%d boxes are reported, %zu are queued", w.boxes_in_queue(), m.size()); continue; }
		S s(L[c - 1], 0); for (size_t i = 0; i < s.size(); i++) s[i] = (char) (++id * 7); Var v(s); bool ok = w.put(v); bool fits = used + v.size() <= 16; if (!fits) { if (!cur.empty()) flushed(); else return; /* an empty box is flushed: not judged */ fits = v.size() <= 16; }
		MC_CHECK(ok == fits, "put of a record of %zu bytes %s", v.size(), ok ? "succeeds" : "fails"); if (ok) { cur.push_back(s); used += v.size(); }
		MC_CHECK(w.boxes_in_queue() == (int) m.size(), "%d boxes are reported, %zu are queued", w.boxes_in_queue(), m.size());
	}
	if (!cur.empty()) { As a(0); w.flush(); flushed(); } while (!m.empty()) take(); take(); outcome(n); { As a(0); w.disconnect(); } { As a(1); r.disconnect(); }
}
SCENARIO("C12", "registers", QUICK, THOROUGH, "every sequence of up to 4 (thorough 5) of: set one of 12 registers (or one of 3 that do not exist) to one of 2 values through one of 2 processes; all registers read after each step; boxes stay as they are")
{
	ipc::reset(); BS = 32; NB = 3; fresh = 0; up(0); up(1); uint32_t m[12]; memset(m, 0, sizeof m); { As a(0); put(obj(0), 7); obj(0).flush(); }
	int d = g().tier ? 4 : 3, n = 0; for (; n < d; n++)
	{
		uint32_t c = choose(1 + 15 * 2); if (!c) break; c--; uint32_t i = c / 2, v = c & 1 ? 0xFFFFFFFFu : n + 1; int p = n & 1; { As a(p); obj(p).set_register(i == 14 ? 200 : i, v); } if (i < 12) m[i] = v; step();
		for (int q = 0; q < 2; q++) { As a(q); MC_CHECK(obj(q).registers_number() == 12, "registers"); for (int k = 0; k < 12; k++) { uint32_t x = obj(q).get_register(k); MC_CHECK(x == m[k], "register %d is %u, expected %u", k, x, m[k]); } MC_CHECK(obj(q).get_register(12) == 0 && obj(q).get_register(255) == 0, "a register that does not exist"); }
	}
	if (n) nontrivial(); { As a(1); Box b; MC_CHECK(take(obj(1), b) && b == Box(1, 7), "the box is %s", show(b).c_str()); MC_CHECK(!take(obj(1), b), "another box"); } down(0); down(1);
}
// ------------------------------------------------------------------ C12: concurrency
enum Kind { FLUSH, TAKE, TAKEW, SIZE, FLUSH2 };
struct Ev { int p; Kind k; Box box; bool ok; int num; uint64_t call, ret; };
static std::vector<Ev> H_; static uint64_t now_;
static S history() { static const char *const N[] = { "flush", "take", "take(wait)", "size", "flush" }; S s; for (auto &e : H_) { s += "P" + std::to_string(e.p) + " " + N[e.k]; if (!e.ret) s += " not finished; "; else s += e.k == SIZE ? " = " + std::to_string(e.num) + "; " : e.k == FLUSH || e.ok ? " " + show(e.box) + "; " : S(" nothing; "); } return s; }
static void perform(int p, Kind k)
{
	Q &q = obj(p); sched::quiet++; Ev e; e.p = p; e.k = k == FLUSH2 ? FLUSH : k; e.ok = false; e.num = 0; e.ret = 0; if (e.k == FLUSH) { e.box.push_back(++fresh); if (k == FLUSH2) e.box.push_back(++fresh); for (u64 x : e.box) put(q, x); } e.call = ++now_; size_t at = H_.size(); H_.push_back(e); note("%s starts %s", PN[p], e.k == FLUSH ? ("flush " + show(e.box)).c_str() : k == SIZE ? "size" : "take"); sched::quiet--;
	bool ok = true; int num = 0; Box b;
	switch (e.k) { case FLUSH: q.flush(); break; case TAKE: ok = take(q, b); break; case TAKEW: ok = take(q, b, 0, 1000); break; case SIZE: num = q.boxes_in_queue(); break; default: break; }
	sched::quiet++; Ev &r = H_[at]; r.ok = ok; r.num = num; if (r.k == TAKE || r.k == TAKEW) r.box = b; r.ret = ++now_; note("%s ends: %s %s", PN[p], ok ? "ok" : "nothing", show(r.box).c_str()); sched::quiet--;
}
// an order of steps, consistent with real time; a successful take claims a box (the reported number goes down) and then removes it
static bool lin(std::vector<int> &done, std::deque<Box> &q, int count, size_t left, const std::deque<Box> &final)
{
	if (!left) return q == final && count == (int) q.size();
	uint64_t minret = ~0ull; for (size_t i = 0; i < H_.size(); i++) if (done[i] < 2 && H_[i].ret && H_[i].ret < minret) minret = H_[i].ret;
	for (size_t i = 0; i < H_.size(); i++)
	{
		const Ev &e = H_[i]; if (done[i] == 2 || !e.ret || e.call > minret) continue;
		std::deque<Box> save; int d = done[i]; bool ok = false;
		switch (e.k)
		{
		case FLUSH: save = q; if (q.size() < NB - 1) { q.push_back(e.box); done[i] = 2; ok = lin(done, q, count + 1, left - 1, final); } else { done[i] = 2; ok = lin(done, q, count, left - 1, final); } q = save; break;
		case SIZE: if (e.num == count) { done[i] = 2; ok = lin(done, q, count, left - 1, final); } break;
		default:
			if (!e.ok) { if (count == 0) { done[i] = 2; ok = lin(done, q, count, left - 1, final); } }
			else if (d == 0) { if (count > 0) { done[i] = 1; ok = lin(done, q, count - 1, left, final); } }
			else if (!q.empty() && q.front() == e.box) { save = q; q.pop_front(); done[i] = 2; ok = lin(done, q, count, left - 1, final); q = save; }
		}
		done[i] = d; if (ok) return true;
	}
	return false;
}
static void concurrent(const std::vector<std::vector<Kind>> &prog, int pre, int preempts, int intr)
{
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; int n = prog.size(); std::deque<Box> m; for (int i = 0; i <= n; i++) up(i);
	// the ring starts somewhere
	{ As a(n); Box b; for (int i = 0; i < 1; i++) { put(obj(n), 90); obj(n).flush(); take(obj(n), b); obj(n).~Q(); make(n).connect(FN, BS, NB); } for (int i = 0; i < pre; i++) { put(obj(n), 100 + i); obj(n).flush(); m.push_back(Box(1, 100 + i)); } }
	sched::Run r(preempts); for (int i = 0; i < n; i++) { const std::vector<Kind> *p = &prog[i]; r.add(PN[i], [p, i]() { for (Kind k : *p) perform(i, k); }); }
	ipc::intr_on = intr > 0; g().devs_left = intr; r.go(); g().devs_left = 0; ipc::intr_on = false; if (ipc::contended) nontrivial();
	MC_CHECK(!r.deadlock, "processes wait for ever: %s; %s", r.blocked().c_str(), history().c_str()); MC_CHECK(unlocked(), "the lock is still held; %s", history().c_str());
	std::deque<Box> rest; { As a(n); Q &q = obj(n); int k = q.boxes_in_queue(); Box b; q.~Q(); make(n).connect(FN, BS, NB); while (take(obj(n), b)) { rest.push_back(b); if (rest.size() > 20) fail("the queue never runs empty"); } MC_CHECK(k == (int) rest.size(), "%d boxes are reported, %zu are there; %s", k, rest.size(), history().c_str()); }
	std::vector<int> done(H_.size(), 0); std::deque<Box> q = m; MC_CHECK(lin(done, q, (int) m.size(), H_.size(), rest), "no order explains: before %s; %s%safterwards %s", show(m).c_str(), history().c_str(), ipc::what.empty() ? "" : (ipc::what + "; ").c_str(), show(rest).c_str());
	u64 h = 1; for (auto &e : H_) { h = hmix(hmix(h, e.ok), hmix(e.num, e.box.size())); for (u64 x : e.box) h = hmix(h, x); } outcome(h);
	for (int i = 0; i <= n; i++) down(i);
}
static void choose_and_run(const std::vector<int> &len, int alpha, uint32_t bs, uint32_t nb, int preempts, int intr)
{
	static const Kind A[] = { FLUSH, TAKE, TAKEW, FLUSH2, SIZE }; BS = bs; NB = nb; int pre = choose(nb); std::vector<std::vector<Kind>> p; int last = -1;
	for (size_t t = 0; t < len.size(); t++)
	{
		std::vector<Kind> o; int code = 0; for (int i = 0; i < len[t]; i++) { int k = choose(alpha); code = code * alpha + k; o.push_back(A[k]); }
		if (t && len[t] == len[t - 1] && code < last) return; last = code; p.push_back(o);
	}
	// one object is not used for putting and taking alternately: its box is the same
	for (auto &o : p) { bool f = false, tk = false; for (Kind k : o) { f = f || k == FLUSH || k == FLUSH2; tk = tk || k == TAKE || k == TAKEW; } if (f && tk) return; }
	shard_here(); concurrent(p, pre, preempts, intr);
}
SCENARIO("C12", "pairs/2+2", QUICK, THOROUGH, "2 processes of 2 operations out of 5, ring of 3 boxes holding 0..2, up to 2 (thorough 3) preemptions at every system call, load and store") { choose_and_run(std::vector<int>(2, 2), 5, 32, 3, g().tier ? 3 : 2, 0); }
SCENARIO("C12", "pairs/3+3", QUICK, THOROUGH, "2 processes of 3 operations out of 3, ring of 2 boxes holding 0..1, up to 1 (thorough 2) preemptions") { choose_and_run(std::vector<int>(2, 3), 3, 16, 2, g().tier ? 2 : 1, 0); }
SCENARIO("C12", "triples", QUICK, THOROUGH, "3 processes of 1 operation out of 5, ring of 3 boxes holding 0..2, up to 2 (thorough 3) preemptions") { choose_and_run(std::vector<int>(3, 1), 5, 32, 3, g().tier ? 3 : 2, 0); }
SCENARIO("C12", "triples/2", THOROUGH, THOROUGH, "3 processes of 2 operations out of 3, ring of 2 boxes, up to 1 preemption") { choose_and_run(std::vector<int>(3, 2), 3, 16, 2, 1, 0); }
SCENARIO("C12 C13", "interrupted", QUICK, THOROUGH, "2 processes of 2 operations out of 4 with up to 2 interrupted waits, up to 2 (thorough 3) preemptions")
{
	choose_and_run(std::vector<int>(2, 2), 4, 32, 3, g().tier ? 3 : 2, 2);
}
// ------------------------------------------------------------------ C13: connecting
static bool connects(Q &q, S *why = NULL, const char *fn = FN, uint32_t bs = BS, uint32_t nb = NB) { try { q.connect(fn, bs, nb); return true; } catch (const std::exception &e) { if (why) *why = e.what(); return false; } }
static bool reg_ok(Q &q, int i, uint32_t want) { return q.get_register(i) == want; }
static bool seen_before() // phase two from this state was explored on another path
{
	u64 h = 1; for (int i = 0; i < ipc::NSETS; i++) if (ipc::sets[i].alive) { auto &s = ipc::sets[i]; h = hmix(h, s.key); for (int k = 0; k < s.n; k++) { h = hmix(h, s.val[k]); for (int p = 0; p < ipc::NP; p++) h = hmix(h, s.adj[p][k] + 9); } }
	for (int i = 0; i < ipc::NSEGS; i++) if (ipc::segs[i].alive) { h = hbytes(h, ipc::segs[i].map[ipc::NP - 1], ipc::segs[i].size); for (int p = 0; p < ipc::NP; p++) h = hmix(h, ipc::segs[i].attached[p]); }
	for (int i = 0; i < NPROC; i++) { h = hmix(h, obj(i).semid() + 7); h = hmix(h, obj(i).shmid() + 7); }
	u64 path = 3; if (g().replaying) return false; for (size_t i = 0; i < g().pos; i++) path = hmix(path, g().path[i].c);
	static std::map<std::pair<const void *, u64>, u64> seen; auto k = std::make_pair((const void *) g().cur, h); auto i = seen.find(k); if (i == seen.end()) { seen[k] = path; return false; } return i->second != path;
}
static void connect_race(int n, int pre, int preempts, int faults, bool intr, int foreign, int preempts2)
{
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; BS = 32; NB = 6; std::deque<Box> m; static bool up_[NPROC]; memset(up_, 0, sizeof up_); uint32_t reg = 0; for (int i = 0; i < NPROC; i++) make(i);
	if (pre) { Q &q = up(3); As a(3); put(q, 50); q.flush(); q.set_register(3, 1234); reg = 1234; m.push_back(Box(1, 50)); if (pre == 2) q.disconnect(); }
	ipc::faults_on = faults > 0 && !intr; ipc::intr_on = intr; g().devs_left = faults; static bool foreign_up; foreign_up = false;
	sched::Run r(preempts);
	for (int i = 0; i < n; i++) r.add(PN[i], [=]() {
		Q &q = obj(i); S why;
		if (foreign && i == n - 1)
		{
			uint32_t bs = foreign == 1 ? 64 : foreign == 2 ? 32 : 16, nb = foreign == 1 ? 3 : foreign == 2 ? 3 : 6; bool k = connects(q, &why, FN, bs, nb); foreign_up = k; sched::quiet++; MC_CHECK(k || !ipc::attached(i), "a refused connect leaves the memory attached"); MC_CHECK(!(k && pre), "a connect with another geometry succeeds"); sched::quiet--; if (k) { q.disconnect(); sched::quiet++; MC_CHECK(!ipc::attached(i), "disconnect leaves the memory attached"); sched::quiet--; } return;
		}
		for (int t = 0; ; t++)
		{
			int f0 = ipc::faults; if (connects(q, &why)) break;
			sched::quiet++; note("P%d is refused: %s", i, why.c_str()); MC_CHECK(ipc::faults > 0 || foreign, "P%d cannot connect (%s): %s", i, ipc::what.c_str(), why.c_str()); MC_CHECK(!ipc::attached(i), "a refused connect (%s) leaves the memory attached", ipc::what.c_str()); sched::quiet--;
			if (foreign) return; if (t > 4) fail("P%d cannot connect after %s: %s", i, ipc::what.c_str(), why.c_str());
		}
		up_[i] = true; sched::quiet++; MC_CHECK(ipc::attached(i), "connect succeeds without attaching"); sched::quiet--;
	});
	r.go(); g().devs_left = 0; ipc::faults_on = ipc::intr_on = false; if (ipc::contended || ipc::faults) nontrivial();
	MC_CHECK(!r.deadlock, "waiting for ever: %s (%s)", r.blocked().c_str(), ipc::what.c_str()); MC_CHECK(unlocked(), "the lock is still held (%s)", ipc::what.c_str());
	int own = foreign ? n - 1 : n; for (int i = 0; i < own; i++) MC_CHECK(up_[i] != foreign_up, "%s", foreign_up ? "two geometries share the memory" : "P0 never came up"); outcome(hmix(foreign_up, ipc::faults));
	if (foreign && foreign_up) { for (int i = 0; i < NPROC; i++) down(i); return; }
	// phase two: is there mutual exclusion?
	if (seen_before()) return; // the objects of this execution are abandoned
	up(4); { As a(4); MC_CHECK(reg_ok(obj(4), 3, reg), "register 3 is lost (%s)", ipc::what.c_str()); }
	if (own == 1) { up(1); own = 2; }
	{ sched::Run r2(preempts2); for (int i = 0; i < own; i++) r2.add(PN[i], [=]() { perform(i, FLUSH2); obj(i).set_register(i, 70 + i); }); r2.go(); MC_CHECK(!r2.deadlock, "waiting for ever after connecting: %s (%s)", r2.blocked().c_str(), ipc::what.c_str()); }
	std::deque<Box> rest; { As a(4); Box b; Q &q = obj(4); MC_CHECK(reg_ok(q, 3, reg), "register 3 is lost"); for (int i = 0; i < own; i++) MC_CHECK(reg_ok(q, i, 70 + i), "register %d is lost", i); while (take(q, b)) { rest.push_back(b); if (rest.size() > 20) fail("the queue never runs empty"); } }
	std::vector<int> done(H_.size(), 0); std::deque<Box> q = m; MC_CHECK(lin(done, q, (int) m.size(), H_.size(), rest), "after connecting (%s), no order explains: before %s; %safterwards %s", ipc::what.c_str(), show(m).c_str(), history().c_str(), show(rest).c_str());
	for (int i = 0; i < NPROC; i++) down(i);
}
SCENARIO("C13", "race/2", QUICK, THOROUGH, "2 processes connect (new queue, queue in use, left queue), up to 3 (thorough 5) preemptions; then both flush, 2 preemptions") { int pre = choose(3); shard_here(); connect_race(2, pre, g().tier ? 5 : 3, 0, false, 0, 2); }
SCENARIO("C13", "race/3", QUICK, THOROUGH, "3 processes connect to a new queue, up to 2 (thorough 3) preemptions; then all flush, 1 (thorough 2) preemptions") { int pre = choose(2); shard_here(); connect_race(3, pre, g().tier ? 3 : 2, 0, false, 0, g().tier ? 2 : 1); }
SCENARIO("C13", "faults/1", QUICK, THOROUGH, "1 process connects with up to 3 (thorough 4) failing calls and tries again; then two flush") { int pre = choose(3); shard_here(); connect_race(1, pre, 0, g().tier ? 4 : 3, false, 0, 2); }
SCENARIO("C13", "faults/2", QUICK, THOROUGH, "2 processes connect with 1 (thorough 2) failing calls, 2 preemptions, and try again; then two flush") { int pre = choose(3); shard_here(); connect_race(2, pre, 2, g().tier ? 2 : 1, false, 0, 1); }
SCENARIO("C13", "interrupted/connect", QUICK, THOROUGH, "2 processes connect with up to 2 interrupted waits, 2 (thorough 3) preemptions") { int pre = choose(3); shard_here(); connect_race(2, pre, g().tier ? 3 : 2, 2, true, 0, 1); }
SCENARIO("C13", "foreign", QUICK, THOROUGH, "a process with another box size, number of boxes or both among 1..2 others: new queue, queue in use, left queue; 2 preemptions") { int pre = choose(3), n = 2 + choose(2), f = 1 + choose(3); shard_here(); connect_race(n, pre, 2, 0, false, f, 1); }
SCENARIO("C13", "sequences", QUICK, THOROUGH, "every sequence of up to 5 (thorough 6) of: connect, connect to a missing file, with another geometry, disconnect, flush, take, destroy and re-create, on two processes")
{
	ipc::reset(); BS = 16; NB = 9; fresh = 0; std::deque<Box> m; bool on[2] = { false, false }; int depth = g().tier ? 6 : 5, n = 0; bool created = false; for (int i = 0; i < 2; i++) make(i);
	for (int d = 0; d < depth; d++)
	{
		uint32_t c = choose(15); if (!c) break; n++; int p = (c - 1) / 7, what = (c - 1) % 7; As a(p); Q &q = obj(p); step(); S why;
		switch (what)
		{
		case 0: { note("P%d connects", p); bool k = connects(q, &why); if (!on[p]) { MC_CHECK(k, "connect fails: %s", why.c_str()); on[p] = created = true; } else { MC_CHECK(!k, "a second connect of a connected object succeeds"); on[p] = ipc::attached(p); } break; }
		case 1: note("P%d connects to a missing file", p); MC_CHECK(!connects(q, &why, "/missing"), "connecting with a missing key file succeeds"); on[p] = on[p] && ipc::attached(p); break;
		case 2: if (!created) return; note("P%d connects with 4 boxes of 32 bytes", p); MC_CHECK(!connects(q, &why, FN, 32, 4), "connecting with another geometry succeeds"); on[p] = on[p] && ipc::attached(p); break;
		case 3: note("P%d disconnects", p); q.disconnect(); on[p] = false; break;
		case 4: if (!on[p] || p) return; note("P%d flushes", p); put(q, ++fresh); q.flush(); m.push_back(Box(1, fresh)); break;
		case 5: { if (on[p] && !p) return; if (!on[p]) { Box b; MC_CHECK(!take(q, b), "an object that is not connected receives something"); break; } note("P%d takes", p); Box b; bool k = take(q, b); MC_CHECK(k == !m.empty(), "take %s", k ? "succeeds" : "fails"); if (k) { MC_CHECK(b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); } break; }
		case 6: note("P%d's object is destroyed", p); q.~Q(); make(p); on[p] = false; break;
		}
		for (int x = 0; x < 2; x++) { MC_CHECK(ipc::attached(x) == on[x], "P%d's memory is %s", x, on[x] ? "not attached" : "still attached"); if (on[x]) { As b(x); int k = obj(x).boxes_in_queue(); MC_CHECK(k == (int) m.size(), "%d boxes are reported, %zu are queued", k, m.size()); } }
		MC_CHECK(unlocked(), "the lock is held");
	}
	if (n > 2) nontrivial(); outcome(m.size()); if (created) { up(4); As a(4); Box b; while (!m.empty()) { MC_CHECK(take(obj(4), b) && b == m.front(), "received %s, expected %s", show(b).c_str(), show(m.front()).c_str()); m.pop_front(); } MC_CHECK(!take(obj(4), b), "another box"); obj(4).disconnect(); } for (int i = 0; i < 2; i++) down(i);
}
static bool fail_new;
void *operator new[](size_t n) { if (fail_new) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
SCENARIO("C13", "geometries", QUICK, THOROUGH, "9 geometries of up to 2^60 bytes in a new queue, beside a queue in use and beside a left one: connect either is refused, leaving nothing attached or locked, or has room for every box")
{
	static const struct { uint32_t bs, nb; } G[] = { { 65536, 65536 }, { 65536, 65537 }, { 1 << 20, 4096 }, { 1 << 20, 4097 }, { 16, 0x10000000 }, { 16, 0x10000001 }, { 32, 0x08000001 }, { 0x40000000, 0x40000000 }, { 1 << 20, 20 } };
	int k = choose(9), pre = choose(3); shard_here(); nontrivial(); ipc::reset(); BS = 32; NB = 6; for (int i = 0; i < NPROC; i++) make(i);
	if (pre) { up(3); As a(3); put(obj(3), 50); obj(3).flush(); if (pre == 2) obj(3).disconnect(); }
	uint64_t need = (uint64_t) G[k].bs * G[k].nb; note("%u boxes of %u bytes", G[k].nb, G[k].bs); S why; bool ok; { As a(0); ok = connects(obj(0), &why, FN, G[k].bs, G[k].nb); }
	if (ok) { size_t z = 0; for (int i = 0; i < ipc::NSEGS; i++) if (ipc::segs[i].attached[0]) z = ipc::segs[i].size; MC_CHECK(z >= need, "%u boxes of %u bytes are accepted in %zu bytes of shared memory", G[k].nb, G[k].bs, z); MC_CHECK(!pre, "a connect with another geometry succeeds"); }
	MC_CHECK(ok || !ipc::attached(0), "a refused connect leaves the memory attached"); MC_CHECK(unlocked(), "the lock is held"); MC_CHECK(ok || k != 8 || pre, "a queue of 20 MiB is refused: %s", why.c_str()); outcome(ok);
	if (ok) { NB = G[k].nb; BS = G[k].bs; up(4); As a(0); Box b; for (uint32_t i = 0; i < NB - 1; i++) { put(obj(0), 7 + i); obj(0).flush(); } ipc::as = 4; for (uint32_t i = 0; i < NB - 1; i++) MC_CHECK(take(obj(4), b) && b == Box(1, 7 + i), "box %u is %s", i, show(b).c_str()); MC_CHECK(!take(obj(4), b), "another box"); }
	else { up(4); As a(4); Box b; if (pre) MC_CHECK(take(obj(4), b) && b == Box(1, 50), "the queue in use is damaged"); obj(4).disconnect(); ipc::as = 0; obj(0).connect(FN, BS, NB); put(obj(0), 9); obj(0).flush(); ipc::as = -1; up(4); ipc::as = 4; MC_CHECK(take(obj(4), b) && b == Box(1, 9), "the queue does not work after a refused connect"); }
	for (int i = 0; i < NPROC; i++) down(i);
}
SCENARIO("C13", "no memory", QUICK, THOROUGH, "connect with failing allocations (new queue, queue in use, left queue): refused, nothing attached or locked, and the same object connects afterwards")
{
	int pre = choose(3); shard_here(); nontrivial(); ipc::reset(); BS = 32; NB = 6; for (int i = 0; i < NPROC; i++) make(i); if (pre) { up(3); As a(3); put(obj(3), 50); obj(3).flush(); if (pre == 2) obj(3).disconnect(); }
	As a(0); S why; fail_new = true; bool ok = false; try { obj(0).connect(FN, BS, NB); ok = true; } catch (const std::exception &) {} fail_new = false; outcome(ok);
	if (!ok) { MC_CHECK(!ipc::attached(0), "a connect that runs out of memory leaves the shared memory attached"); MC_CHECK(unlocked(), "the lock is held"); MC_CHECK(connects(obj(0), &why), "the same object cannot connect after it ran out of memory: %s", why.c_str()); }
	Box b; if (pre) MC_CHECK(take(obj(0), b) && b == Box(1, 50), "the queue in use is damaged"); obj(0).disconnect(); obj(0).connect(FN, BS, NB); put(obj(0), 9); obj(0).flush(); ipc::as = -1; up(4); ipc::as = 4; MC_CHECK(take(obj(4), b) && b == Box(1, 9), "received %s", show(b).c_str()); ipc::as = -1;
	for (int i = 0; i < NPROC; i++) down(i);
}
// ------------------------------------------------------------------ C14: death
static int killed_; static void on_kill(int i) { killed_++; ipc::process_ends(i); }
// `before` are in the queue, in order; of those in `maybe` any may be missing or there; then more boxes are exchanged
static void survivors(const std::deque<Box> &before, const std::set<u64> &maybe, bool floating, int lag, const S &when)
{
	std::deque<Box> want = before, got; Q &w = obj(3), &r = obj(4); u64 next = 500;
	// a maybe box is compared as a whole; floating: its place among the others is free
	auto accept = [&](const Box &b) {
		for (;;)
		{
			if (want.empty()) fail("%s: received %s, nothing more is expected (before: %s)", when.c_str(), show(b).c_str(), show(before).c_str());
			if (b == want.front()) { want.pop_front(); return; }
			if (maybe.count(want.front()[0])) { Box x = want.front(); want.pop_front(); if (floating) { for (size_t i = 0; i < want.size(); i++) if (want[i] == b) break; } continue; }
			fail("%s: received %s, expected %s (before: %s)", when.c_str(), show(b).c_str(), show(want.front()).c_str(), show(before).c_str());
		} };
	auto drain = [&]() { As a(4); Box b; int n = 0; while (take(r, b)) { note("received %s", show(b).c_str()); accept(b); if (++n > 50) fail("%s: the queue never runs empty", when.c_str()); }
		int left = 0; for (auto &x : want) if (!maybe.count(x[0])) left++; MC_CHECK(left <= lag, "%s: %d boxes are not delivered", when.c_str(), left); };
	for (int round = 0; round < 2 * (int) NB; round++) { { As a(3); Box b; b.push_back(next++); b.push_back(next++); for (u64 x : b) put(w, x); w.flush(); want.push_back(b); } if (round & 1) { As a(3); Box b(1, next++); put(w, b[0]); w.flush(); want.push_back(b); } drain(); }
	{ As a(3); int k = w.boxes_in_queue(); MC_CHECK(k == 0, "%s: %d boxes are reported after the last", when.c_str(), k); }
}
static void kill_one(int before, int vk, bool other, int ok, int preempts, int shift)
{
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; killed_ = 0; BS = 32; NB = 7; std::deque<Box> m; for (int i = 0; i < NPROC; i++) up(i);
	{ As a(3); Box b; for (int i = 0; i < shift; i++) { put(obj(3), 90); obj(3).flush(); ipc::as = 4; take(obj(4), b); ipc::as = 3; } for (int i = 0; i < before; i++) { Box x; x.push_back(100 + 2 * i); x.push_back(101 + 2 * i); for (u64 y : x) put(obj(3), y); obj(3).flush(); m.push_back(x); } obj(3).set_register(5, 77); }
	static const char *const VN[] = { "flush", "take", "take(wait)", "set_register", "disconnect and connect" }; static Box got0, got1; got0.clear(); got1.clear(); static bool fin0, fin1; fin0 = fin1 = false;
	sched::Run r(preempts); sched::on_kill = on_kill; sched::kill_budget = 1;
	auto act = [](int p, int k, Box &got, bool &fin, u64 id) { Q &q = obj(p); switch (k) { case 0: put(q, id); put(q, id + 1); q.flush(); break; case 1: take(q, got); break; case 2: take(q, got, 0, 1000); break; case 3: q.set_register(5, 78); break; case 4: q.disconnect(); q.connect(FN, BS, NB); break; } fin = true; };
	r.add("the victim", [=]() { act(0, vk, got0, fin0, 201); }, true); if (other) r.add("the other", [=]() { act(1, ok, got1, fin1, 301); });
	r.go(); sched::kill_budget = 0; S when = S(killed_ ? "a process is killed in " : "after ") + VN[vk]; if (other) when += S(" beside ") + VN[ok];
	if (killed_) nontrivial(); MC_CHECK(!r.deadlock, "%s: waiting for ever: %s", when.c_str(), r.blocked().c_str()); MC_CHECK(unlocked(), "%s: the lock is still held", when.c_str()); MC_CHECK(!other || fin1, "the other does not end");
	// what can be there now
	std::deque<Box> now = m; std::set<u64> maybe; bool order_free = false, o_taken = false; Box v; v.push_back(201); v.push_back(202); Box o; o.push_back(301); o.push_back(302);
	bool vtake = vk == 1 || vk == 2, otake = ok == 1 || ok == 2;
	if (other && otake && !got1.empty())
	{
		if (got1 == v) { MC_CHECK(vk == 0 && now.empty(), "%s: %s overtakes", when.c_str(), show(v).c_str()); }
		else
		{
			// the other takes the first box, unless the victim has taken it
			if (!now.empty() && got1 == now[0]) { MC_CHECK(got0 != got1, "%s: %s is received twice", when.c_str(), show(got1).c_str()); now.pop_front(); if (vtake && fin0 && !got0.empty()) { MC_CHECK(!now.empty() && got0 == now[0], "%s: %s is received out of order", when.c_str(), show(got0).c_str()); now.pop_front(); } else if (vtake && !now.empty() && !fin0) maybe.insert(now[0][0]); }
			else { MC_CHECK(vtake && now.size() > 1 && got1 == now[1] && (fin0 ? got0 == now[0] : true), "%s: the other receives %s, before: %s", when.c_str(), show(got1).c_str(), show(m).c_str()); now.pop_front(); now.pop_front(); }
		}
	}
	else if (vtake) { if (fin0 && got0 == o) { MC_CHECK(other && ok == 0 && now.empty(), "%s: %s overtakes", when.c_str(), show(o).c_str()); o_taken = true; } else if (!fin0 && now.empty() && other && ok == 0) maybe.insert(301); else if (fin0 && !got0.empty()) { MC_CHECK(!now.empty() && got0 == now[0], "%s: received %s", when.c_str(), show(got0).c_str()); now.pop_front(); } else if (!fin0 && !now.empty()) maybe.insert(now[0][0]); }
	if (vk == 0 && !(other && otake && got1 == v)) { if (!fin0) maybe.insert(201); if (other && ok == 0) order_free = true; else now.push_back(v); }
	if (other && ok == 0 && !order_free && !o_taken) now.push_back(o);
	if (other && otake && got1.empty() && !m.empty()) MC_CHECK(vtake && m.size() == 1, "%s: the other receives nothing, before: %s", when.c_str(), show(m).c_str());
	outcome(hmix(hmix(killed_, now.size()), hmix(maybe.size(), got1.size()))); if (fin0) maybe.clear();
	if (order_free)
	{
		// two flushes overlap: the order is the one found in the ring, so look first
		As a(2); Box b; std::deque<Box> s; int k = obj(2).boxes_in_queue(); (void) k; while (take(obj(2), b)) s.push_back(b); size_t i = 0; for (; i < m.size(); i++) MC_CHECK(i < s.size() && s[i] == m[i], "%s: box %zu is %s", when.c_str(), i, i < s.size() ? show(s[i]).c_str() : "missing");
		int nv = 0, no = 0; for (; i < s.size(); i++) { if (s[i] == v) nv++; else if (s[i] == o) no++; else fail("%s: a box %s appears", when.c_str(), show(s[i]).c_str()); } MC_CHECK(nv <= 1 && no <= 1, "%s: a box is received twice", when.c_str()); MC_CHECK(fin0 ? nv == 1 && no == 1 : nv + no >= 1, "%s: %d and %d of the two flushed boxes are received", when.c_str(), nv, no);
		now.clear(); if (!nv) { maybe.insert(201); now.push_back(v); } if (!no) { now.push_back(o); } else if (false) {}
		ipc::as = -1; survivors(now, maybe, false, fin0 ? 0 : 1, when);
	}
	else survivors(now, maybe, false, fin0 ? 0 : 1, when);
	{ As a(3); uint32_t x = obj(3).get_register(5); MC_CHECK(x == 77 || (x == 78 && (vk == 3 || (other && ok == 3))), "%s: the register is %u", when.c_str(), x); }
	for (int i = 1; i < NPROC; i++) down(i); if (!killed_) down(0);
}
SCENARIO("C14", "kill/alone", QUICK, THOROUGH, "a ring of 7 holding 0..5 boxes at each of 7 positions, a process killed at every point of flush, take, timed take, set_register, disconnect and connect; then 21 boxes are exchanged")
{
	int before = choose(4), vk = choose(5), shift = choose(7); shard_here(); kill_one(before, vk, false, 0, 0, shift);
}
SCENARIO("C14", "kill/beside", QUICK, THOROUGH, "as kill/alone (0..2 boxes, 2 positions), with another process in each of the 5 operations, up to 2 (thorough 4) preemptions")
{
	int before = choose(3), vk = choose(5), ok = choose(5), shift = choose(2) * 6; shard_here(); kill_one(before, vk, true, ok, g().tier ? 4 : 2, shift);
}
// many deaths, small rings: the indices stay valid
SCENARIO("C14", "kill/repeated", QUICK, THOROUGH, "rings of 2..3 boxes: up to 2 (thorough 3) processes killed one after the other at every point of flush or take, then survivors exchange boxes: nothing twice, modified or out of order, and boxes still get through")
{
	int nb = 2 + choose(2), n = 1 + choose(g().tier ? 3 : 2); std::vector<int> k; for (int i = 0; i < n; i++) k.push_back(choose(2)); int before = choose(nb); shard_here();
	ipc::reset(); fresh = 0; killed_ = 0; BS = 32; NB = nb; up(3); up(4); std::vector<u64> order; u64 id = 100; auto push = [&](int p) { put(obj(p), id); put(obj(p), id + 1); order.push_back(id); id += 2; obj(p).flush(); };
	{ As a(3); for (int i = 0; i < before; i++) push(3); } static Box got; std::vector<Box> seen;
	for (int i = 0; i < n; i++)
	{
		up(0); got.clear(); sched::Run r(0); sched::on_kill = on_kill; sched::kill_budget = 1; bool fin = false, *pf = &fin; int what = k[i];
		r.add("the victim", [&, pf, what]() { if (what == 0) push(0); else take(obj(0), got); *pf = true; }, true); r.go(); sched::kill_budget = 0; MC_CHECK(!r.deadlock, "waiting for ever: %s", r.blocked().c_str()); MC_CHECK(unlocked(), "the lock is still held");
		if (!got.empty()) seen.push_back(got); if (fin) down(0);
	}
	if (killed_) nontrivial(); { As a(4); Box b; for (int round = 0; round < 6; round++) { for (int i = 0; i < nb; i++) { As c(3); push(3); if (i & 1) { ipc::as = 4; if (take(obj(4), b)) seen.push_back(b); } } ipc::as = 4; int c = 0; while (take(obj(4), b)) { seen.push_back(b); if (++c > 50) fail("the queue never runs empty"); } } }
	size_t at = 0; for (auto &b : seen) { if (b.empty()) continue; MC_CHECK(b.size() == 2 && b[1] == b[0] + 1, "a box is received modified: %s", show(b).c_str()); while (at < order.size() && order[at] != b[0]) at++; MC_CHECK(at < order.size(), "%s is received twice or out of order", show(b).c_str()); at++; }
	for (auto &b : seen) MC_CHECK(!b.empty(), "an empty box is received"); MC_CHECK(killed_ || seen.size() >= 6u * (nb - 1), "only %zu boxes get through", seen.size()); MC_CHECK(nb <= killed_ + 1 || seen.size() >= 6, "after %d deaths only %zu boxes get through a ring of %d", killed_, seen.size(), nb); outcome(seen.size()); down(3); down(4);
}
MC_MAIN
