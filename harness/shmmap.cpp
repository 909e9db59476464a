// C08..C11: the shared-memory map on simulated System V IPC; a process is a coroutine with its own object and attachment.
#include "simipc.hpp"
#include <new>
#include <set>
#include "coda/shm_hash_map.hpp"
using namespace mc;
typedef std::string S;
typedef uint64_t u64;

struct V { volatile u64 a, b; V(u64 x = 0) : a(x), b(x * 3) {} V(const V &o) { a = o.a; b = o.b; } V &operator=(const V &o) { a = o.a; b = o.b; return *this; } };
static bool torn_ok; // a process died: its value may be partial
static u64 whole(const V &v, const char *where) { if (!torn_ok && v.b != v.a * 3) fail("%s: a half-written value %lld/%lld", where, (long long) v.a, (long long) v.b); return v.a; }
enum { NPROC = 5 };
static const char *const PN[] = { "P0", "P1", "P2", "P3", "P4" };
typedef std::map<u64, u64> M;
static S show(const M &m) { S s = "{"; for (auto &p : m) s += " " + std::to_string(p.first) + "=" + std::to_string(p.second); return s + " }"; }

// ------------------------------------------------------------------ operations
enum Kind { INSERT, ERASE, READ, CLEAR, BINSERT, BERASE, SIZE, ITER, TOGGLE, BOTH, NK };
struct Op { Kind k; std::vector<u64> keys; };
static S opname(const Op &o) { static const char *const N[] = { "insert", "erase", "read", "clear", "batch insert", "batch erase", "size", "iterate", "section: toggle", "section: read" }; S s = N[o.k]; for (u64 k : o.keys) s += " " + std::to_string(k); return s; }
static Op op(Kind k) { Op o; o.k = k; return o; }
static Op op(Kind k, u64 a) { Op o; o.k = k; o.keys.push_back(a); return o; }
static Op op(Kind k, u64 a, u64 b) { Op o = op(k, a); o.keys.push_back(b); return o; }
struct Res { bool ok; u64 num; M m; std::vector<u64> vals; Res() : ok(true), num(0) {} bool operator==(const Res &o) const { return ok == o.ok && num == o.num && m == o.m; } };
static int fresh;

template <class H> Res apply(H &h, const Op &o, const std::vector<u64> &vals)
{
	Res r;
	switch (o.k)
	{
	case INSERT: { V v(vals[0]); r.ok = h.insert(o.keys[0], v); break; }
	case ERASE: r.ok = h.erase(o.keys[0]); break;
	case READ: { V v(77); r.ok = h.read(o.keys[0], v); sched::quiet++; u64 x = whole(v, "read"); if (r.ok) r.num = x; else if (x != 77) fail("an unsuccessful read changes the output"); sched::quiet--; break; }
	case CLEAR: h.clear(); break;
	case BINSERT: { typename H::pair p[4]; for (size_t i = 0; i < o.keys.size(); i++) { p[i].key = o.keys[i]; p[i].value = V(vals[i]); } r.ok = h.insert(p, o.keys.size()); break; }
	case BERASE: { u64 k[4]; for (size_t i = 0; i < o.keys.size(); i++) k[i] = o.keys[i]; r.ok = h.erase(k, o.keys.size()); break; }
	case SIZE: r.num = h.size(); break;
	case ITER:
	{
		h.lock_read_rw(); int n = 0;
		for (typename H::const_iterator i = h.begin(), e = h.end(); i != e; ++i)
		{
			u64 k = i.key(); V v(i.value()); sched::quiet++; u64 x = whole(v, "iteration"); if (!r.m.insert(std::make_pair(k, x)).second) fail("iteration visits key %llu twice", (unsigned long long) k); if (++n > 1000) fail("iteration does not end"); sched::quiet--;
		}
		h.unlock_read_rw(); break;
	}
	case TOGGLE: // a writer's section of the caller
	{
		h.lock_write_rw(); V v(77); u64 k = o.keys[0]; r.ok = h.unprotected_read(k, v);
		if (r.ok) { r.num = whole(v, "read"); if (!h.unprotected_erase(k)) fail("an entry that was read in the same section cannot be erased"); } else { if (v.a != 77) fail("an unsuccessful read changes the output"); V x(vals[0]); r.num = h.unprotected_insert(k, x); }
		h.unlock_write_rw(); break;
	}
	case BOTH: { h.lock_read_rw(); for (u64 k : o.keys) { V v(77); if (h.unprotected_read(k, v)) r.m[k] = whole(v, "read"); } h.unlock_read_rw(); break; }
	default: break;
	}
	return r;
}
static Res model(M &m, size_t cap, const Op &o, const std::vector<u64> &vals)
{
	Res r;
	switch (o.k)
	{
	case INSERT: case BINSERT: for (size_t i = 0; i < o.keys.size(); i++) { if (m.count(o.keys[i]) || m.size() < cap) m[o.keys[i]] = vals[i]; else r.ok = false; } break;
	case ERASE: case BERASE: for (u64 k : o.keys) if (!m.erase(k)) r.ok = false; break;
	case READ: r.ok = m.count(o.keys[0]); if (r.ok) r.num = m[o.keys[0]]; break;
	case CLEAR: m.clear(); break;
	case SIZE: r.num = m.size(); break;
	case ITER: r.m = m; break;
	case TOGGLE: { u64 k = o.keys[0]; r.ok = m.count(k); if (r.ok) { r.num = m[k]; m.erase(k); } else if ((r.num = m.size() < cap)) m[k] = vals[0]; break; }
	case BOTH: for (u64 k : o.keys) if (m.count(k)) r.m[k] = m[k]; break;
	default: break;
	}
	return r;
}
static S show(const Op &o, const Res &r) { S s = r.ok ? "true" : "false"; if (o.k == READ || o.k == SIZE || o.k == TOGGLE) s += " " + std::to_string(r.num); if (o.k == ITER || o.k == BOTH) s = show(r.m); return s; }
static std::vector<u64> values(const Op &o) { std::vector<u64> v; if (o.k == INSERT || o.k == BINSERT || o.k == TOGGLE) for (size_t i = 0; i < o.keys.size(); i++) v.push_back(++fresh); return v; }

template <class H> struct Objs
{
	char buf[NPROC + 1][sizeof(H)] __attribute__((aligned(64)));
	H &operator[](int i) { return *(H *) buf[i]; }
	H &make(int i) { memset(buf[i], 0xA5, sizeof buf[i]); return *new (buf[i]) H; }
};
template <class H> Objs<H> &objs() { static Objs<H> o; return o; }
static const char *const FN = "/m";
struct As { int old; As(int p) : old(ipc::as) { ipc::as = p; } ~As() { ipc::as = old; } };
template <class H> H &up(int i) { if (ipc::attached(i)) ipc::process_ends(i); H &h = objs<H>().make(i); As a(i); h.connect(FN); return h; } // a new process
template <class H> void down(int i) { H &h = objs<H>()[i]; As a(i); h.~H(); if (!strcmp(g().prop, "C10")) MC_CHECK(!ipc::attached(i), "destroying the object leaves the memory attached"); }

// what one attachment shows, by every means
template <class H> M contents(H &h, const std::vector<u64> &keys, const char *who)
{
	M m; for (u64 k : keys) { V v(77); if (h.read(k, v)) m[k] = whole(v, who); else MC_CHECK(v.a == 77, "%s: an unsuccessful read changes the output", who); }
	Res it = apply(h, op(ITER), std::vector<u64>()); MC_CHECK(it.m == m, "%s: iteration shows %s, reads show %s", who, show(it.m).c_str(), show(m).c_str());
	return m;
}
static bool unlocked() { for (int i = 0; i < ipc::NSETS; i++) if (ipc::sets[i].alive) for (int p = 0; p < ipc::NP; p++) for (int k = 0; k < ipc::sets[i].n; k++) if (ipc::sets[i].adj[p][k]) return false; return true; }

static std::vector<Op> alphabet(int which)
{
	std::vector<Op> a;
	a.push_back(op(INSERT, 0)); a.push_back(op(INSERT, 1)); a.push_back(op(INSERT, 2)); a.push_back(op(ERASE, 0)); a.push_back(op(ERASE, 2)); a.push_back(op(CLEAR)); a.push_back(op(BINSERT, 2, 4)); a.push_back(op(ERASE, 1));
	if (which >= 1) { a.push_back(op(BERASE, 0, 2)); a.push_back(op(READ, 0)); a.push_back(op(READ, 2)); a.push_back(op(SIZE)); a.push_back(op(ITER)); if (which != 3) { a.push_back(op(TOGGLE, 0)); a.push_back(op(BOTH, 0, 2)); } }
	if (which == 2) { a.push_back(op(TOGGLE, 2)); a.push_back(op(INSERT, 4)); a.push_back(op(ERASE, 4)); a.push_back(op(BINSERT, 0, 0)); a.push_back(op(BERASE, 2, 2)); a.push_back(op(BINSERT)); a.push_back(op(BERASE)); }
	return a;
}
// ------------------------------------------------------------------ C08: sequences
static std::vector<u64> keyset(size_t n) { std::vector<u64> k; for (size_t i = 0; i < n; i++) k.push_back(i); return k; }
template <int N, int HS> void sequences(int depth, int attachments)
{
	typedef shm::hash_map<V, N, HS> H; ipc::reset(); fresh = 0; std::vector<u64> K = keyset(6);
	std::vector<Op> A; for (auto &o : alphabet(2)) if (o.k != READ && o.k != SIZE && o.k != ITER && o.k != BOTH) A.push_back(o);
	for (int i = 0; i < attachments; i++) up<H>(i);
	M m; int n = 0;
	for (; n < depth; n++)
	{
		uint32_t c = choose(A.size() + 1); if (!c) break;
		const Op &o = A[c - 1]; std::vector<u64> v = values(o); int p = n % attachments; Res want = model(m, N, o, v), got; { As a(p); got = apply(objs<H>()[p], o, v); } step();
		note("P%d: %s -> %s, model %s", p, opname(o).c_str(), show(o, got).c_str(), show(m).c_str());
		// a batch that does not fit may store any of its new entries that fit
		MC_CHECK(got.ok == want.ok, "%s returns %s, expected %s (map of %d: %s)", opname(o).c_str(), got.ok ? "true" : "false", want.ok ? "true" : "false", N, show(m).c_str());
		for (int q = 0; q < attachments; q++)
		{
			As a(q); H &h = objs<H>()[q]; M c = contents(h, K, PN[q]);
			if (o.k == BINSERT && !want.ok && q == 0) { MC_CHECK(c.size() == (size_t) N, "a batch that did not fit leaves %zu of %d entries", c.size(), N); }
			MC_CHECK(c == m, "after %s the map shows %s through P%d, expected %s", opname(o).c_str(), show(c).c_str(), q, show(m).c_str());
			size_t s = h.size(); MC_CHECK(s == m.size(), "the size is %zu, expected %zu", s, m.size()); MC_CHECK(h.capacity() == (size_t) N, "capacity");
		}
		u64 st = 1; for (auto &e : m) { st = hmix(st, e.first); } state(hmix(st, N * 10 + HS));
	}
	if (n > 1) nontrivial(); outcome(m.size());
	// all the space is usable
	{ As a(0); H &h = objs<H>()[0]; for (u64 k = 10; m.size() < (size_t) N; k++) { V v(k); MC_CHECK(h.insert(k, v), "an insert into %zu of %d entries fails", m.size(), N); m[k] = k; } V v(99); MC_CHECK(!h.insert(99, v), "more than %d entries", N); std::vector<u64> K2 = keyset(20); MC_CHECK(contents(h, K2, "P0") == m, "after filling up: %s", show(m).c_str()); }
	for (int i = 0; i < attachments; i++) down<H>(i); MC_CHECK(unlocked(), "a lock is still held at the end");
}
SCENARIO("C08", "sequences/2x1", QUICK, THOROUGH, "every sequence of up to 5 (thorough 6) of 16 operations on a map of 2 entries and 1 bucket, alternating between two attachments") { sequences<2, 1>(g().tier ? 6 : 5, 2); }
SCENARIO("C08", "sequences/3x2", QUICK, THOROUGH, "every sequence of up to 5 (thorough 6) of 16 operations on a map of 3 entries and 2 buckets") { sequences<3, 2>(g().tier ? 6 : 5, 1); }
SCENARIO("C08", "sequences/2x3", QUICK, THOROUGH, "every sequence of up to 4 (thorough 6) of 16 operations on a map of 2 entries and 3 buckets") { sequences<2, 3>(g().tier ? 6 : 4, 2); }
SCENARIO("C08", "sequences/1x1", QUICK, THOROUGH, "every sequence of up to 4 (thorough 5) of 16 operations on a map of 1 entry") { sequences<1, 1>(g().tier ? 5 : 4, 1); }
// larger maps: fill, take out in a pattern, fill again, iterate
template <class T> struct Bytes { T x; };
template <int SZ> struct Blob { unsigned char b[SZ]; bool operator==(const Blob &o) const { return !memcmp(b, o.b, SZ); } };
template <int SZ, int N, int HS> void large()
{
	typedef Blob<SZ> B; typedef shm::hash_map<B, N, HS> H; ipc::reset(); nontrivial();
	int keyf = choose(4), pattern = choose(6), order = choose(2); shard_here(); H &h = up<H>(0); H &h2 = up<H>(1); std::map<u64, B> m;
	auto key = [&](int i) -> u64 { return keyf == 0 ? i : keyf == 1 ? (u64) i * HS + 1 : keyf == 2 ? ~(u64) 0 - i * 7919ull : ((u64) i << 32) + 5; };
	auto val = [&](int i, int g) { B b; for (int j = 0; j < SZ; j++) b.b[j] = (unsigned char) (i * 31 + j * 7 + g); return b; };
	auto check = [&](const char *when) {
		step(m.size() + 1);
		for (int w = 0; w < 2; w++) { As a(w); H &x = w ? h2 : h; B o; for (auto &e : m) { MC_CHECK(x.read(e.first, o), "%s: key %llu is not found", when, (unsigned long long) e.first); MC_CHECK(o == e.second, "%s: the value of %llu is damaged", when, (unsigned long long) e.first); }
			std::map<u64, B> it; typename H::const_iterator last = x.end();
			for (typename H::const_iterator i = x.begin(), e = x.end(); i != e; last = i, ++i)
			{
				MC_CHECK(i != last, "%s: iterators at two elements compare equal", when); typename H::const_iterator same(i); MC_CHECK(!(same != i), "%s: a copied iterator differs from its source", when); MC_CHECK(it.insert(std::make_pair(i.key(), i.value())).second, "%s: key %llu visited twice", when, (unsigned long long) i.key()); MC_CHECK(it.size() <= m.size(), "%s: too many entries visited", when); }
			MC_CHECK(it == m, "%s: iteration shows %zu entries of %zu", when, it.size(), m.size()); MC_CHECK(x.size() == m.size(), "%s: size %zu of %zu", when, x.size(), m.size()); } };
	As a(0);
	for (int round = 0; round < 3; round++)
	{
		for (int i = 0; i < N + 2; i++) { u64 k = key(order ? N + 1 - i : i); B b = val(i, round); bool ok = h.insert(k, b), want = m.count(k) || m.size() < (size_t) N; MC_CHECK(ok == want, "insert %d of %d: %d", i, N, ok); if (ok) m[k] = b; }
		check("full");
		for (int i = 0; i < N + 2; i++) { bool out = pattern == 0 ? i % 2 : pattern == 1 ? i % 3 == 0 : pattern == 2 ? i < N / 2 : pattern == 3 ? i > N / 2 : pattern == 4; if (out) { u64 k = key(order ? i : N + 1 - i); bool ok = h.erase(k); MC_CHECK(ok == (bool) m.erase(k), "erase"); } }
		if (pattern == 5) { h.clear(); m.clear(); }
		check("after erasing");
	}
	outcome(m.size()); ipc::as = -1; down<H>(0); down<H>(1);
}
SCENARIO("C08", "large", QUICK, THOROUGH, "9 geometries (values of 1..1000 bytes, 1..300 entries, 1..401 buckets), 4 key families, 6 erase patterns, both orders: fill, erase, refill; accesses stay inside the requested size")
{
	switch (choose(9))
	{
	case 0: large<1, 1, 1>(); break; case 1: large<1, 300, 7>(); break; case 2: large<8, 64, 64>(); break; case 3: large<24, 100, 1>(); break; case 4: large<1000, 20, 3>(); break;
	case 5: large<3, 85, 401>(); break; case 6: large<256, 4, 2>(); break; case 7: large<12, 84, 5>(); break; default: large<8, 253, 256>(); break;
	}
}
// sizes at which a counter or an index could be too narrow
template <int N, int HS> void wide()
{
	typedef shm::hash_map<V, N, HS> H; ipc::reset(); nontrivial(); int keyf = choose(3), pattern = choose(3); shard_here(); H &h = up<H>(0); H &h2 = up<H>(1); std::vector<char> in(N + 1); size_t n = 0;
	auto key = [&](u64 i) -> u64 { return keyf == 0 ? i : keyf == 1 ? ~(u64) 0 - i * 7919ull : (i << 32) + i; };
	auto put = [&](u64 i, bool want) { As a(0); V v(i + 5); bool ok = h.insert(key(i), v); MC_CHECK(ok == want, "inserting entry %llu of %d into a map of %zu %s", (unsigned long long) i, N, n, ok ? "succeeds" : "fails"); if (ok && !in[i]) { in[i] = 1; n++; } };
	auto check = [&](const char *when) {
		step(N); As a(1); MC_CHECK(h2.size() == n, "%s: the size is %zu, expected %zu", when, (size_t) h2.size(), n); for (u64 i = 0; i <= (u64) N; i++) { V v(77); bool ok = h2.read(key(i), v); MC_CHECK(ok == (bool) in[i] && v.a == (ok ? i + 5 : 77), "%s: entry %llu of %d reads wrongly", when, (unsigned long long) i, N); }
		size_t c = 0; u64 x = 0, y = 0; for (typename H::const_iterator i = h2.begin(), e = h2.end(); i != e; ++i) { MC_CHECK(++c <= n, "%s: too many entries visited", when); x ^= i.value().a * 0x9E3779B97F4A7C15ull; } for (u64 i = 0; i <= (u64) N; i++) if (in[i]) y ^= (i + 5) * 0x9E3779B97F4A7C15ull; MC_CHECK(c == n && x == y, "%s: iteration shows %zu of %zu entries or others", when, c, n); };
	for (int i = 0; i < N; i++) put(i, true); put(N, false); check("full");
	for (u64 i = 0; i < (u64) N; i++) if (pattern == 0 ? i % 2 : pattern == 1 ? i >= (u64) N / 2 : i % 256 != 0) { As a(0); MC_CHECK(h.erase(key(i)), "erasing entry %llu of %d fails", (unsigned long long) i, N); in[i] = 0; n--; } check("after erasing");
	for (int i = 0; i < N; i++) put(N - 1 - i, true); put(N, false); check("full again");
	outcome(n); ipc::as = -1; down<H>(0); down<H>(1);
}
SCENARIO("C08", "large/wide", QUICK, THOROUGH, "maps of 255, 256, 257, 32767..32769, 65535..65537 and 70000 entries with 1009 (70001; 255..257 entries: 1, 256, 257) buckets, 3 key families, 3 erase patterns: fill, erase, refill")
{
	switch (choose(12))
	{
	case 0: wide<255, 1>(); break; case 1: wide<256, 256>(); break; case 2: wide<257, 257>(); break; case 3: wide<257, 1>(); break; case 4: wide<32767, 1009>(); break; case 5: wide<32768, 1009>(); break; case 6: wide<32769, 32769>(); break;
	case 7: wide<65535, 65535>(); break; case 8: wide<65536, 65536>(); break; case 9: wide<65537, 65537>(); break; case 10: wide<70000, 1009>(); break; default: wide<70000, 70001>(); break;
	}
}
// ------------------------------------------------------------------ C09: concurrency
struct Ev { int p; Op op; std::vector<u64> vals; Res r; uint64_t call, ret; };
static std::vector<Ev> H_; static uint64_t now_; static int readers_in, writers_in;
template <class H> void perform(H &h, const Op &o, int p)
{
	sched::quiet++; Ev e; e.p = p; e.op = o; e.vals = values(o); e.call = ++now_; e.ret = 0; size_t at = H_.size(); H_.push_back(e); note("P%d starts %s", p, opname(o).c_str()); sched::quiet--;
	Res r = apply(h, o, e.vals);
	sched::quiet++; H_[at].r = r; H_[at].ret = ++now_; note("P%d ends %s: %s", p, opname(o).c_str(), show(o, r).c_str()); sched::quiet--;
}
static bool lin(std::vector<bool> &done, const M &m, size_t left, size_t cap, const M &final)
{
	if (!left) return m == final;
	uint64_t minret = ~0ull; for (size_t i = 0; i < H_.size(); i++) if (!done[i] && H_[i].ret && H_[i].ret < minret) minret = H_[i].ret;
	for (size_t i = 0; i < H_.size(); i++)
	{
		const Ev &e = H_[i]; if (done[i] || !e.ret || e.call > minret) continue;
		M x = m; Res r = model(x, cap, e.op, e.vals); if (!(r == e.r)) continue;
		done[i] = true; bool ok = lin(done, x, left - 1, cap, final); done[i] = false; if (ok) return true;
	}
	return false;
}
static S history() { S s; for (auto &e : H_) { s += "P" + std::to_string(e.p) + " " + opname(e.op); for (u64 v : e.vals) s += " :" + std::to_string(v); s += " = " + (e.ret ? show(e.op, e.r) : S("not finished")) + "; "; } return s; }
template <class H> void concurrent(const std::vector<std::vector<Op>> &prog, const std::vector<Op> &before, size_t cap, int preempts)
{
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; M m; int n = prog.size();
	for (int i = 0; i <= n; i++) up<H>(i);
	{ As a(n); for (auto &o : before) { std::vector<u64> v = values(o); model(m, cap, o, v); apply(objs<H>()[n], o, v); } }
	sched::Run r(preempts); for (int i = 0; i < n; i++) { const std::vector<Op> *p = &prog[i]; r.add(PN[i], [p, i]() { for (auto &o : *p) perform(objs<H>()[i], o, i); }); }
	r.go(); if (ipc::contended) nontrivial();
	MC_CHECK(!r.deadlock, "processes wait for ever: %s; %s", r.blocked().c_str(), history().c_str()); MC_CHECK(unlocked(), "a lock is still held at the end; %s", history().c_str());
	M f; { As a(n); f = contents(objs<H>()[n], keyset(6), "afterwards"); size_t s = objs<H>()[n].size(); MC_CHECK(s == f.size(), "size %zu of %s; %s", s, show(f).c_str(), history().c_str()); }
	std::vector<bool> done(H_.size(), false); MC_CHECK(lin(done, m, H_.size(), cap, f), "no order explains: before %s; %safterwards %s", show(m).c_str(), history().c_str(), show(f).c_str());
	u64 h = 1; for (auto &e : H_) h = hmix(hmix(h, e.r.ok), hmix(e.r.num, e.r.m.size())); outcome(h);
	for (int i = 0; i <= n; i++) down<H>(i);
}
static std::vector<Op> start_state(int k)
{
	std::vector<Op> b; if (k & 1) b.push_back(op(INSERT, 0)); if (k & 2) b.push_back(op(INSERT, 2)); if (k & 4) { b.push_back(op(ERASE, 0)); } return b;
}
template <class H> void choose_and_run(const std::vector<int> &len, int which, size_t cap, int preempts, int states)
{
	std::vector<Op> A = alphabet(which), b = start_state(choose(states)); std::vector<std::vector<Op>> p; int last = -1;
	for (size_t t = 0; t < len.size(); t++)
	{
		std::vector<Op> o; int code = 0; for (int i = 0; i < len[t]; i++) { int k = choose(A.size()); code = code * A.size() + k; o.push_back(A[k]); }
		if (t && len[t] == len[t - 1] && code < last) return; last = code; p.push_back(o);
	}
	shard_here(); concurrent<H>(p, b, cap, preempts);
}
typedef shm::hash_map<V, 2, 1> H21; typedef shm::hash_map<V, 2, 2> H22; typedef shm::hash_map<V, 3, 2> H32;
SCENARIO("C09", "pairs/1+1", QUICK, THOROUGH, "2 processes of 1 operation out of 15, 4 start states, every interleaving of system calls, loads and stores with up to 4 (thorough 6) preemptions") { choose_and_run<H21>(std::vector<int>(2, 1), 1, 2, g().tier ? 6 : 4, 4); }
SCENARIO("C09", "pairs/2+2", QUICK, THOROUGH, "2 processes of 2 operations out of 15, 2 (thorough 4) start states, up to 1 (thorough 2) preemptions") { choose_and_run<H21>(std::vector<int>(2, 2), 1, 2, g().tier ? 2 : 1, g().tier ? 4 : 2); }
SCENARIO("C09", "pairs/1+2", QUICK, THOROUGH, "processes of 1 and 2 operations out of 15, 4 start states, up to 2 (thorough 3) preemptions") { std::vector<int> l; l.push_back(1); l.push_back(2); choose_and_run<H22>(l, 1, 2, g().tier ? 3 : 2, 4); }
SCENARIO("C09", "triples", QUICK, THOROUGH, "3 processes of 1 operation out of 15, 2 (thorough 4) start states, up to 1 (thorough 2) preemptions") { choose_and_run<H21>(std::vector<int>(3, 1), 1, 2, g().tier ? 2 : 1, g().tier ? 4 : 2); }
// critical sections
SCENARIO("C09", "sections", QUICK, THOROUGH, "3 processes enter one or two reader or writer sections each, up to 3 (thorough 4) preemptions: readers never overlap a writer, writers never overlap")
{
	std::vector<int> w; std::vector<int> two; for (int i = 0; i < 3; i++) { w.push_back(choose(2)); two.push_back(choose(2)); } shard_here(); ipc::reset(); readers_in = writers_in = 0;
	for (int i = 0; i < 3; i++) up<H21>(i);
	sched::Run r(g().tier ? 4 : 3);
	for (int i = 0; i < 3; i++) { int wr = w[i], tw = two[i]; r.add(PN[i], [=]() { H21 &h = objs<H21>()[i]; for (int k = 0; k <= tw; k++) {
		if (wr) { h.lock_write_rw(); MC_CHECK(!writers_in && !readers_in, "a writer enters while %d writers and %d readers are inside", writers_in, readers_in); writers_in++; sched::point("inside"); writers_in--; h.unlock_write_rw(); }
		else { h.lock_read_rw(); MC_CHECK(!writers_in, "a reader enters while a writer is inside"); readers_in++; sched::point("inside"); readers_in--; h.unlock_read_rw(); } } }); }
	r.go(); if (ipc::contended) nontrivial(); MC_CHECK(!r.deadlock, "waiting for ever: %s", r.blocked().c_str()); MC_CHECK(unlocked(), "a lock is still held"); outcome(ipc::contended); for (int i = 0; i < 3; i++) down<H21>(i);
}
static bool flag_;
SCENARIO("C09", "readers", QUICK, THOROUGH, "a reader inside its section does not keep another reader out: each of four reading operations runs to its end meanwhile, every interleaving with 2 preemptions")
{
	int k = choose(4); static const Kind KS[] = { READ, SIZE, ITER, READ }; Op o = k == 0 ? op(READ, 0) : k == 3 ? op(READ, 1) : op(KS[k]); shard_here(); nontrivial(); ipc::reset(); flag_ = false; fresh = 0; H_.clear(); now_ = 0;
	for (int i = 0; i < 2; i++) up<H21>(i); { As a(0); V v(5); objs<H21>()[0].insert(0, v); }
	sched::Run r(2);
	r.add("P0", [=]() { H21 &h = objs<H21>()[0]; h.lock_read_rw(); sched::block("its section, until the other reader is done", []() { return flag_; }); h.unlock_read_rw(); });
	r.add("P1", [=]() { sched::block("start", []() { return true; }); perform(objs<H21>()[1], o, 1); flag_ = true; });
	r.go(); MC_CHECK(!r.deadlock, "a reader keeps another reader out: %s", r.blocked().c_str()); outcome(k); for (int i = 0; i < 2; i++) down<H21>(i);
}
// ------------------------------------------------------------------ C10: connecting
template <class H> bool connects(H &h, const char *fn, S *why = NULL) { try { h.connect(fn); return true; } catch (const std::exception &e) { if (why) *why = e.what(); return false; } }
struct CP { int tries; bool up; bool inserted; };
static CP cp_[NPROC];
static void connect_race(int n, int pre, int preempts, int faults, bool intr, bool leave, bool foreign)
{
	typedef shm::hash_map<V, 4, 2> H; typedef shm::hash_map<V, 5, 2> F;
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; memset(cp_, 0, sizeof cp_); M m;
	if (pre) { H &h = up<H>(3); As a(3); V v(50); h.insert(5, v); m[5] = 50; if (pre == 2) { ipc::as = -1; down<H>(3); } }
	ipc::faults_on = faults > 0 && !intr; ipc::intr_on = intr; g().devs_left = faults;
	sched::Run r(preempts);
	for (int i = 0; i < n; i++) r.add(PN[i], [=]() {
		H &h = objs<H>().make(i); CP &c = cp_[i]; S why;
		if (foreign && i == n - 1)
		{
			// a process with another kind of map: one of the kinds is refused
			F &f = objs<F>().make(i); int k = connects(f, FN, &why) ? 1 : 0; sched::quiet++; MC_CHECK(k == (f.is_connected() ? 1 : 0), "is_connected"); MC_CHECK(k || !ipc::attached(i), "a refused connect leaves the memory attached"); sched::quiet--; c.up = k; if (k) { f.disconnect(); sched::quiet++; MC_CHECK(!ipc::attached(i), "disconnect leaves the memory attached"); sched::quiet--; } return;
		}
		for (c.tries = 1; ; c.tries++)
		{
			int f0 = ipc::faults; bool ok = connects(h, FN, &why);
			if (ok) break;
			sched::quiet++; note("P%d is refused: %s", i, why.c_str()); MC_CHECK(ipc::faults > f0 || foreign, "P%d cannot connect (%s): %s", i, ipc::what.c_str(), why.c_str()); MC_CHECK(!h.is_connected() && !ipc::attached(i), "a refused connect (%s) leaves the memory attached", ipc::what.c_str()); sched::quiet--;
			if (foreign) return;
			if (c.tries > 4) fail("P%d cannot connect after %s: %s", i, ipc::what.c_str(), why.c_str());
		}
		c.up = true; sched::quiet++; MC_CHECK(h.is_connected() && ipc::attached(i), "connect succeeds without attaching"); sched::quiet--;
		for (int t = 0; ; t++) { try { V v(100 + i); if (!h.insert(i, v)) fail("P%d: an insert into an almost empty map fails", i); break; } catch (const std::exception &e) { if (t > 4) fail("insert never works: %s", e.what()); } }
		c.inserted = true;
		for (int t = 0; ; t++) { try { V v(7); if (!h.read(i, v) || whole(v, "read") != (u64) 100 + i) fail("P%d does not find its own entry (%s)", i, ipc::what.c_str()); break; } catch (const std::exception &e) { if (t > 4) fail("read never works: %s", e.what()); } }
		if (leave) { h.disconnect(); sched::quiet++; MC_CHECK(!ipc::attached(i) && !h.is_connected(), "disconnect leaves the memory attached"); sched::quiet--; }
	});
	r.go(); g().devs_left = 0; ipc::faults_on = ipc::intr_on = false; if (ipc::contended || ipc::faults) nontrivial();
	MC_CHECK(!r.deadlock, "waiting for ever: %s (%s)", r.blocked().c_str(), ipc::what.c_str()); MC_CHECK(unlocked(), "a lock is still held (%s)", ipc::what.c_str());
	int foreign_up = foreign ? cp_[n - 1].up : 0, own = foreign ? n - 1 : n;
	for (int i = 0; i < own; i++) { if (cp_[i].inserted) m[i] = 100 + i; else MC_CHECK(foreign_up, "P%d never came up", i); if (foreign) MC_CHECK(cp_[i].up != (bool) foreign_up, "two kinds of maps share the memory, or neither is accepted"); }
	outcome(hmix(hmix(m.size(), foreign_up), ipc::faults));
	if (foreign_up) { for (int i = 0; i < own; i++) down<H>(i); return; }
	H &l = objs<H>().make(4); { As a(4); S why; MC_CHECK(connects(l, FN, &why), "a later connect fails (%s): %s", ipc::what.c_str(), why.c_str()); M c = contents(l, keyset(8), "a later process"); MC_CHECK(c == m, "a later process sees %s, expected %s (%s)", show(c).c_str(), show(m).c_str(), ipc::what.c_str()); MC_CHECK(l.size() == m.size(), "size"); }
	for (int i = 0; i < own; i++) if (objs<H>()[i].is_connected()) { As a(i); M c = contents(objs<H>()[i], keyset(8), PN[i]); MC_CHECK(c == m, "P%d sees %s, expected %s", i, show(c).c_str(), show(m).c_str()); }
	for (int i = 0; i < own; i++) down<H>(i); if (pre == 1) down<H>(3); down<H>(4);
}
SCENARIO("C10", "race/2", QUICK, THOROUGH, "2 processes connect, insert, read (and leave): new map, map in use, left map; up to 3 (thorough 4) preemptions at every call, load and store") { int pre = choose(3), leave = choose(2); shard_here(); connect_race(2, pre, g().tier ? 4 : 3, 0, false, leave, false); }
SCENARIO("C10", "race/3", QUICK, THOROUGH, "3 processes connect, insert, read: new map, up to 2 (thorough 3) preemptions") { int leave = choose(2); shard_here(); connect_race(3, 0, g().tier ? 3 : 2, 0, false, leave, false); }
SCENARIO("C10", "faults/1", QUICK, THOROUGH, "1 process, up to 2 (thorough 3) failing calls, then it tries again: new map, map in use, left map") { int pre = choose(3), leave = choose(2); shard_here(); connect_race(1, pre, 0, g().tier ? 3 : 2, false, leave, false); }
SCENARIO("C10", "faults/2", QUICK, THOROUGH, "2 processes, up to 1 (thorough 2) failing calls and 1 preemption (thorough 2)") { int pre = choose(3); shard_here(); connect_race(2, pre, g().tier ? 2 : 1, g().tier ? 2 : 1, false, false, false); }
SCENARIO("C10", "interrupted", QUICK, THOROUGH, "2 processes, up to 2 interrupted waits, 2 preemptions (thorough 3)") { int pre = choose(3); shard_here(); connect_race(2, pre, g().tier ? 3 : 2, 2, true, false, false); }
SCENARIO("C10", "foreign", QUICK, THOROUGH, "a process with a different geometry among 1..2 others, new map, map in use, left map, 2 preemptions") { int pre = choose(3), n = 2 + choose(2); shard_here(); connect_race(n, pre, 2, 0, false, false, true); }
// every sequence of connects and disconnects on two objects
struct Mega { char b[1 << 20]; };
template <int N> void huge()
{
	typedef shm::hash_map<Mega, N, 4> H; static Mega a, b; ipc::reset(); ipc::limit = (size_t) 8 << 30; H &h = objs<H>().make(0), &l = objs<H>().make(1); S why;
	{ As x(0); bool ok = connects(h, FN, &why); ipc::limit = (size_t) 1 << 30; MC_CHECK(ok, "a map of %d values of 1 MiB is refused: %s", N, why.c_str()); }
	size_t z = 0; for (int i = 0; i < ipc::NSEGS; i++) if (ipc::segs[i].attached[0]) z = ipc::segs[i].size; MC_CHECK(z >= (size_t) N * sizeof(Mega), "a map of %d values of 1 MiB lies in %zu bytes of shared memory", N, z);
	{ As x(1); MC_CHECK(connects(l, FN, &why), "a second process cannot connect: %s", why.c_str()); }
	for (u64 k = 0; k < 3; k++) { As x(0); memset(a.b, 'a' + k, sizeof a.b); MC_CHECK(h.insert(k, a), "insert"); }
	for (u64 k = 0; k < 3; k++) { As x(1); memset(a.b, 'a' + k, sizeof a.b); MC_CHECK(l.read(k, b) && !memcmp(a.b, b.b, sizeof b.b), "entry %llu is damaged", (unsigned long long) k); }
	{ As x(1); MC_CHECK(l.erase(1) && l.size() == 2 && !l.read(1, b), "erase"); } { As x(0); MC_CHECK(h.size() == 2 && !h.read(1, b) && h.read(2, b), "after an erase"); h.clear(); MC_CHECK(!h.size(), "clear"); }
	outcome(z); for (int i = 0; i < 2; i++) down<H>(i); ipc::reset();
}
SCENARIO("C10", "huge", QUICK, THOROUGH, "maps of 2100 and 4097 values of 1 MiB (beyond 2^31 and 2^32 bytes): two processes connect, insert, read, erase, clear; a system that refuses so much makes connect fail")
{
	int k = choose(3); shard_here(); nontrivial(); if (k == 0) huge<2100>(); else if (k == 1) huge<4097>();
	else { typedef shm::hash_map<Mega, 4097, 4> H; ipc::reset(); H &h = objs<H>().make(0); S why; As x(0); MC_CHECK(!connects(h, FN, &why), "a map of 4 GiB is accepted where no more than 1 GiB are to be had"); MC_CHECK(!h.is_connected() && !ipc::attached(0) && unlocked(), "after a refused connect"); down<H>(0); }
}
SCENARIO("C10", "sequences", QUICK, THOROUGH, "every sequence of up to 5 (thorough 6) of: connect, connect to a missing file, disconnect, insert, destroy and re-create, on two processes")
{
	typedef shm::hash_map<V, 9, 2> H; ipc::reset(); ipc::faults_on = ipc::intr_on = false; M m; bool on[2] = { false, false }; int depth = g().tier ? 6 : 5, n = 0; u64 key = 0;
	for (int i = 0; i < 2; i++) objs<H>().make(i);
	for (int d = 0; d < depth; d++)
	{
		uint32_t c = choose(11); if (!c) break; n++; int p = (c - 1) / 5, what = (c - 1) % 5; As a(p); H &h = objs<H>()[p]; step();
		switch (what)
		{
		case 0: { note("P%d connects", p); S why; bool k = connects(h, FN, &why); if (!on[p]) { MC_CHECK(k, "connect fails: %s", why.c_str()); on[p] = true; } else { MC_CHECK(!k, "a second connect of a connected object succeeds"); on[p] = h.is_connected(); } break; }
		case 1: { note("P%d connects to a missing file", p); bool k = connects(h, "/missing"); MC_CHECK(!k, "connecting with a missing key file succeeds"); on[p] = on[p] && h.is_connected(); break; }
		case 2: note("P%d disconnects", p); h.disconnect(); on[p] = false; break;
		case 3: if (on[p]) { note("P%d inserts", p); V v(++key); MC_CHECK(h.insert(key, v), "insert fails"); m[key] = key; } break;
		case 4: note("P%d's object is destroyed", p); h.~H(); objs<H>().make(p); on[p] = false; break;
		}
		for (int q = 0; q < 2; q++) { H &x = objs<H>()[q]; MC_CHECK(x.is_connected() == on[q], "is_connected is %d", x.is_connected()); MC_CHECK(ipc::attached(q) == on[q], "P%d's memory is %s", q, on[q] ? "not attached" : "still attached"); if (on[q]) { As b(q); M s = contents(x, keyset(8), PN[q]); MC_CHECK(s == m, "P%d sees %s, expected %s", q, show(s).c_str(), show(m).c_str()); } }
		MC_CHECK(unlocked(), "a lock is held");
	}
	if (n > 2) nontrivial(); outcome(m.size()); for (int i = 0; i < 2; i++) down<H>(i);
}
// ------------------------------------------------------------------ C11: death
static int killed_; static void on_kill(int i) { killed_++; ipc::process_ends(i); }
// checks what survivors find; lost: slots that may be missing; touched: keys being worked on, with the values they may have
template <class H> void survivor(H &h, const M &sure, const std::vector<u64> &touched, const std::map<u64, std::set<u64>> &may, size_t cap, size_t lost, bool cleared, const S &when)
{
	M seen;
	auto legal = [&](u64 k, const V &v) { if (sure.count(k)) return v.a == sure.at(k) && v.b == v.a * 3; auto i = may.find(k); if (i == may.end()) return false; bool a = false, b = false; for (u64 x : i->second) { a = a || v.a == x; b = b || v.b == x * 3; } return a && b; };
	for (u64 k = 0; k < 8; k++) { V v(77); bool there = h.read(k, v); if (there) { MC_CHECK(legal(k, v), "%s: key %llu has %lld/%lld", when.c_str(), (unsigned long long) k, (long long) v.a, (long long) v.b); seen[k] = v.a; } MC_CHECK(there || !sure.count(k), "%s: key %llu is lost", when.c_str(), (unsigned long long) k); }
	h.lock_read_rw(); M it; for (typename H::const_iterator i = h.begin(), e = h.end(); i != e; ++i) { V v(i.value()); MC_CHECK(legal(i.key(), v), "%s: iteration shows key %llu with %lld/%lld", when.c_str(), (unsigned long long) i.key(), (long long) v.a, (long long) v.b); MC_CHECK(it.insert(std::make_pair(i.key(), (u64) v.a)).second, "%s: key %llu is there twice", when.c_str(), (unsigned long long) i.key()); } h.unlock_read_rw();
	MC_CHECK(it == seen, "%s: iteration shows %s, reads show %s", when.c_str(), show(it).c_str(), show(seen).c_str());
	if (!cleared) { size_t s = h.size(); MC_CHECK(s >= seen.size() && s <= seen.size() + lost, "%s: the size is %zu with %zu entries", when.c_str(), s, seen.size()); }
	// the map goes on as a map: overwrite everything, fill, erase, fill
	M m; for (auto &e : seen) { V v(e.second + 1000); MC_CHECK(h.insert(e.first, v), "%s: overwriting fails", when.c_str()); m[e.first] = e.second + 1000; }
	for (int round = 0; round < 3; round++)
	{
		for (u64 k = 20; k < 20 + cap + 2; k++) { V v(k * 10 + round); if (h.insert(k, v)) m[k] = k * 10 + round; else MC_CHECK(!m.count(k), "%s: overwriting fails", when.c_str()); }
		MC_CHECK(m.size() <= cap && (cleared || m.size() + lost >= cap), "%s: %zu of %zu entries fit (round %d)", when.c_str(), m.size(), cap, round);
		M c = contents(h, keyset(20 + cap + 3), when.c_str()); MC_CHECK(c == m, "%s, then refilled: the map shows %s, expected %s", when.c_str(), show(c).c_str(), show(m).c_str());
		if (round == 0) { M k = m; int odd = 0; for (auto &e : k) if (odd++ % 2 == 0) { MC_CHECK(h.erase(e.first), "%s: erase fails", when.c_str()); m.erase(e.first); } }
		else if (round == 1) { h.clear(); m.clear(); cleared = false; lost = 0; }
	}
}
template <class H> void death(size_t cap, int depth, int kills, bool concurrent)
{
	std::vector<Op> A = alphabet(3); std::vector<Op> W; for (auto &o : A) if (o.k != READ && o.k != SIZE && o.k != ITER) W.push_back(o);
	std::vector<Op> before; for (int i = 0; i < depth; i++) { uint32_t c = choose(W.size() + 1); if (!c) break; before.push_back(W[c - 1]); }
	std::vector<Op> vo; for (int i = 0; i < kills; i++) vo.push_back(A[choose(A.size())]); Op other = concurrent ? A[choose(A.size())] : op(SIZE); shard_here();
	ipc::reset(); H_.clear(); now_ = 0; fresh = 0; killed_ = 0; M m; up<H>(4);
	{ As a(4); for (auto &o : before) { std::vector<u64> v = values(o); model(m, cap, o, v); apply(objs<H>()[4], o, v); } }
	M old = m; std::vector<u64> touched; bool cleared = false; M sure = m; std::map<u64, std::set<u64>> may; S when; int died = 0;
	for (int i = 0; i < kills; i++)
	{
		const Op &o = vo[i]; up<H>(0); sched::Run r(concurrent ? 2 : 0); sched::on_kill = on_kill; sched::kill_budget = 1; int k0 = killed_; std::vector<u64> vals = values(o);
		r.add("the victim", [&]() { apply(objs<H>()[0], o, vals); }, true);
		std::vector<u64> ovals; if (concurrent) { up<H>(1); ovals = values(other); r.add("the other", [&]() { apply(objs<H>()[1], other, ovals); }); }
		torn_ok = true; r.go(); torn_ok = false; sched::kill_budget = 0; bool dead = killed_ > k0; died += dead;
		MC_CHECK(!r.deadlock, "%s is killed, then waiting for ever: %s", opname(o).c_str(), r.blocked().c_str());
		// what is certain now?
		auto touch = [&](const Op &t, const std::vector<u64> &v) {
			std::vector<u64> ks = t.keys; if (t.k == CLEAR) for (u64 k = 0; k < 8; k++) ks.push_back(k); if (t.k == READ || t.k == SIZE || t.k == ITER) ks.clear();
			for (size_t j = 0; j < ks.size(); j++) { u64 k = ks[j]; if (sure.count(k)) { may[k].insert(sure[k]); sure.erase(k); } if (t.k == INSERT || t.k == BINSERT) may[k].insert(v[j]); } };
		touch(o, vals); if (concurrent) touch(other, ovals);
		if (o.k == CLEAR && dead) cleared = true;
		when += (when.empty() ? "" : ", then ") + S(dead ? "a process is killed in " : "after ") + opname(o); if (concurrent) when += " beside " + opname(other);
		if (!dead) down<H>(0); if (concurrent) down<H>(1);
	}
	when = "with " + show(old) + ", " + when; if (died) nontrivial(); MC_CHECK(unlocked(), "%s: a lock is still held", when.c_str()); outcome(hmix(died, sure.size()));
	{ As a(4); survivor(objs<H>()[4], sure, touched, may, cap, died, cleared, when); } down<H>(4);
}
SCENARIO("C11", "kill/2x1", QUICK, THOROUGH, "every state reached by up to 3 (thorough 4) of 9 operations on a map of 2 entries in 1 bucket, then a process killed at every point of each of 13 operations") { death<H21>(2, g().tier ? 4 : 3, 1, false); }
SCENARIO("C11", "kill/3x2", QUICK, THOROUGH, "as kill/2x1 on a map of 3 entries in 2 buckets") { death<H32>(3, g().tier ? 4 : 3, 1, false); }
SCENARIO("C11", "kill/twice", QUICK, THOROUGH, "states reached by up to 2 (thorough 3) operations, two processes killed one after the other") { death<H32>(3, g().tier ? 3 : 2, 2, false); }
SCENARIO("C11", "kill/concurrent", QUICK, THOROUGH, "states reached by up to 1 (thorough 2) operations, a process killed while another works, 2 preemptions") { death<H21>(2, g().tier ? 2 : 1, 1, true); }
SCENARIO("C11", "kill/connect", QUICK, THOROUGH, "a process killed at every point of connecting to a map in use, using it and leaving, with another process connecting, 2 preemptions")
{
	typedef shm::hash_map<V, 4, 2> H; int pre = choose(2); shard_here(); ipc::reset(); fresh = 0; killed_ = 0; M m; H &h = up<H>(4); if (pre) { As a(4); V v(50); h.insert(5, v); m[5] = 50; }
	sched::Run r(2); sched::on_kill = on_kill; sched::kill_budget = 1;
	r.add("P0", []() { H &x = objs<H>().make(0); x.connect(FN); V v(60); x.insert(6, v); x.disconnect(); }, true);
	r.add("P1", []() { H &x = objs<H>().make(1); x.connect(FN); V v(70); x.insert(7, v); x.disconnect(); });
	r.go(); sched::kill_budget = 0; if (killed_) nontrivial(); MC_CHECK(!r.deadlock, "waiting for ever: %s", r.blocked().c_str()); MC_CHECK(unlocked(), "a lock is still held");
	m[7] = 70; std::map<u64, std::set<u64>> may; may[6].insert(60); { As a(4); survivor(h, m, std::vector<u64>(), may, 4, 1, false, "a process is killed while it connects"); } down<H>(4);
}
MC_MAIN
