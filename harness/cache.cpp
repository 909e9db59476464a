// C01, C02, C03: coda_cache in lockstep with a list-based reference model, under a virtual clock.
#include "mc.hpp"
#include "vclock.hpp"
#include <inttypes.h>
#include <list>
#include "coda/cache.hpp"
using namespace mc;

struct V
{
	int id; size_t sz; std::string *own;
	V() : id(-1), sz(0), own(NULL) {}
	V(int i, size_t s) : id(i), sz(s), own(NULL) {}
	size_t estimate_capacity() const { return sz; }
};
template <int MOD> struct K
{
	int k; K(int k_ = 0) : k(k_) {}
	bool operator==(const K &o) const { return k == o.k; }
};
template <int M> std::ostream &operator<<(std::ostream &o, const K<M> &k) { return o << k.k; }
namespace std { template <int M> struct hash< K<M> > { size_t operator()(const K<M> &k) const { return k.k % M; } }; }

struct Entry { int key, id; size_t size; int64_t time; };
struct Model
{
	std::list<Entry> l; size_t max, life;
	std::list<Entry>::iterator find(int k) { std::list<Entry>::iterator i = l.begin(); while (i != l.end() && i->key != k) ++i; return i; }
	size_t total() const { size_t t = 0; for (const Entry &e : l) t += e.size; return t; }
	void set(int k, int id, size_t size, bool upd)
	{
		std::list<Entry>::iterator i = find(k);
		Entry e = { k, id, size, vclock::sec() };
		if (i != l.end()) { if (!upd) e.time = i->time; l.erase(i); }
		l.push_back(e);
		while (!l.empty() && total() > max) { l.pop_front(); nontrivial(); }
	}
	const Entry *get(int k)
	{
		std::list<Entry>::iterator i = find(k);
		if (i == l.end()) return NULL;
		if (life && i->time + (int64_t) life < vclock::sec()) { l.erase(i); nontrivial(); return NULL; }
		return &*i;
	}
	bool erase(int k) { std::list<Entry>::iterator i = find(k); if (i == l.end()) return false; l.erase(i); return true; }
	uint64_t hash()
	{
		uint64_t h = max;
		std::map<int, int> rn;
		for (Entry &e : l) { h = hmix(h, e.key * 1000 + e.size); h = hmix(h, life ? vclock::sec() - e.time : 0); }
		return h;
	}
};

template <int M> struct World
{
	typedef K<M> key_t;
	coda_cache<key_t, V> c; Model m; int next;
	World(size_t max, size_t life) : c(max, life), next(1) { m.max = max; m.life = life; }

	void check_get(int k, bool byval)
	{
		const Entry *e = m.get(k);
		if (byval)
		{
			V v(-7, 77); c.get(key_t(k), v);
			note("get(%d, val) -> %s", k, v.id == -7 ? "nothing" : "found");
			if (e) MC_CHECK(v.id == e->id && v.sz == e->size, "get(%d,val) did not return the last stored value %d (got %d)", k, e->id, v.id);
			else MC_CHECK(v.id == -7 && v.sz == 77, "get(%d,val) returned value %d for a key that must be absent", k, v.id);
		}
		else
		{
			const V *v = c.get(key_t(k));
			note("get(%d) -> %s", k, v ? "found" : "NULL");
			if (e) MC_CHECK(v && v->id == e->id && v->sz == e->size, "get(%d) did not return the last stored value %d (got %d)", k, e->id, v ? v->id : -1);
			else MC_CHECK(!v, "get(%d) returned value %d for a key that must be absent", k, v->id);
		}
	}
	void set(int k, size_t size, bool upd)
	{
		note("set(%d, value %d of size %zu, update_time=%d)", k, next, size, (int) upd);
		V v(next, size);
		c.set(key_t(k), v, upd); m.set(k, next, size, upd); next++;
		MC_CHECK(m.total() <= m.max, "model error");
	}
	void erase(int k)
	{
		bool r = c.erase(key_t(k)), e = m.erase(k);
		note("erase(%d) -> %d", k, (int) r);
		MC_CHECK(r == e, "erase(%d) returned %d, expected %d", k, (int) r, (int) e);
	}
	void tick(int s) { vclock::now_us += 1000000ll * s; note("clock +%d s", s); }
	void check_counts()
	{
		std::string d; c.dbg(d, 0);
		unsigned long long n = 999999, sz = 999999;
		const char *p = strstr(d.c_str(), "nelt_cur="); if (p) sscanf(p, "nelt_cur=%llu", &n);
		p = strstr(d.c_str(), "size_cur="); if (p) sscanf(p, "size_cur=%llu", &sz);
		MC_CHECK(n == m.l.size(), "reported number of entries %llu, but %zu are held", n, m.l.size());
		MC_CHECK(sz == m.total(), "reported size %llu, but the held entries add up to %zu", sz, m.total());
		MC_CHECK(sz <= m.max, "cache holds %llu, more than its limit %zu", sz, m.max);
	}
	void observe(int nkeys)
	{
		check_counts();
		{ std::string d; c.dbg(d, 1); }
		size_t held = 0;
		for (int k = 0; k < nkeys; k++) { check_get(k, false); if (m.get(k)) held += m.get(k)->size; }
		for (int k = 0; k < nkeys; k++) check_get(k, true);
		MC_CHECK(held == m.total() && held <= m.max, "sum of the entries found by lookups is wrong");
		check_counts();
	}
};

// ---- C01 / C02: no expiry ---------------------------------------------------
static const size_t SZ[3] = { 3, 7, 11 };
template <int M> static void hist(int depth, int prefill, int sizes, bool gets)
{
	vclock::now_us = 1700000000ll * 1000000;
	World<M> w(10 + (prefill > 3 ? prefill * 3 : 0), 0);
	for (int i = 0; i < prefill; i++) w.set(i + (prefill > 3 ? 3 : 0), 3, true);
	int nset = 3 * sizes, n = 1 + nset + 3 + (gets ? 6 : 0);
	for (int d = 0; d < depth; d++)
	{
		int o = choose(n);
		if (!o) break;
		o--;
		step();
		if (o < nset) w.set(o % 3, SZ[o / 3] + (prefill > 3 && o / 3 == 2 ? prefill * 3 : 0), true);
		else if ((o -= nset) < 3) w.erase(o);
		else { o -= 3; w.check_get(o % 3, o / 3); }
		state(hmix(w.m.hash(), M));
	}
	w.observe(prefill + 4);
}
SCENARIO("C01 C02", "cache/3keys", QUICK, QUICK, "3 keys, sizes 3/7/11 against limit 10, set/erase/get(ptr)/get(val), all sequences up to 5 operations") { hist<97>(5, 0, 3, true); }
SCENARIO("C01 C02", "cache/3keys-deep", QUICK, QUICK, "3 keys, sizes 3/7, set/erase only, all sequences up to 6 operations") { hist<97>(6, 0, 2, false); }
SCENARIO("C01 C02", "cache/3keys", THOROUGH, THOROUGH, "3 keys, sizes 3/7/11 against limit 10, set/erase/get(ptr)/get(val), all sequences up to 6 operations") { hist<97>(6, 0, 3, true); }
SCENARIO("C01 C02", "cache/3keys-deep", THOROUGH, THOROUGH, "3 keys, sizes 3/7/11, set/erase only, all sequences up to 7 operations") { hist<97>(7, 0, 3, false); }
SCENARIO("C01 C02", "cache/colliding", QUICK, THOROUGH, "as 3keys with all keys in one bucket, up to 4 (thorough 5) operations, from 0..3 entries")
{
	int p = choose(4);
	hist<1>(g().tier ? 5 : 4, p, 3, true);
}
SCENARIO("C01 C02", "cache/prefilled", QUICK, THOROUGH, "11..14 and 30 prefilled keys (hash table growth) and 3 (thorough 4) operations on 3 of them and new ones")
{
	static const int pf[5] = { 11, 12, 13, 14, 30 };
	int p = pf[choose(5)];
	hist<97>(g().tier ? 4 : 3, p, 3, true);
}

SCENARIO("C01 C02", "cache/huge-sizes", QUICK, THOROUGH, "2 keys, sizes 3/7/11 times 2^28, 2^30, 2^32 or 2^40 against ten times that, set/erase/get(ptr), all sequences up to 4 (thorough 5) operations")
{
	static const int SH[] = { 28, 30, 32, 40 }; int sh = SH[choose(4)]; vclock::now_us = 1700000000ll * 1000000; World<97> w((size_t) 10 << sh, 0);
	for (int d = 0; d < (g().tier ? 5 : 4); d++) { int o = choose(11); if (!o) break; o--; step(); if (o < 6) w.set(o % 2, SZ[o / 2] << sh, true); else if (o < 8) w.erase(o - 6); else w.check_get(o - 8, false); state(hmix(w.m.hash(), sh)); }
	w.observe(3);
}
SCENARIO("C01 C02", "cache/many", QUICK, THOROUGH, "limits of 1, 255..257, 1000 and 20000 entries, 4 times as many stores over twice as many keys in three orders, every fifth followed by an erase: held entries in order of their last store")
{
	static const int L[] = { 1, 255, 256, 257, 1000, 20000 }; int lim = L[choose(6)], ord = choose(3); nontrivial(); vclock::now_us = 1700000000ll * 1000000;
	coda_cache<K<1000003>, V> c(3 * (size_t) lim, 0); std::list<std::pair<int, int> > l; std::map<int, std::list<std::pair<int, int> >::iterator> m; int keys = 2 * lim + 1;
	for (int i = 0; i < 4 * lim + 5; i++)
	{
		int k = ord == 0 ? i % keys : ord == 1 ? (int) (i * 7919ll % keys) : i % 2 ? i / 2 % keys : (keys - i / 2 % keys) % keys; step();
		c.set(K<1000003>(k), V(i, 3), true); if (m.count(k)) l.erase(m[k]); l.push_back(std::make_pair(k, i)); m[k] = --l.end();
		if ((int) l.size() > lim) { m.erase(l.front().first); l.pop_front(); }
		if (i % 5 == 4) { int e = (int) (i * 31ll % keys); bool r = c.erase(K<1000003>(e)), w = m.count(e); MC_CHECK(r == w, "erase(%d) returns %d after %d stores", e, r, i); if (w) { l.erase(m[e]); m.erase(e); } }
	}
	std::string d; c.dbg(d, 0); unsigned long long n = 0; const char *p = strstr(d.c_str(), "nelt_cur="); if (p) { sscanf(p, "nelt_cur=%llu", &n); MC_CHECK(n == l.size(), "%llu entries are reported, %zu are held", n, l.size()); }
	for (int k = 0; k < keys; k++) { const V *v = c.get(K<1000003>(k)); bool w = m.count(k); MC_CHECK((v != NULL) == w, "key %d is %sfound", k, v ? "" : "not "); if (v) MC_CHECK(v->id == m[k]->second, "key %d has the value of store %d, not %d", k, v->id, m[k]->second); }
}
// ---- C03: expiry ------------------------------------------------------------
static void expiry(int depth)
{
	static const int T[4] = { 1, 2, 0, 1000000000 };
	vclock::now_us = 1700000000ll * 1000000 + 500000;
	World<97> w(10, T[choose(g().tier ? 4 : 3)]);
	for (int d = 0; d < depth; d++)
	{
		int o = choose(15);
		if (!o) break;
		o--;
		step();
		if (o < 4) w.set(o & 1, 3, o >> 1);
		else if (o == 4) w.set(0, 8, true);
		else if (o == 5) w.set(1, 8, false);
		else if (o < 8) w.erase(o - 6);
		else if (o < 12) w.check_get((o - 8) & 1, (o - 8) >> 1);
		else w.tick(o - 11);
		state(w.m.hash());
	}
	w.observe(3);
}
SCENARIO("C03", "cache/expiry", QUICK, QUICK, "2 keys, lifetimes 0/1/2 s, set (updating time or not), both gets, erase, clock +1/+2 s; all sequences up to 5") { expiry(5); }
SCENARIO("C03", "cache/expiry", THOROUGH, THOROUGH, "as quick plus a huge lifetime, all sequences up to 6") { expiry(6); }
SCENARIO("C03", "cache/expiry-edges", QUICK, THOROUGH, "one store (updating or not, over nothing/fresh/old entry), one lookup, every age around the lifetime for lifetimes 1..4 and 86400")
{
	static const int L[5] = { 1, 2, 3, 4, 86400 };
	int T = L[choose(5)];
	vclock::now_us = 1700000000ll * 1000000;
	World<97> w(10, T);
	int pre = choose(4);
	if (pre) { w.set(0, 3, true); w.tick(pre == 1 ? 0 : pre == 2 ? T : T + 1); }
	w.set(0, 3, choose(2)); step();
	int a = choose(5);
	w.tick(a == 0 ? 0 : a == 1 ? T - 1 : a == 2 ? T : a == 3 ? T + 1 : 2 * T + 1);
	w.check_get(0, choose(2)); step();
	state(hmix(w.m.hash(), pre * 10 + a));
	w.tick(choose(2));
	w.observe(2);
}

SCENARIO("C03", "cache/expiry-wide", QUICK, THOROUGH, "lifetimes of 0, 1, 2^31-1 to 2^32+1, 2^63-1, 2^63 and the largest, clocks from 1 to 2^33, ages of 0 to 2^33 around each lifetime, stored anew or over an older entry, updating or not")
{
	static const size_t T[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~(size_t) 0 }; static const int64_t C[] = { 1, 0x7ffffffe, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x200000000ll };
	static const int64_t A[] = { 0, 1, 2, 1000, 0x7ffffffe, 0x7fffffff, 0x80000000ll, 0x80000001ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x100000002ll, 0x200000000ll };
	size_t t = T[choose(10)]; int64_t c = C[choose(8)], a = A[choose(14)]; int pre = choose(3), how = choose(2); vclock::now_us = c * 1000000; nontrivial(); step();
	coda_cache<K<97>, V> x(100, t); x.set(K<97>(1), V(7, 3), true); int64_t born = c; if (pre) { vclock::now_us += 1000000; x.set(K<97>(1), V(8, 3), pre == 1); if (pre == 1) born++; } if (pre && t < 2) return;
	vclock::now_us = (born + a) * 1000000; int id = -1; if (how) { V v(-1, 3); x.get(K<97>(1), v); id = v.id; } else { const V *v = x.get(K<97>(1)); if (v) id = v->id; }
	bool want = !t || (size_t) a <= t;
	MC_CHECK(id == (want ? pre ? 8 : 7 : -1), "stored at %lld with a lifetime of %zu, looked up after %lld s: %s", (long long) born, t, (long long) a, id < 0 ? "gone" : "found"); outcome(hmix(want, pre));
}
// ---- C02: size estimates -----------------------------------------------------
template <class T> static void vec_case(size_t n, size_t res, const char *nm)
{
	std::vector<T> v; v.reserve(res); v.resize(n);
	note("vector<%s> n=%zu cap=%zu", nm, n, v.capacity());
	MC_CHECK(estimate_capacity(v) == sizeof v + v.capacity() * sizeof(T), "estimate of vector<%s> with capacity %zu is %zu", nm, v.capacity(), estimate_capacity(v));
}
struct elem_big { char c[500]; };
SCENARIO("C02", "cache/estimates", QUICK, THOROUGH, "strings and vectors of every size 0..80 with every reserve of 0..80")
{
	size_t n = choose(81), r = choose(81); int t = choose(6);
	step();
	if (t == 5) // what a pointer refers to belongs to somebody else
	{
		if (n || r) return;
		char c = 0; double d = 0; std::string s; elem_big b; MC_CHECK(estimate_capacity(&c) == sizeof(void *) && estimate_capacity(&d) == sizeof(void *) && estimate_capacity(&s) == sizeof(void *) && estimate_capacity(&b) == sizeof(void *) && estimate_capacity((const char *) "text") == sizeof(void *), "estimate of a pointer is not its size");
	}
	else
	if (t == 0)
	{
		std::string s; s.reserve(r); s.resize(n, 'x');
		note("string n=%zu cap=%zu", n, s.capacity());
		MC_CHECK(estimate_capacity(s) == sizeof s + s.capacity(), "estimate of a string with capacity %zu is %zu", s.capacity(), estimate_capacity(s));
	}
	else if (t == 1)
	{
		std::wstring s; s.reserve(r); s.resize(n, L'x');
		MC_CHECK(estimate_capacity(s) == sizeof s + s.capacity() * sizeof(wchar_t), "estimate of a wstring with capacity %zu is %zu", s.capacity(), estimate_capacity(s));
	}
	else if (t == 2) vec_case<char>(n, r, "char");
	else if (t == 3) vec_case<uint64_t>(n, r, "uint64_t");
	else vec_case<std::string>(n, r, "string");
	nontrivial(); state(hmix(hmix(n, r), t));
}
SCENARIO("C02", "cache/string-values", QUICK, THOROUGH, "cache<string,string> with real string capacities: 2 keys, lengths 0/15/16/40/100, all sequences up to 4 stores/erases")
{
	static const size_t L[5] = { 0, 15, 16, 40, 100 };
	coda_cache<std::string, std::string> c(190, 0);
	std::list< std::pair<std::string, std::string> > m;
	for (int d = 0; d < (g().tier ? 5 : 4); d++)
	{
		int o = choose(13);
		if (!o) break;
		o--; step();
		std::string k(1, 'a' + o % 2); k += "-a-long-key-beyond-the-short-string-buffer";
		for (auto i = m.begin(); i != m.end(); ++i) if (i->first == k) { m.erase(i); break; }
		if (o < 10)
		{
			std::string v(L[o / 2], 'A' + d);
			note("set(%s, %zu bytes)", k.c_str(), v.size());
			c.set(k, v, false);
			m.push_back(std::make_pair(k, v));
			// the newest entries that are still there; everything older must be gone (checked below)
			while (!m.empty() && !c.get(m.front().first)) { m.pop_front(); nontrivial(); }
		}
		else { note("erase(%s)", k.c_str()); c.erase(k); }
		uint64_t h = 5;
		for (auto &e : m)
		{
			const std::string *p = c.get(e.first);
			MC_CHECK(p && *p == e.second, "entry %s is missing or has a wrong value", e.first.c_str());
			h = hstr(hmix(h, e.second.size()), e.first);
		}
		state(h);
		size_t held = 0; unsigned long long rep = 999999;
		for (auto &e : m) held += sizeof(std::string) + c.get(e.first)->capacity();
		std::string ds; c.dbg(ds, 0);
		const char *q = strstr(ds.c_str(), "size_cur="); if (q) sscanf(q, "size_cur=%llu", &rep);
		MC_CHECK(held <= 190, "the held values occupy %zu bytes, more than the limit 190", held);
		MC_CHECK(rep == held, "reported size %llu, but the held values add up to %zu", rep, held);
		for (int k2 = 0; k2 < 2; k2++)
		{
			std::string kk(1, 'a' + k2); kk += "-a-long-key-beyond-the-short-string-buffer";
			bool in = false; for (auto &e : m) in |= e.first == kk;
			MC_CHECK(in || !c.get(kk), "entry %s must be absent", kk.c_str());
		}
	}
}
MC_MAIN
