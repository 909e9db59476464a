// C04, C05: string storage in lockstep with a std::map.
#include "mc.hpp"
#include "coda/stringstorage.h"
#include <algorithm>
#include <set>
extern "C" void *string_storage_find(string_storage *, const char *) __attribute__((weak)); // in the library, but not in its header
using namespace mc;

struct Slot { unsigned char *p; unsigned char pat; };
struct World
{
	string_storage ss; size_t uds; std::map<std::string, Slot> m; unsigned seq; uint64_t h; bool c4, c5;
	std::map<std::string, int> seen;
	World(size_t u) : uds(u), seq(0), h(u)
	{
		string_storage_init(&ss, u);
		c4 = !strcmp(g().prop, "C04"); c5 = !c4;
	}
	~World() { string_storage_free(&ss); }
	void verify_slots()
	{
		for (auto &e : m)
			for (size_t i = 0; i < uds; i++)
				if (e.second.p[i] != (unsigned char) (e.second.pat + i * 7))
					fail("byte %zu of the slot of %s was disturbed", i, show(e.first).c_str());
	}
	static void cb(void *ud, const char *key, void *value)
	{
		World *w = (World *) ud;
		std::string k(key);
		note("  enumerated %s", show(k).c_str());
		auto it = w->m.find(k);
		MC_CHECK(it != w->m.end(), "enumeration reports %s which was never added", show(k).c_str());
		MC_CHECK(it->second.p == value, "enumeration reports a wrong slot for %s", show(k).c_str());
		MC_CHECK(++w->seen[k] == 1, "enumeration reports %s twice", show(k).c_str());
	}
	void verify_enum()
	{
		seen.clear();
		string_storage_enumerate(&ss, cb, this);
		if (seen.size() != m.size())
			for (auto &e : m) MC_CHECK(seen.count(e.first), "enumeration does not report %s", show(e.first).c_str());
	}
	void add(const std::string &s)
	{
		step();
		char *heap = (char *) malloc(s.size() + 1); // own block: reads beyond the terminator are caught
		memcpy(heap, s.c_str(), s.size() + 1);
		unsigned char *p = (unsigned char *) string_storage_add(&ss, heap);
		memset(heap, 'z', s.size()); free(heap); // the storage must keep its own copy
		note("add(%s) uds=%zu -> %s", show(s).c_str(), uds, p ? "slot" : "refused");
		auto it = m.find(s);
		if (s.size() + 1 + uds > 4096) { if (c4) MC_CHECK(!p, "a string of %zu bytes with %zu bytes of user data does not fit but was accepted", s.size(), uds); if (!p) return; }
		if (!p) { MC_CHECK(s.size() + 1 + uds == 4096 && it == m.end(), "add of a string of %zu bytes was refused", s.size()); return; }
		if (it != m.end())
		{
			if (c4) MC_CHECK(p == it->second.p, "adding %s again returned a different slot", show(s).c_str());
		}
		else
		{
			size_t l = 0; for (auto &e : m) { size_t c = 0; while (c < s.size() && c < e.first.size() && s[c] == e.first[c]) c++; l = std::max(l, c); }
			if (l > 8) nontrivial();
			if (c4)
			{
				for (size_t i = 0; i < uds; i++) MC_CHECK(p[i] == 0, "the new slot of %s is not zero-filled", show(s).c_str());
				for (auto &e : m)
				{
					MC_CHECK(e.second.p != p, "%s got the slot of %s", show(s).c_str(), show(e.first).c_str());
					if (uds) MC_CHECK(p + uds <= e.second.p || e.second.p + uds <= p, "the slots of %s and %s overlap", show(s).c_str(), show(e.first).c_str());
				}
			}
			Slot sl = { p, (unsigned char) (++seq * 37 + 11) };
			for (size_t i = 0; i < uds; i++) p[i] = sl.pat + i * 7;
			m[s] = sl;
			h = hstr(h, s);
		}
		state(h);
		if (c4) verify_slots();
	}
	const std::vector<std::string> *alphabet = NULL;
	static void count(void *ud, const char *, void *) { ++*(size_t *) ud; }
	void probe() // look-ups change nothing and find exactly what was added
	{
		if (!string_storage_find) return; std::set<std::string> ask; size_t before = 0, after = 0; string_storage_enumerate(&ss, count, &before);
		for (auto &e : m) { const std::string &k = e.first; ask.insert(k); ask.insert(k + "x"); if (!k.empty()) { ask.insert(k.substr(0, k.size() - 1)); ask.insert(k.substr(1)); ask.insert(k.substr(0, k.size() / 2)); std::string t = k; t.back() ^= 3; ask.insert(t.c_str()); } }
		if (alphabet) ask.insert(alphabet->begin(), alphabet->end());
		for (auto &k : ask)
		{
			char *heap = strdup(k.c_str()); unsigned char *p = (unsigned char *) string_storage_find(&ss, heap); free(heap);
			auto it = m.find(k);
			if (it == m.end()) MC_CHECK(!p, "%s was never added but is found", show(k).c_str());
			else MC_CHECK(p == it->second.p, "looking up %s gives %s", show(k).c_str(), p ? "a wrong slot" : "nothing");
		}
		string_storage_enumerate(&ss, count, &after); MC_CHECK(before == after, "looking up strings changed their number from %zu to %zu", before, after);
	}
	void finish()
	{
		if (c5) verify_enum();
		if (c4)
		{
			probe();
			std::vector<std::string> k; for (auto &e : m) k.push_back(e.first);
			for (auto &s : k) add(s);
			size_t n = m.size();
			verify_slots();
			MC_CHECK(m.size() == n, "model error");
		}
	}
};

static std::vector<std::string> dedup(std::vector<std::string> v)
{
	std::vector<std::string> r; for (auto &s : v) if (std::find(r.begin(), r.end(), s) == r.end()) r.push_back(s);
	return r;
}
static std::vector<std::string> compose(std::vector<std::string> p, int max)
{
	std::vector<std::string> all(1, ""), cur(1, "");
	for (int i = 0; i < max; i++)
	{
		std::vector<std::string> nx; for (auto &a : cur) for (auto &b : p) nx.push_back(a + b);
		cur = nx; all.insert(all.end(), nx.begin(), nx.end());
	}
	return dedup(all);
}
static void seq(const std::vector<std::string> &v, int depth, size_t uds)
{
	World w(uds); w.alphabet = &v;
	for (int d = 0; d < depth; d++) { int c = choose(v.size() + (d > 0)); if (c == (int) v.size()) break; w.add(v[c]); }
	w.finish();
}
static std::string rep(char c, int n) { return std::string(n, c); }

static std::vector<std::string> A1() { return compose({ rep('a', 9), rep('b', 9), "c" }, 3); }      // 40
static std::vector<std::string> A2() { return compose({ rep('a', 9), rep('b', 9), "a", "b" }, 3); }  // 85-
static std::vector<std::string> A3()
{
	std::vector<std::string> r;
	int k[] = { 0, 1, 7, 8, 9, 10, 17, 18, 19, 27 };
	const char *suf[] = { "", "b", "\xff", "bbbbbbbbbb", "\x01" };
	for (int i : k) for (const char *s : suf) r.push_back(rep('a', i) + s);
	return dedup(r);
}
static std::vector<std::string> A4() // deep nesting: 9-byte pieces
{
	return compose({ rep('a', 9), "bcdefghij" }, 4); // 31
}
static std::vector<std::string> A5(bool big)
{
	std::vector<std::string> r;
	int p[] = { 0, 9, 246, 247, 254, 255, 256, 257, 264, 300, 510, 511, 520 };
	std::string suf[] = { "", "b", "c", rep('b', 20), rep('d', 300) };
	for (int i : p) for (int j = 0; j < (big ? 5 : 4); j++) r.push_back(rep('a', i) + suf[j]);
	return dedup(r);
}
SCENARIO("C04 C05", "sstorage/3pieces", QUICK, QUICK, "40 strings made of up to 3 pieces (9 a's, 9 b's, c), every sequence of up to 3 adds") { static auto v = A1(); seq(v, 3, 8); }
SCENARIO("C04 C05", "sstorage/3pieces", THOROUGH, THOROUGH, "40 strings made of up to 3 pieces (9 a's, 9 b's, c), every sequence of up to 4 adds") { static auto v = A1(); seq(v, 4, 8); }
SCENARIO("C04 C05", "sstorage/4pieces", QUICK, THOROUGH, "strings made of up to 3 of the pieces a*9, b*9, a, b; every sequence of up to 3 adds") { static auto v = A2(); seq(v, 3, 1); }
SCENARIO("C04 C05", "sstorage/threshold", QUICK, THOROUGH, "50 strings sharing 0..27 leading bytes around the multiples of 8 and 9, with 5 endings, every sequence of up to 3 adds") { static auto v = A3(); seq(v, 3, 4); }
SCENARIO("C04 C05", "sstorage/nested", QUICK, QUICK, "31 strings of up to 4 nine-byte pieces, every sequence of up to 4 adds") { static auto v = A4(); seq(v, 4, 2); }
SCENARIO("C04 C05", "sstorage/nested", THOROUGH, THOROUGH, "31 strings of up to 4 nine-byte pieces, every sequence of up to 5 adds") { static auto v = A4(); seq(v, 5, 2); }
SCENARIO("C04 C05", "sstorage/long-prefix", QUICK, QUICK, "shared prefixes around 255/256 and 510 bytes with 4 endings, every sequence of up to 3 adds") { static auto v = A5(false); seq(v, 3, 8); }
SCENARIO("C04 C05", "sstorage/long-prefix", THOROUGH, THOROUGH, "shared prefixes around 255/256 and 510 bytes with 5 endings, every sequence of up to 4 adds") { static auto v = A5(true); seq(v, 4, 8); }
SCENARIO("C04 C05", "sstorage/prefix-256", QUICK, THOROUGH, "two strings with the same ending behind prefixes of p and of p+256, p+512, p+768 shared with a third one (p = 0..20, 240..260), in every order")
{
	int p = choose(42); if (p > 20) p += 219;
	int q = p + 256 * (1 + choose(3)); static const std::string T[] = { "", "b", rep('b', 20) };
	std::string t = T[choose(3)], v[] = { rep('a', 1100), rep('a', p) + t, rep('a', q) + t }; int o[] = { 0, 1, 2 };
	for (int k = choose(6); k--; ) std::next_permutation(o, o + 3);
	World w(4); for (int i : o) w.add(v[i]);
	w.add("ab"); w.finish();
}
SCENARIO("C04 C05", "sstorage/block-edge", QUICK, THOROUGH, "string lengths around the block size for user data sizes 0,1,4,8,100,4000,4094..4096; every sequence of up to 4 adds of fresh or shared-prefix strings")
{
	static const size_t U[9] = { 0, 1, 4, 8, 100, 4000, 4094, 4095, 4096 };
	size_t uds = U[choose(9)];
	World w(uds);
	std::vector<int> L;
	for (int d = -3; d <= 2; d++) { int l = 4096 - (int) uds + d; if (l >= 0) L.push_back(l); }
	for (int l : { 0, 10, 1300, 2040 }) if (l + (int) uds + 1 < 4090) L.push_back(l);
	for (int d = 0; d < (g().tier ? 4 : 3); d++)
	{
		int c = choose(L.size() * 2 + (d > 0)); if (c == (int) L.size() * 2) break;
		int l = L[c / 2];
		std::string s = rep(c % 2 ? 'q' : 'e' + d, l);
		if (l > 0) s[l - 1] = 'A' + d;
		w.add(s);
	}
	w.finish();
}
SCENARIO("C04 C05", "sstorage/exact-fill", QUICK, THOROUGH, "two adds whose lengths together end at every offset -4..+4 around the block end")
{
	static const size_t U[4] = { 0, 1, 8, 100 };
	size_t uds = U[choose(4)];
	World w(uds);
	int l1 = 1 + choose(2) * 1500, off = (int) choose(9) - 4;
	w.add(rep('a', l1));
	int l2 = 4096 - (int) (l1 + 2 + uds) - 2 - (int) uds + off;
	w.add(rep('b', l2)); w.add("c"); w.add(rep('b', 20)); w.add(rep('d', 4000 - uds));
	w.finish();
}
static void bulk(int order, int shape, int n, size_t uds)
{
	World w(uds);
	for (int i = 0; i < n; i++)
	{
		int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : (i % 2 ? n - 1 - i / 2 : i / 2);
		char t[32]; snprintf(t, sizeof t, "%03d", k);
		std::string s;
		switch (shape)
		{
		case 0: s = t; break;
		case 1: s = rep('p', 12) + t; break;
		case 2: s = rep('p', 12 + 10 * (k % 5)) + t; break;
		case 3: s = t + rep('x', 1990); break;
		case 4: s = rep('p', k); break;
		case 5: s = rep('p', 9 * (k % 40)) + t; break;
		case 6: s = std::string(t, t + 2) + rep('y', 14) + t; break;
		}
		w.add(s);
		if (w.c5) w.verify_enum();
	}
	w.finish();
}
SCENARIO("C04 C05", "sstorage/bulk", QUICK, THOROUGH, "1..52 (thorough 1..110) distinct strings in 4 insertion orders and 7 sharing shapes, user data 0 or 8: crosses every array growth step and 35+ blocks")
{
	int o = choose(4), s = choose(7), n = 1 + choose(g().tier ? 110 : 52);
	bulk(o, s, n, choose(2) * 8);
}
// many strings: only a final comparison
struct Many { std::map<std::string, std::pair<unsigned char *, int> > m; };
static void many_cb(void *ud, const char *key, void *value)
{
	Many *w = (Many *) ud; auto it = w->m.find(key); step();
	MC_CHECK(it != w->m.end(), "enumeration reports %s which was never added", show(std::string(key)).c_str());
	MC_CHECK(it->second.first == value, "enumeration reports a wrong slot for %s", key); MC_CHECK(++it->second.second == 1, "enumeration reports %s twice", key);
}
SCENARIO("C04 C05", "sstorage/many", QUICK, THOROUGH, "255..258, 1000, 5000, 32769 and 65537 strings with no, a short, or a common prefix of 12 or 300 bytes (up to 5000), with 0 or 8 bytes of user data, in ascending or (up to 5000) mixed order, each added twice")
{
	static const int N[] = { 255, 256, 257, 258, 1000, 5000, 32769, 65537 };
	int n = N[choose(8)], shape = choose(4), o = choose(2); size_t uds = choose(2) * 8; if ((o || shape > 1) && n > 5000) return; nontrivial();
	string_storage ss; string_storage_init(&ss, uds); Many w; bool c5 = !strcmp(g().prop, "C05");
	std::string pre = shape == 0 ? "" : shape == 1 ? "ab" : rep('p', shape == 2 ? 12 : 300); char t[32];
	for (int round = 0; round < 2; round++) for (int i = 0; i < n; i++)
	{
		int k = o ? (int) (i * 2654435761u % 7919) * 8 + i % 8 : i; snprintf(t, sizeof t, "%06d", k); std::string s = pre + t; step();
		unsigned char *p = (unsigned char *) string_storage_add(&ss, s.c_str()); MC_CHECK(p, "string %d is refused", i);
		auto it = w.m.find(s);
		if (it != w.m.end()) { if (!c5) MC_CHECK(p == it->second.first, "adding %s again gives another slot", show(s).c_str()); continue; }
		for (size_t b = 0; b < uds; b++) { MC_CHECK(c5 || p[b] == 0, "the slot of string %d is not zero-filled", i); p[b] = k * 7 + b; }
		w.m[s] = std::make_pair(p, 0);
	}
	if (c5) { string_storage_enumerate(&ss, many_cb, &w); for (auto &e : w.m) MC_CHECK(e.second.second == 1, "enumeration does not report %s", show(e.first).c_str()); }
	else for (auto &e : w.m) for (size_t b = 0; b < uds; b++) MC_CHECK(e.second.first[b] == (unsigned char) (atoi(e.first.c_str() + pre.size()) * 7 + b), "the slot of %s was disturbed", show(e.first).c_str());
	string_storage_free(&ss);
}
MC_MAIN
