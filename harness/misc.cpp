// C32..C34: command-line options, the shared pool and stack, words and error objects.
#include "mc.hpp"
#include <getopt.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <vector>
#include <set>
#include <deque>
#include <algorithm>
#include <errno.h>
#include "coda/daemon.h"
#include "coda/easy_parsing.hpp"
#include "coda/error.hpp"
#include "coda/shm_pool.hpp"
using namespace mc;
typedef std::string S;
extern "C" { const char *plain_strerror_r(int err, char *b, unsigned long n); void plain_message(int err, char *out, unsigned long n); }

// ------------------------------------------------------------------ C32 options
struct Want { bool ok; int config, coff, pid, poff, daemon; Want() : ok(true), config(-1), coff(0), pid(-1), poff(0), daemon(0) {} }; // token and offset of the values
static const struct { const char *name; int arg; char val; } LONG[] = { { "config", 1, 'c' }, { "pid", 1, 'p' }, { "daemon", 0, 'd' }, { "no-daemon", 0, 'D' } };
static Want reference(const std::vector<S> &a)
{
	Want w; auto set = [&](char v, int tok, int off) { if (v == 'c') { w.config = tok; w.coff = off; } else if (v == 'p') { w.pid = tok; w.poff = off; } else w.daemon = v == 'd'; };
	for (size_t i = 1; i < a.size(); i++)
	{
		const S &t = a[i]; if (t.size() < 2 || t[0] != '-') continue; if (t == "--") break;
		if (t[1] == '-')
		{
			size_t eq = t.find('='); S name = t.substr(2, eq == S::npos ? eq : eq - 2); int hit = -1, hits = 0;
			for (int k = 0; k < 4; k++) if (name == LONG[k].name) { hit = k; hits = 1; break; } else if (S(LONG[k].name).compare(0, name.size(), name) == 0) { hit = k; hits++; }
			if (hits != 1 || (!LONG[hit].arg && eq != S::npos)) { w.ok = false; return w; }
			if (!LONG[hit].arg) set(LONG[hit].val, 0, 0); else if (eq != S::npos) set(LONG[hit].val, i, eq + 1); else if (i + 1 < a.size()) { set(LONG[hit].val, i + 1, 0); i++; } else { w.ok = false; return w; }
			continue;
		}
		for (size_t j = 1; j < t.size(); j++)
		{
			if (t[j] == 'd' || t[j] == 'D') set(t[j], 0, 0);
			else if (t[j] == 'c' || t[j] == 'p') { if (j + 1 < t.size()) set(t[j], i, j + 1); else if (i + 1 < a.size()) { set(t[j], i + 1, 0); i++; } else { w.ok = false; return w; } break; }
			else { w.ok = false; return w; }
		}
	}
	return w;
}
static void parse_one(const std::vector<S> &a)
{
	step(); S all; for (auto &t : a) all += " '" + t + "'"; note("%s", all.c_str());
	std::vector<char *> v; for (auto &t : a) v.push_back(strcpy((char *) malloc(t.size() + 1), t.c_str())); std::vector<char *> orig = v; v.push_back(NULL);
	coda_getopt_t o; memset(&o, 0xA5, sizeof o); opterr = 0; optind = 0; int rc = coda_getopt_parse((int) a.size(), v.data(), &o); Want w = reference(a);
	MC_CHECK(rc == (w.ok ? 0 : -1), "options%s: returned %d", all.c_str(), rc);
	if (w.ok)
	{
		const char *c = w.config < 0 ? NULL : orig[w.config] + w.coff, *p = w.pid < 0 ? NULL : orig[w.pid] + w.poff;
		MC_CHECK(!c == !o.config && (!c || !strcmp(c, o.config)), "options%s: config is %s instead of %s", all.c_str(), o.config ? o.config : "not set", c ? c : "not set");
		MC_CHECK(!p == !o.pid && (!p || !strcmp(p, o.pid)), "options%s: pid is %s instead of %s", all.c_str(), o.pid ? o.pid : "not set", p ? p : "not set");
		MC_CHECK(o.daemon == (unsigned) w.daemon, "options%s: daemon is %u", all.c_str(), (unsigned) o.daemon); outcome(hmix(hmix(c ? hstr(1, c) : 1, p ? hstr(2, p) : 2), w.daemon));
	}
	else outcome(77);
	for (size_t i = 0; i < orig.size(); i++) { MC_CHECK(a[i] == orig[i], "options%s: an argument was changed", all.c_str()); free(orig[i]); }
}
SCENARIO("C32", "options", QUICK, THOROUGH, "every list of up to 4 (thorough 5) arguments out of 29 forms: short, joined and long options, abbreviations, separate and attached values, -- and -, errors")
{
	static const char *const T[] = { "-d", "-D", "-c", "-p", "-cA", "-pB", "-dcA", "-Dd", "-dD", "-x", "-dp", "--", "-", "", "f", "--config", "--pid", "--config=C", "--pid=", "--daemon", "--no-daemon", "--daemon=1", "--c", "--p=E", "--no", "--d", "--bogus", "--=x", "--con=a=b" };
	int n = choose((g().tier ? 5 : 4) + 1); std::vector<S> a(1, "prog"); for (int i = 0; i < n; i++) { a.push_back(T[choose(29)]); if (i == 1) shard_here(); } if (n < 2) shard_here(); if (n > 1) nontrivial(); parse_one(a);
}
SCENARIO("C32", "prefixes", QUICK, THOROUGH, "every prefix and every one-letter extension of the four long names, with no value, an attached and a separate one, in both positions")
{
	int k = choose(4), len = choose(13), how = choose(4), after = choose(2); shard_here(); nontrivial(); S nm = LONG[k].name; S t = "--" + (len <= (int) nm.size() ? nm.substr(0, len) : nm + S(1, "xX-"[len % 3])); if (t == "--") t = "--=";
	std::vector<S> a(1, "prog"); if (after) { a.push_back("file"); a.push_back("-d"); } if (how & 1) t += "=v/w"; a.push_back(t); if (how & 2) a.push_back("sep"); parse_one(a);
}
SCENARIO("C32", "usage", QUICK, THOROUGH, "the usage text names the program and every option")
{
	shard_here(); nontrivial(); int fd = memfd_create("u", 0), keep = dup(2); if (fd < 0 || keep < 0) internal_error("memfd"); dup2(fd, 2); char nm[] = "/some/pro%s"; char *av[] = { nm, NULL }; int rc = coda_getopt_usage(1, av); fflush(stderr); dup2(keep, 2); close(keep);
	char b[4096]; int n = pread(fd, b, sizeof b - 1, 0); close(fd); if (n < 0) n = 0; b[n] = 0; step(); MC_CHECK(rc == 0, "coda_getopt_usage returns %d", rc); static const char *const W[] = { nm, "-c", "--config", "-p", "--pid", "-d", "--daemon", "-D", "--no-daemon" };
	for (const char *w : W) MC_CHECK(strstr(b, w), "the usage text does not mention %s", w); outcome(1);
}

// ------------------------------------------------------------------ C33 pool and stack in shared memory
struct Item { uint64_t a, b; }; struct Small { uint8_t c[3]; };
template <class P> bool refuses(char *h, char *s, char *d) { P q; try { q.attach(h, s, d); } catch (std::exception &) { return true; } return false; }
template <class P> bool refuses(char *h, char *d) { P q; try { q.attach(h, d); } catch (std::exception &) { return true; } return false; }
template <class T> struct Wider { T t; char more[8]; }; struct Narrow { char c; };
template <class T, int N> void pool_sequences(int depth)
{
	typedef shm::pool<T, N> P; int n = 0; std::vector<int> c; for (; n < depth; n++) { int x = choose(N + 5); if (!x) break; c.push_back(x); if (n == 2) shard_here(); } if (n < 3) shard_here();
	P a, b; size_t hs = a.header_size(), ss = a.stack_size(), ds = a.data_size(); MC_CHECK(ds == sizeof(T) * N, "data_size() is %zu", ds); if (n > 2) nontrivial();
	char *h = (char *) calloc(hs, 1), *s = (char *) calloc(ss, 1), *d = (char *) calloc(ds, 1); a.attach(h, s, d); b.attach(h, s, d); // exact sizes, watched by AddressSanitizer
	std::set<uint32_t> used; std::vector<uint32_t> order;
	for (int i = 0; i < n; i++)
	{
		P &p = i % 2 ? b : a; int k = c[i]; step();
		if (k == 1)
		{
			uint32_t x = p.allocate(); note("allocate: %d", (int) x);
			if ((int) used.size() == N) MC_CHECK(x == (uint32_t) -1, "allocate() returns %u although all %d objects are taken", x, N);
			else { MC_CHECK(x < (uint32_t) N, "allocate() returns %d with %zu of %d objects taken", (int) x, used.size(), N); MC_CHECK(used.insert(x).second, "object %u handed out twice", x); order.push_back(x); memset(d + x * sizeof(T), 0x40 + x, sizeof(T)); }
		}
		else if (k == 2) { p.clear(); used.clear(); order.clear(); note("clear"); }
		else if (k == 3) { p.detach(); p.attach(h, s, d); note("attach again"); }
		else if (k == 4) { char before[64]; memcpy(before, h, hs); bool all = refuses<shm::pool<T, N + 1>>(h, s, d) && refuses<shm::pool<T, (N > 1 ? N - 1 : 9)>>(h, s, d) && refuses<shm::pool<Wider<T>, N>>(h, s, d) && (sizeof(T) == 1 || refuses<shm::pool<Narrow, N>>(h, s, d)); note("attach different pools"); MC_CHECK(all, "a pool of another size was accepted"); MC_CHECK(!memcmp(before, h, hs), "a refused attach changes the pool"); }
		else { size_t j = k - 5; if (j >= order.size()) continue; uint32_t x = order[j]; order.erase(order.begin() + j); used.erase(x); note("free %u", x); MC_CHECK(p.free(x), "free(%u) refused", x); }
		MC_CHECK(a.allocated_objects() == used.size() && b.allocated_objects() == used.size(), "%zu / %zu objects allocated instead of %zu", a.allocated_objects(), b.allocated_objects(), used.size());
		for (uint32_t x : used) for (size_t j = 0; j < sizeof(T); j++) MC_CHECK(d[x * sizeof(T) + j] == (char) (0x40 + x), "object %u was overwritten", x);
		uint64_t st = N; for (uint32_t x : used) st = hmix(st, x); state(hmix(st, hbytes(1, h, hs)));
	}
	a.detach(); b.detach(); outcome(used.size()); free(h); free(s); free(d);
}
SCENARIO("C33", "pool/1", QUICK, THOROUGH, "every sequence of up to 7 (thorough 9) of allocate, clear, attach again, attach a different pool and free of any object, alternating between two attachments, 1 object") { pool_sequences<Item, 1>(g().tier ? 9 : 7); }
SCENARIO("C33", "pool/2", QUICK, THOROUGH, "as pool/1, 2 objects, up to 7 (thorough 8)") { pool_sequences<Small, 2>(g().tier ? 8 : 7); }
SCENARIO("C33", "pool/3", QUICK, THOROUGH, "as pool/1, 3 objects, up to 6 (thorough 8)") { pool_sequences<Item, 3>(g().tier ? 8 : 6); }
template <class T, int N> void stack_sequences(int depth)
{
	typedef shm::stack<T, N> P; int n = 0; std::vector<int> c; for (; n < depth; n++) { int x = choose(6); if (!x) break; c.push_back(x); if (n == 2) shard_here(); } if (n < 3) shard_here();
	P a, b; size_t hs = a.header_size(), ds = a.data_size(); MC_CHECK(ds == sizeof(T) * N, "data_size() is %zu", ds); if (n > 2) nontrivial(); char *h = (char *) calloc(hs, 1), *d = (char *) calloc(ds, 1); a.attach(h, d); b.attach(h, d); std::vector<T> m; T next = 1;
	for (int i = 0; i < n; i++)
	{
		P &p = i % 2 ? b : a; step(); int k = c[i];
		if (k <= 2) { if (k == 2) next += 100; T x = next++; bool ok = p.push(x); MC_CHECK(ok == ((int) m.size() < N), "push returns %d with %zu of %d elements", ok, m.size(), N); if (ok) m.push_back(x); note("push: %d", ok); }
		else if (k == 3) { if (m.empty()) continue; T x = p.pop(); MC_CHECK(x == m.back(), "pop returns %lld instead of %lld", (long long) x, (long long) m.back()); m.pop_back(); note("pop"); }
		else if (k == 4) { p.clear(); m.clear(); note("clear"); }
		else { bool all = refuses<shm::stack<T, N + 2>>(h, d) && refuses<shm::stack<T, (N > 1 ? N - 1 : 9)>>(h, d) && refuses<shm::stack<Wider<T>, N>>(h, d) && refuses<shm::stack<Narrow, N>>(h, d); MC_CHECK(all, "a stack of another size was accepted"); p.detach(); p.attach(h, d); note("attach again"); }
		MC_CHECK(a.used() == m.size() && b.used() == m.size() && a.empty() == m.empty() && b.empty() == m.empty(), "used() is %zu / %zu instead of %zu", a.used(), b.used(), m.size()); uint64_t st = N; for (T x : m) st = hmix(st, x); state(st);
	}
	while (!m.empty()) { T x = b.pop(); MC_CHECK(x == m.back(), "pop returns %lld instead of %lld", (long long) x, (long long) m.back()); m.pop_back(); } MC_CHECK(a.empty(), "not empty in the end"); outcome(n); free(h); free(d);
}
SCENARIO("C33", "stack/1", QUICK, THOROUGH, "every sequence of up to 7 (thorough 9) of push, pop, clear and attach again, alternating between two attachments, 1 element") { stack_sequences<uint32_t, 1>(g().tier ? 9 : 7); }
SCENARIO("C33", "stack/3", QUICK, THOROUGH, "as stack/1, 3 elements, up to 8 (thorough 9)") { stack_sequences<uint64_t, 3>(g().tier ? 9 : 8); }
template <class T, int N> void big_pool()
{
	typedef shm::pool<T, N> P; P a, b; char *h = (char *) calloc(a.header_size(), 1), *s = (char *) calloc(a.stack_size(), 1), *d = (char *) calloc(a.data_size(), 1); a.attach(h, s, d); b.attach(h, s, d); int pat = choose(5); shard_here(); nontrivial();
	for (int round = 0; round < 3; round++)
	{
		std::set<uint32_t> u; for (int i = 0; i < N; i++) { uint32_t x = (i & 1 ? a : b).allocate(); step(); MC_CHECK(x < N && u.insert(x).second, "allocation %d of round %d returns %d", i, round, (int) x); memset(d + x * sizeof(T), 1, sizeof(T)); }
		MC_CHECK(a.allocate() == (uint32_t) -1 && a.allocated_objects() == N, "a full pool hands out another object"); std::vector<uint32_t> f; for (uint32_t x = 0; x < N; x++) if (pat == 0 || (pat == 1 && x % 2) || (pat == 2 && x % 3 == 0) || pat == 3 || (pat == 4 && x + 1 == N)) f.push_back(x); if (pat == 3) std::reverse(f.begin(), f.end());
		for (uint32_t x : f) { MC_CHECK(b.free(x), "free(%u) refused", x); u.erase(x); } MC_CHECK(a.allocated_objects() == u.size(), "%zu objects instead of %zu", a.allocated_objects(), u.size());
		for (size_t i = 0; i < f.size(); i++) { uint32_t x = a.allocate(); step(); MC_CHECK(x < N && u.insert(x).second, "allocation after free returns %d", (int) x); } MC_CHECK(b.allocate() == (uint32_t) -1, "a full pool hands out another object"); for (uint32_t x = 0; x < N; x++) b.free(x); if (round == 1) a.clear();
	}
	outcome(N); free(h); free(s); free(d);
}
template <class T, int N> void big_stack()
{
	typedef shm::stack<T, N> P; P a, b; char *h = (char *) calloc(a.header_size(), 1), *d = (char *) calloc(a.data_size(), 1); a.attach(h, d); b.attach(h, d); int pat = choose(4); shard_here(); nontrivial(); std::vector<T> m;
	for (int round = 0; round < 3; round++)
	{
		for (int i = 0; (int) m.size() < N; i++) { T x = (T) (i * 7 + round); MC_CHECK((i & 1 ? a : b).push(x), "push %d refused", i); m.push_back(x); step(); } MC_CHECK(!a.push((T) 1) && a.used() == (size_t) N, "a full stack takes another element");
		int k = pat == 0 ? N : pat == 1 ? N / 2 : pat == 2 ? 1 : N - 1; for (int i = 0; i < k; i++) { T x = (i & 1 ? b : a).pop(); MC_CHECK(x == m.back(), "pop %d gives %lld instead of %lld", i, (long long) x, (long long) m.back()); m.pop_back(); step(); } MC_CHECK(b.used() == m.size() && b.empty() == m.empty(), "%zu elements instead of %zu", b.used(), m.size());
	}
	outcome(N); free(h); free(d);
}
SCENARIO("C33", "large", QUICK, THOROUGH, "pools of 1..1000 and 70000 objects of 1..40 bytes filled, partly freed in 5 patterns and filled again, three rounds; stacks of 255..257, 1000 and 70000 elements")
{
	struct L { char c[40]; }; switch (choose(12)) { case 6: big_pool<short, 70000>(); break; case 7: big_stack<uint32_t, 255>(); break; case 8: big_stack<uint32_t, 256>(); break; case 9: big_stack<uint64_t, 257>(); break; case 10: big_stack<short, 1000>(); break; case 11: big_stack<uint32_t, 70000>(); break; case 0: big_pool<char, 1>(); break; case 1: big_pool<char, 7>(); break; case 2: big_pool<L, 64>(); break; case 3: big_pool<short, 255>(); break; case 4: big_pool<L, 257>(); break; default: big_pool<Item, 1000>(); }
}

// ------------------------------------------------------------------ C34 words and errors
static void words_of(const S &t)
{
	step(); char *b = (char *) malloc(t.size() + 1); memcpy(b, t.c_str(), t.size() + 1); std::vector<S> want; { S w; for (char c : t + " ") if (strchr(" \t\n\r", c)) { if (!w.empty()) want.push_back(w); w.clear(); } else w += c; }
	const char *be = b, *en = b; size_t n = 0; for (; get_next_word(be, en) == 1; n++) { MC_CHECK(be >= b && en > be && en <= b + t.size(), "\"%s\": a word outside the text", show(t).c_str()); MC_CHECK(n < want.size() && S(be, en) == want[n], "\"%s\": word %zu is \"%s\"", show(t).c_str(), n, S(be, en).c_str()); be = en; }
	MC_CHECK(n == want.size(), "\"%s\": %zu words instead of %zu", show(t).c_str(), n, want.size()); MC_CHECK(be == en && en == b + t.size() && t == b, "\"%s\": not at the end of the text after the last word", show(t).c_str()); outcome(n); free(b);
}
SCENARIO("C34", "words", QUICK, THOROUGH, "every text of up to 7 (thorough 8) bytes over { space tab newline return vertical-tab a 0xFF }")
{
	int n = choose((g().tier ? 8 : 7) + 1); S t; for (int i = 0; i < n; i++) { t += " \t\n\r\va\xff"[choose(7)]; if (i == 2) shard_here(); } if (n < 3) shard_here(); if (n > 2) nontrivial(); words_of(t);
}
SCENARIO("C34", "words/bytes", QUICK, THOROUGH, "every byte alone, doubled, between and after words and spaces")
{
	int c = 1 + choose(255), k = choose(6); shard_here(); nontrivial(); S x(1, (char) c); static const char *const F[] = { "@", "@@", "a@b", " @ ", "ab @", "@cd " }; S t; for (const char *p = F[k]; *p; p++) t += *p == '@' ? x : S(1, *p); words_of(t);
}
static S throw_and_catch(const coda_error &e, int how)
{
	if (how == 0) { try { throw e; } catch (std::exception &x) { return x.what(); } } if (how == 1) { try { throw e; } catch (coda_error x) { return x.what(); } }
	coda_error copy("%s", "other"); copy = e; coda_error third(copy); return third.what();
}
SCENARIO("C34", "errors/length", QUICK, THOROUGH, "messages of every length 0..130 and 4000..4200, of 9 shapes, thrown, caught and copied in 3 ways: the formatted text, cut to what fits, ended")
{
	int a = choose(131 + 201), shape = choose(5), how = choose(3); shard_here(); nontrivial(); step(); size_t n = a < 131 ? a : a - 131 + 4000; S body; for (size_t i = 0; i < n; i++) body += "ab%\xc3z"[i % 5]; S want, got;
	char *big = (char *) malloc(9000);
	switch (shape)
	{
	case 0: { coda_error e("%s", body.c_str()); got = throw_and_catch(e, how); want = body; break; }
	case 1: { coda_error e("%d:%s:%d", -5, body.c_str(), 77); got = throw_and_catch(e, how); snprintf(big, 9000, "%d:%s:%d", -5, body.c_str(), 77); want = big; break; }
	case 2: { coda_error e("%*d", (int) n, 7); got = throw_and_catch(e, how); snprintf(big, 9000, "%*d", (int) n, 7); want = big; break; }
	case 3: { int err = (int) (n % 140); coda_error e = coda_errno(err, "at %s", body.c_str()); got = throw_and_catch(e, how); snprintf(big, 9000, "at %s (%d: %s)", body.c_str(), err, strerror(err)); want = big; break; }
	default: { coda_error e("%s", body.c_str()); { coda_error other("%s", "something else entirely"); char trash[4096]; memset(trash, 'T', sizeof trash); asm volatile("" :: "r"(trash) : "memory"); } got = throw_and_catch(e, how); want = body; }
	}
	free(big); if (want.size() > CODA_ERROR_BUFSZ - 1) want.resize(CODA_ERROR_BUFSZ - 1); MC_CHECK(got == want, "what() has %zu characters instead of %zu, or other text (length %zu, shape %d)", got.size(), want.size(), n, shape); outcome(hmix(n, shape));
}
SCENARIO("C34", "errors/errno", QUICK, THOROUGH, "every error number -2..200 and the largest ones: the text of the C library, also twice at once, at every buffer size 1..60 ended and not overrun")
{
	static const int X[] = { 0x7fffffff, -0x7fffffff - 1, 4095, 4096, 100000 }; int a = choose(203 + 5), err = a < 203 ? a - 2 : X[a - 203]; shard_here(); nontrivial(); S want = strerror(err); step();
	S got = coda_strerror(err); MC_CHECK(got == want, "coda_strerror(%d) is \"%s\"", err, got.c_str()); const char *p = coda_strerror(err), *q = coda_strerror(EPERM + (err == EPERM)); MC_CHECK(p == want && S(q) == strerror(EPERM + (err == EPERM)), "two error texts at once are mixed up");
	coda_error e = coda_errno(err, "x%d", 3); MC_CHECK(S(e.what()) == "x3 (" + std::to_string(err) + ": " + want + ")", "coda_errno(%d): \"%s\"", err, e.what());
	for (size_t n = 1; n <= 60; n++) { char *b = (char *) malloc(n); memset(b, 'Z', n); const char *r = coda_strerror_r(err, b, n); MC_CHECK(r && (r != b || memchr(b, 0, n)), "coda_strerror_r(%d) leaves a text of %zu bytes without an end", err, n); if (n > want.size()) MC_CHECK(want == r, "coda_strerror_r(%d) with %zu bytes gives \"%s\"", err, n, r); free(b); }
	char m[600], w[600]; plain_message(err, m, sizeof m); snprintf(w, sizeof w, "<%s|%s>", want.c_str(), strerror(1)); if (S(m).find("XSI") == S::npos) MC_CHECK(S(m) == w, "in C, coda_strerror(%d) yields %s instead of %s", err, m, w); else MC_CHECK(want.compare(0, 13, "Unknown error") == 0, "in C, error %d has no text", err);
	for (size_t n = want.size() + 1; n <= want.size() + 3; n++) { char *b = (char *) malloc(n); memset(b, 'Z', n); const char *r = plain_strerror_r(err, b, n); if (want.compare(0, 13, "Unknown error")) MC_CHECK(r == b && want == b, "in C, coda_strerror_r(%d) with %zu bytes gives \"%s\"", err, n, r); free(b); }
	outcome(hstr(1, want));
}
MC_MAIN
