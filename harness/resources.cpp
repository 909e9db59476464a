// C36 (nothing is leaked) and C37 (a failed allocation is reported and nothing is lost or left locked).
#define SF_MMAP
#define SF_READ
#include "sysfault.hpp"
#include <stddef.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <pthread.h>
#include <new>
#include <deque>
#include <map>
#include <set>
#include "threads.h"
#include "coda/coda.h"
#include "coda/base58.h"
#include "coda/base64.h"
#include "coda/cache.hpp"
#include "coda/error.hpp"
#include "coda/logger.h"
#include "coda/random.h"
#include "coda/string.hpp"
#include "coda/stringstorage.h"
#include "coda/synque.hpp"
#include "coda/system.h"
#include "coda/txml.hpp"
#include "coda/url.hpp"
#include "coda/url_parser.hpp"
#include "coda/vietnam.hpp"
using namespace mc;
typedef std::string S;
void tops_reset();

// ------------------------------------------------------------------ allocations of the library and of the C++ library
namespace mf {
static bool on, inside, dead;   // on: allocations are exploration points; dead: all of them fail from now on
static int count, failed, at, how; // at, how: which one failed first (to do the same again)
static bool again;
static bool fails()
{
	if (!on || inside || g().in_fail) return false;
	count++; if (dead) { failed++; return true; }
	if (again) { if (count != at) return false; dead = how == 2; failed++; return true; }
	inside = true; uint32_t k = choose_dev(3); if (k) note("allocation %d fails%s", count, k == 2 ? ", and all later ones" : ""); inside = false;
	if (!k) return false;
	dead = k == 2; at = count; how = k; failed++; return true;
}
struct Arm { Arm() { count = failed = 0; dead = false; on = true; } ~Arm() { on = false; } };
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *); int __real_pthread_mutex_lock(pthread_mutex_t *); XML_Parser __real_XML_ParserCreate(const XML_Char *);
void *__wrap_malloc(size_t n) { if (mf::fails()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (mf::fails()) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (mf::fails()) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { if (mf::fails()) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
XML_Parser __wrap_XML_ParserCreate(const XML_Char *e) { if (mf::fails()) return NULL; return __real_XML_ParserCreate(e); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int e = pthread_mutex_trylock(m); if (e == EBUSY) fail("a lock is taken again that the same thread left locked: it would wait for ever"); return e;
}
}
void *operator new(size_t n) { if (mf::fails()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (mf::fails()) return NULL; return __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

static long mapped_; // bytes mapped by mmap
extern "C" int munmap(void *p, size_t n) { long r = sf::sys(SYS_munmap, (long) p, n); if (!r) mapped_ -= (n + 4095) & ~4095ul; return r; }
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
static int fds() { int n = 0; for (int k = 0; k < 64; k++) if (sf::sys(SYS_fcntl, k, F_GETFD) >= 0) n++; return n; }

// f() is done once with the explorer's decisions and then four times in the same way: something is leaked if it grows each time
template <class F> static void balanced(const char *what, F f)
{
	sf::what.clear(); sf::calls = sf::faults = sf::hard = 0; sf::script_n = 0; sf::repeat = 1; sf::armed = true; f(); sf::armed = false; if (sf::faults) nontrivial();
	size_t b[5]; int d[5];
	for (int k = 0; k < 4; k++) { b[k] = live(); d[k] = fds(); sf::repeat = 2; sf::script_at = 0; sf::armed = true; f(); sf::armed = false; }
	b[4] = live(); d[4] = fds(); sf::repeat = 0; step(5);
	bool mem = true, fd = true; for (int k = 1; k < 4; k++) { mem = mem && b[k + 1] > b[k]; fd = fd && d[k + 1] > d[k]; }
	MC_CHECK(!mem, "%s leaves %zu bytes allocated every time (%s)", what, b[4] - b[3], sf::what.empty() ? "no failure" : sf::what.c_str());
	MC_CHECK(!fd, "%s leaves a descriptor open every time (%s)", what, sf::what.empty() ? "no failure" : sf::what.c_str());
}
static S dir()
{
	static S d; static int owner = 0; if (owner != getpid()) { owner = getpid(); d = sf::scratch(); log_level = -1; sf::wipe(d); tops_init(d.c_str()); static char sd[600]; snprintf(sd, sizeof sd, "%s", d.c_str()); g().at_end = [] { sf::wipe(sd); rmdir(sd); }; }
	return d;
}

// ------------------------------------------------------------------ C36
SCENARIO("C36", "first seeding", QUICK, THOROUGH, "the generator is seeded once in a fresh process, with every single and double failing system call, standard input open or closed; afterwards the descriptors are those of before")
{ // first of all scenarios: a process seeds its generator only once
	dir(); int f = choose(3), z = choose(2); shard_here(); nontrivial(); note("open %s, read %s", f == 1 ? "fails" : "works", f == 2 ? "fails" : "works");
	pid_t c = fork();
	if (!c)
	{
		if (z) sf::sys(SYS_close, 0); int b = fds(), bad = 0;
		g().replaying = true; g().replay.clear(); g().pos = 0; g().devs_left = 1; if (f == 2) g().replay.push_back(0); if (f) g().replay.push_back(1);
		for (int k = 0; k < 3 && !bad; k++) { sf::armed = k == 0; coda_random_init(); sf::armed = false; if (fds() != b) bad = 1; }
		_exit(bad ? 7 : 0);
	}
	int st; waitpid(c, &st, 0); step(3); MC_CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7), "seeding ends the process (status %x)", st);
	MC_CHECK(WEXITSTATUS(st) == 0, "seeding leaves a descriptor open");
}
SCENARIO("C36", "calls", QUICK, THOROUGH, "30 calls and call groups that cover the library, each with every single and double failing system call")
{
	dir(); int o = choose(NTOPS), v = choose(2); shard_here(); sf::fail_close = false; g().devs_left = 0; for (int i = 0; i < 2; i++) { tops_reset(); TOPS[o].fn(v); } // warm up
	g().devs_left = g().tier ? 3 : 2; note("%s(%d)", TOPS[o].name, v); nontrivial();
	balanced(TOPS[o].name, [&] { tops_reset(); TOPS[o].fn(v); });
	g().devs_left = 0; outcome(hstr(o, sf::what));
}
static const char *const UP[] = { "http://www.a.b/c/d?e", "https://x.y" };
SCENARIO("C36", "urls", QUICK, THOROUGH, "all texts up to length 4 (thorough 6) over / . : a ? # and mailto:/javascript:/http:// prefixes, absolute and relative in every flag setting, copies, assignments, reuse")
{
	static const char A[] = "/.:a?#"; static const char *const PR[] = { "", "mailto:", "http://", "https://", "javascript:" };
	int max = g().tier ? 6 : 4; S t = PR[choose(5)]; int fl = choose(4), n = choose(max + 1); for (int i = 0; i < n; i++) t += A[choose(6)]; 
	shard_here(); note("%s", show(t).c_str()); if (n) nontrivial();
	balanced("creating, copying and assigning URLs", [&] {
		coda_url p, a, b; p.create_absolute(UP[fl & 1], strlen(UP[fl & 1]), 0); int ra = a.create_absolute(t.data(), t.size(), fl), rb = b.create_relative(t.data(), t.size(), fl, p); (void) ra; (void) rb;
		coda_url c(a), d(b), e; e = c; d = a; a = b; b = b; c.create_absolute(t.data(), t.size(), fl); e.create_relative(t.data(), t.size(), fl, p); d.create_absolute("x", 1, 0); e = p; p = coda_url();
	});
}
static void dec58(const S &t) { char *o = NULL; if (coda_base58_decode_alloc(t.data(), t.size(), &o) >= 0 || o) free(o); o = NULL; coda_base58_encode_alloc(t.data(), t.size(), &o); free(o); }
static void dec64(const S &t) { char *o = NULL; size_t n = 0; if (coda_base64_decode_alloc(t.data(), t.size(), &o, &n)) free(o); o = NULL; coda_base64_encode_alloc(t.data(), t.size(), &o); free(o); }
SCENARIO("C36", "codecs", QUICK, THOROUGH, "all texts up to length 5 (thorough 7) over 1 z A = 0 and NUL, encoded and decoded into allocated buffers")
{
	static const char A[] = "1zA=0"; int max = g().tier ? 7 : 5, n = choose(max + 1); S t; for (int i = 0; i < n; i++) t += A[choose(6)]; shard_here(); if (n) nontrivial(); note("%s", show(t).c_str());
	balanced("encoding and decoding with allocation", [&] { dec58(t); dec64(t); });
}
struct Item : coda::txml_determination_object { S s; std::list<int32_t> l; void determine(coda::txml_parser *p) { txml_member(p, s); txml_member(p, l); } };
static int throw_at, thrown; struct Refused : std::exception {};
struct Doc : coda::txml_determination_object { struct R : coda::txml_determination_object { S s; int32_t n; Item i; std::vector<Item> v; void determine(coda::txml_parser *p) { txml_member(p, s); txml_member(p, n); txml_member(p, i); txml_member(p, v); } } r; void determine(coda::txml_parser *p) { if (throw_at && !--throw_at) { thrown++; throw Refused(); } txml_member(p, r); } };
static const char *const XML[] = { "<r><s>a long text that does not fit into a short string</s><n>5</n><i s='attribute that is long enough as well'><l>1</l><l>2</l></i><v><s>x</s></v><v><s>&lt;y&amp;</s></v></r>", "<r n='1'><v><l>1</l></v><!-- c --><![CDATA[xx]]><i/></r>" };
SCENARIO("C36", "documents", QUICK, THOROUGH, "two XML documents, whole, every truncation, every one-character damage (5 characters), from a string and from a file; a missing file, a directory")
{
	S d = dir(); int k = choose(2), mode = choose(4); S t = XML[k]; const char *what = "parsing a document";
	if (mode == 1) t.resize(choose(t.size())); else if (mode == 2) { int p = choose(t.size()); t[p] = "<>&x\x80"[choose(5)]; }
	int file = mode == 3 ? 1 : choose(2), special = mode == 3 ? choose(2) : -1; shard_here(); nontrivial(); note("%s%s", file ? "file " : "", show(t).c_str());
	S fn = special == 0 ? d + "/missing" : special == 1 ? d : d + "/x.xml"; if (file && special < 0) sf::spit(fn, t);
	bool err = false;
	balanced(what, [&] { Doc doc; err = false; try { if (file) doc.load_from_file(fn.c_str()); else doc.load_from_string(t.data(), t.size()); } catch (const std::exception &e) { err = true; } });
	outcome(hmix(k, err)); if (file && special < 0) sf::sys(SYS_unlink, (long) fn.c_str());
	if (special >= 0) MC_CHECK(err, "loading %s reports no error", special ? "a directory" : "a missing file");
}
SCENARIO("C36", "refused documents", QUICK, THOROUGH, "two XML documents whose handler throws at its n-th call, for every n, from a string and from a file: the exception arrives, nothing else is handled, nothing is leaked")
{
	S d = dir(); int k = choose(2), file = choose(2), n = 1 + choose(40); shard_here(); nontrivial(); S fn = d + "/x.xml"; if (file) sf::spit(fn, XML[k]); note("document %d, handler call %d throws", k, n);
	bool caught = false, reached = false;
	balanced("parsing a document that the handler refuses", [&] { throw_at = n; thrown = 0; caught = false; { Doc doc; try { if (file) doc.load_from_file(fn.c_str()); else doc.load_from_string(XML[k]); } catch (const Refused &) { caught = true; } } reached = thrown > 0; throw_at = 0; });
	MC_CHECK(caught == reached, "the exception of the handler %s", caught ? "arrives without being thrown" : "is lost"); if (file) sf::sys(SYS_unlink, (long) fn.c_str()); outcome(hmix(k, caught));
}
static const S &ST(int i) { static const S t[] = { "", "alpha", "alphabet soup", "alphabet soup with noodles", "alphabet sour", S(3000, 'x'), S(3001, 'x'), S(200, 'x') + "y" }; return t[i]; }
SCENARIO("C36", "storages", QUICK, THOROUGH, "a string storage with 0, 1, 2, 15, 16, 17, 31, 32, 33, 300 strings, every sequence of up to 3 (thorough 4) additions of 8 strings; freed and used again")
{
	static const int PRE[] = { 0, 1, 2, 15, 16, 17, 31, 32, 33, 300 }; int pre = PRE[choose(10)], max = g().tier ? 4 : 3, n = choose(max + 1), s[4]; for (int i = 0; i < n; i++) s[i] = choose(8); shard_here(); nontrivial();
	note("%d strings and %d additions", pre, n);
	balanced("a string storage that is filled and freed", [&] {
		string_storage ss; string_storage_init(&ss, 8); for (int i = 0; i < pre; i++) { char b[60]; snprintf(b, sizeof b, "%s%03d", i & 1 ? "some long common prefix " : "", i * 7 % 301); string_storage_add(&ss, b); } for (int i = 0; i < n; i++) { string_storage_add(&ss, ST(s[i]).c_str()); } string_storage_free(&ss);
	});
}
static long now_ = 1000; extern "C" time_t time(time_t *t) { if (t) *t = now_; return now_; }
SCENARIO("C36", "caches and queues", QUICK, THOROUGH, "every sequence of up to 5 (thorough 6) operations on a cache (store three keys in two sizes, erase, look up) and on a queue (add, take one, take some, take all), destroyed at the end")
{
	int max = g().tier ? 6 : 5, q = choose(2), n = choose(max + 1), o[6]; for (int i = 0; i < n; i++) o[i] = choose(q ? 4 : 8); shard_here(); if (n) nontrivial(); note("%s, %d operations", q ? "queue" : "cache", n); now_ = 1000;
	if (!q) balanced("a cache", [&] { coda_cache<S, S> c(220, 0); S k[3] = { "first key which is long", "second key which is long", "third key which is long" }; for (int i = 0; i < n; i++) { if (o[i] < 6) c.set(k[o[i] % 3], S(o[i] < 3 ? 40 : 150, 'v'), true); else if (o[i] == 6) c.erase(k[0]); else { S x; c.get(k[1], x); } } });
	else balanced("a queue", [&] { coda::synque<S> c; S x; std::deque<S> out; for (int i = 0; i < n; i++) { if (o[i] == 0) c.add(S(50, 'x')); else if (o[i] == 1) c.get(x, 0); else c.get(out, o[i] == 2 ? 2 : 0, 0); } });
}
SCENARIO("C36", "log files", QUICK, THOROUGH, "creating and changing log files in a new, existing and impossible place, every single and double failing call")
{
	S d = dir(); int k = choose(3); shard_here(); nontrivial(); S fn = k == 0 ? d + "/log" : k == 1 ? d + "/new/dir/log" : d + "/file/log"; sf::spit(d + "/file", "x"); note("%s", fn.c_str());
	int keep = sf::sys(SYS_fcntl, 2, F_DUPFD_CLOEXEC, 700); g().devs_left = 2;
	balanced("changing the log file", [&] { log_create(fn.c_str(), -1); coda_error e = coda_errno(5, "%s", fn.c_str()); coda_error f("%d", 5); });
	g().devs_left = 0; sf::sys(SYS_dup2, keep, 2); sf::sys(SYS_close, keep); sf::wipe(d);
}
SCENARIO("C36", "mappings", QUICK, THOROUGH, "mapping an existing, a missing and an empty file and plain memory, every single and double failing call; what a failing call maps is unmapped")
{
	S d = dir(); int k = choose(4), w = choose(2), sz = choose(2); shard_here(); nontrivial(); S fn = d + "/map"; sf::wipe(d); if (k != 1) sf::spit(fn, k == 2 ? "" : "some bytes in a file"); note("%d %d %d", k, w, sz);
	g().devs_left = 2;
	balanced("mapping a file", [&] { coda_strt m; memset(&m, 0, sizeof m); m.size = sz ? 5000 : 0; if (0 == coda_mmap(&m, w ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED, k == 3 ? NULL : fn.c_str()) && m.data) munmap(m.data, m.size); });
	g().devs_left = 0; sf::wipe(d);
}

// ------------------------------------------------------------------ C37
static void nomem() { g().devs_left = 1; } // one failure: of a single allocation, or of it and all that follow
// f() is done with failing allocations; returns whether it threw bad_alloc.  Anything else is passed on.
template <class F> static bool starved(F f) { bool t = false; nomem(); { mf::Arm arm; try { f(); } catch (const std::bad_alloc &) { t = true; } } g().devs_left = 0; step(); if (mf::failed) nontrivial(); if (t) MC_CHECK(mf::failed, "bad_alloc although no allocation failed"); return t; }

static void collect(void *u, const char *k, void *v) { (*(std::map<S, void *> *) u)[k] = v; }
SCENARIO("C37", "storage", QUICK, THOROUGH, "0..33 strings in a string storage, every sequence of up to 2 (thorough 3) additions of 8 strings, the last one with failing allocations, then again")
{
	static const int PRE[] = { 0, 1, 2, 3, 15, 16, 17, 32 }; int pre = PRE[choose(8)], fam = choose(2), n = 1 + choose(g().tier ? 3 : 2), s[3]; for (int i = 0; i < n; i++) s[i] = choose(8); shard_here();
	{
		string_storage ss; string_storage_init(&ss, 8); std::map<S, void *> model; int id = 0;
		auto add = [&](const S &k) { void *p = string_storage_add(&ss, k.c_str()); MC_CHECK(p, "string_storage_add(%s) fails although memory is available", show(k).c_str()); if (!model.count(k)) { model[k] = p; *(int *) p = ++id; } };
		for (int i = 0; i < pre; i++) { char b[60]; snprintf(b, sizeof b, "%s%03d", fam ? "alphabet soup with " : "", i * 7 % 301); add(b); }
		for (int i = 0; i + 1 < n; i++) add(ST(s[i]));
		S k = ST(s[n - 1]); void *p = NULL; note("%d strings, %s", pre, show(k).c_str());
		starved([&] { p = string_storage_add(&ss, k.c_str()); });
		if (!p) MC_CHECK(mf::failed, "string_storage_add fails although memory is available"); else if (!model.count(k)) { model[k] = p; *(int *) p = ++id; } else MC_CHECK(model[k] == p, "another slot for a stored string");
		if (!p && model.count(k)) fail("adding a string that is stored already fails"); // nothing needs to be allocated
		auto same = [&] (const char *when) {
			for (auto &x : model) MC_CHECK(string_storage_add(&ss, x.first.c_str()) == x.second, "after %s the slot of %s is not the same", when, show(x.first).c_str());
			std::map<S, void *> e; string_storage_enumerate(&ss, collect, &e); MC_CHECK(e == model, "after %s %zu strings are enumerated, %zu are stored", when, e.size(), model.size());
		};
		same("a failed allocation"); if (!p) { std::map<S, void *> e; string_storage_enumerate(&ss, collect, &e); MC_CHECK(!e.count(k), "a string whose addition failed is enumerated"); }
		add(k); add("another one"); add("alphabet soup with another one"); same("repeating the addition"); string_storage_free(&ss); outcome(hmix(pre, p != NULL));
	}
	g().devs_left = 0;
}
struct Sum { size_t n, size; };
static Sum sums(const coda_cache<S, S> &c) { S t; c.dbg(t, 1); Sum r; r.n = r.size = 0; sscanf(t.c_str(), "nelt_cur=%zu\nsize_cur=%zu", &r.n, &r.size); return r; }
SCENARIO("C37", "cache", QUICK, THOROUGH, "every sequence of up to 4 (thorough 5) operations (store three keys in two sizes, look up into a string, erase), the last one with failing allocations, then all keys are looked up and stored again")
{
	int n = 1 + choose(g().tier ? 5 : 4), o[5]; for (int i = 0; i < n; i++) o[i] = choose(10); shard_here(); now_ = 1000;
	static const S K[3] = { "first key which is long enough", "second key which is long enough", "third key which is long enough" };
	coda_cache<S, S> c(330, 0); const size_t lim = 330;
	auto val = [](int i, int op) { return S(op % 2 ? 150 : 40, 'a' + i); };
	auto look = [&](int k) { const S *p = c.get(K[k]); return p ? *p : S("-"); };
	for (int i = 0; i + 1 < n; i++) { if (o[i] < 6) c.set(K[o[i] / 2], val(i, o[i]), true); else if (o[i] < 9) { S x; c.get(K[o[i] - 6], x); } else c.erase(K[0]); }
	S old[3]; for (int k = 0; k < 3; k++) old[k] = look(k); int last = o[n - 1]; note("operation %d of %d: %d", n, n, last);
	S nv = val(n - 1, last), x = "untouched"; bool t = false;
	if (last < 6) t = starved([&] { c.set(K[last / 2], nv, true); }); else if (last < 9) t = starved([&] { c.get(K[last - 6], x); }); else t = starved([&] { c.erase(K[0]); });
	auto consistent = [&](const char *when) { size_t cnt = 0, sum = 0; for (int k = 0; k < 3; k++) { const S *p = c.get(K[k]); if (p) { cnt++; sum += estimate_capacity(*p); } } Sum r = sums(c); MC_CHECK(r.n == cnt && r.size == sum, "%s the cache reports %zu entries of size %zu and holds %zu of size %zu", when, r.n, r.size, cnt, sum); MC_CHECK(sum <= lim, "%s the cache holds %zu bytes, the limit is %zu", when, sum, lim); };
	for (int k = 0; k < 3; k++)
	{
		S v = look(k); int target = last < 6 ? last / 2 : last == 9 ? 0 : -1;
		if (!t) { if (k == target && last < 6) MC_CHECK(v == nv || mf::failed == 0, "the store reports success and the lookup gives %s", show(v).c_str()); continue; }
		if (k == target) MC_CHECK(v == old[k] || (last < 6 && v == nv) || v == "-", "after a failed store of %s over %s the lookup gives %s", show(nv).c_str(), show(old[k]).c_str(), show(v).c_str());
		else MC_CHECK(v == old[k], "a failed operation on another key changes the value of %s from %s to %s", K[k].c_str(), show(old[k]).c_str(), show(v).c_str());
	}
	consistent("after a failed allocation");
	// all further use
	for (int k = 0; k < 3; k++) { c.set(K[2 - k], S(60, 'q' + k), true); MC_CHECK(look(2 - k) == S(60, 'q' + k), "a store after a failed one has no effect"); consistent("after later stores"); }
	for (int k = 0; k < 3; k++) { c.set(K[k], S(200, 'u' + k), true); consistent("after later big stores"); }
	for (int k = 0; k < 3; k++) c.erase(K[k]);
	consistent("after all keys were erased"); for (int k = 0; k < 3; k++) c.set(K[k], S(20, 'z'), false); consistent("after filling it again"); outcome(hmix(last, t));
}
SCENARIO("C37", "queue", QUICK, THOROUGH, "every sequence of up to 4 (thorough 5) operations (add, take one, take two, take all), the last one with failing allocations: no element is lost or doubled and the queue stays usable")
{
	int n = 1 + choose(g().tier ? 5 : 4), pre = choose(3) * 15, o[5]; for (int i = 0; i < n; i++) o[i] = choose(4); shard_here();
	coda::synque<S> q; std::deque<S> model, out; int id = 0; auto mk = [&] { char b[60]; snprintf(b, sizeof b, "element number %d, not a short string", id++); return S(b); };
	for (int i = 0; i < pre; i++) { S e = mk(); q.add(e); model.push_back(e); }
	bool t = false; S taken; int last = o[n - 1];
	for (int i = 0; i < n; i++)
	{
		out.clear(); S e = mk(), x; int rc = 0; t = false;
		auto f = [&] { if (o[i] == 0) q.add(e); else if (o[i] == 1) rc = q.get(x, 0); else rc = q.get(out, o[i] == 2 ? 2 : 0, 0); };
		note("operation %d", o[i]); if (i + 1 == n) t = starved(f); else f();
		if (o[i] == 0) { if (!t) model.push_back(e); else { size_t k = q.size(); MC_CHECK(k == model.size() || k == model.size() + 1, "a failed addition changes the number of elements to %zu", k); if (k > model.size()) model.push_back(e); } }
		else if (o[i] == 1) { if (!t) { MC_CHECK((rc == 0) == !model.empty(), "get returns %d", rc); if (!model.empty()) { MC_CHECK(x == model.front(), "get gives %s", x.c_str()); model.pop_front(); } } else MC_CHECK(q.size() == model.size(), "a failed get removes an element"); }
		else { for (auto &y : out) { MC_CHECK(!model.empty() && y == model.front(), "get of several gives %s", y.c_str()); model.pop_front(); } MC_CHECK(q.size() == model.size(), "%zu elements are left, %zu should be", q.size(), model.size()); }
	}
	while (!model.empty()) { S x; MC_CHECK(0 == q.get(x, 0) && x == model.front(), "an element is lost after a failed allocation: %s instead of %s", x.c_str(), model.front().c_str()); model.pop_front(); }
	q.add("again"); S x; MC_CHECK(0 == q.get(x, 0) && x == "again", "the queue does not work after a failed allocation"); q.signal(); outcome(hmix(last, t));
}
static S desc(const coda_url &u) { return u.empty() ? S("empty") : S(u.get_url()) + " " + u.get_domain(); }
SCENARIO("C37", "urls", QUICK, THOROUGH, "creating (absolute, relative), copying and assigning URLs of 6 texts with failing allocations: reported, the source is unchanged, the object can be used again")
{
	static const char *const T[] = { "http://www.example.org/a/b?c", "/x/../y", "host", "", "mailto:x", "../up#f" }; int op = choose(4), i = choose(6), j = choose(3), fl = choose(4); shard_here();
	const char *t = T[i]; coda_url p, a, want; p.create_absolute(T[0], strlen(T[0]), 0); S ps = desc(p); if (j == 1) a.create_absolute("other.net/z", 11, 0); if (j == 2 && op >= 2) a = p; if (j && op < 2) return;
	S as = desc(a); int rc = 0, wrc = 0; note("operation %d on %s", op, show(t).c_str());
	if (op == 0) wrc = want.create_absolute(t, strlen(t), fl); else if (op == 1) wrc = want.create_relative(t, strlen(t), fl, p); else want = p;
	bool th = false;
	if (op == 0) th = starved([&] { rc = a.create_absolute(t, strlen(t), fl); }); else if (op == 1) th = starved([&] { rc = a.create_relative(t, strlen(t), fl, p); });
	else if (op == 2) th = starved([&] { a = p; }); else th = starved([&] { coda_url c(p); MC_CHECK(desc(c) == ps, "a copy is %s", desc(c).c_str()); });
	MC_CHECK(desc(p) == ps, "the source changes to %s", desc(p).c_str());
	if (op < 2) { if (th || rc) { MC_CHECK(mf::failed || rc == wrc, "creation fails although memory is available"); MC_CHECK(desc(a) == "empty", "an object whose creation failed holds %s", desc(a).c_str()); } else MC_CHECK(desc(a) == desc(want) && rc == wrc, "creation gives %s instead of %s", desc(a).c_str(), desc(want).c_str()); }
	if (op == 2) { if (th) MC_CHECK(desc(a) == "empty" || desc(a) == as, "a failed assignment leaves %s", desc(a).c_str()); else MC_CHECK(desc(a) == ps, "an assignment gives %s", desc(a).c_str()); }
	coda_url b; int r2 = b.create_absolute("new.org", 7, 0); a = b; MC_CHECK(r2 == 0 && desc(a) == "http://new.org/ new.org", "later use gives %s", desc(a).c_str()); outcome(hmix(op, hmix(th, rc)));
}
SCENARIO("C37", "codecs", QUICK, THOROUGH, "allocating encoders and decoders with failing allocations: a NULL result, or the right one")
{
	static const S T[] = { "", S("\0\0", 2), "hello world", S("\0abc", 4), S(100, 'x') }; int k = choose(4), i = choose(5); shard_here(); S t = T[i], e; note("%d %s", k, show(t).c_str());
	{ char *o = NULL; if (k < 2) coda_base58_encode_alloc(t.data(), t.size(), &o); else { size_t n = coda_base64_encode_alloc(t.data(), t.size(), &o); (void) n; } e = o ? o : ""; free(o); }
	char *o = (char *) 1; size_t n = 0; ssize_t r = 0; bool ok = false;
	bool th = false;
	if (k == 0) th = starved([&] { n = coda_base58_encode_alloc(t.data(), t.size(), &o); }); else if (k == 2) th = starved([&] { n = coda_base64_encode_alloc(t.data(), t.size(), &o); });
	else if (k == 1) th = starved([&] { r = coda_base58_decode_alloc(e.data(), e.size(), &o); }); else th = starved([&] { ok = coda_base64_decode_alloc(e.data(), e.size(), &o, &n); });
	MC_CHECK(!th, "a C function throws"); MC_CHECK(o != (char *) 1, "the result pointer is not set");
	if (!o) MC_CHECK(mf::failed, "a NULL result although memory is available");
	else if (k == 0 || k == 2) MC_CHECK(S(o) == e, "encoding gives %s instead of %s (%d allocations failed)", show(S(o)).c_str(), show(e).c_str(), mf::failed);
	else if (k == 1) MC_CHECK(r == (ssize_t) t.size() && S(o, r) == t, "decoding gives %zd (%d allocations failed)", r, mf::failed); else MC_CHECK(ok && S(o, n) == t, "decoding gives %d, %zu bytes", ok, n);
	if (o) free(o); outcome(hmix(k, o != NULL));
}
SCENARIO("C37", "texts", QUICK, THOROUGH, "appending, inserting, formatting, splitting, URL encoding, query parsing, tone removal with failing allocations: the exception is passed on and the text is as before, or the result is right; nothing is leaked")
{
	int k = choose(10), big = choose(2), len = choose(2); shard_here(); size_t num = big ? 40000 : 100; S arg(len ? 39000 : 30, 'y'), base = len ? "the text before, which is long" : "short"; note("call %d", k); 
	S want, got; std::vector<S> wv, gv; std::map<S, S> wm, gm; int w = 0, r = 0; std::set<S> wss, gss;
	auto f = [&](S &o, std::vector<S> &v, std::map<S, S> &m, std::set<S> &ss) {
		switch (k) {
		case 0: return coda_strappend(o, "%s", arg.c_str());
		case 1: return coda_strnappend(o, num, "%s", arg.c_str());
		case 2: return coda_strnprintf(o, 2, num, "%s", arg.c_str());
		case 3: { S t = coda_strprintf("%s-%d", arg.c_str(), 5); o.swap(t); return 0; }
		case 4: { std::vector<S> t = coda_split_string("one text that is long enough,another one that is long enough,x", ",", false); v.swap(t); return 0; }
		case 5: { S t = coda_urlenc(S("a b&c and more to be encoded here")); o.swap(t); return 0; }
		case 6: { S t = coda_urldec(S("a+b%26 and more to be decoded here, please")); o.swap(t); return 0; }
		case 7: { S t = coda_remove_tones_utf8("Ti\xe1\xba\xbfng Vi\xe1\xbb\x87t, a longer text", 25); o.swap(t); return 0; }
		case 8: return coda_get_params(m, "a_long_name_of_a_parameter=and_its_value_is_also_long&second=2");
		default: coda_get_stringset("a string that is long enough,and another one of them", ss); return 0;
		}
	};
	want = base; w = f(want, wv, wm, wss); got = base;
	bool th = starved([&] { r = f(got, gv, gm, gss); });
	if (th) MC_CHECK(got == base, "after a failed allocation the text is %s", show(got).c_str()); else MC_CHECK(r == w && got == want && gv == wv && gm == wm && gss == wss, "call %d gives a wrong result without reporting the failed allocation", k);
	for (auto &x : gm) MC_CHECK(wm.count(x.first), "an unknown parameter %s", show(x.first).c_str());
	outcome(hmix(k, th));
}
static void xmlop(int k) { Doc d; try { d.load_from_string(XML[k]); } catch (const coda_error &) {} }
static void xmlfileop(const char *fn) { Doc d; try { d.load_from_file(fn); } catch (const coda_error &) {} }
SCENARIO("C37", "leaks", QUICK, THOROUGH, "24 groups of calls, each with every allocation failing, alone or with all later ones: repeating that makes nothing grow, and no lock or descriptor stays behind")
{
	S d = dir(); int k = choose(24); shard_here(); sf::wipe(d); S fn = d + "/x.xml", log = d + "/a/b/log"; sf::spit(fn, XML[0]); int keep = sf::sys(SYS_fcntl, 2, F_DUPFD_CLOEXEC, 700); now_ = 1000;
	S arg(39000, 'y'), big(200, 'x');
	auto f = [&] {
		switch (k) {
		case 0: { string_storage ss; string_storage_init(&ss, 8); for (int i = 0; i < 8; i++) string_storage_add(&ss, ST(i).c_str()); string_storage_free(&ss); break; }
		case 1: { string_storage ss; string_storage_init(&ss, 8); for (int i = 0; i < 20; i++) { char b[40]; snprintf(b, sizeof b, "alphabet soup %d", i); string_storage_add(&ss, b); } string_storage_free(&ss); break; }
		case 2: { coda_cache<S, S> c(330, 0); c.set("a key that is long enough", big, true); c.set("a key that is long enough", S(90, 'y'), true); c.set("another key that is long enough", big, true); S x; c.get("another key that is long enough", x); break; }
		case 3: { coda::synque<S> q; for (int i = 0; i < 20; i++) q.add(big); std::deque<S> o; S x; q.get(x, 0); q.get(o, 5, 0); q.get(o, 0, 0); break; }
		case 4: { coda_url a, b, c; a.create_absolute("http://x.y.z/a/../b", 19, 0); b.create_relative("../q", 4, 0, a); c = a; c = b; coda_url e(c); break; }
		case 5: { coda_url a, b; a.create_absolute("x.y", 3, 0); b.create_relative("mailto:x", 8, 0, a); b = a; b = coda_url(); break; }
		case 6: dec58("hello, this is text"); break;
		case 7: dec58("0O"); break;
		case 8: dec64("aGVsbG8gd29ybGQ="); break;
		case 9: dec64("====x"); break;
		case 10: { S o = "base"; coda_strappend(o, "%s", arg.c_str()); coda_strnappend(o, 40000, "%s", arg.c_str()); break; }
		case 11: { S o = "base"; coda_strnprintf(o, 2, 40000, "%s", arg.c_str()); break; }
		case 12: { S o = coda_strprintf("%s %s", arg.c_str(), arg.c_str()); break; }
		case 13: coda_split_string("one text that is long enough,another one that is long enough,x", ",", true); break;
		case 14: { std::set<S> s; coda_get_stringset("a string that is long enough,and another one of them", s); std::set<uint64_t> u; coda_get_uint64set("1,2,3", u); break; }
		case 15: { coda_params_t p; coda_get_params(p, "a_long_name_of_a_parameter=and_its_value_is_also_long&second=2"); coda_header_t h; coda_get_header(h, "A-Long-Name-Of-A-Field: and its value which is long\r\nB: c\r\n\r\n"); break; }
		case 16: { S o = coda_urlenc(S("a b&c and more to be encoded here")) + coda_urldec(S("a+b%26 and more to be decoded here, please")); break; }
		case 17: coda_remove_tones_utf8("Ti\xe1\xba\xbfng Vi\xe1\xbb\x87t, a longer text", 25); break;
		case 18: case 19: xmlop(k - 18); break;
		case 20: xmlfileop(fn.c_str()); break;
		case 21: log_create(log.c_str(), -1); break;
		case 22: try { throw coda_error("%s", big.c_str()); } catch (const coda_error &e) { coda_error c(e); } break;
		default: { coda_cache<int, int> c(12, 0); for (int i = 0; i < 5; i++) c.set(i % 4, i, i & 1); S t; c.dbg(t, 1); break; }
		}
	};
	note("call group %d", k); f(); mf::again = false; bool t = starved(f); size_t b[5]; int n[5];
	mf::again = true; int failed = mf::failed; if (failed) for (int i = 0; i < 5; i++) { b[i] = live(); n[i] = fds(); mf::Arm arm; try { f(); } catch (const std::bad_alloc &) {} }
	mf::again = false; sf::sys(SYS_dup2, keep, 2); sf::sys(SYS_close, keep); outcome(hmix(k, t));
	if (failed) { bool mem = true, fd = true; for (int i = 1; i < 4; i++) { mem = mem && b[i + 1] > b[i]; fd = fd && n[i + 1] > n[i]; } MC_CHECK(!mem, "%zu bytes stay allocated each time allocation %d fails", b[4] - b[3], mf::at); MC_CHECK(!fd, "a descriptor stays open each time allocation %d fails", mf::at); }
	sf::wipe(d);
}
MC_MAIN
