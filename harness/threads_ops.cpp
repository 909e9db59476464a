// C35: the calls.  Compiled, like the library, with -fsanitize=thread, so that every load and store is a point where the
// other thread may run (see threads.cpp).  Each call works on data of its own and returns everything it produced as text.
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
#include <deque>
#include <map>
#include <set>
#include <vector>
#include "coda/coda.h"
#include "coda/base58.h"
#include "coda/base64.h"
#include "coda/web64.h"
#include "coda/cache.hpp"
#include "coda/easy_parsing.hpp"
#include "coda/error.hpp"
#include "coda/gmtime.h"
#include "coda/log_array.hpp"
#include "coda/logger.h"
#include "coda/shm_pool.hpp"
#include "coda/shm_stack.hpp"
#include "coda/socket.h"
#include "coda/string.h"
#include "coda/string.hpp"
#include "coda/stringstorage.h"
#include "coda/synque.hpp"
#include "coda/system.h"
#include "coda/txml.hpp"
#include "coda/url.hpp"
#include "coda/url_parser.hpp"
#include "coda/vietnam.hpp"
#include "threads.h"
typedef std::string S;
static S dir_;
static S num(long long x) { return std::to_string(x) + ";"; }

static const char *const BIN[2] = { "\x00\x01hello\xff\xfe world of bytes", "\x00\x00\x00zz\x80\x81 something that is longer" };
static const size_t BINL[2] = { 24, 31 };
static S base58(int v)
{
	char *e = NULL, *d = NULL; size_t n = coda_base58_encode_alloc(BIN[v], BINL[v], &e); S r(e ? e : "?", e ? n : 1);
	ssize_t m = coda_base58_decode_alloc(e, n, &d); r += num(m); if (d && m > 0) r += S(d, m); free(e); free(d);
	char *bad = NULL; r += num(coda_base58_decode_alloc(v ? "zz0" : "0", v ? 3 : 1, &bad)); free(bad); return r;
}
static S base64(int v)
{
	char *e = NULL, *d = NULL; size_t dn = 0; size_t n = coda_base64_encode_alloc(BIN[v], BINL[v], &e); S r(e ? e : "?", e ? n : 1);
	bool ok = coda_base64_decode_alloc(e, n, &d, &dn); r += num(ok); if (d) r += S(d, dn); free(e); free(d); return r;
}
static S web64(int v)
{
	char e[100], d[100]; memset(e, 0, sizeof e); web64_encode(BIN[v], BINL[v], e, sizeof e); size_t n = sizeof d; bool ok = web64_decode(e, strlen(e), d, &n);
	return S(e) + num(ok) + S(d, n);
}
static const char *const TXT[2] = { "a b&c=d%41+\xd0\xb6 (x)", "?q=\xe1\xba\xa1 %zz ~~ and much more text" };
static S percent(int v) { S e = coda_urlenc(TXT[v], strlen(TXT[v])), f = coda_urlenc_noplus(S(TXT[v])); return e + f + coda_urldec(e) + coda_urldec(S(TXT[v])); }
static S escape(int v) { char a[200], b[200], c[200]; coda_url_escape(TXT[v], a, sizeof a); coda_url_unescape(a, b, sizeof b); coda_url_preunescape(v ? "%41%D0%B6\\xD0" : "%E1%BA%A1%42", c, sizeof c); return S(a) + "|" + b + "|" + c; }
static S query(int v)
{
	coda_params_t p; int rc = coda_get_params(p, v ? "a=1&b=2&&c=&d" : "key=value&other=%41"); S r = num(rc); for (auto &x : p) r += x.first + "=" + x.second + ";";
	coda_header_t h; rc = coda_get_header(h, v ? "Host: x\r\nA: b: c\r\n\r\nno: no\r\n" : "Accept: */*\r\n\r\n"); r += num(rc); for (auto &x : h) r += x.first + "=" + x.second + ";"; return r;
}
static S url(int v)
{
	const char *t = v ? "HTTPS://WWW.Other-Host.net/a/./b/../c//d?x=1#frag" : "Example.org/one/two/../three"; coda_url u; int rc = u.create_absolute(t, strlen(t), 0);
	S r = num(rc) + u.get_url() + "|" + u.get_domain(); const char *ref = v ? "../up?y" : "/abs"; coda_url w; rc = w.create_relative(ref, strlen(ref), 0, u); coda_url c(w), d; d = u; r += num(rc) + w.get_url() + "|" + c.get_domain() + d.get_url(); return r;
}
static S search(int v)
{
	const char *t = v ? "Some Text with Words, and more" : "needle in a HAYstack"; size_t n = strlen(t); const char *x = v ? "WORDS" : "hay"; S r;
	r += num(coda_strnstr(t, v ? "with" : "in a", n) - t) + num(coda_strxstr(t, x, n) - t) + num(coda_revnchr(t, v ? 'o' : 'a', n) - t) + num(coda_revxchr(t, 'e', n) - t) + num(coda_strnspn(t, v ? "Some " : "ned", n)) + num(coda_revnspn(t, v ? "more" : "kcatsYAH", n)) + num(coda_strnspc(t, " ", n)) + num(coda_revxspc(t, "K", n));
	return r;
}
static S format(int v)
{
	S r = coda_strprintf("%d-%s-%c", v ? 123456 : -7, v ? "a longer text" : "x", 'q'); int n = coda_strappend(r, "[%*d]", v ? 20 : 3, 5); r += num(n);
	n = coda_strnprintf(r, 2, v ? 4 : 2, "%s", "inserted"); r += num(n); n = coda_strnappend(r, 3, "%s", v ? "abcdef" : "XYZ"); return r + num(n);
}
static S formatlong(int v) { S big(v ? 40000 : 33000, v ? 'b' : 'a'), r = coda_strprintf("%s%d", big.c_str(), v); return num(r.size()) + num(r.find_first_not_of(v ? 'b' : 'a')) + r.substr(r.size() - 3); }
static S split(int v)
{
	S r; for (auto &x : coda_split_string(v ? "one, two;;three" : "a;b", ",; ", true)) r += "<" + x; for (auto &x : coda_split_string(v ? "p::q:" : "zz:top:", 6, ":", false)) r += "<" + x;
	std::set<S> s; coda_get_stringset(v ? "x,yy,zzz" : "b,a", s); for (auto &x : s) r += "{" + x; std::set<uint64_t> u; coda_get_uint64set(v ? "10,200,3000" : "7,8", u); for (auto x : u) r += num(x); return r;
}
static S words(int v) { const char *t = v ? "  several words\there\r\n" : "one two", *b = t, *e = NULL; S r; for (int i = 0; i < 9; i++) { int rc = get_next_word(b, e); r += num(rc); if (!rc) break; r += S(b, e - b) + "|"; b = e; } return r; }
static S numbers(int v) { S r; const char *t[2] = { "123456789", "-42" }; r += num(coda_atoi(t[v], strlen(t[v]))) + num(coda_atou(v ? "18446744073709551615" : "7", v ? 20 : 1)); return r; }
static S errors(int v) { S r = coda_strerror(v ? EINVAL : ENOENT); r += coda_strerror(v ? 5000 : 6001); try { throw coda_errno(v ? EPIPE : EINTR, "error %d of %s", v, v ? "many things" : "one"); } catch (std::exception &e) { r += e.what(); } coda_error a("first %d", v), b("%s", v ? "another" : "x"); return r + a.what() + b.what(); }
struct Doc : coda::txml_determination_object
{
	struct Root : coda::txml_determination_object { S s; std::vector<S> v; int32_t i; double d; bool b; Root() : i(0), d(0), b(false) {} void determine(coda::txml_parser *p) { txml_member(p, s); txml_member(p, v); txml_member(p, i); txml_member(p, d); txml_member(p, b); } } r;
	void determine(coda::txml_parser *p) { txml_member(p, r); }
};
static S doc(const Doc &d) { S r = d.r.s + ";" + num(d.r.i) + num((long long) (d.r.d * 1000)) + num(d.r.b); for (auto &x : d.r.v) r += x + ","; return r; }
static const char *const XML[2] = { "<r i='5'><s>text &amp; more</s><v>a</v><v>b</v></r>", "<r><s>other</s><i>-17</i><d>2.5</d><b>yes</b><v>zzz</v></r>" };
static S xml(int v) { Doc d; d.load_from_string(XML[v]); S r = doc(d); try { Doc e; e.load_from_string(v ? "<r><s></r>" : "<r"); r += "no error"; } catch (std::exception &x) { r += x.what(); } return r; }
static S xmlfile(int v) { S fn = dir_ + "/doc" + std::to_string(v); FILE *f = fopen(fn.c_str(), "w"); fputs(XML[v], f); fclose(f); Doc d; d.load_from_file(fn.c_str()); unlink(fn.c_str()); return doc(d); }
static S vietnam(int v) { const char *t = v ? "Ti\xe1\xba\xbfng Vi\xe1\xbb\x87t \xc4\x91\xc3\xa2y" : "\xc3\x81 b\xcc\x81"; return coda_remove_tones_utf8(t, strlen(t)); }
static S calendar(int v) { struct tm t; memset(&t, 0, sizeof t); coda_gmtime(v ? 1700000000 : 951782400, &t); return num(t.tm_year) + num(t.tm_mon) + num(t.tm_mday) + num(t.tm_hour) + num(t.tm_min) + num(t.tm_sec) + num(t.tm_wday); }
static S address(int v) { const char *t = v ? "192.168.77.255" : "10.0.0.1"; return num(coda_inet_addr(t, strlen(t))) + num(coda_inet_addr("1.2.3", 5)); }
static S sockets(int v)
{
	int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return "?"; char b[30]; memset(b, 0, sizeof b); char *t = (char *) (v ? "a message" : "hi"); S r = num(coda_unix_send(p[0], t, strlen(t))); r += num(coda_unix_recv(p[1], b, sizeof b)) + b; r += num(coda_set_nonblk(p[0], 1)) + num(fcntl(p[0], F_GETFL) & O_NONBLOCK) + num(coda_set_socket_timeout(p[1], v ? 1500000 : 2000)); close(p[0]); close(p[1]); return r;
}
static void enumerated(void *u, const char *k, void *val) { *(S *) u += S(k) + ":" + (char *) val + ";"; }
static S storage(int v)
{
	static const char *const K[2][5] = { { "alpha", "alphabet", "beta", "alpha", "b" }, { "gamma-long-prefix-1", "gamma-long-prefix-2", "delta", "gamma-long-prefix-1x", "d" } };
	string_storage ss; string_storage_init(&ss, 16); for (int i = 0; i < 5; i++) { char *p = (char *) string_storage_add(&ss, K[v][i]); if (p) snprintf(p, 16, "%d/%d", v, i); } S r; string_storage_enumerate(&ss, enumerated, &r); string_storage_free(&ss); return r;
}
static S cache(int v)
{
	coda_cache<S, S> c(v ? 400 : 200, 0); S r; for (int i = 0; i < 6; i++) { c.set("key" + std::to_string(i), S(v ? 30 : 10, 'a' + i), true); const S *x = c.get("key" + std::to_string(i / 2)); r += x ? *x : S("-"); } r += num(c.erase("key5")); return r;
}
static S buckets(int v) { coda::log_array<uint32_t, 8> a, b; for (uint64_t x = 1; x < (v ? 300u : 40u); x++) a.get_by_value(x)++; b.swap(a); S r; for (int i = 0; i < 8; i++) r += num(b.get_at(i)); return r; }
static S queue(int v) { coda::synque<S> q; for (int i = 0; i < 4; i++) { S x(v ? 5 : 2, 'a' + i); q.add(x); } S x, r; q.get(x, 0); r = x; std::deque<S> o; q.get(o, 2, 0); for (auto &y : o) r += y; return r + num(q.size()); }
static S pool(int v)
{
	shm::pool<uint64_t, 5> p; std::vector<char> h(p.header_size()), s(p.stack_size()), d(p.data_size()); p.attach(&h[0], &s[0], &d[0]); S r; for (int i = 0; i < 6; i++) r += num((int) p.allocate()); p.free(v ? 3 : 1); p.free(v ? 0 : 2); r += num(p.allocate()) + num(p.allocated_objects()); p.detach();
	shm::stack<int, 3> t; std::vector<char> th(t.header_size()), td(t.data_size()); t.attach(&th[0], &td[0]); for (int i = 0; i < 4; i++) r += num(t.push(i + v * 10)); r += num(t.pop()) + num(t.used()); return r;
}
static S files(int v)
{
	S d = dir_ + (v ? "/p/q/r/file" : "/w/file"); std::vector<char> path(d.c_str(), d.c_str() + d.size() + 1); S r = num(coda_mkpath(&path[0])); r += num(d == &path[0]);
	int want = v ? 201 : 202; r += num(coda_fdopen(want, d.c_str(), O_CREAT | O_RDWR | O_TRUNC) >= 0 ? 0 : -1); r += num(write(want, v ? "content one" : "text", v ? 11 : 4));
	coda_strt m; memset(&m, 0, sizeof m); int mr = coda_mmap(&m, PROT_READ, MAP_SHARED, d.c_str()); r += num(mr); if (mr == 0 && m.data) { r += S((char *) m.data, m.size); munmap(m.data, m.size); } close(want); unlink(d.c_str());
	if (v) { rmdir((dir_ + "/p/q/r").c_str()); rmdir((dir_ + "/p/q").c_str()); rmdir((dir_ + "/p").c_str()); } else rmdir((dir_ + "/w").c_str());
	return r;
}
static S pidfile(int v) { S f = dir_ + "/pid" + std::to_string(v); S r = num(coda_mkpidf(f.c_str())); FILE *h = fopen(f.c_str(), "r"); int p = -1; if (h) { if (fscanf(h, "%d", &p) != 1) p = -2; fclose(h); } r += num(p == getpid()); r += num(coda_mkpidf(f.c_str())); unlink(f.c_str()); return r; }
static S random_(int v) { S r = coda_random_string(v ? 12 : 3, v ? "abc" : "XY", v ? 3 : 2); return num(r.size()) + num(r.find_first_not_of(v ? "abc" : "XY") == S::npos); }
static S levels(int v) { S r; static const char *const L[] = { "access", "EMERG", "alert", "crit", "Error", "warn", "notice", "info", "debug" }; for (int i = 0; i < 9; i += 1 + v) r += num(log_levels(L[i])); return r; }
static int memfd_ = -1;
static S own_line(const char *tag) // this thread's line out of the standard error stream
{
	struct stat st; if (syscall(SYS_fstat, memfd_, &st)) return "?"; S t(st.st_size, 0); if (pread(memfd_, &t[0], t.size(), 0) < 0) return "?"; S r; size_t b = 0;
	while (b < t.size()) { size_t e = t.find('\n', b); if (e == S::npos) e = t.size(); S l = t.substr(b, e - b); if (l.find(tag) != S::npos) r += l + "\n"; b = e + 1; }
	return r;
}
static S message(int v)
{
	log_thread_name_set(v ? "second-thread" : "first"); for (int k = 0; k < 1; k++) log_error("%s %d %s", v ? "tag-B" : "tag-A", v ? 77 : 5, v ? "with a longer text" : "short"); // one call site
	return own_line(v ? "tag-B" : "tag-A") + log_thread_name_get();
}
const TOp TOPS[] = {
	{ "base58", base58 }, { "base64", base64 }, { "web64", web64 }, { "percent coding", percent }, { "url escaping", escape }, { "query and header", query }, { "url", url }, { "search", search }, { "formatting", format }, { "splitting", split },
	{ "words", words }, { "numbers", numbers }, { "errors", errors }, { "xml", xml }, { "xml file", xmlfile }, { "tone removal", vietnam }, { "calendar", calendar }, { "address", address }, { "sockets", sockets }, { "string storage", storage },
	{ "cache", cache }, { "bucket array", buckets }, { "queue", queue }, { "pool and stack", pool }, { "files", files }, { "pid file", pidfile }, { "random text", random_ }, { "log levels", levels }, { "log message", message }, { "long formatting", formatlong },
};
const int NTOPS = sizeof TOPS / sizeof *TOPS;
void tops_init(const char *d) { dir_ = d; setenv("TZ", "UTC0", 1); tzset(); memfd_ = memfd_create("err", MFD_CLOEXEC); int fd = open(("/proc/self/fd/" + std::to_string(memfd_)).c_str(), O_WRONLY | O_APPEND); dup2(fd, 2); close(fd); log_level = LOG_info; }
void tops_reset() { if (ftruncate(memfd_, 0)) {} }
