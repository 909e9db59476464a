// C20 (absolute URLs), C21 (relative resolution, copies): coda_url against a segment-list reference.
#include "mc.hpp"
#include <new>
#include "coda/url_parser.hpp"
using namespace mc;
typedef std::string S;

struct Buf { char *p; size_t n; Buf(const S &s) : p((char *) malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } };
static S lower(S s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool pre(const S &s, const char *p) { return s.size() >= strlen(p) && lower(s.substr(0, strlen(p))) == p; }
static bool hostch(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == ':' || c == '-' || c == '_'; }

struct Ref { bool ok; S scheme, host, path, query, dom; bool domspec; S url() const { return scheme + host + path + query; } };

static S normpath(const S &path, bool fetch) // path starts with '/'
{
	std::vector<S> seg; bool trail = false;
	size_t i = 1;
	for (;;)
	{
		size_t j = path.find('/', i); bool last = j == S::npos; if (last) j = path.size();
		S s = path.substr(i, j - i);
		if (s == "" || s == ".") trail = true;
		else if (s == "..") { if (!seg.empty()) seg.pop_back(); trail = true; }
		else { seg.push_back(s); trail = false; }
		if (last) break;
		i = j + 1;
	}
	S r; for (S &s : seg) r += "/" + s;
	if (r.empty()) return "/";
	return trail && fetch ? r + "/" : r;
}
static void splitq(S &path, S &query) { size_t q = path.find('?'); if (q != S::npos) { query = path.substr(q); path.resize(q); } }
static Ref ref_abs(S u, bool fetch)
{
	Ref r; r.ok = true; r.domspec = true;
	int sl = pre(u, "https://") ? 8 : pre(u, "http://") ? 7 : 0;
	r.scheme = sl ? lower(u.substr(0, sl)) : "http://"; u.erase(0, sl);
	size_t h = u.find('#'); if (h != S::npos) u.resize(h);
	size_t e = 0; while (e < u.size() && u[e] != '/' && hostch(lower(S(1, u[e]))[0])) e++;
	S host = lower(u.substr(0, e)), rest = u.substr(e);
	if (rest.empty() || rest[0] != '/') rest = "/" + rest;
	while (!host.empty() && host[0] == '.') host.erase(0, 1);
	while (!host.empty() && host[host.size() - 1] == '.') host.resize(host.size() - 1);
	r.host = host;
	if (host.find("..") != S::npos) r.domspec = false;
	size_t d = host.rfind('.');
	if (d != S::npos && d > 0) { d = host.rfind('.', d - 1); r.dom = d == S::npos ? host : host.substr(d + 1); } else r.dom = host;
	r.path = rest; splitq(r.path, r.query);
	r.path = normpath(r.path, fetch);
	return r;
}
static void cmp_url(const char *what, const S &in, const coda_url &u, const Ref &r)
{
	S got = u.get_url(), dom = u.get_domain();
	MC_CHECK(u.get_url_len() == got.size(), "%s %s: reported length %u of %s", what, show(in).c_str(), u.get_url_len(), show(got).c_str());
	MC_CHECK(u.get_domain_len() == dom.size(), "%s %s: reported domain length %u of %s", what, show(in).c_str(), u.get_domain_len(), show(dom).c_str());
	S g2 = got; size_t sl = r.scheme.size(); if (g2.size() >= sl) g2 = lower(g2.substr(0, sl)) + g2.substr(sl);
	MC_CHECK(g2 == r.url(), "%s %s gives %s, expected %s", what, show(in).c_str(), show(got).c_str(), show(r.url()).c_str());
	if (r.domspec) MC_CHECK(dom == r.dom, "%s %s reports domain %s, expected %s", what, show(in).c_str(), show(dom).c_str(), show(r.dom).c_str());
	MC_CHECK(!u.empty() && u.allocated(), "%s %s leaves an empty object", what, show(in).c_str());
}
static void is_empty(const char *what, const S &in, const coda_url &u)
{
	MC_CHECK(u.empty() && !u.get_url()[0] && !u.get_domain()[0] && u.get_url_len() == 0 && u.get_domain_len() == 0, "%s %s: the object is not empty after the refusal", what, show(in).c_str());
}
static void absolute(const S &in)
{
	step();
	for (int fl = 0; fl < 2; fl++)
	{
		Buf b(in); coda_url u;
		int rc = u.create_absolute(b.p, b.n, fl ? CODA_URL_FETCHABLE : 0);
		if (in.empty()) { MC_CHECK(rc != 0, "an empty url was accepted"); is_empty("create_absolute", in, u); continue; }
		MC_CHECK(rc == 0, "create_absolute refused %s", show(in).c_str());
		nontrivial();
		Ref r = ref_abs(in, fl);
		note("%s%s -> %s | %s", show(in).c_str(), fl ? " (fetchable)" : "", u.get_url(), u.get_domain());
		cmp_url("create_absolute", in, u, r);
		S once = u.get_url(); Buf c(once); coda_url v;
		MC_CHECK(v.create_absolute(c.p, c.n, fl ? CODA_URL_FETCHABLE : 0) == 0 && once == v.get_url(), "normalising %s again gives %s", show(once).c_str(), show(v.get_url()).c_str());
	}
}
static S over(const S &al, int maxn) { S s; for (int i = 0; i < maxn; i++) { int c = choose(al.size() + 1); if (!c) break; s += al[c - 1]; } return s; }
#define T (g().tier)

SCENARIO("C20", "url/abs", QUICK, THOROUGH, "every string of length 0..5 (thorough 6) over {a,B,.,/,?,#,:,space} without and with http:// and https://")
{
	static const char *P[3] = { "", "http://", "https://" };
	S p = P[choose(3)]; absolute(p + over("aB./?#: ", T ? 6 : 5));
}
SCENARIO("C20", "url/path", QUICK, THOROUGH, "http://H.x followed by every path of length 0..9 (thorough 11) over {/,.,a}, alone and with ?q/../ and #f")
{
	static const char *E[3] = { "", "?q/../", "#f" };
	S e = E[choose(3)]; S p = over("/.a", T ? 11 : 9); if (!p.empty() && p[0] != '/') p = "/" + p;
	absolute("http://H.x" + p + e);
}
SCENARIO("C20", "url/host", QUICK, THOROUGH, "every host of length 0..7 (thorough 8) over {a,C,.,-,:}, with 4 continuations")
{
	static const char *E[4] = { "", "/", "/p", "?q" };
	S e = E[choose(4)]; absolute("http://" + over("aC.-:", T ? 8 : 6) + e);
}
SCENARIO("C20", "url/chars", QUICK, THOROUGH, "every byte value at 4 positions (host start, host end, path, query) with and without scheme")
{
	int c = 1 + choose(255), w = choose(4); S s = choose(2) ? "http://" : "";
	char ch = (char) c; S k(1, ch);
	absolute(s + (w == 0 ? k + "b.c/d" : w == 1 ? "b.c" + k + "/d" : w == 2 ? "b.c/" + k + "d" : "b.c/d?" + k));
}
SCENARIO("C20", "url/scheme", QUICK, THOROUGH, "every prefix of http://, https://, HTTP://, HtTpS:// and near misses, followed by 8 tails")
{
	static const char *P[] = { "http://", "https://", "HTTP://", "HtTpS://", "httpx://", "http:/x/", "ftp://", "https:/", "//", "mailto:" };
	static const char *E[] = { "", "a", "/", "a.b/../c", "?", "#", "A.B:80/x?y#z", ".." };
	S p = P[choose(10)]; p.resize(choose(p.size() + 1)); absolute(p + E[choose(8)]);
}
SCENARIO("C20", "url/segments", QUICK, THOROUGH, "every sequence of 0..6 (thorough 7) segments out of a, bb, ., .., ..., empty, .a, with and without final slash")
{
	static const char *G[] = { "a", "bb", ".", "..", "...", "", ".a" }; S s = "http://h.i";
	for (int i = 0; i < (T ? 7 : 6); i++) { int c = choose(8); if (!c) break; s += "/"; s += G[c - 1]; }
	if (choose(2)) s += "/";
	absolute(s);
}
SCENARIO("C20", "url/long", QUICK, THOROUGH, "hosts and paths of 1..300 characters made of 4 patterns (buffer capacity)")
{
	int n = 1 + choose(300), p = choose(5); S s;
	for (int i = 0; i < n; i++) s += p == 0 ? 'a' : p == 1 ? (i % 2 ? '.' : 'b') : p == 2 ? '/' : p == 3 ? (i == n / 2 ? '?' : 'c') : '.';
	absolute(s);
}

SCENARIO("C20", "url/big", QUICK, THOROUGH, "35 lengths of 127..70000 characters in the host, one segment, many segments, dots, parents, query or fragment")
{
	int n = biglen(), p = choose(9); S s = "http://H.i";
	for (int i = 0; i < n; i++)
	{
		if (p == 0) { if (!i) s = "HTTP://"; s += i % 7 == 3 ? '.' : 'B'; }
		else if (p == 1) { if (!i) s = ""; s += 'a' + i % 26; }
		else { if (!i) s += p == 7 ? "?" : p == 8 ? "/x#" : "/"; s += p == 2 ? (i % 5 == 4 ? '/' : 'a') : p == 3 ? 'a' : p == 4 ? '/' : p == 5 ? (i % 3 == 2 ? '/' : '.') : p == 6 ? "a/../b/./"[i % 9] : 'q'; }
	}
	absolute(s);
}
// ---------------------------------------------------------------- C21
static const char *PAR[] = { "http://a.b/", "a.b.c/x/y", "https://h:8/p/q?r=/s", "http://q/?z", "http:///e", "http://D.e/f/../g/", "HTTPS://U.v/w/x", "http://x.y.z.b.c/k" };
static const int NPAR = sizeof PAR / sizeof *PAR;
enum { FETCH = 1, SUB = 2 }; // the harness's own names: the library's values are only passed on
static uint32_t lib(int f) { return (f & FETCH ? CODA_URL_FETCHABLE : 0) | (f & SUB ? CODA_URL_SUBDOMAIN : 0); }
static Ref ref_rel(const S &u0, int flags, const Ref &p)
{
	Ref r; r.ok = false; r.domspec = true; bool fetch = flags & FETCH;
	S u = u0;
	if (u.empty()) return r;
	if (pre(u, "http://") || pre(u, "https://"))
	{
		r = ref_abs(u, fetch);
		if (flags & SUB) { r.ok = lower(r.dom) == lower(p.dom); if (!r.domspec) r.ok = false; }
		return r;
	}
	if (pre(u, "mailto:") || pre(u, "javascript:") || u[0] == '#') return r;
	size_t h = u.find('#'); if (h != S::npos) u.resize(h);
	r = p; r.ok = true; r.query = "";
	r.path = u[0] == '/' ? u : p.path.substr(0, p.path.rfind('/') + 1) + u;
	splitq(r.path, r.query);
	r.path = normpath(r.path, fetch);
	return r;
}
static void relative(const S &in, int par, int pf, int flags)
{
	step();
	Ref pr = ref_abs(PAR[par], pf); coda_url p, u;
	S pin = PAR[par];
	{ Buf b(pin); p.create_absolute(b.p, b.n, pf ? CODA_URL_FETCHABLE : 0); }
	cmp_url("parent", pin, p, pr);
	Ref r = ref_rel(in, flags, pr);
	int rc;
	{ Buf b(in); rc = u.create_relative(b.p, b.n, lib(flags), p); }
	note("%s against %s flags %d -> %d %s | %s", show(in).c_str(), p.get_url(), flags, rc, u.get_url(), u.get_domain());
	cmp_url("the parent after resolving", in, p, pr);
	if ((flags & SUB) && !r.domspec) { if (rc) is_empty("create_relative", in, u); return; }
	if (!r.ok) { MC_CHECK(rc != 0, "create_relative accepted %s against %s as %s", show(in).c_str(), PAR[par], show(u.get_url()).c_str()); is_empty("create_relative", in, u); return; }
	MC_CHECK(rc == 0, "create_relative refused %s against %s", show(in).c_str(), PAR[par]);
	nontrivial();
	cmp_url("create_relative", in, u, r);
}
SCENARIO("C21", "url/rel", QUICK, THOROUGH, "every reference of length 0..4 (thorough 5) over {a,/,.,?,#,:,B} against 8 parents in both forms, all flags")
{
	int par = choose(NPAR), f = choose(8); relative(over("a/.?#:B", T ? 5 : 4), par, f & 1, f >> 1);
}
SCENARIO("C21", "url/rel-path", QUICK, THOROUGH, "every reference of length 0..8 (thorough 9) over {/,.,a} against 4 parents")
{
	static const int Q[4] = { 0, 1, 2, 6 };
	int par = Q[choose(4)], f = choose(2); relative(over("/.a", T ? 9 : 7), par, 1, f);
}
SCENARIO("C21", "url/rel-special", QUICK, THOROUGH, "every prefix of special references (schemes, mailto:, javascript:) in three cases with 6 tails against 8 parents, all flags")
{
	static const char *P[] = { "http://", "https://", "mailto:", "javascript:", "MailTo:", "JAVASCRIPT:", "HTTP://", "httpS://", "//", "mailt:", "../" };
	static const char *E[] = { "", "x", "a.b/c", "b.c/d", "x.a.b/e", "#f", "D.E/?g" };
	S p = P[choose(11)]; p.resize(choose(p.size() + 1)); p += E[choose(7)];
	int par = choose(NPAR), f = choose(8); relative(p, par, f & 1, f >> 1);
}
SCENARIO("C21", "url/rel-segments", QUICK, THOROUGH, "every sequence of 1..4 (thorough 5) segments, with and without leading and final slash and query, against 5 parents")
{
	static const char *G[] = { "a", ".", "..", "", "c?d/..", "..e" }; static const int Q[5] = { 0, 1, 2, 3, 4 };
	int par = Q[choose(5)], f = choose(4); S s = choose(2) ? "/" : "";
	for (int i = 0; i < (T ? 5 : 4); i++) { int c = choose(7); if (!c) break; if (i) s += "/"; s += G[c - 1]; }
	if (choose(2)) s += "/";
	relative(s, par, f & 1, f >> 1);
}
SCENARIO("C21", "url/rel-long", QUICK, THOROUGH, "references of 1..120 characters in 4 patterns against parents of 1..60 characters (buffer capacity)")
{
	int n = 1 + choose(120), m = 1 + choose(12) * 5, p = choose(4); S s, q = "http://";
	for (int i = 0; i < n; i++) s += p == 0 ? 'a' : p == 1 ? (i % 2 ? '/' : 'b') : p == 2 ? (i == 1 ? '?' : 'c') : (i ? 'd' : '/');
	for (int i = 0; i < m; i++) q += p & 1 ? (i == m / 2 ? '/' : 'h') : 'h';
	step(); nontrivial();
	coda_url P, u; { Buf b(q); P.create_absolute(b.p, b.n, 0); }
	Ref r = ref_rel(s, 0, ref_abs(q, false));
	{ Buf b(s); MC_CHECK(u.create_relative(b.p, b.n, 0, P) == 0, "create_relative refused %s", show(s).c_str()); }
	cmp_url("create_relative", s, u, r);
	// absolute reference against a short parent
	S a = "https://" + s; coda_url v; { Buf b(a); MC_CHECK(v.create_relative(b.p, b.n, 0, P) == 0, "create_relative refused %s", show(a).c_str()); }
	cmp_url("create_relative", a, v, ref_abs(a, false));
}
SCENARIO("C21", "url/rel-big", QUICK, THOROUGH, "references and parents of 35 lengths of 127..70000 characters: one segment, many, parents, query, absolute; the other one short or as long; copies of the result")
{
	static const char *P[] = { "a", "b/", "../", "c/../", "./" };
	int n = biglen(), p = choose(7), long_parent = choose(3); S s, q = "http://h.i/";
	if (long_parent != 1) { s = p == 5 ? "?" : p == 6 ? "https://x.y/" : ""; while ((int) s.size() < n) s += p < 5 ? P[p] : "q"; s.resize(n); } else s = p == 5 ? "?z" : p == 6 ? "/abs" : P[p];
	if (long_parent) { while ((int) q.size() < n) q += p & 1 ? "d" : "e/"; q.resize(n); }
	step(); nontrivial(); coda_url A, u; { Buf b(q); A.create_absolute(b.p, b.n, 0); }
	Ref r = ref_rel(s, FETCH, ref_abs(q, false)); int rc; { Buf b(s); rc = u.create_relative(b.p, b.n, lib(FETCH), A); }
	MC_CHECK(rc == 0, "create_relative refused %s", show(s).c_str()); cmp_url("create_relative", s, u, r);
	coda_url c(u), d; d = u; u = A; cmp_url("copying", s, c, r); cmp_url("assigning", s, d, r); cmp_url("assigning the parent", q, u, ref_abs(q, false));
}
SCENARIO("C21", "url/refused", QUICK, THOROUGH, "null and empty inputs, empty parents, filled targets, all combinations")
{
	step(); nontrivial();
	coda_url par, tgt; bool fillp = choose(2), fillt = choose(2), abs = choose(2); int in = choose(3);
	if (fillp) par.create_absolute("http://p.q/r", 12, 0);
	if (fillt) tgt.create_absolute("http://t.u/v", 12, 0);
	const char *s = in == 0 ? NULL : "abc"; size_t n = in == 2 ? 3 : in == 1 ? 0 : 3;
	int rc = abs ? tgt.create_absolute(s, n, 0) : tgt.create_relative(s, n, 0, par);
	bool ok = in == 2 && !fillt && (abs || fillp);
	MC_CHECK((rc == 0) == ok, "create returned %d for input %d, parent %d, target %d", rc, in, fillp, fillt);
	if (!ok) { is_empty("refused create", "", tgt); rc = tgt.create_absolute("http://x/y", 10, 0); MC_CHECK(rc == 0 && S(tgt.get_url()) == "http://x/y", "the object cannot be used after a refusal"); }
}
// histories of three objects
struct Obj { bool e; Ref r; Obj() : e(true) {} };
SCENARIO("C21", "url/objects", QUICK, THOROUGH, "every sequence of up to 4 (thorough 5) create/resolve/assign (also to itself)/copy/destroy operations on three objects")
{
	static const char *U[2] = { "http://one.two.three/four?five", "x.y" };
	static const char *R[2] = { "../k/l/", "#no" };
	alignas(coda_url) char mem[3][sizeof(coda_url)]; coda_url *o[3]; Obj m[3];
	struct Guard { coda_url **o; ~Guard() { for (int i = 0; i < 3; i++) o[i]->~coda_url(); } } gd = { o };
	for (int i = 0; i < 3; i++) o[i] = new (mem[i]) coda_url;
	int n = T ? 4 : 3;
	for (int d = 0; d <= n; d++)
	{
		int c = choose(1 + 6 + 9 + 6 + 9);
		if (!c) break;
		c--; step();
		if (c < 6)
		{
			int i = c % 3; S in = U[c / 3]; Buf b(in);
			int rc = o[i]->create_absolute(b.p, b.n, 0);
			note("o%d.create_absolute(%s) -> %d", i, in.c_str(), rc);
			MC_CHECK((rc == 0) == m[i].e, "create_absolute on %s object returned %d", m[i].e ? "an empty" : "a filled", rc);
			if (m[i].e) { m[i].e = false; m[i].r = ref_abs(in, false); } else m[i] = Obj();
		}
		else if ((c -= 6) < 9)
		{
			int i = c / 3, j = c % 3; note("o%d = o%d", i, j);
			coda_url &x = (*o[i] = *o[j]); MC_CHECK(&x == o[i], "assignment does not return its target"); m[i] = m[j];
			if (!m[i].e) nontrivial();
		}
		else if ((c -= 9) < 6)
		{
			int i = c / 2, j = (i + 1 + c % 2) % 3; note("o%d destroyed and copied from o%d", i, j);
			o[i]->~coda_url(); memset(mem[i], 0x5a, sizeof mem[i]); o[i] = new (mem[i]) coda_url(*o[j]); m[i] = m[j];
			if (!m[i].e) nontrivial();
		}
		else
		{
			c -= 6; int i = c / 3, j = c % 3; S in = R[d % 2]; 
			if (i == j) in = "http://self/";
			Buf b(in);
			bool ok = m[i].e && !m[j].e; Ref r; if (ok) { r = ref_rel(in, 0, m[j].r); ok = r.ok; }
			int rc = o[i]->create_relative(b.p, b.n, 0, *o[j]);
			note("o%d.create_relative(%s, o%d) -> %d", i, in.c_str(), j, rc);
			MC_CHECK((rc == 0) == ok, "create_relative(%s) returned %d", in.c_str(), rc);
			if (ok) { m[i].e = false; m[i].r = r; } else m[i] = Obj();
		}
		for (int i = 0; i < 3; i++)
			if (m[i].e) is_empty("object", "", *o[i]); else cmp_url("object", "", *o[i], m[i].r);
	}
}
MC_MAIN
