// C22 (bounded searches), C23 (formatting, splitting, number parsing): direct definitions as the reference.
#include "mc.hpp"
#include "coda/string.h"
#include "coda/string.hpp"
#include "coda/easy_parsing.hpp"
#include <limits.h>
#include <set>
using namespace mc;
typedef std::string S;
typedef unsigned char uc;

// text of exactly n bytes; nothing readable behind it, and nothing before it unless it is empty
struct Exact
{
	char *m, *p; size_t n;
	Exact(const S &s) : n(s.size()) { size_t pad = n ? 0 : 8; m = (char *) malloc(n + pad); memset(m, 'a', pad); p = m + pad; memcpy(p, s.data(), n); }
	~Exact() { free(m); }
};
// the same text inside a longer one whose neighbours would change the result
struct Inside
{
	S b; char *p;
	Inside(const S &s, char before, const S &after) : b(S(4, before) + s + after + S(4, before)) { p = &b[4]; }
};
static S over(const S &al, int lo, int hi) { int n = lo + choose(hi - lo + 1); S s; while (n--) s += al[choose(al.size())]; return s; }

static int lw(int c) { c = (uc) c; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eq(char a, char b, bool ic) { return ic ? lw(a) == lw(b) : a == b; }
static bool in(char c, const S &set, bool ic) { for (char x : set) if (eq(c, x, ic)) return true; return false; }
static long ref_str(const S &s, const S &n, bool ic)
{
	if (s.empty()) return -1;
	for (size_t i = 0; i + n.size() <= s.size(); i++)
	{
		size_t k = 0; while (k < n.size() && eq(s[i + k], n[k], ic)) k++;
		if (k == n.size()) return i;
	}
	return -1;
}
static long off(const char *r, const char *base, size_t n, const char *what, const S &t)
{
	if (!r) return -1;
	MC_CHECK(r >= base && r <= base + n, "%s on %s returned a pointer outside the text", what, show(t).c_str());
	return r - base;
}
#define CK(got, want, name, s, arg) do { step(); long g_ = (long) (got), w_ = (long) (want); \
	MC_CHECK(g_ == w_, "%s(%s, %s, %zu) gives %ld, expected %ld", name, show(s).c_str(), show(arg).c_str(), (s).size(), g_, w_); } while (0)

static void chr_forms(const char *p, const S &s, char c)
{
	size_t n = s.size(); S a(1, c);
	for (int ic = 0; ic < 2; ic++)
	{
		long f = -1, l = -1;
		for (size_t i = 0; i < n; i++) if (eq(s[i], c, ic)) { if (f < 0) f = i; l = i; }
		CK(off(ic ? coda_strxchr(p, c, n) : coda_strnchr(p, c, n), p, n, "strchr", s), f, ic ? "coda_strxchr" : "coda_strnchr", s, a);
		CK(off(ic ? coda_revxchr(p, c, n) : coda_revnchr(p, c, n), p, n, "revchr", s), l, ic ? "coda_revxchr" : "coda_revnchr", s, a);
		CK(ic ? coda_strxchp(p, c, n) : coda_strnchp(p, c, n), f < 0 ? (long) n : f, ic ? "coda_strxchp" : "coda_strnchp", s, a);
	}
}
static void span_forms(const char *p, const S &s, const S &set)
{
	size_t n = s.size();
	Exact e(set + S(1, '\0'));
	for (int ic = 0; ic < 2; ic++)
	{
		long a = 0, b = 0, c = 0, d = 0;
		while (a < (long) n && in(s[a], set, ic)) a++;
		while (b < (long) n && !in(s[b], set, ic)) b++;
		while (c < (long) n && in(s[n - 1 - c], set, ic)) c++;
		while (d < (long) n && !in(s[n - 1 - d], set, ic)) d++;
		CK(ic ? coda_strxspn(p, e.p, n) : coda_strnspn(p, e.p, n), a, ic ? "coda_strxspn" : "coda_strnspn", s, set);
		CK(ic ? coda_strxspc(p, e.p, n) : coda_strnspc(p, e.p, n), b, ic ? "coda_strxspc" : "coda_strnspc", s, set);
		CK(ic ? coda_revxspn(p, e.p, n) : coda_revnspn(p, e.p, n), c, ic ? "coda_revxspn" : "coda_revnspn", s, set);
		CK(ic ? coda_revxspc(p, e.p, n) : coda_revnspc(p, e.p, n), d, ic ? "coda_revxspc" : "coda_revnspc", s, set);
	}
	if (s.find('\0') == S::npos)
	{
		Exact z(s + S(1, '\0'));
		long a = 0, b = 0;
		while (a < (long) n && in(s[a], set, true)) a++;
		while (b < (long) n && !in(s[b], set, true)) b++;
		CK(coda_strispn(z.p, e.p), a, "coda_strispn", s, set);
		CK(coda_strispc(z.p, e.p), b, "coda_strispc", s, set);
	}
}
static void str_forms(const char *p, const S &s, const S &pat)
{
	size_t n = s.size();
	Exact e(pat + S(1, '\0'));
	CK(off(coda_strnstr(p, e.p, n), p, n, "strnstr", s), ref_str(s, pat, false), "coda_strnstr", s, pat);
	CK(off(coda_strxstr(p, e.p, n), p, n, "strxstr", s), ref_str(s, pat, true), "coda_strxstr", s, pat);
}
static void istr_form(const S &s, const S &pat)
{
	Exact e(pat + S(1, '\0')), z(s + S(1, '\0'));
	CK(off(coda_stristr(z.p, e.p), z.p, s.size(), "stristr", s), ref_str(s, pat, true), "coda_stristr", s, pat);
}
static void at(const S &s) { note("text %s", show(s).c_str()); if (!s.empty()) nontrivial(); }

// ------------------------------------------------------------------ C22
static const S AL("aAbB.\xc1\xe1", 7);
SCENARIO("C22", "search/char", QUICK, THOROUGH, "every text of length 0..5 (thorough 6) over {NUL a A b B . c1 e1}, all characters of it and neighbours, exact buffers")
{
	static const S A0("\0aAbB.\xc1\xe1", 8);
	S s = over(A0, 0, g().tier ? 6 : 5); at(s); Exact x(s);
	static const S C("\0aAbBcC.@[`{\xc1\xe1\x80\xff", 16);
	for (char c : C) chr_forms(x.p, s, c);
}
SCENARIO("C22", "search/char-inside", QUICK, THOROUGH, "texts of length 0..4 inside a longer text, neighbours equal to the searched character")
{
	S s = over(AL, 0, 4); at(s);
	for (char c : AL) for (char nb : S("aA\xe1")) { Inside x(s, nb, S(4, nb)); chr_forms(x.p, s, c); }
}
SCENARIO("C22", "search/all-bytes", QUICK, THOROUGH, "every pair of text byte and searched byte (set of one, pattern of one)")
{
	char a = choose(256), b = choose(256); S s(1, a); s += 'x'; at(s); Exact x(s);
	chr_forms(x.p, s, b);
	if (b) { span_forms(x.p, s, S(1, b)); if (a) { str_forms(x.p, s, S(1, b)); istr_form(s, S(1, b)); } }
}
SCENARIO("C22", "search/span", QUICK, THOROUGH, "every text of length 0..4 (thorough 5) over {NUL a A b . e1}, sets of 0..3 of those and case variants")
{
	static const S A0("\0aAb.\xe1", 6);
	S s = over(A0, 0, g().tier ? 5 : 4); at(s);
	S set = over(S("aAbB.\xe1"), 0, 3);
	Exact x(s); span_forms(x.p, s, set);
	Inside y(s, 'a', "aA"); span_forms(y.p, s, set);
	Inside z(s, '.', "..."); span_forms(z.p, s, set);
}
SCENARIO("C22", "search/substring", QUICK, THOROUGH, "every text of length 0..5 over {a A b .} (thorough 6, with e1) and every pattern of length 0..3 over {a A b B .}")
{
	S s = over(g().tier ? S("aAb.\xe1") : S("aAb."), 0, g().tier ? 6 : 5); at(s);
	S pat = over(S("aAbB."), 0, 3);
	Exact x(s); str_forms(x.p, s, pat);
	Inside y(s, 'b', pat + pat); str_forms(y.p, s, pat); // the continuation completes partial matches
	istr_form(s, pat);
}
SCENARIO("C22", "search/overlap", QUICK, THOROUGH, "every text of length 0..9 (thorough 11) over {a b} and every pattern of length 1..5 over {a b}")
{
	S s = over("ab", 0, g().tier ? 11 : 9); at(s);
	S pat = over("ab", 1, 5);
	Exact x(s); str_forms(x.p, s, pat);
	istr_form(s, pat);
}
SCENARIO("C22", "search/long", QUICK, THOROUGH, "texts of length 0..70 of one character with one or two other characters at every position; all functions; sets and patterns of length 1..18")
{
	int n = choose(71), p = choose(n + 1), q = choose(4); S s(n, 'b');
	if (p < n) s[p] = 'X';
	if (q && p + q < n) s[p + q] = q == 1 ? 'X' : 'x';
	at(s); Exact x(s);
	chr_forms(x.p, s, 'X'); chr_forms(x.p, s, 'b');
	span_forms(x.p, s, "b"); span_forms(x.p, s, "X"); span_forms(x.p, s, "0123456789cdefgBx"); span_forms(x.p, s, "ghijklmnopqrstuvwXb");
	for (int k = 1; k < 18; k += 4) for (int w = 0; w <= k; w += k > 4 ? 4 : 1)
	{
		S pat(k, 'b'); if (w < k) pat[w] = 'X';
		str_forms(x.p, s, pat); istr_form(s, pat);
	}
}
SCENARIO("C22", "search/big", QUICK, THOROUGH, "texts of 35 lengths of 127..70000 of one character with another one at the start, before the end, at the end or nowhere; patterns of that length and around it")
{
	int n = biglen(), w = choose(5); S s(n, 'b'); int p = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 2 : w == 3 ? n - 1 : -1; if (p >= 0) s[p] = 'X';
	at(s); Exact x(s);
	chr_forms(x.p, s, 'X'); chr_forms(x.p, s, 'b'); chr_forms(x.p, s, 'x'); span_forms(x.p, s, "b"); span_forms(x.p, s, "X"); span_forms(x.p, s, "c");
	static const char *P[] = { "X", "bX", "Xb", "bXb", "bb", "bbX", "Y" }; for (int i = 0; i < 7; i++) { str_forms(x.p, s, P[i]); istr_form(s, P[i]); }
	str_forms(x.p, s, s); istr_form(s, s); S t = s; t += 'b'; str_forms(x.p, s, t); if (n < 3000) istr_form(s, t); t = s.substr(1); str_forms(x.p, s, t); istr_form(s, t); t = s.substr(0, n - 1); str_forms(x.p, s, t); istr_form(s, t);
}
SCENARIO("C22", "search/missing", QUICK, THOROUGH, "missing text, missing pattern")
{
	int k = choose(3); step(); nontrivial(); S s("ab");
	if (k == 0) MC_CHECK(!coda_stristr(NULL, "a") && coda_stristr("ab", NULL) && !coda_stristr("", "a"), "coda_stristr: missing text or pattern");
	if (k == 1) MC_CHECK(!coda_strnstr(NULL, "a", 3) && coda_strnstr(s.c_str(), NULL, 2) == s.c_str(), "coda_strnstr: missing text or pattern");
	if (k == 2) MC_CHECK(!coda_strxstr(NULL, "a", 3) && coda_strxstr(s.c_str(), NULL, 2) == s.c_str(), "coda_strxstr: missing text or pattern");
}

// ------------------------------------------------------------------ C23
static S body(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = 'a' + (i * 7 + i / 26) % 26; return s; }
static size_t length_at(int k)
{
	static const size_t far[] = { 65535, 65536, 65537, 100000, 131071 };
	if (k < 40) return k;
	if (k < 60) return 32758 + (k - 40);
	if (k < 76) { static const size_t m[] = { 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097 }; return m[k - 60]; }
	return far[k - 76];
}
enum { NLEN = 81 };
// one formatted text of n characters in one of four shapes
struct Fmt { S want; int shape; S a; int d; };
static Fmt shape_of(size_t n, int shape)
{
	Fmt f; f.shape = shape; f.d = -7;
	if (shape == 0 || n < 12) { f.shape = 0; f.a = f.want = body(n); return f; }
	if (shape == 1) { f.a = body(n - 4); f.want = "-7|" + f.a + "|"; return f; }        // %d|%s|%s with an empty last
	if (shape == 2) { f.a = body(n - 10); f.want = f.a + "%-7  3.25"; f.want = f.a + "%" + "-7   3.25"; return f; } // %s%%%-5d%.2f
	f.a = "zz"; f.want = S(n - 2, ' ') + "zz"; return f; // %*s
}
#define FMT_CALL(f, CALL0, CALL1, CALL2, CALL3) ((f).shape == 0 ? (CALL0) : (f).shape == 1 ? (CALL1) : (f).shape == 2 ? (CALL2) : (CALL3))
#define ARGS0(f) "%s", (f).a.c_str()
#define ARGS1(f) "%d|%s|%s", (f).d, (f).a.c_str(), ""
#define ARGS2(f) "%s%%%-5d%.2f", (f).a.c_str(), (f).d, 3.25
#define ARGS3(f) "%*s", (int) (f).want.size(), (f).a.c_str()
static S brief(const S &s) { return s.size() < 60 ? show(s) : show(s.substr(0, 20)) + "..(" + std::to_string(s.size()) + ").." + show(s.substr(s.size() - 20)); }

SCENARIO("C23", "format/printf", QUICK, THOROUGH, "lengths 0..39, around powers of two, 32758..32777, up to 131071; four format shapes; existing contents")
{
	Fmt f = shape_of(length_at(choose(NLEN)), choose(4)); int pre = choose(3); nontrivial(); step(2);
	note("format %zu characters, shape %d", f.want.size(), f.shape);
	S r = FMT_CALL(f, coda_strprintf(ARGS0(f)), coda_strprintf(ARGS1(f)), coda_strprintf(ARGS2(f)), coda_strprintf(ARGS3(f)));
	MC_CHECK(r == f.want, "coda_strprintf gives %s, expected %s", brief(r).c_str(), brief(f.want).c_str());
	S out = pre == 0 ? S() : pre == 1 ? S("pre\0fix", 7) : S(40000, 'p'), want = out + f.want;
	int n = FMT_CALL(f, coda_strappend(out, ARGS0(f)), coda_strappend(out, ARGS1(f)), coda_strappend(out, ARGS2(f)), coda_strappend(out, ARGS3(f)));
	MC_CHECK(out == want && n == (int) f.want.size(), "coda_strappend returns %d and gives %s, expected %s", n, brief(out).c_str(), brief(want).c_str());
}
static void limited(const Fmt &f, size_t num, const S &pre, size_t pos)
{
	S cut = f.want.substr(0, num);
	note("num %zu of %zu characters, position %zu of %zu", num, f.want.size(), pos, pre.size());
	step(2);
	S out = pre, want = pre + cut;
	int n = FMT_CALL(f, coda_strnappend(out, num, ARGS0(f)), coda_strnappend(out, num, ARGS1(f)), coda_strnappend(out, num, ARGS2(f)), coda_strnappend(out, num, ARGS3(f)));
	MC_CHECK(out == want && n == (int) cut.size(), "coda_strnappend(num=%zu) returns %d and gives %s, expected %s", num, n, brief(out).c_str(), brief(want).c_str());
	out = pre; want = pre; bool ok = pos <= pre.size(); if (ok) want.insert(pos, cut);
	n = FMT_CALL(f, coda_strnprintf(out, pos, num, ARGS0(f)), coda_strnprintf(out, pos, num, ARGS1(f)), coda_strnprintf(out, pos, num, ARGS2(f)), coda_strnprintf(out, pos, num, ARGS3(f)));
	MC_CHECK(out == want && n == (ok ? (int) cut.size() : -1), "coda_strnprintf(pos=%zu, num=%zu) on %s returns %d and gives %s, expected %s", pos, num,
		brief(pre).c_str(), n, brief(out).c_str(), brief(want).c_str());
}
SCENARIO("C23", "format/limited-short", QUICK, THOROUGH, "text lengths 0..20, every limit 0..22, every position 0..6 of a text of 0..5 characters")
{
	Fmt f = shape_of(choose(21), choose(4)); size_t num = choose(23); S pre = S("vwxyz").substr(0, choose(6)); nontrivial();
	limited(f, num, pre, choose(pre.size() + 2));
}
SCENARIO("C23", "format/limited-long", QUICK, THOROUGH, "text lengths and limits around 32768 and 65536 in every combination, three positions")
{
	static const size_t L[] = { 0, 5, 1000, 32765, 32766, 32767, 32768, 32769, 32770, 40000, 65535, 65536, 65537, 70000 };
	Fmt f = shape_of(L[choose(14)], choose(4)); size_t num = L[choose(14)]; int p = choose(3); nontrivial();
	limited(f, num, "hello", p == 0 ? 0 : p == 1 ? 3 : 5);
}
SCENARIO("C23", "format/limited-unbounded", QUICK, THOROUGH, "limits that mean no limit (2^31 .. the largest size), every format shape, nine lengths, three positions")
{
	static const size_t N[] = { (size_t) INT_MAX + 1, (size_t) UINT_MAX, (size_t) UINT_MAX + 1, (size_t) UINT_MAX + 6, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX };
	static const size_t L[] = { 0, 1, 5, 12, 1000, 32767, 32768, 40000, 70000 };
	Fmt f = shape_of(L[choose(9)], choose(4)); size_t num = N[choose(7)]; int p = choose(3); nontrivial();
	limited(f, num, "hello", p == 0 ? 0 : p == 1 ? 3 : 5);
}
SCENARIO("C23", "format/unconvertible", QUICK, THOROUGH, "a wide character the locale cannot express, at the start, in the middle or behind 40000 characters, every limit class")
{
	static const size_t N[] = { 0, 1, 3, 100, 32767, 32768, 100000, SIZE_MAX };
	size_t lead = choose(3); lead = lead == 0 ? 0 : lead == 1 ? 7 : 40000; S l = body(lead), pre = choose(2) ? "prefix" : ""; size_t num = N[choose(8)]; nontrivial(); step(4);
	const wchar_t bad[] = { 0x20ac, 0 }; S out = pre; note("limit %zu behind %zu characters", num, lead);
	(void) coda_strprintf("%s%ls", l.c_str(), bad);
	int n = coda_strappend(out, "%s%ls", l.c_str(), bad);
	MC_CHECK(n < 0 && out == pre, "coda_strappend of text that cannot be converted returns %d and gives %s", n, brief(out).c_str());
	n = coda_strnappend(out, num, "%s%ls", l.c_str(), bad);
	MC_CHECK(n < 0 && out == pre, "coda_strnappend(num=%zu) of text that cannot be converted returns %d and gives %s", num, n, brief(out).c_str());
	n = coda_strnprintf(out, 0, num, "%s%ls", l.c_str(), bad);
	MC_CHECK(n < 0 && out == pre, "coda_strnprintf(num=%zu) of text that cannot be converted returns %d and gives %s", num, n, brief(out).c_str());
}
SCENARIO("C23", "format/alias", QUICK, THOROUGH, "formatting a text into itself, lengths 0..39, around 32768 and above")
{
	size_t n = length_at(choose(NLEN)); S out = body(n), want = out + out + "!"; nontrivial(); step(2);
	int r = coda_strappend(out, "%s!", out.c_str());
	MC_CHECK(out == want && r == (int) n + 1, "coda_strappend of a text to itself gives %s", brief(out).c_str());
	out = body(n); r = coda_strnappend(out, 70000, "%s!", out.c_str()); want = body(n) + (body(n) + "!").substr(0, 70000);
	MC_CHECK(out == want, "coda_strnappend of a text to itself gives %s", brief(out).c_str());
}
static std::vector<S> ref_split(const S &s, const S &d, bool skip)
{
	std::vector<S> r; S cur;
	for (char c : s) if (d.find(c) != S::npos) { if (!skip || !cur.empty()) r.push_back(cur); cur.clear(); } else cur += c;
	if (!skip || !cur.empty()) r.push_back(cur);
	return r;
}
static S list(const std::vector<S> &v) { S r = "["; for (const S &s : v) r += show(s) + " "; return r + "]"; }
static void split(const S &s, const S &d)
{
	at(s);
	for (int skip = 0; skip < 2; skip++)
	{
		std::vector<S> want = ref_split(s, d, skip);
		Exact x(s), z(s + S(1, '\0')), dd(d + S(1, '\0')); step(3);
		std::vector<S> a = coda_split_string(z.p, dd.p, skip != 0), b = coda_split_string(x.p, s.size(), dd.p, skip != 0);
		MC_CHECK(a == want, "coda_split_string(%s, %s, %d) gives %s", show(s).c_str(), show(d).c_str(), skip, list(a).c_str());
		MC_CHECK(b == want, "coda_split_string(%s, size, %s, %d) gives %s", show(s).c_str(), show(d).c_str(), skip, list(b).c_str());
		if (skip)
		{
			Inside y(s, d.empty() ? 'a' : d[0], "b");
			b = coda_split_string(y.p, s.size(), dd.p);
			MC_CHECK(b == want, "coda_split_string(%s, size, %s) inside a longer text gives %s", show(s).c_str(), show(d).c_str(), list(b).c_str());
		}
	}
}
SCENARIO("C23", "split/short", QUICK, THOROUGH, "every text of length 0..6 (thorough 8) over {a b , ; ff}, delimiter sets of 0..2 characters, both modes, both forms")
{
	S s = over(S("ab,;\xff"), 0, g().tier ? 8 : 6); S d = over(S(",;\xff"), 0, 2); split(s, d);
}
SCENARIO("C23", "split/long", QUICK, THOROUGH, "texts of 0..40 pieces of length 0..9")
{
	int n = choose(41), l = choose(10), t = choose(2); S s; for (int i = 0; i < n; i++) { s += body(l == 9 ? i : l); if (i + 1 < n || t) s += i % 3 ? "," : ";"; }
	split(s, ",;");
}
static S setshow(const std::set<S> &v) { S r = "{"; for (const S &s : v) r += show(s) + " "; return r + "}"; }
SCENARIO("C23", "set/strings", QUICK, THOROUGH, "every text of length 0..7 (thorough 8) over {a b space ,}, into an empty and a filled set; missing text")
{
	int pre = choose(2); std::set<S> got, want; if (pre) { got.insert("old"); got.insert("a"); want = got; }
	int miss = choose(2);
	S s; if (!miss) { s = over("ab ,", 0, g().tier ? 8 : 7); at(s); }
	Exact z(s + S(1, '\0')); step();
	if (!miss && !s.empty()) for (const S &p : ref_split(s, ",", false)) want.insert(p);
	coda_get_stringset(miss ? NULL : z.p, got);
	MC_CHECK(got == want, "coda_get_stringset(%s) gives %s, expected %s", miss ? "missing" : show(s).c_str(), setshow(got).c_str(), setshow(want).c_str());
}
static void numset(const S &s, bool miss, bool pre)
{
	std::set<uint64_t> got, want; if (pre) { got.insert(7); got.insert(77); want = got; }
	if (!miss) for (const S &p : ref_split(s, ",", false))
	{
		size_t i = 0; while (i < p.size() && (p[i] == ' ' || p[i] == '\t')) i++;
		if (i == p.size() || p[i] < '0' || p[i] > '9') continue;
		uint64_t v = 0; for (; i < p.size() && p[i] >= '0' && p[i] <= '9'; i++) v = v * 10 + (p[i] - '0');
		want.insert(v);
	}
	Exact z(s + S(1, '\0')); step();
	// fill the stack with a recognisable pattern so that uninitialised numbers show up
	struct L { static __attribute__((noinline)) void dirty() { volatile uint64_t a[64]; for (int i = 0; i < 64; i++) a[i] = 0x5555555555ull; } }; L::dirty();
	coda_get_uint64set(miss ? NULL : z.p, got);
	S sg, sw; for (uint64_t v : got) sg += std::to_string(v) + " "; for (uint64_t v : want) sw += std::to_string(v) + " ";
	MC_CHECK(got == want, "coda_get_uint64set(%s) gives {%s}, expected {%s}", miss ? "missing" : show(s).c_str(), sg.c_str(), sw.c_str());
}
SCENARIO("C23", "set/numbers", QUICK, THOROUGH, "every text of length 0..6 (thorough 7) over {0 7 space , x}, into an empty and a filled set; missing text")
{
	bool pre = choose(2), miss = choose(2); S s; if (!miss) { s = over("07 ,x", 0, g().tier ? 7 : 6); at(s); }
	numset(s, miss, pre);
}
static const char *NUM[] = { "0", "1", "9", "10", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
	"12345678901234567890", "18446744073709551614", "18446744073709551615", "", "x" };
SCENARIO("C23", "set/numbers-wide", QUICK, THOROUGH, "every list of 1..4 items out of 15 boundary numbers")
{
	int n = 1 + choose(4); S s; for (int i = 0; i < n; i++) { if (i) s += ","; s += NUM[choose(15)]; }
	at(s); numset(s, false, false);
}
SCENARIO("C23", "lists/big", QUICK, THOROUGH, "35 lengths of 127..70000: as the length of one piece, of a run of delimiters, of the number of pieces; splitting, set parsers and words")
{
	int n = biglen(), k = choose(4); S s = "1,", w, num;
	for (int i = 0; i < n; i++) { s += k == 0 ? S(1, 'a' + i % 26) : k == 1 ? "," : k == 2 ? "7," : std::to_string(i) + ","; }
	s += ",23"; split(s, ","); numset(s, false, false);
	std::set<S> got, want; Exact z(s + S(1, '\0')); step(); for (const S &p : ref_split(s, ",", false)) want.insert(p); coda_get_stringset(z.p, got); MC_CHECK(got == want, "coda_get_stringset of a text of %zu characters gives %zu items instead of %zu", s.size(), got.size(), want.size());
	for (char &c : s) if (c == ',') c = ' '; Exact x(s + S(1, '\0')); const char *be = x.p, *en = NULL; std::vector<S> ws; while (get_next_word(be, en)) { ws.push_back(S(be, en)); be = en; step(); if (ws.size() > s.size()) break; }
	MC_CHECK(ws == ref_split(s, " ", true), "the words of a text of %zu characters are wrong", s.size());
}
SCENARIO("C23", "words", QUICK, THOROUGH, "every text of length 0..6 (thorough 9, over fewer blanks) over {a b space tab newline return}, all words in turn")
{
	S s = g().tier ? over("ab \t", 0, 9) : over("a \t\n\r", 0, 6); at(s);
	Exact z(s + S(1, '\0')); const char *be = z.p, *en = (const char *) 1; size_t i = 0; S ws(" \t\n\r");
	for (;;)
	{
		while (i < s.size() && ws.find(s[i]) != S::npos) i++;
		size_t j = i; while (j < s.size() && ws.find(s[j]) == S::npos) j++;
		int r = get_next_word(be, en); step();
		MC_CHECK(r == (j > i), "get_next_word in %s at %zu returns %d", show(s).c_str(), i, r);
		MC_CHECK(be == z.p + i && en == z.p + j, "get_next_word in %s: word at %ld..%ld, expected %zu..%zu", show(s).c_str(), (long) (be - z.p), (long) (en - z.p), i, j);
		if (!r) break;
		be = en; i = j;
	}
}
static void number(const S &s)
{
	at(s);
	bool dig = true; for (char c : s) if (c < '0' || c > '9') dig = false;
	bool neg = !s.empty() && s[0] == '-', ndig = neg; for (size_t i = 1; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') ndig = false;
	uint64_t v = 0; if (dig) for (char c : s) v = v * 10 + (c - '0');
	uint64_t m = 0; if (ndig) for (size_t i = 1; i < s.size(); i++) m = m * 10 + (s[i] - '0');
	Exact x(s); step(2);
	uint64_t u = coda_atou(x.p, s.size()); int64_t i = coda_atoi(x.p, s.size());
	MC_CHECK(u == v, "coda_atou(%s) gives %llu", show(s).c_str(), (unsigned long long) u);
	int64_t want = neg ? (int64_t) (0 - m) : (int64_t) v;
	MC_CHECK(i == want, "coda_atoi(%s) gives %lld", show(s).c_str(), (long long) i);
	Inside y(s, '1', "234"); u = coda_atou(y.p, s.size()); i = coda_atoi(y.p, s.size());
	MC_CHECK(u == v && i == want, "coda_atou/atoi(%s) inside a longer text give %llu and %lld", show(s).c_str(), (unsigned long long) u, (long long) i);
}
SCENARIO("C23", "numbers/big", QUICK, THOROUGH, "numbers after 0..40 and 35 lengths of 127..70000 zeros, with and without a sign, alone and with a bad character at the end")
{
	int sg = choose(2), k = choose(2), z = k ? biglen() : choose(41), e = choose(3); S s = (sg ? "-" : "") + S(z, '0') + (e == 0 ? "" : e == 1 ? "12345678901234567" : "9x"); number(s);
}
SCENARIO("C23", "numbers/short", QUICK, THOROUGH, "every text of length 0..6 (thorough 7) over {0 1 9 - + space / :}") { number(over("019-+ /:", 0, g().tier ? 7 : 6)); }
SCENARIO("C23", "numbers/all-bytes", QUICK, THOROUGH, "every byte at every position of texts of 1..3 digits, with and without a sign")
{
	int n = 1 + choose(3), sg = choose(2); S s = (sg ? "-" : "") + S("375").substr(0, n); s[choose(s.size())] = (char) choose(256); number(s);
}
SCENARIO("C23", "numbers/wide", QUICK, THOROUGH, "all digit counts up to 19 with several digits, and the extreme values of 64 bits")
{
	if (choose(2)) { static const char *W[] = { "18446744073709551615", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "00000000000000000000000001", "-000000000000000000000009" };
		S s = W[choose(6)]; if (s[0] != '-' && s.size() == 20 && s[0] == '1') { Exact x(s); step(); at(s); MC_CHECK(coda_atou(x.p, s.size()) == ULLONG_MAX, "coda_atou(%s) is wrong", s.c_str()); return; }
		number(s); return; }
	int n = 1 + choose(18), d = choose(10), sg = choose(2); S s(n, '0' + d); s[0] = '1' + d % 9; number((sg ? "-" : "") + s);
}
MC_MAIN
