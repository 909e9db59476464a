// C17 (percent-encoding), C18 (fixed-buffer escaping), C19 (query/header splitting).
#include "mc.hpp"
#include "coda/url.hpp"
using namespace mc;
typedef std::string S;

struct Buf
{
	char *p; size_t n;
	Buf(const S &s, bool nul = false) : p((char *) malloc(s.size() + nul)), n(s.size()) { memcpy(p, s.data(), n); if (nul) p[n] = 0; }
	Buf(size_t k, char fill) : p((char *) malloc(k)), n(k) { memset(p, fill, n); }
	~Buf() { free(p); }
};
static int hx(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static bool unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~'; }

// ---------------------------------------------------------------- C17
// strict reference decoder of encoder output: false when it is not well-formed
static bool strict(const S &e, bool plus, S &out)
{
	out.clear();
	for (size_t i = 0; i < e.size(); i++)
	{
		if (e[i] == '%') { if (i + 2 >= e.size() || hx(e[i + 1]) < 0 || hx(e[i + 2]) < 0) return false; out += (char) (hx(e[i + 1]) * 16 + hx(e[i + 2])); i += 2; }
		else if (e[i] == '+') { if (!plus) return false; out += ' '; }
		else if (unres(e[i])) out += e[i];
		else return false;
	}
	return true;
}
static void enc(const S &in)
{
	step(); if (!in.empty()) nontrivial();
	Buf bi(in);
	S e = coda_urlenc(bi.p, bi.n), f = coda_urlenc_noplus(bi.p, bi.n), d;
	note("urlenc(%s) -> %s", show(in).c_str(), e.c_str());
	MC_CHECK(strict(e, true, d) && d == in, "coda_urlenc of %s gives %s", show(in).c_str(), show(e).c_str());
	for (size_t i = 0; i + 2 < e.size(); i++) MC_CHECK(e.compare(i, 3, "%20"), "coda_urlenc of %s does not use '+' for a space: %s", show(in).c_str(), show(e).c_str());
	MC_CHECK(strict(f, false, d) && d == in, "coda_urlenc_noplus of %s gives %s", show(in).c_str(), show(f).c_str());
	MC_CHECK(coda_urlenc(in) == e && coda_urlenc_noplus(in) == f, "the string form of coda_urlenc differs on %s", show(in).c_str());
	Buf bo(e.size() + 1, '#');
	size_t n = coda_urlenc(bo.p, bi.p, bi.n);
	MC_CHECK(n == e.size() && !memcmp(bo.p, e.c_str(), n + 1), "the buffer form of coda_urlenc differs on %s (length %zu)", show(in).c_str(), n);
	Buf be(e), bf(f), bd(in.size() + 1, '#');
	MC_CHECK(coda_urldec(be.p, be.n) == in, "coda_urldec does not undo coda_urlenc on %s", show(in).c_str());
	MC_CHECK(coda_urldec(bf.p, bf.n) == in, "coda_urldec does not undo coda_urlenc_noplus on %s", show(in).c_str());
	n = coda_urldec(bd.p, be.p, be.n);
	MC_CHECK(n == in.size() && !memcmp(bd.p, in.c_str(), n + 1), "the buffer form of coda_urldec does not undo coda_urlenc on %s", show(in).c_str());
}
static void dec(const S &t)
{
	step();
	S want; bool spec = true; // spec: every '%' with two more characters is followed by two hex digits
	for (size_t i = 0; i < t.size(); i++)
	{
		if (t[i] == '%' && i + 2 < t.size())
		{
			if (hx(t[i + 1]) < 0 || hx(t[i + 2]) < 0) { spec = false; break; }
			want += (char) (hx(t[i + 1]) * 16 + hx(t[i + 2])); i += 2;
		}
		else want += t[i] == '+' ? ' ' : t[i];
	}
	Buf b(t);
	S d = coda_urldec(b.p, b.n);
	note("urldec(%s) -> %s", show(t).c_str(), show(d).c_str());
	if (spec) { MC_CHECK(d == want, "coda_urldec of %s gives %s, expected %s", show(t).c_str(), show(d).c_str(), show(want).c_str()); nontrivial(); }
	MC_CHECK(coda_urldec(t) == d, "the string form of coda_urldec differs on %s", show(t).c_str());
	MC_CHECK(d.size() <= t.size(), "coda_urldec of %s is longer than its input", show(t).c_str());
	Buf bo(t.size() + 1, '#');
	size_t n = coda_urldec(bo.p, b.p, b.n);
	MC_CHECK(n == d.size() && !memcmp(bo.p, d.data(), n) && bo.p[n] == 0, "the buffer form of coda_urldec differs on %s (length %zu)", show(t).c_str(), n);
}
static S bytes(int n) { S s; for (int i = 0; i < n; i++) s += (char) choose(256); return s; }
static S over(const S &al, int maxn) { S s; for (int i = 0; i < maxn; i++) { int c = choose(al.size() + 1); if (!c) break; s += al[c - 1]; } return s; }

SCENARIO("C17", "urlenc/bytes", QUICK, THOROUGH, "every byte string of length 0..2") { enc(bytes(choose(3))); }
SCENARIO("C17", "urlenc/bytes3", THOROUGH, THOROUGH, "every byte string of length 3") { enc(bytes(3)); }
SCENARIO("C17", "urlenc/classes", QUICK, THOROUGH, "every string of length 0..5 (thorough 6) over {a,~,space,+,%,00,7f,80,ff}") { static const S a("a~ +%\0\x7f\x80\xff", 9); enc(over(a, g().tier ? 6 : 5)); }
SCENARIO("C17", "urldec/escapes", QUICK, THOROUGH, "% followed by every pair of bytes, alone, before and after text") { int w = choose(4); dec(S(w & 1 ? "x" : "") + "%" + bytes(2) + (w & 2 ? "y" : "")); }
SCENARIO("C17", "urldec/classes", QUICK, THOROUGH, "every text of length 0..6 (thorough 8) over {%,+,4,f,B,z,ff}") { dec(over("%+4fBz\xff", g().tier ? 8 : 6)); }
SCENARIO("C17", "urldec/bytes", QUICK, THOROUGH, "every text of length 0..2") { dec(bytes(choose(3))); }
SCENARIO("C17", "urlenc/long", QUICK, THOROUGH, "lengths 0..300 of 4 patterns") { int n = choose(301), p = choose(4); S s; for (int i = 0; i < n; i++) s += (char) (p == 0 ? 0xff : p == 1 ? ' ' : p == 2 ? i : 'a' + i % 26); enc(s); }

// ---------------------------------------------------------------- C18
typedef std::vector<S> Tok;
static void compare(const char *fn, const S &in, const Tok &tok, const char *dest, size_t sz)
{
	if (!sz) return; // nothing may be written: the sanitizer decides
	S full; for (const S &t : tok) full += t;
	size_t fits = full.size() + 8 <= sz;
	if (fits)
	{
		MC_CHECK(!memcmp(dest, full.data(), full.size()) && dest[full.size()] == 0, "%s of %s into %zu bytes gives %s, expected %s", fn, show(in).c_str(), sz, show(dest, full.size() + 1).c_str(), show(full).c_str());
		return;
	}
	// cut at a token boundary, not more than 8 bytes early, terminated
	S pre; bool ok = false; size_t i = 0;
	for (;; i++)
	{
		if (pre.size() < sz && pre.size() + 8 >= sz - (i == tok.size() ? 0 : 0) && dest[pre.size()] == 0 && !memcmp(dest, pre.data(), pre.size())) { ok = true; break; }
		if (i == tok.size()) { ok = pre.size() < sz && dest[pre.size()] == 0 && !memcmp(dest, pre.data(), pre.size()); break; }
		pre += tok[i];
		if (pre.size() >= sz) break;
	}
	MC_CHECK(ok, "%s of %s into %zu bytes gives %s: not the result cut after a whole escape, or not terminated", fn, show(in).c_str(), sz, show(dest, sz).c_str());
}
static Tok tok_escape(const S &s)
{
	Tok r; char t[8];
	for (unsigned char c : s) { if (unres(c)) r.push_back(S(1, c)); else if (c == ' ') r.push_back("+"); else { snprintf(t, sizeof t, "%%%02X", c); r.push_back(t); } }
	return r;
}
static bool hexat(const S &s, size_t i, int n) { for (int k = 0; k < n; k++) if (i + k >= s.size() || hx(s[i + k]) < 0) return false; return true; }
static Tok tok_unescape(const S &s, bool &spec)
{
	Tok r; spec = true;
	for (size_t i = 0; i < s.size();)
	{
		if (s[i] == '+') { r.push_back(" "); i++; }
		else if (s[i] == '%' && hexat(s, i + 1, 2)) { r.push_back(S(1, (char) (hx(s[i + 1]) * 16 + hx(s[i + 2])))); i += 3; }
		else if (s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'u' && hexat(s, i + 2, 4))
		{
			unsigned c = hx(s[i + 2]) << 12 | hx(s[i + 3]) << 8 | hx(s[i + 4]) << 4 | hx(s[i + 5]);
			if (c >= 0x800) { spec = false; return r; }
			if (c > 0x7f) { S u; u += (char) (0xc0 | c >> 6); u += (char) (0x80 | (c & 63)); r.push_back(u); } else r.push_back(S(1, (char) c));
			i += 6;
		}
		else if (s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'u' && hexat(s, i + 2, 1)) { spec = false; return r; } // fewer than four digits: unspecified
		else if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'x' && hexat(s, i + 2, 2)) { r.push_back(S(1, (char) (hx(s[i + 2]) * 16 + hx(s[i + 3])))); i += 4; }
		else r.push_back(S(1, s[i++]));
	}
	return r;
}
static Tok tok_pre(const S &s)
{
	Tok r;
	for (size_t i = 0; i < s.size();)
	{
		size_t l = s[i] == '%' && hexat(s, i + 1, 2) ? 3 : s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'x' && hexat(s, i + 2, 2) ? 4 : 0;
		if (!l) { r.push_back(S(1, s[i++])); continue; }
		int c = hx(s[i + l - 2]) * 16 + hx(s[i + l - 1]);
		r.push_back(c & 0x80 ? S(1, (char) c) : s.substr(i, l)); i += l;
	}
	return r;
}
static void term(const char *fn, const S &in, const char *d, size_t sz) { MC_CHECK(!sz || memchr(d, 0, sz), "%s of %s does not terminate its buffer of %zu bytes", fn, show(in).c_str(), sz); }
static void fixedbuf(const S &in, size_t sz, int fn)
{
	step(); nontrivial();
	Buf bi(in, true), bo(sz, '#');
	bool spec = true;
	if (fn == 0)
	{
		coda_url_escape(bi.p, bo.p, sz); term("coda_url_escape", in, bo.p, sz);
		note("escape(%s, %zu) -> %s", show(in).c_str(), sz, show(S(bo.p, sz)).c_str());
		Tok t = tok_escape(in); compare("coda_url_escape", in, t, bo.p, sz);
		S e; for (S &x : t) e += x;
		if (e.size() + 8 <= sz)
		{
			Buf back(in.size() + 8, '#');
			coda_url_unescape(bo.p, back.p, back.n);
			MC_CHECK(!memcmp(back.p, in.c_str(), in.size() + 1), "unescaping does not undo escaping of %s: %s", show(in).c_str(), show(back.p).c_str());
		}
	}
	else if (fn == 1)
	{
		coda_url_unescape(bi.p, bo.p, sz); term("coda_url_unescape", in, bo.p, sz);
		note("unescape(%s, %zu) -> %s", show(in).c_str(), sz, show(S(bo.p, sz)).c_str());
		Tok t = tok_unescape(in, spec); if (spec) compare("coda_url_unescape", in, t, bo.p, sz);
	}
	else
	{
		coda_url_preunescape(bi.p, bo.p, sz); term("coda_url_preunescape", in, bo.p, sz);
		note("preunescape(%s, %zu) -> %s", show(in).c_str(), sz, show(S(bo.p, sz)).c_str());
		compare("coda_url_preunescape", in, tok_pre(in), bo.p, sz);
	}
}
SCENARIO("C18", "fixed/one-two-bytes", QUICK, THOROUGH, "every C string of one or two bytes, all three functions, buffers of 8, 9, 11 and 64 bytes")
{
	static const int B[4] = { 8, 9, 11, 64 };
	int fn = choose(3), b = B[choose(4)]; S s(1, (char) (1 + choose(255))); if (int c = choose(256)) s += (char) c;
	fixedbuf(s, b, fn);
}
SCENARIO("C18", "fixed/escape", QUICK, THOROUGH, "coda_url_escape: every string of length 0..7 (thorough 8) over {a,space,%,d0,\\,~}, buffer sizes 8..26")
{
	int sz = 8 + choose(19); fixedbuf(over("a %\xd0\\", g().tier ? 8 : 7), sz, 0);
}
SCENARIO("C18", "fixed/unescape", QUICK, THOROUGH, "coda_url_unescape and _preunescape: every sequence of 0..5 (thorough 6) pieces out of plain, +, %, %4, %41, %d0, %u0414, %u041, %u007F, %u00e9, \\x41, \\xd0, \\x, %uD, buffer sizes 8..16, 40")
{
	static const char *P[] = { "a", "+", "%", "%4", "%41", "%d0", "%u0414", "%u007F", "%u00e9", "%u0041", "\\x41", "\\xD0", "\\x", "\\x4", "%u", "\xd0", "4" };
	int fn = 1 + choose(2), z = choose(5), sz = z == 4 ? 60 : 8 + z * 2 + z / 2;
	S s; int n = g().tier ? 5 : 4;
	for (int i = 0; i < n; i++) { int c = choose(18); if (!c) break; s += P[c - 1]; }
	fixedbuf(s, sz, fn);
}
SCENARIO("C18", "fixed/edge", QUICK, THOROUGH, "0..14 plain characters followed by every pair of pieces, buffer sizes 8..20")
{
	static const char *P[] = { "+", "%41", "%d0", "%u0414", "%u007F", "%u0041", "\\x41", "\\xD0", "%", "\\", "\xd0", " " };
	int fn = choose(3), sz = 8 + choose(13), n = choose(15);
	S s(n, 'p'); s += P[choose(12)]; s += P[choose(12)]; s += "tail-is-long-enough";
	fixedbuf(s, sz, fn);
}
SCENARIO("C18", "fixed/small", QUICK, THOROUGH, "all three functions, every sequence of 0..3 (thorough 4) of 9 pieces, buffers of 0..7 bytes")
{
	static const char *P[] = { "a", "+", "%41", "%d0", "%u0414", "\\x41", "\\xD0", "\xd0", "%" };
	int fn = choose(3), sz = choose(8), n = g().tier ? 4 : 3; S s;
	for (int i = 0; i < n; i++) { int c = choose(10); if (!c) break; s += P[c - 1]; }
	fixedbuf(s, sz, fn);
}
SCENARIO("C18", "fixed/high", QUICK, THOROUGH, "coda_url_unescape: characters from U+0800 (8 of them, also at the end and cut off) between 0..14 plain ones, every buffer size of 0..24: whatever they become, the buffer holds and the text in front of them is right")
{
	static const char *P[] = { "%u0800", "%u20AC", "%uFFFF", "%ud800", "%uffff%uFFFF", "%u20A", "%u2", "%uFF" };
	int sz = choose(25), n = choose(15); S in(n, 'p'); in += P[choose(8)]; if (choose(2)) in += "qrstu";
	step(); nontrivial(); Buf bi(in, true), bo(sz, '#'); coda_url_unescape(bi.p, bo.p, sz); term("coda_url_unescape", in, bo.p, sz); note("unescape(%s, %d) -> %s", show(in).c_str(), sz, show(S(bo.p, sz)).c_str());
	if (n + 8 <= sz) MC_CHECK(!memcmp(bo.p, in.data(), n), "coda_url_unescape of %s gives %s", show(in).c_str(), show(S(bo.p)).c_str());
}
SCENARIO("C18", "fixed/hex", QUICK, THOROUGH, "every pair of characters after %, \\x and the last digits of %u00")
{
	static const char *P[] = { "%", "\\x", "%u00", "%u07", "%u0" };
	int fn = 1 + choose(2); S s = P[choose(5)]; s += (char) (1 + choose(255)); s += (char) (1 + choose(255)); if (choose(2)) s += "9";
	fixedbuf(s, 32, fn);
}
SCENARIO("C18", "fixed/roundtrip", QUICK, THOROUGH, "escape/unescape of every string of length 1..3 over 40 byte values") 
{
	S s; int n = 1 + choose(3); for (int i = 0; i < n; i++) { static const char A[] = "\x01\x1f !\"#$%&'+-./09:?@AFXZ[\\]^_`afuxz{|~\x7f\x80\xbf\xd0\xff"; s += A[choose(sizeof A - 1)]; }
	fixedbuf(s, 40, 0);
}

SCENARIO("C17", "urlenc/big", QUICK, THOROUGH, "35 lengths of 127..70000 bytes of 4 patterns, encoded and decoded; decoding of the pattern itself")
{
	int n = biglen(), p = choose(4); S s; for (int i = 0; i < n; i++) s += (char) (p == 0 ? 0xff : p == 1 ? ' ' : p == 2 ? i * 7 + (i >> 8) : 'a' + i % 26);
	enc(s); S t; while ((int) t.size() < n) t += p == 0 ? "%fF" : p == 1 ? "+" : p == 2 ? "a%41b" : "x"; t.resize(n); dec(t);
}
SCENARIO("C18", "fixed/big", QUICK, THOROUGH, "all three functions, 35 lengths of 127..70000 bytes, 5 patterns, buffers that are too small, just large enough and larger")
{
	static const char *P[] = { "a", "/", "%41", "%d0", "ab%u0414+" };
	int fn = choose(3), n = biglen(), p = choose(5), k = choose(4); S s; while ((int) s.size() < n) s += P[p]; s.resize(n);
	bool spec = true; Tok t = fn == 0 ? tok_escape(s) : fn == 1 ? tok_unescape(s, spec) : tok_pre(s); if (!spec) { s.resize(n / 9 * 9); t = tok_unescape(s, spec); }
	size_t full = 0; for (S &x : t) full += x.size();
	fixedbuf(s, k == 0 ? full / 2 : k == 1 ? full : k == 2 ? full + 8 : full + 70000, fn);
}
// ---------------------------------------------------------------- C19
typedef std::map<S, S> M;
static M ref_params(const S &s, M m)
{
	size_t i = 0;
	while (i <= s.size())
	{
		size_t j = s.find('&', i); if (j == S::npos) j = s.size();
		S item = s.substr(i, j - i); size_t q = item.find('=');
		if (q != S::npos) m[item.substr(0, q)] = item.substr(q + 1);
		i = j + 1;
	}
	return m;
}
static M ref_header(const S &s, M m)
{
	size_t i = 0;
	while (i < s.size())
	{
		size_t j = s.find("\r\n", i); if (j == S::npos) j = s.size();
		if (j == i) break;
		S line = s.substr(i, j - i); size_t q = line.find(':');
		if (q != S::npos) m[line.substr(0, q)] = line.substr(q + 1);
		i = j + 2;
	}
	return m;
}
static S dump(const M &m) { S r; for (auto &e : m) r += show(e.first) + "=>" + show(e.second) + " "; return r; }
static void split(const S &s, bool hdr, const S &rest)
{
	step();
	M pre; pre["a"] = "old"; pre["zz"] = "kept";
	for (int with = 0; with < 2; with++)
	{
		M base = with ? pre : M(), want = hdr ? ref_header(s, base) : ref_params(s, base), got = base, got2 = base;
		if (want != base) nontrivial();
		int r;
		{ Buf b(s); r = hdr ? coda_get_header_buf(got, b.p, b.n) : coda_get_params_buf(got, b.p, b.n); }
		if (!with) note("%s(%s) -> %s", hdr ? "header" : "params", show(s).c_str(), dump(got).c_str());
		MC_CHECK(r == 0 && got == want, "%s of %s gives %d, %s, expected %s", hdr ? "header" : "params", show(s).c_str(), r, dump(got).c_str(), dump(want).c_str());
		if (rest.empty()) { Buf b(s, true); r = hdr ? coda_get_header(got2, b.p) : coda_get_params(got2, b.p); }
		else { Buf b(s + rest); r = hdr ? coda_get_header_buf(got2, b.p, s.size()) : coda_get_params_buf(got2, b.p, s.size()); }
		MC_CHECK(r == 0 && got2 == want, "%s of %s %s %s gives %s, expected %s", hdr ? "header" : "params", show(s).c_str(), rest.empty() ? "(C string)" : "followed by", show(rest).c_str(), dump(got2).c_str(), dump(want).c_str());
	}
}
SCENARIO("C19", "split/params", QUICK, THOROUGH, "every string of length 0..7 (thorough 8) over {a,b,=,&,%,space} as buffer and C string") { split(over("ab=&%", g().tier ? 8 : 7), false, ""); }
SCENARIO("C19", "split/params-cut", QUICK, THOROUGH, "every string of length 0..5 over {a,b,=,&} inside a longer buffer that goes on with 6 different continuations")
{
	static const char *R[] = { "=v", "&a=x", "c", "=", "&", "b=b&a=a" };
	const char *r = R[choose(6)]; split(over("ab=&", g().tier ? 6 : 5), false, r);
}
SCENARIO("C19", "split/header", QUICK, THOROUGH, "every string of length 0..7 (thorough 8) over {a,b,:,CR,LF} as buffer and C string") { split(over("ab:\r\n", g().tier ? 8 : 7), true, ""); }
SCENARIO("C19", "split/header-lines", QUICK, THOROUGH, "every sequence of 0..5 (thorough 6) pieces out of 'a:1', 'b: 2', 'a:', ':x', 'junk', CRLF, CR, LF")
{
	static const char *P[] = { "a:1", "b: 2", "a:", ":x", "junk", "\r\n", "\r", "\n" }; S s;
	for (int i = 0; i < (g().tier ? 6 : 5); i++) { int c = choose(9); if (!c) break; s += P[c - 1]; }
	split(s, true, "");
}
SCENARIO("C19", "split/header-cut", QUICK, THOROUGH, "every string of length 0..5 over {a,:,CR,LF} inside a longer buffer that goes on with 6 different continuations")
{
	static const char *R[] = { "\n", "\r\n", ":v\r\n", "x", ":", "\r\nb:c\r\n" };
	const char *r = R[choose(6)]; split(over("ab:\r\n", g().tier ? 6 : 5), true, r);
}
SCENARIO("C19", "split/null", QUICK, THOROUGH, "null inputs")
{
	M m; m["k"] = "v"; int c = choose(4); step(); nontrivial();
	int r = c == 0 ? coda_get_params(m, NULL) : c == 1 ? coda_get_header(m, NULL) : c == 2 ? coda_get_params_buf(m, NULL, 5) : coda_get_header_buf(m, NULL, 5);
	MC_CHECK(r != 0 && m.size() == 1 && m["k"] == "v", "a null input was not refused");
}
SCENARIO("C19", "split/big", QUICK, THOROUGH, "35 lengths of 127..70000: as the length of a key, of a value, of the text, of a line without pair, and as the number of pairs")
{
	int n = biglen(), hdr = choose(2), k = choose(5); const char *q = hdr ? ":" : "=", *e = hdr ? "\r\n" : "&"; S s = S("x") + q + "1" + e, l; for (int i = 0; i < n; i++) l += (char) ('a' + i % 26);
	if (k == 0) s += l + q + "v" + e; else if (k == 1) s += S("k") + q + l + e; else if (k == 2) s += l + e; else if (k == 3) { for (int i = 0; i < n; i++) s += std::to_string(i % 9000) + q + std::to_string(i) + e; }
	else { s += S("k") + q + l; s.resize(n); split(s, hdr, ""); return; }
	s += S("y") + q + "2"; split(s, hdr, "");
}
MC_MAIN
