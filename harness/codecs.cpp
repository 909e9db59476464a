// C15 (base58), C16 (base64, web64): codecs against independent references, exact-size heap buffers under ASan.
#include "mc.hpp"
#include "coda/base58.h"
#include "coda/base64.h"
#include "coda/web64.h"
using namespace mc;
typedef std::string S;

struct Buf // exact-size heap copy
{
	char *p; size_t n;
	Buf(const S &s) : p((char *) malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); }
	Buf(size_t k, char fill) : p((char *) malloc(k)), n(k) { if (n) memset(p, fill, n); }
	~Buf() { free(p); }
	S str(size_t k) const { return S(p, k); }
	bool is(const S &s) const { return s.size() <= n && memcmp(p, s.data(), s.size()) == 0; }
};

// ------------------------------------------------------------------ base58
static const char *A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static S ref_enc58(const S &in)
{
	size_t z = 0; while (z < in.size() && in[z] == 0) z++;
	std::vector<unsigned char> b(in.begin() + z, in.end());
	S r;
	while (!b.empty())
	{
		unsigned rem = 0; std::vector<unsigned char> q;
		for (unsigned char c : b) { rem = rem * 256 + c; unsigned d = rem / 58; rem %= 58; if (d || !q.empty()) q.push_back(d); }
		r.insert(r.begin(), A58[rem]); b.swap(q);
	}
	return S(z, '1') + r;
}
static S ref_dec58(const S &in) // only valid texts
{
	size_t z = 0; while (z < in.size() && in[z] == '1') z++;
	std::vector<unsigned char> d; for (size_t i = z; i < in.size(); i++) d.push_back(strchr(A58, in[i]) - A58);
	S r;
	while (!d.empty())
	{
		unsigned rem = 0; std::vector<unsigned char> q;
		for (unsigned char c : d) { rem = rem * 58 + c; unsigned x = rem / 256; rem %= 256; if (x || !q.empty()) q.push_back(x); }
		r.insert(r.begin(), (char) rem); d.swap(q);
	}
	return S(z, 0) + r;
}
static bool is58(unsigned char c) { return c && strchr(A58, c); }

static void enc58_into(const S &in, const S &e, size_t ol)
{
	Buf bi(in), bo(ol, '#');
	coda_base58_encode(bi.p, in.size(), bo.p, ol);
	S want = e; want += '\0';
	if (want.size() > ol) want.resize(ol);
	MC_CHECK(bo.is(want), "base58 encode of %s into %zu bytes gives %s, expected %s", show(in).c_str(), ol, show(bo.str(ol)).c_str(), show(want).c_str());
}
static void enc58(const S &in, bool all_outlens)
{
	step();
	S e = ref_enc58(in);
	note("base58 encode %s -> %s", show(in).c_str(), e.c_str());
	if (!e.empty()) nontrivial();
	Buf bi(in);
	char *o = NULL;
	size_t n = coda_base58_encode_alloc(bi.p, in.size(), &o);
	MC_CHECK(o && !strcmp(o, e.c_str()), "base58 encoding of %s is %s, expected %s", show(in).c_str(), o ? o : "NULL", e.c_str());
	MC_CHECK(n == e.size(), "base58 encode_alloc of %s returned length %zu, the text has %zu", show(in).c_str(), n, e.size());
	free(o);
	if (all_outlens) for (size_t ol = 0; ol <= e.size() + 2; ol++) enc58_into(in, e, ol);
	else { enc58_into(in, e, e.size()); enc58_into(in, e, e.size() + 1); }
	Buf be(e), bd(in.size(), '#');
	ssize_t r = coda_base58_decode(be.p, e.size(), bd.p);
	MC_CHECK(r == (ssize_t) in.size() && bd.is(in), "base58 decode(encode(%s)) differs (result %zd)", show(in).c_str(), r);
	o = NULL;
	r = coda_base58_decode_alloc(be.p, e.size(), &o);
	MC_CHECK(r == (ssize_t) in.size() && o && !memcmp(o, in.data(), in.size()), "base58 decode_alloc(encode(%s)) differs (result %zd)", show(in).c_str(), r);
	free(o);
}
static void dec58(const S &t)
{
	step();
	size_t bad = 0; while (bad < t.size() && is58(t[bad])) bad++;
	Buf b(t);
	if (bad == t.size())
	{
		S want = ref_dec58(t);
		if (!t.empty()) nontrivial();
		Buf bo(want.size(), '#');
		ssize_t r = coda_base58_decode(b.p, t.size(), bo.p);
		MC_CHECK(r == (ssize_t) want.size() && bo.is(want), "base58 decode of %s wrong (result %zd, expected %zu bytes)", show(t).c_str(), r, want.size());
		char *o = NULL; r = coda_base58_decode_alloc(b.p, t.size(), &o);
		MC_CHECK(r == (ssize_t) want.size() && o && !memcmp(o, want.data(), want.size()), "base58 decode_alloc of %s wrong (result %zd)", show(t).c_str(), r);
		free(o);
		note("base58 decode %s -> %s", show(t).c_str(), show(want).c_str());
	}
	else
	{
		nontrivial();
		Buf bo(t.size(), '#');
		ssize_t r = coda_base58_decode(b.p, t.size(), bo.p);
		MC_CHECK(r == -(ssize_t) bad - 1, "base58 decode of %s returned %zd, but the first bad character is at %zu", show(t).c_str(), r, bad);
		char *o = (char *) 1; r = coda_base58_decode_alloc(b.p, t.size(), &o);
		MC_CHECK(r == -(ssize_t) bad - 1, "base58 decode_alloc of %s returned %zd, but the first bad character is at %zu", show(t).c_str(), r, bad);
		note("base58 decode %s -> %zd", show(t).c_str(), r);
	}
}
static S bytes(int n) { S s; for (int i = 0; i < n; i++) s += (char) choose(256); return s; }
template <class T> static S over(const T &al, int n, int maxn) { S s; (void) n; for (int i = 0; i < maxn; i++) { int c = choose(al.size() + 1); if (!c) break; s += al[c - 1]; } return s; }

SCENARIO("C15", "base58/bytes", QUICK, QUICK, "every byte string of length 0..2, every output size") { enc58(bytes(choose(3)), true); }
SCENARIO("C15", "base58/bytes", THOROUGH, THOROUGH, "every byte string of length 0..3") { int n = choose(4); enc58(bytes(n), n < 3); }
SCENARIO("C15", "base58/classes", QUICK, THOROUGH, "every string of length 0..6 over {00,01,39,3a,7f,80,ff}") { static const S a("\x00\x01\x39\x3a\x7f\x80\xff", 7); enc58(over(a, 0, g().tier ? 6 : 5), true); }
SCENARIO("C15", "base58/long", QUICK, THOROUGH, "lengths 0..140 (thorough 400), 0..5 leading zero bytes or all zero, 7 body patterns, every output size up to length 40")
{
	int n = choose(g().tier ? 401 : 141), z = choose(7), p = choose(7);
	S s(n, 0);
	for (int i = 0; i < n; i++)
		s[i] = p == 0 ? 0xff : p == 1 ? 1 : p == 2 ? 0x80 : p == 3 ? i * 37 + 11 : p == 4 ? (i % 3 ? 0 : 0xfe) : p == 5 ? 255 - i : (i == n - 1);
	for (int i = 0; i < n && (z == 6 || i < z); i++) s[i] = 0;
	enc58(s, n <= 40);
}
SCENARIO("C15", "base58/very-long", QUICK, THOROUGH, "every length 141..800 (thorough 1600) of the largest value and of a mixed pattern")
{
	int n = 141 + choose(g().tier ? 1460 : 660), p = choose(2);
	S s(n, 0); for (int i = 0; i < n; i++) s[i] = p ? i * 37 + 11 : 0xff;
	enc58(s, false);
	dec58(S(n, p ? 'z' : '2'));
}
SCENARIO("C15", "base58/texts", QUICK, THOROUGH, "every text of 0..2 arbitrary bytes (thorough: 3 over all bytes)") { int n = choose(g().tier ? 4 : 3); dec58(bytes(n)); }
SCENARIO("C15", "base58/text-classes", QUICK, THOROUGH, "every text of length 0..5 (thorough 6) over valid and near-miss characters") { static const S a("12zAl0OI/\xff", 10); dec58(over(a, 0, g().tier ? 6 : 5)); }
SCENARIO("C15", "base58/one-bad", QUICK, THOROUGH, "every byte value at every position of valid texts of length 1..40, after 0..3 leading ones")
{
	int n = 1 + choose(40), pos = choose(n), z = choose(4);
	S t; for (int i = 0; i < n; i++) t += i < z ? '1' : A58[(i * 23 + 7) % 58];
	t[pos] = (char) choose(256);
	dec58(t);
}
SCENARIO("C15", "base58/isalpha", QUICK, THOROUGH, "every character") { int c = choose(256); step(); MC_CHECK(coda_isbase58((char) c) == is58(c), "coda_isbase58(0x%02x) is wrong", c); }
SCENARIO("C15", "base58/max-texts", QUICK, THOROUGH, "texts of 0..200 (thorough 500) highest or lowest digits with 0..2 leading ones")
{
	int n = choose(g().tier ? 501 : 201), z = choose(3); S t(n, choose(2) ? 'z' : '2');
	dec58(S(z, '1') + t);
}

SCENARIO("C15", "base58/big", QUICK, THOROUGH, "254..258, 511..513, 1023..1025 (thorough up to 4097) bytes or characters, of which 0, 1, half, all but one or all are zero, and a bad character at the start, the middle or the end")
{
	static const int B[] = { 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097 };
	int n = B[choose(g().tier ? 17 : 11)], zk = choose(5), k = choose(5);
	int z = zk == 0 ? 0 : zk == 1 ? 1 : zk == 2 ? n / 2 : zk == 3 ? n - 1 : n; S s(z, '\0'); for (int i = z; i < n; i++) s += (char) (i * 91 + 200);
	if (k == 0) { enc58(s, false); return; }
	S t(z, '1'); for (int i = z; i < n; i++) t += A58[1 + i * 7 % 57];
	if (k > 1) t[k == 2 ? 0 : k == 3 ? n / 2 : n - 1] = '0';
	dec58(t);
}
// ------------------------------------------------------------------ base64
struct Var { const char *name, *al; char pad; };
static const Var V64[2] = { { "base64", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", '=' },
	{ "web64", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", '.' } };
static int val64(const Var &v, unsigned char c) { const char *p = c ? strchr(v.al, c) : NULL; return p ? p - v.al : -1; }
static S ref_enc64(const Var &v, const S &in)
{
	S r; unsigned acc = 0; int bits = 0;
	for (unsigned char c : in) { acc = (acc << 8 | c) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; r += v.al[(acc >> bits) & 63]; } }
	if (bits) r += v.al[(acc << (6 - bits)) & 63];
	while (r.size() % 4) r += v.pad;
	return r;
}
static bool ref_dec64(const Var &v, const S &t, S &out)
{
	out.clear(); bool ok = t.size() % 4 == 0; unsigned acc = 0; int bits = 0; size_t i = 0;
	for (; i < t.size(); i++)
	{
		int d = val64(v, t[i]);
		if (d < 0) break;
		acc = (acc << 6 | d) & 0xffffff; bits += 6;
		if (bits >= 8) { bits -= 8; out += (char) (acc >> bits); }
	}
	size_t rest = t.size() - i;
	if (rest == 0) return ok;
	if (!ok || rest > 2) return false;
	for (; i < t.size(); i++) if (t[i] != v.pad) return false;
	return true;
}
static void enc(int vi, const char *in, size_t il, char *out, size_t ol) { if (vi) web64_encode(in, il, out, ol); else coda_base64_encode(in, il, out, ol); }
static bool dec(int vi, const char *in, size_t il, char *out, size_t *ol) { return vi ? web64_decode(in, il, out, ol) : coda_base64_decode(in, il, out, ol); }
static void enc64(int vi, const S &in, bool all)
{
	const Var &v = V64[vi]; step();
	S e = ref_enc64(v, in);
	if (!e.empty()) nontrivial();
	note("%s encode %s -> %s", v.name, show(in).c_str(), e.c_str());
	size_t il = in.size(), room = vi ? WEB64_LENGTH(il) : CODA_BASE64_LENGTH(il); MC_CHECK(room == e.size(), "%s: the announced length of %zu encoded bytes is %zu, it is %zu", v.name, il, room, e.size());
	Buf bi(in);
	for (size_t ol = all ? 0 : e.size(); ol <= e.size() + (all ? 2 : 1); ol++)
	{
		Buf bo(ol, '#'); S want = e; want += '\0'; if (want.size() > ol) want.resize(ol);
		enc(vi, bi.p, in.size(), bo.p, ol);
		MC_CHECK(bo.is(want), "%s encode of %s into %zu bytes gives %s, expected %s", v.name, show(in).c_str(), ol, show(bo.str(ol)).c_str(), show(want).c_str());
	}
	if (!vi)
	{
		char *o = NULL; size_t n = coda_base64_encode_alloc(bi.p, in.size(), &o);
		MC_CHECK(o && n == e.size() && !strcmp(o, e.c_str()), "base64 encode_alloc of %s gives %s, length %zu", show(in).c_str(), o, n);
		free(o);
	}
	Buf be(e), bd(in.size(), '#'); size_t n = in.size();
	bool ok = dec(vi, be.p, e.size(), bd.p, &n);
	MC_CHECK(ok && n == in.size() && bd.is(in), "%s decode(encode(%s)) differs", v.name, show(in).c_str());
}
static void dec64(int vi, const S &t)
{
	const Var &v = V64[vi]; step();
	S want; bool wok = ref_dec64(v, t, want);
	if (!t.empty()) nontrivial();
	size_t tl = t.size(), room = vi ? WEB64_DECODE_LENGTH(tl) : CODA_BASE64_DECODE_LENGTH(tl); MC_CHECK(room >= want.size(), "%s: the announced room for %zu decoded characters is %zu, they give %zu bytes", v.name, tl, room, want.size());
	note("%s decode %s -> %s %s", v.name, show(t).c_str(), wok ? "valid" : "invalid", show(want).c_str());
	Buf bi(t);
	for (size_t ol = 0; ol <= want.size() + 2; ol++)
	{
		Buf bo(ol, '#'); size_t n = ol;
		bool ok = dec(vi, bi.p, t.size(), bo.p, &n);
		size_t wn = std::min(ol, want.size());
		MC_CHECK(ok == wok, "%s decode of %s says %s", v.name, show(t).c_str(), ok ? "valid" : "invalid");
		MC_CHECK(n == wn, "%s decode of %s into %zu bytes reports %zu bytes, expected %zu", v.name, show(t).c_str(), ol, n, wn);
		MC_CHECK(bo.is(want.substr(0, wn)), "%s decode of %s into %zu bytes gives %s", v.name, show(t).c_str(), ol, show(bo.str(wn)).c_str());
	}
	if (!vi)
	{
		char *o = (char *) 1; size_t n = 777;
		bool ok = coda_base64_decode_alloc(bi.p, t.size(), &o, &n);
		MC_CHECK(ok == wok, "base64 decode_alloc of %s says %s", show(t).c_str(), ok ? "valid" : "invalid");
		if (ok) { MC_CHECK(o && n == want.size() && !memcmp(o, want.data(), n), "base64 decode_alloc of %s gives %zu bytes", show(t).c_str(), n); free(o); }
		else MC_CHECK(o == NULL, "base64 decode_alloc of the invalid %s leaves a pointer", show(t).c_str());
		o = (char *) 1; ok = coda_base64_decode_alloc(bi.p, t.size(), &o, NULL);
		MC_CHECK(ok == wok, "base64 decode_alloc of %s without length says %s", show(t).c_str(), ok ? "valid" : "invalid");
		free(o);
	}
}
static const S &cls(int vi) // valid digits of every kind, padding, neighbours of the alphabet ranges
{
	static const S c[2] = { S("AZaz09+/=-_.@[`{:,!\x80\xff\0", 22), S("AZaz09-_.+/=@[`{:,!\x80\xff\0", 22) };
	return c[vi];
}
SCENARIO("C16", "base64/bytes", QUICK, QUICK, "both variants, every byte string of length 0..2 and length 3 with 16 third bytes, every output size for length<=2")
{
	int vi = choose(2), n = choose(4); S s = bytes(n < 3 ? n : 2);
	if (n == 3) s += (char) (choose(16) * 17);
	enc64(vi, s, n < 3);
}
SCENARIO("C16", "base64/bytes", THOROUGH, THOROUGH, "both variants, every byte string of length 0..3") { int vi = choose(2), n = choose(4); enc64(vi, bytes(n), n < 3); }
SCENARIO("C16", "base64/classes", QUICK, THOROUGH, "every string of length 0..7 over {00,01,7f,ff} (thorough 8), every output size") { static const S a("\x00\x01\x7f\xff", 4); int vi = choose(2); enc64(vi, over(a, 0, g().tier ? 8 : 7), true); }
SCENARIO("C16", "base64/long", QUICK, THOROUGH, "lengths 0..100 with three patterns, every output size")
{
	int vi = choose(2), n = choose(101), p = choose(3); S s(n, 0); for (int i = 0; i < n; i++) s[i] = p == 0 ? 0xff : p == 1 ? i * 91 + 5 : 250 - i;
	enc64(vi, s, true);
	S e = ref_enc64(V64[vi], s); dec64(vi, e);
}
SCENARIO("C16", "base64/big", QUICK, THOROUGH, "35 lengths of 127..70000 bytes, two patterns: encoded, decoded, with a bad character at every tenth of the text, cut at its end and into a too small buffer")
{
	int vi = choose(2), n = biglen(), p = choose(2), k = choose(12); const Var &v = V64[vi]; S s(n, 0); for (int i = 0; i < n; i++) s[i] = p ? i * 91 + (i >> 8) : 0xff;
	if (k == 0) { enc64(vi, s, false); return; }
	S e = ref_enc64(v, s), want; step(); nontrivial();
	if (k == 11) { for (int d = 0; d < 4; d++) { S t = e.substr(0, e.size() - d); bool ok = ref_dec64(v, t, want); size_t room = want.size() / 2, l = room; Buf bi(t), bo(room, '#'); bool r = dec(vi, bi.p, t.size(), bo.p, &l); MC_CHECK(r == ok && l == room && bo.is(want.substr(0, room)), "%s decode of %zu characters into %zu bytes says %d, %zu bytes", v.name, t.size(), room, r, l); } return; }
	size_t at = (e.size() - 1) * (k - 1) / 9; e[at] = '!'; bool ok = ref_dec64(v, e, want); note("bad character at %zu of %zu", at, e.size());
	Buf bi(e), bo(n + 8, '#'); size_t l = n + 8; bool r = dec(vi, bi.p, e.size(), bo.p, &l);
	MC_CHECK(r == ok && l == want.size() && bo.str(l) == want, "%s decode of %zu characters with a bad one at %zu says %d, %zu bytes instead of %zu", v.name, e.size(), at, r, l, want.size());
}
SCENARIO("C16", "base64/quads", QUICK, THOROUGH, "every text of length 0..4 over 22 character classes, every output size")
{
	int vi = choose(2), n = choose(5); S s; for (int i = 0; i < n; i++) s += cls(vi)[choose(22)];
	dec64(vi, s);
}
SCENARIO("C16", "base64/structure", QUICK, THOROUGH, "every text of length 0..9 over a digit, a high digit, padding and an invalid character (thorough 10), every output size")
{
	int vi = choose(2); S al("B/=!"); al[1] = V64[vi].al[63]; al[2] = V64[vi].pad;
	dec64(vi, over(al, 0, g().tier ? 10 : 8));
}
SCENARIO("C16", "base64/one-bad", QUICK, THOROUGH, "every byte value at every position of texts of 1..3 groups with 0..2 paddings")
{
	int vi = choose(2), gr = 1 + choose(3), pads = choose(3); S t;
	for (int i = 0; i < gr * 4; i++) t += i >= gr * 4 - pads ? V64[vi].pad : V64[vi].al[(i * 29 + 13) % 64];
	t[choose(t.size())] = (char) choose(256);
	dec64(vi, t);
}
SCENARIO("C16", "base64/limits", QUICK, THOROUGH, "alphabet test of every character, and lengths whose encoded size overflows")
{
	int c = choose(260); step();
	if (c < 256) { MC_CHECK(coda_isbase64((char) c) == (val64(V64[0], c) >= 0), "coda_isbase64(0x%02x) is wrong", c); return; }
	static const size_t L[4] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, SIZE_MAX / 4 * 3 + 10 };
	char *o = (char *) 1; size_t n = coda_base64_encode_alloc("", L[c - 256], &o);
	MC_CHECK(n == 0 && o == NULL, "an impossible input length %zu was accepted", L[c - 256]);
}
MC_MAIN
