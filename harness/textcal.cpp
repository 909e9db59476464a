// C25 (Vietnamese tone removal against a table from Unicode data), C31 (calendar, logarithmic buckets).
#include "mc.hpp"
#include <errno.h>
#include <limits.h>
#include "coda/vietnam.hpp"
#include "coda/gmtime.h"
#include "coda/log_array.hpp"
#include "viet_table.h"
using namespace mc;
typedef std::string S;
typedef unsigned char uc;

static S utf8(unsigned c)
{
	S r;
	if (c < 0x80) r += (char) c;
	else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
	return r;
}
static S plain(unsigned c)
{
	static std::map<unsigned, char> m;
	if (m.empty()) for (auto &v : VIET) m[v.code] = v.base;
	if (c >= 0x300 && c <= 0x36f) return "";
	auto it = m.find(c);
	return it != m.end() ? S(1, it->second) : utf8(c);
}
static S run(const S &in) // exact heap buffer
{
	size_t pad = in.empty() ? 8 : 0; char *m = (char *) malloc(in.size() + pad), *p = m + pad; memcpy(p, in.data(), in.size());
	S r = coda_remove_tones_utf8(p, in.size()); free(m); step();
	return r;
}
static void tone(const S &in, const S &want)
{
	note("text %s", show(in).c_str());
	S got = run(in);
	MC_CHECK(got == want, "coda_remove_tones_utf8(%s) gives %s, expected %s", show(in).c_str(), show(got).c_str(), show(want).c_str());
}
SCENARIO("C25", "tones/all", QUICK, THOROUGH, "every Unicode scalar value alone and between an accented and a plain letter")
{
	int hi = choose(0x1100); nontrivial(); note("code points U+%04X..U+%04X", hi << 8, hi << 8 | 255);
	for (int lo = 0; lo < 256; lo++)
	{
		unsigned c = hi << 8 | lo; if (c >= 0xd800 && c < 0xe000) continue;
		S in = utf8(c), w = plain(c); S got = run(in);
		MC_CHECK(got == w, "U+%04X gives %s, expected %s", c, show(got).c_str(), show(w).c_str());
		got = run("\xc3\xa9" + in + "z"); w = "e" + w + "z";
		MC_CHECK(got == w, "U+%04X between letters gives %s, expected %s", c, show(got).c_str(), show(w).c_str());
	}
}
static const unsigned REP[] = { 0, 'a', 0x7f, 0x80, 0xbf, 0xc0, 0xd0, 0xe9, 0xf0, 0xff, 0x111, 0x1b0, 0x2ff, 0x300, 0x301, 0x36f, 0x370, 0x400, 0x7ff, 0x800, 0x1e9f, 0x1ea0, 0x1eaf, 0x1ef9, 0x1efa,
	0x20ac, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x10300, 0x11ea0, 0x40301, 0x1e00, 0xd7ff };
enum { NREP = sizeof REP / sizeof *REP };
SCENARIO("C25", "tones/sequences", QUICK, THOROUGH, "every sequence of 0..3 (thorough 4) of 36 representative characters")
{
	int n = choose(g().tier ? 5 : 4); S in, w; if (n) nontrivial();
	for (int i = 0; i < n; i++) { unsigned c = REP[choose(NREP)]; in += utf8(c); w += plain(c); }
	tone(in, w);
}
SCENARIO("C25", "tones/letters", QUICK, THOROUGH, "every Vietnamese letter after and before every representative character and every other Vietnamese letter")
{
	enum { NV = sizeof VIET / sizeof *VIET };
	int a = choose(NV), b = choose(NV + NREP); nontrivial();
	unsigned x = VIET[a].code, y = b < NV ? VIET[b].code : REP[b - NV];
	tone(utf8(x) + utf8(y), plain(x) + plain(y)); tone(utf8(y) + utf8(x) + utf8(y), plain(y) + plain(x) + plain(y));
}
SCENARIO("C25", "tones/cut", QUICK, THOROUGH, "every cut inside the last character, after every sequence of 0..2 representative characters")
{
	int n = choose(3); S in, w; nontrivial();
	for (int i = 0; i < n; i++) { unsigned c = REP[choose(NREP)]; in += utf8(c); w += plain(c); }
	S last = utf8(REP[choose(NREP)]); if (last.size() < 2) return;
	S part = last.substr(0, 1 + choose(last.size() - 1));
	tone(in + part, w + part);
}
SCENARIO("C25", "tones/long", QUICK, THOROUGH, "texts of 0..64, 255..258, 4095..4098 characters: letters, marks, mixtures")
{
	int k = choose(73), p = choose(5), n = k < 65 ? k : k < 69 ? 255 + k - 65 : 4095 + k - 69; S in, w; if (n) nontrivial();
	for (int i = 0; i < n; i++) { unsigned c = p == 0 ? 0x1ea5 : p == 1 ? 'q' : p == 2 ? (i & 1 ? 0x301 : 'e') : p == 3 ? REP[(i * 7 + k) % NREP] : VIET[i % (sizeof VIET / sizeof *VIET)].code; in += utf8(c); w += plain(c); }
	tone(in, w);
}
SCENARIO("C25", "tones/big", QUICK, THOROUGH, "texts of 35 lengths of 127..70000 plain characters, letters, marks or longer characters, with a letter at the start, the end or both")
{
	int n = biglen(), p = choose(4), w = choose(4); S in, want; nontrivial(); unsigned c = p == 0 ? 'a' : p == 1 ? 0x1ea1 : p == 2 ? 0x301 : 0x1f600; S ic = utf8(c), wc = plain(c);
	if (w & 1) { in += utf8(0xe9); want += plain(0xe9); } for (int i = 0; i < n; i++) { in += ic; want += wc; } if (w & 2) { in += utf8(0x111); want += plain(0x111); }
	tone(in, want);
}
SCENARIO("C25", "tones/malformed", QUICK, THOROUGH, "every byte string of length 0..5 (thorough 6) over byte classes: no access outside, nothing invented")
{
	static const S A("a\x00\x80\xbf\xc0\xc3\xcc\xe0\xe1\xed\xf0\xf4\xff", 13);
	int n = choose(g().tier ? 7 : 6); S in; for (int i = 0; i < n; i++) in += A[choose(A.size())]; if (n) nontrivial();
	note("bytes %s", show(in).c_str());
	S got = run(in);
	MC_CHECK(got.size() <= in.size(), "%s grows to %s", show(in).c_str(), show(got).c_str());
}

// ------------------------------------------------------------------ C31
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mlen(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return d[m] + (m == 1 && leap(y)); }
static long days_before(int y) // days from 1970-01-01 to y-01-01
{
	static std::vector<long> c; if (c.empty()) { long d = 0; for (int i = 1970; i <= 10000; i++) { c.push_back(d); d += leap(i) ? 366 : 365; } }
	return c[y - 1970];
}
static void cal(time_t t, int y, int mo, int d, int wd, int s)
{
	struct tm tm; memset(&tm, 0x5a, sizeof tm); coda_gmtime(t, &tm); step();
	MC_CHECK(tm.tm_year == y && tm.tm_mon == mo + 1 && tm.tm_mday == d && tm.tm_wday == wd && tm.tm_hour == s / 3600 && tm.tm_min == s / 60 % 60 && tm.tm_sec == s % 60,
		"coda_gmtime(%lld) gives %d-%d-%d %d:%d:%d weekday %d, expected %d-%d-%d %d:%d:%d weekday %d", (long long) t, tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday,
		y, mo + 1, d, s / 3600, s / 60 % 60, s % 60, wd);
}
static const int SECS[] = { 0, 1, 59, 60, 61, 3599, 3600, 43199, 43200, 80000, 86398, 86399 };
SCENARIO("C31", "calendar/days", QUICK, THOROUGH, "every day of 1970..9999 at 12 seconds of the day, checked against a calendar walk and glibc")
{
	int y = 1970 + choose(8030); long d = days_before(y); nontrivial(); note("year %d from day %ld", y, d);
	for (int m = 0; m < 12; m++) for (int k = 1; k <= mlen(y, m); k++, d++)
	{
		int wd = (4 + d) % 7;
		for (int s : SECS) cal((time_t) d * 86400 + s, y, m, k, wd, s);
		time_t t = (time_t) d * 86400; struct tm g2; gmtime_r(&t, &g2);
		if (g2.tm_year + 1900 != y || g2.tm_mon != m || g2.tm_mday != k || g2.tm_wday != wd) internal_error("the reference calendar disagrees with gmtime_r on day %ld", d);
	}
}
SCENARIO("C31", "calendar/seconds", QUICK, THOROUGH, "every second of eleven days (thorough: of every day of four years)")
{
	static const struct { int y, m, d; } D[] = { { 1970, 0, 1 }, { 1999, 11, 31 }, { 2000, 1, 29 }, { 2000, 2, 1 }, { 2038, 0, 19 }, { 2100, 1, 28 }, { 2100, 2, 1 }, { 2106, 1, 7 }, { 2400, 11, 31 }, { 9999, 11, 31 }, { 1972, 1, 29 } };
	int y, m, d;
	if (g().tier) { static const int Y[] = { 1970, 2000, 2023, 2100 }; y = Y[choose(4)]; m = choose(12); d = 1 + choose(mlen(y, m)); }
	else { int k = choose(11); y = D[k].y; m = D[k].m; d = D[k].d; }
	int h = choose(24);
	long n = days_before(y) + d - 1; for (int i = 0; i < m; i++) n += mlen(y, i);
	nontrivial(); note("%d-%d-%d hour %d", y, m + 1, d, h);
	for (int s = h * 3600; s < h * 3600 + 3600; s++) cal((time_t) n * 86400 + s, y, m, d, (4 + n) % 7, s);
}
static __int128 slept; static int naps; static bool badnap; // total nanoseconds
static void nap(long long sec, long ns) { if (ns < 0 || ns > 999999999 || sec < 0) badnap = true; slept += (__int128) sec * 1000000000 + ns; naps++; }
extern "C" int nanosleep(const struct timespec *a, struct timespec *) { nap(a->tv_sec, a->tv_nsec); if (badnap) { errno = EINVAL; return -1; } return 0; }
extern "C" int clock_nanosleep(clockid_t, int fl, const struct timespec *a, struct timespec *) { if (fl) internal_error("absolute sleep"); nap(a->tv_sec, a->tv_nsec); return badnap ? EINVAL : 0; }
extern "C" int usleep(useconds_t u) { nap(u / 1000000, u % 1000000 * 1000l); return 0; }
SCENARIO("C31", "calendar/sleep", QUICK, THOROUGH, "pauses of 0..20000 milliseconds and of every multiple of a second up to the largest int, with the neighbours")
{
	int k = choose(200), n = k < 100 ? 200 : 43; nontrivial(); note("pauses %d", k);
	for (int i = 0; i <= n; i++)
	{
		int ms = k < 100 ? k * 200 + i : 0; long long big = k < 100 ? ms : ((k - 100) * 21475ll + i % 43 * 500) * 1000 % 2147484000 + i % 3 - 1; if (big < 0) big = 0; if (big > INT_MAX) big = INT_MAX; ms = (int) big;
		naps = 0; slept = 0; badnap = false; int rc = coda_msleep(ms); step();
		if (!naps && ms && rc == 0) internal_error("coda_msleep sleeps in a way this check does not intercept");
		MC_CHECK(rc == 0 && !badnap && slept == (__int128) ms * 1000000, "coda_msleep(%d) pauses for %lld ns%s, returns %d", ms, (long long) slept, badnap ? " (invalid time)" : "", rc);
	}
}
template <typename T, unsigned M> static void buckets()
{
	typedef coda::log_array<T, M> A;
	nontrivial(); note("log_array with %u buckets of %zu bytes", M, sizeof(T));
	void *raw = malloc(sizeof(A) * 2); memset(raw, 0xa5, sizeof(A) * 2);
	A &a = *new (raw) A, &b = *new ((char *) raw + sizeof(A)) A;
	for (unsigned i = 0; i < M; i++) MC_CHECK(a.get_at(i) == 0 && b.get_at(i) == 0, "bucket %u of a new array of %u is not zero", i, M);
	for (int pass = 0; pass < 2; pass++)
		for (int i = 0; i < (pass ? 64 * 5 : 5000); i++)
		{
			size_t v = pass ? ((size_t) 1 << (i / 5)) + (i % 5 - 2) : i;
			if (pass && i % 5 == 4) v = ((size_t) 1 << (i / 5)) * 2 - 1; // all ones
			if (v == 0) continue;
			unsigned l = 0; while (l < 63 && v >> (l + 1)) l++;
			if (l > M - 1) l = M - 1;
			T *p = &a.get_by_value(v); step();
			MC_CHECK(p == &a.get_at(l), "value %zu goes to bucket %ld of %u, expected %u", v, (long) (p - &a.get_at(0)), M, l);
		}
	for (unsigned i = 0; i < M; i++) { a.get_at(i) = (T) (i + 1); b.get_at(i) = (T) (100 - i); }
	a.swap(b); step();
	for (unsigned i = 0; i < M; i++) MC_CHECK(a.get_at(i) == (T) (100 - i) && b.get_at(i) == (T) (i + 1), "swap of arrays of %u buckets: bucket %u is wrong", M, i);
	const A &ca = a; MC_CHECK(&ca.get_at(M - 1) == &a.get_at(M - 1), "constant access differs");
	a.swap(a); for (unsigned i = 0; i < M; i++) MC_CHECK(a.get_at(i) == (T) (100 - i), "self-swap changes bucket %u", i);
	free(raw);
}
template <unsigned M> static void buckets_m(int k)
{
	switch (k)
	{
	case 0: return buckets<int, M>();
	case 1: return buckets<unsigned char, M>();
	case 2: return buckets<double, M>();
	case 3: return buckets<unsigned long, M>();
	case 4: return buckets<short, M>();
	case 5: return buckets<unsigned short, M>();
	case 6: return buckets<unsigned, M>();
	case 7: return buckets<long, M>();
	case 8: return buckets<float, M>();
	case 9: return buckets<char, M>();
	}
}
SCENARIO("C31", "buckets", QUICK, THOROUGH, "arrays of 1, 2, 7, 8, 16, 32, 63 and 64 buckets of ten counter types; every value up to 5000, every power of two and its neighbours")
{
	int k = choose(10);
	switch (choose(8)) { case 0: buckets_m<1>(k); break; case 1: buckets_m<2>(k); break; case 2: buckets_m<7>(k); break; case 3: buckets_m<8>(k); break;
		case 4: buckets_m<16>(k); break; case 5: buckets_m<32>(k); break; case 6: buckets_m<63>(k); break; case 7: buckets_m<64>(k); break; }
}
MC_MAIN
