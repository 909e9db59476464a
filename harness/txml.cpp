// C24: XML binding.  Documents are generated as trees, so the expected members are known; well-formedness of damaged
// documents is decided by expat directly.
#include "mc.hpp"
#include <float.h>
#include <sys/stat.h>
#include <math.h>
#include "coda/txml.hpp"
#include "coda/error.hpp"
using namespace mc;
typedef std::string S;

static S full(const S &s) { S r = show(s); if (s.size() > 300) r += "#" + std::to_string(hstr(1, s)); return r; } // long texts: their hash, too
struct Obj : coda::txml_determination_object
{
	struct Item : coda::txml_determination_object
	{
		S name, text; std::vector<int32_t> n; std::list<S> w;
		void determine(coda::txml_parser *p) { txml_member(p, name); txml_member(p, n); txml_member(p, w); p->determineMember("", text); }
		bool operator==(const Item &o) const { return name == o.name && text == o.text && n == o.n && w == o.w; }
	};
	struct Sub : coda::txml_determination_object
	{
		S x; int32_t y; std::list<Item> it;
		Sub() : y(-1) {}
		void determine(coda::txml_parser *p) { txml_member(p, x); txml_member(p, y); txml_member(p, it); }
		bool operator==(const Sub &o) const { return x == o.x && y == o.y && it == o.it; }
	};
	struct Root : coda::txml_determination_object
	{
		S s, t; int32_t i; bool b; Sub sub; std::vector<S> v; std::vector<Item> it; std::list<uint64_t> u;
		Root() : s("unset"), t("unset"), i(-99), b(false) {}
		void determine(coda::txml_parser *p)
		{
			txml_member(p, s); txml_member(p, t); txml_member(p, i); txml_member(p, b); txml_member(p, sub); txml_member(p, v); txml_member(p, it); txml_member(p, u);
		}
		bool operator==(const Root &o) const { return s == o.s && t == o.t && i == o.i && b == o.b && sub == o.sub && v == o.v && it == o.it && u == o.u; }
	} r;
	void determine(coda::txml_parser *p) { txml_member(p, r); }
	static S istr(const Item &i) { S o = "{" + full(i.name) + full(i.text); for (int k : i.n) o += " " + std::to_string(k); for (const S &k : i.w) o += " " + full(k); return o + "}"; }
	S str() const
	{
		S o = "s=" + full(r.s) + " t=" + full(r.t) + " i=" + std::to_string(r.i) + " b=" + std::to_string(r.b) + " sub={" + full(r.sub.x) + "," + std::to_string(r.sub.y);
		for (const Item &i : r.sub.it) o += istr(i);
		o += "} v=["; for (const S &k : r.v) o += full(k) + " "; o += "] it=["; for (const Item &i : r.it) o += istr(i); o += "] u=[";
		for (uint64_t k : r.u) o += std::to_string(k) + " "; return o + "]";
	}
};
typedef Obj::Item Item;
static Item item(const S &name, const S &text, std::vector<int32_t> n = {}, std::list<S> w = {}) { Item i; i.name = name; i.text = text; i.n = n; i.w = w; return i; }

// children of the root; the second column applies the effect to the expected object
enum { NT = 30 };
static const char *piece(int k, Obj::Root &r)
{
	switch (k)
	{
	case 0: r.s = ""; return "<s></s>";
	case 1: r.s = "x"; return "<s>x</s>";
	case 2: r.s = "a&b<c>\"'A\xc3\xa9"; return "<s>a&amp;b&lt;c&gt;&quot;&apos;&#65;\xc3\xa9</s>";
	case 3: r.s = " line\ntwo\t"; return "<s> line\ntwo\t</s>";
	case 4: r.t = "p<q>&r"; return "<t>p<![CDATA[<q>&]]>r</t>";
	case 5: r.s = "txt"; return "<s s='no' zz=\"1\">txt</s>";
	case 6: r.t = "ab"; return "<t>a<!-- <s>no</s> -->b</t>";
	case 7: r.i = 42; return "<i>42</i>";
	case 8: r.i = -7; return "<i> -7</i>";
	case 9: r.b = true; return "<b>yes</b>";
	case 10: r.b = false; return "<b>off</b>";
	case 11: r.v.push_back("p"); return "<v>p</v>";
	case 12: r.v.push_back(""); return "<v/>";
	case 13: r.v.push_back("q&"); return "<v a='1' b='2'>q&amp;</v>";
	case 14: r.it.push_back(item("", "")); return "<it/>";
	case 15: r.it.push_back(item("nm", "")); return "<it name='nm'/>";
	case 16: r.it.push_back(item("n&m", "body")); return "<it name='n&amp;m'>body</it>";
	case 17: r.it.push_back(item("c", "", { 1, 2 })); return "<it><n>1</n><name>c</name><n>2</n></it>";
	case 18: r.it.push_back(item("a", "", { 3 }, { "w1", "", "w2" })); return "<it name=\"a\"><w>w1</w><w/><n>3</n><w>w2</w></it>";
	case 19: r.sub.x = "X"; r.sub.y = 8; return "<sub x='X'><y>8</y></sub>";
	case 20: r.sub.y = 9; return "<sub y='9'/>";
	case 21: r.sub.it.push_back(item("k", "z", {})); r.sub.it.push_back(item("", "", { 5, 6 })); return "<sub><it name='k'>z</it><it><n>5</n><n>6</n></it></sub>";
	case 22: return "<unk>ignored</unk>";
	case 23: return "<unk s='no'><s>no</s><it name='no'/><v>no</v></unk>";
	case 24: return "<!-- c --><?pi x?>";
	case 25: r.u.push_back(18446744073709551615ull); r.u.push_back(0); return "<u>18446744073709551615</u><u>0</u>";
	case 26: return "<it2 name='no'>no</it2><S>no</S><>"; // replaced below: never used
	case 27: return "<r><s>no</s></r>";
	case 28: r.s = "0123456789012345678901234567890123456789"; return "<s>0123456789012345678901234567890123456789</s>";
	default: return "<it2 name='no'>no</it2><S>no</S><vv/>";
	}
}
static S gen(int lo, int hi, Obj &want, int fmt) // fmt 0 compact, 1 indented, 2 with declaration, attributes on the root and a trailing comment
{
	int n = lo + choose(hi - lo + 1); S d = fmt == 2 ? "<?xml version='1.0'?>\n<r t=\"at\" i='3' zz=''>" : "<r>";
	if (fmt == 2) { want.r.t = "at"; want.r.i = 3; }
	for (int k = 0; k < n; k++) { int c = choose(NT - 1); if (c == 26) c = 29; if (fmt == 1) d += "\n  "; d += piece(c, want.r); }
	if (fmt) d += "\n";
	d += "</r>"; if (fmt == 2) d += "\n<!-- end -->\n";
	if (n) nontrivial();
	return d;
}
struct Res { bool err; S str; };
template <typename F> static Res attempt(F f)
{
	Res r; Obj o; r.err = false; step();
	try { f(o); } catch (coda_error &e) { r.err = true; } catch (std::exception &e) { r.err = true; }
	r.str = o.str(); return r;
}
struct Raw { char *p; size_t n; Raw(const S &s) : n(s.size()) { size_t pad = n ? 0 : 8; m = (char *) malloc(n + pad); p = m + pad; memcpy(p, s.data(), n); } ~Raw() { free(m); } private: char *m; };
static Res whole(const S &d) { return attempt([&](Obj &o) { Raw r(d); o.load_from_string(r.p, r.n); }); }
static Res cstr(const S &d) { return attempt([&](Obj &o) { Raw r(d + S(1, '\0')); o.load_from_string(r.p); }); }
static Res pieces(const S &d, size_t a, size_t b, bool emptylast)
{
	return attempt([&](Obj &o) {
		coda::txml_parser p(&o);
		{ Raw r(d.substr(0, a)); p.parse(r.p, r.n, false); }
		if (b > a) { Raw r(d.substr(a, b - a)); p.parse(r.p, r.n, false); }
		{ Raw r(d.substr(b)); p.parse(r.p, r.n, !emptylast); }
		if (emptylast) p.parse("", 0, true);
	});
}
static S scratch() { static S d; if (d.empty()) { const char *e = getenv("MC_SCRATCH"); d = S(e ? e : "/tmp") + "/txml." + std::to_string(getpid()) + ".xml"; } return d; }
static Res file(const S &d)
{
	S fn = scratch(); FILE *f = fopen(fn.c_str(), "w"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size()) internal_error("cannot write %s", fn.c_str()); fclose(f);
	Res r = attempt([&](Obj &o) { o.load_from_file(fn.c_str()); });
	unlink(fn.c_str()); return r;
}
static S brief(const S &d) { return d.size() < 400 ? show(d) : show(d.substr(0, 150)) + "...(" + std::to_string(d.size()) + " bytes)"; }
static void same(const char *how, const S &d, const Res &r, const Obj &want)
{
	MC_CHECK(!r.err, "%s: a well-formed document raises an error: %s", how, brief(d).c_str());
	S w = want.str(); MC_CHECK(r.str == w, "%s: %s gives %s, expected %s", how, brief(d).c_str(), r.str.substr(0, 400).c_str(), w.substr(0, 400).c_str());
}
SCENARIO("C24", "xml/documents", QUICK, THOROUGH, "every document of 0..2 (thorough 3) children out of 29 templates in three layouts: both string forms, every cut into two pieces (quick: for <=1 child), one byte at a time")
{
	Obj want; int fmt = choose(3); S d = gen(0, g().tier ? 3 : 2, want, fmt);
	note("document %s", brief(d).c_str());
	same("load_from_string(s, len)", d, whole(d), want);
	same("load_from_string(s)", d, cstr(d), want);
	Res r = attempt([&](Obj &o) { coda::txml_parser p(&o); for (size_t i = 0; i < d.size(); i++) p.parse(&d[i], 1, i + 1 == d.size()); });
	same("one byte at a time", d, r, want);
	size_t st = 1; if (!g().tier && d.size() > 90) st = 3; if (g().tier && d.size() > 120) st = 5;
	for (size_t c = 0; c <= d.size(); c += st) { char b[64]; snprintf(b, sizeof b, "cut at %zu", c); same(b, d, pieces(d, c, c, c & 1), want); }
}
SCENARIO("C24", "xml/documents3", QUICK, QUICK, "every compact document of three children out of 29 templates, whole and by byte")
{
	Obj want; S d = gen(3, 3, want, 0); note("document %s", brief(d).c_str());
	same("load_from_string(s, len)", d, whole(d), want);
}
SCENARIO("C24", "xml/cuts3", QUICK, THOROUGH, "every document of 0..1 children, every cut into three pieces")
{
	Obj want; int fmt = choose(3); S d = gen(0, 1, want, fmt); size_t a = choose(d.size() + 1);
	note("document %s first cut %zu", brief(d).c_str(), a);
	for (size_t b = a; b <= d.size(); b++) { char t[64]; snprintf(t, sizeof t, "cuts at %zu and %zu", a, b); same(t, d, pieces(d, a, b, false), want); }
}
SCENARIO("C24", "xml/two-loads", QUICK, THOROUGH, "two documents of one child loaded into the same object one after the other")
{
	Obj want; S d = gen(1, 1, want, 0), e = gen(1, 1, want, 0); note("documents %s %s", brief(d).c_str(), brief(e).c_str());
	same("second load", d + e, attempt([&](Obj &o) { o.load_from_string(d.c_str()); o.load_from_string(e.c_str()); }), want);
}
static bool wellformed(const S &d)
{
	XML_Parser p = XML_ParserCreate("UTF-8"); bool ok = XML_Parse(p, d.data(), d.size(), 1) == XML_STATUS_OK; XML_ParserFree(p); return ok;
}
static void damaged(const S &d)
{
	bool ok = wellformed(d); Res r = whole(d);
	MC_CHECK(r.err == !ok, "%s document %s", ok ? "an error is raised for the well-formed" : "no error is raised for the malformed", brief(d).c_str());
	if (d.find('\0') == S::npos) { r = cstr(d); MC_CHECK(r.err == !ok, "load_from_string(s): wrong verdict on %s", brief(d).c_str()); }
	for (size_t c = d.size() / 3; c <= d.size(); c += d.size() / 3 + 1) { r = pieces(d, c, c, true); MC_CHECK(r.err == !ok, "cut at %zu: wrong verdict on %s", c, brief(d).c_str()); }
}
SCENARIO("C24", "xml/truncated", QUICK, THOROUGH, "every truncation of every document of 0..2 children (string, pieces), and of 0..1 children (file)")
{
	Obj want; int fmt = choose(3); int hi = g().tier || fmt == 0 ? 2 : 1; S d = gen(0, hi, want, fmt);
	note("truncations of %s", brief(d).c_str());
	for (size_t n = 0; n < d.size(); n++)
	{
		S t = d.substr(0, n); damaged(t);
		if (d.size() < 70 && (n < 8 || n + 8 > d.size() || n % 8 == 0)) { Res r = file(t); MC_CHECK(r.err == !wellformed(t), "file: wrong verdict on %s", brief(t).c_str()); }
	}
}
SCENARIO("C24", "xml/mutated", QUICK, THOROUGH, "every replacement, insertion or removal of one character (10 characters) in every document of one child")
{
	Obj want; int fmt = choose(2) * 2; S d = gen(1, 1, want, fmt); static const S C("<>/&;\"' x\xff", 10);
	note("mutations of %s", brief(d).c_str());
	for (size_t n = 0; n < d.size(); n++)
	{
		for (char c : C) { S t = d; t[n] = c; damaged(t); t = d; t.insert(n, 1, c); damaged(t); }
		S t = d; t.erase(n, 1); damaged(t);
	}
}
SCENARIO("C24", "xml/short", QUICK, THOROUGH, "every text of length 0..5 (thorough 6) over {< > / r space a &}")
{
	static const S A("<>/ra&", 6); int n = choose(g().tier ? 8 : 7); S t; for (int i = 0; i < n; i++) t += A[choose(6)];
	if (n) nontrivial(); note("text %s", show(t).c_str()); bool ok = wellformed(t); Res r = whole(t);
	MC_CHECK(r.err == !ok, "wrong verdict on %s", show(t).c_str());
}
static size_t fsize(int k) { static const size_t L[] = { 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 12287, 12288, 12289, 16384, 20480, 65535, 65536, 65537 }; return L[k]; }
SCENARIO("C24", "xml/files", QUICK, THOROUGH, "files of 16 sizes around multiples of the read buffer, the padding in text, a comment, many items, after the root or inside an attribute; every short document as a file")
{
	if (choose(2)) { Obj want; int fmt = choose(3); S d = gen(0, fmt ? 1 : 2, want, fmt); note("file %s", brief(d).c_str()); same("load_from_file", d, file(d), want); return; }
	size_t size = fsize(choose(16)); int where = choose(7); Obj want; S a, b; nontrivial();
	switch (where)
	{
	case 0: a = "<r><i>5</i><s>"; b = "</s><v>z</v></r>"; break;
	case 1: a = "<r><i>5</i><!--"; b = "--><v>z</v></r>"; break;
	case 2: a = "<r><i>5</i><v>z</v></r>"; b = ""; break;
	case 3: a = "<r><i>5</i><it name='"; b = "'/><v>z</v></r>"; break;
	case 4: a = "<r><i>5</i>"; b = "<v>z</v></r>"; break; // many <v>a</v>
	case 5: a = "<r><i>5</i><s>"; b = "</s><v>z</v></r>"; break; // entities and two-byte characters
	default: a = "<r><i>5</i><it><n>"; b = "</n></it><v>z</v></r>"; break;
	}
	size_t pad = size - a.size() - b.size(); S mid; want.r.i = 5;
	if (where == 0) { for (size_t i = 0; i < pad; i++) mid += "abcdefghijk\n"[i % 12]; want.r.s = mid; }
	if (where == 1) mid = S(pad, '-' == 0 ? 'x' : 'c');
	if (where == 2) mid = S(pad, ' ');
	if (where == 3) { for (size_t i = 0; i < pad; i++) mid += 'a' + i % 26; want.r.it.push_back(item(mid, "")); }
	if (where == 4) while (mid.size() < pad) { if (pad - mid.size() < 16) { mid += S(pad - mid.size(), ' '); break; } S t = std::to_string(want.r.v.size()); mid += "<v>" + t + "</v>"; want.r.v.push_back(t); }
	if (where == 5) while (mid.size() < pad) { size_t l = pad - mid.size(); if (l >= 10 && l % 3) { mid += "&amp;"; want.r.s += "&"; } else if (l >= 2) { mid += "\xc3\xa9"; want.r.s += "\xc3\xa9"; } else { mid += "x"; want.r.s += "x"; } }
	if (where == 5) want.r.s = want.r.s.substr(5 - 5); // the text replaces the initial value
	if (where == 5) want.r.s.erase(0, S("unset").size());
	if (where == 6) { mid = S(pad - 2, ' ') + "77"; want.r.it.push_back(item("", "", { 77 })); }
	want.r.v.push_back("z");
	S d = where == 2 ? a + mid : a + mid + b;
	note("file of %zu bytes, padding kind %d", d.size(), where);
	if (d.size() != size) internal_error("size %zu instead of %zu", d.size(), size);
	same("load_from_file", d, file(d), want);
	same("load_from_string", d, whole(d), want);
	S t = d.substr(0, where == 2 ? a.size() - 1 : d.size() - 1);
	Res r = file(t); MC_CHECK(r.err, "a truncated file of %zu bytes is accepted", t.size());
}
SCENARIO("C24", "xml/unreadable", QUICK, THOROUGH, "missing file, directory, empty file, malformed file: an error that names the file, no descriptor left open")
{
	int k = choose(4); nontrivial(); S fn = scratch(), said; note("case %d", k); if (k == 3) { FILE *f = fopen(fn.c_str(), "w"); fputs("<r>\n<s>a</t>\n</r>", f); fclose(f); }
	if (k == 1) mkdir(fn.c_str(), 0755); if (k == 2) { FILE *f = fopen(fn.c_str(), "w"); fclose(f); }
	int before = dup(0); close(before);
	bool err = false; Obj o; step();
	try { o.load_from_file(fn.c_str()); } catch (std::exception &e) { err = true; said = e.what(); }
	int after = dup(0); close(after);
	if (k == 1) rmdir(fn.c_str()); if (k >= 2) unlink(fn.c_str());
	MC_CHECK(err, "no error for %s", k == 0 ? "a missing file" : k == 1 ? "a directory" : k == 2 ? "an empty file" : "a malformed file");
	MC_CHECK(said.find(fn) != S::npos, "the error does not name the file %s: %s", fn.c_str(), show(said).c_str());
	MC_CHECK(before == after, "a descriptor stays open after an error");
}
// ---- conversions
struct Num : coda::txml_determination_object
{
	int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; uint8_t u8; float f; double d; long double ld; bool b; S s;
	Num() : i32(-1), u32(1), i64(-1), u64(1), u8(1), f(-1), d(-1), ld(-1), b(false) {}
	void determine(coda::txml_parser *p)
	{
		txml_member(p, i32); txml_member(p, u32); txml_member(p, i64); txml_member(p, u64); txml_member(p, u8);
		txml_member(p, f); txml_member(p, d); txml_member(p, ld); txml_member(p, b); txml_member(p, s);
	}
};
struct NumDoc : coda::txml_determination_object { Num r; void determine(coda::txml_parser *p) { txml_member(p, r); } };
SCENARIO("C24", "xml/numbers", QUICK, THOROUGH, "every numeric member with boundary values of its type, as element and as attribute, with blanks around")
{
	static const long long V[] = { 0, 1, -1, 9, 10, 127, 128, 200, 255, 32767, 32768, 65535, 65536, INT32_MAX, (long long) INT32_MAX + 1, INT32_MIN, UINT32_MAX, 4294967296ll, 1234567890123456789ll, INT64_MAX, INT64_MIN };
	int m = choose(8), k = choose(21 + 2), att = choose(2), ws = choose(3); nontrivial();
	static const char *N[] = { "i32", "u32", "i64", "u64", "u8", "f", "d", "ld" };
	S num; long long v = 0; unsigned long long uv = 0; bool big = false;
	if (k >= 21) { uv = k == 21 ? 9223372036854775808ull : 18446744073709551615ull; big = true; num = std::to_string(uv); if (m != 3) return; }
	else { v = V[k]; uv = v; num = std::to_string(v); }
	static const long long LO[] = { INT32_MIN, 0, INT64_MIN, 0, 0, INT64_MIN, INT64_MIN, INT64_MIN }, HI[] = { INT32_MAX, UINT32_MAX, INT64_MAX, INT64_MAX, 255, INT64_MAX, INT64_MAX, INT64_MAX };
	if (!big && (v < LO[m] || v > HI[m])) return;
	if (m >= 5 && (v > 65536 || v < -1)) { num = "1.5e3"; v = 1500; }
	S t = ws == 0 ? num : ws == 1 ? " " + num : "\n\t" + num + " ";
	S doc = att ? S("<r ") + N[m] + "='" + t + "'/>" : S("<r><") + N[m] + ">" + t + "</" + N[m] + "></r>";
	note("document %s", show(doc).c_str()); step();
	NumDoc o; o.load_from_string(doc.c_str());
	bool ok = m == 0 ? o.r.i32 == v : m == 1 ? o.r.u32 == uv : m == 2 ? o.r.i64 == v : m == 3 ? o.r.u64 == uv : m == 4 ? o.r.u8 == v : m == 5 ? o.r.f == (float) v : m == 6 ? o.r.d == (double) v : o.r.ld == (long double) v;
	MC_CHECK(ok, "%s: member %s has the wrong value", show(doc).c_str(), N[m]);
	Num z; if (m != 0) MC_CHECK(o.r.i32 == z.i32, "%s changes another member", show(doc).c_str());
	if (m != 3) MC_CHECK(o.r.u64 == z.u64, "%s changes another member", show(doc).c_str());
}
SCENARIO("C24", "xml/fractions", QUICK, THOROUGH, "fractional texts for the three floating point members, exact to the last bit")
{
	static const struct { const char *t; long double v; } V[] = { { "0.5", 0.5L }, { "-0.25", -0.25L }, { "3.141592653589793238", 3.141592653589793238L }, { "1e-5", 1e-5L }, { "0.1", 0.1L }, { "16777217.5", 16777217.5L }, { "1e300", 1e300L }, { "123456789.123456789", 123456789.123456789L },
		{ "1.00000017881393432617187499", 1.00000017881393432617187499L }, { "1.00000000000000033306690738754696212708950042724609374", 1.00000000000000033306690738754696212708950042724609374L }, { "3.4028234e38", 3.4028234e38L }, { "-1e-40", -1e-40L }, { "1.17549435e-38 ", 1.17549435e-38L } }; // two of them are rounded differently when rounded twice
	int k = choose(13), m = choose(3); nontrivial(); static const char *N[] = { "f", "d", "ld" };
	if (k == 6 && m == 0) return;
	S doc = S("<r><") + N[m] + ">" + V[k].t + "</" + N[m] + "></r>"; NumDoc o; o.load_from_string(doc.c_str()); step(); note("document %s", show(doc).c_str());
	bool ok = m == 0 ? o.r.f == strtof(V[k].t, NULL) : m == 1 ? o.r.d == strtod(V[k].t, NULL) : o.r.ld == V[k].v;
	MC_CHECK(ok, "%s: wrong value", show(doc).c_str());
}
SCENARIO("C24", "xml/booleans", QUICK, THOROUGH, "all switch words in every letter case, numbers, other words; previous value true or false")
{
	static const struct { const char *t; bool v; } V[] = { { "true", 1 }, { "yes", 1 }, { "on", 1 }, { "false", 0 }, { "no", 0 }, { "off", 0 }, { "0", 0 }, { "1", 1 }, { "2", 1 }, { "-1", 1 }, { "10", 1 }, { "", 0 }, { "maybe", 0 }, { "zzz", 0 }, { "truest", 0 }, { "only", 0 }, { "01", 1 }, { "00", 0 }, { "8", 1 }, { "9", 1 }, { "08", 1 }, { "09", 1 }, { "000", 0 }, { "90", 1 }, { "-9", 1 }, { " 9", 1 } };
	int k = choose(26), c = choose(32), prev = choose(2), att = choose(2); nontrivial();
	S t = V[k].t; for (size_t i = 0; i < t.size(); i++) if (c >> (i % 5) & 1) t[i] = toupper(t[i]);
	S doc = att ? "<r b='" + t + "'/>" : "<r><b>" + t + "</b></r>"; note("document %s", show(doc).c_str()); step();
	NumDoc o; o.r.b = prev; o.load_from_string(doc.c_str());
	MC_CHECK(o.r.b == V[k].v, "%s sets the member to %d", show(doc).c_str(), (int) o.r.b);
}
SCENARIO("C24", "xml/attributes", QUICK, THOROUGH, "0..4 attributes of the root, the nested object or a list item, in every order, their values being names of members, numbers or empty; empty element or with a text")
{
	static const char *const V[] = { "s", "t", "i", "x", "y", "name", "7", "" }; static const int NV = sizeof V / sizeof *V;
	int where = choose(3), n = choose(5), form = choose(2); static const char *const N[3][4] = { { "s", "t", "i", "zz" }, { "x", "y", "zz", "it2" }, { "name", "zz", "t", "xx" } }; bool used[4] = { false, false, false, false };
	S at; Obj want; S nm;
	for (int j = 0; j < n; j++)
	{
		int k = choose(4); if (used[k]) return; used[k] = true; S an = N[where][k], v; bool num = (where == 0 && k == 2) || (where == 1 && k == 1);
		if (num) v = choose(2) ? "31" : "-8"; else v = V[choose(j < 3 || g().tier ? NV : 4)];
		at += " " + an + "='" + v + "'";
		if (where == 0) { if (k == 0) want.r.s = v; if (k == 1) want.r.t = v; if (k == 2) want.r.i = atoi(v.c_str()); }
		if (where == 1) { if (k == 0) want.r.sub.x = v; if (k == 1) want.r.sub.y = atoi(v.c_str()); }
		if (where == 2 && k == 0) nm = v;
	}
	static const char *const E[] = { "r", "sub", "it" }; S body = form ? where == 0 ? "<b>on</b>" : where == 1 ? "<y>5</y>" : "hello" : "";
	if (form) { if (where == 0) want.r.b = true; if (where == 1) want.r.sub.y = 5; }
	if (where == 2) want.r.it.push_back(item(nm, form ? "hello" : ""));
	S d = S("<") + E[where] + at + (form ? ">" + body + "</" + E[where] + ">" : "/>"); if (where) d = "<r>" + d + "</r>"; if (n) nontrivial();
	note("document %s", show(d).c_str()); same("load_from_string", d, whole(d), want);
}
SCENARIO("C24", "xml/deep", QUICK, THOROUGH, "1..60 levels of unknown or known names around and inside members; 0..200 repeated items")
{
	int k = choose(61), kind = choose(3); nontrivial(); S d; Obj want;
	if (kind == 0) { d = "<r>"; for (int i = 0; i < k; i++) d += "<q>"; d += "<s>no</s>"; for (int i = 0; i < k; i++) d += "</q>"; d += "<s>ok</s></r>"; want.r.s = "ok"; }
	if (kind == 1) { d = "<r>"; for (int i = 0; i < k * 3; i++) { S t = std::to_string(i); d += "<v>" + t + "</v>"; want.r.v.push_back(t); if (i % 2) { d += "<it name='" + t + "'><n>" + t + "</n></it>"; want.r.it.push_back(item(t, "", { i })); } } d += "</r>"; }
	if (kind == 2) { d = "<r><sub>"; for (int i = 0; i < k; i++) { S t = std::to_string(i); d += "<it>"; std::vector<int32_t> n; for (int j = 0; j < i % 5; j++) { d += "<n>" + std::to_string(j) + "</n>"; n.push_back(j); } d += "</it>"; want.r.sub.it.push_back(item("", "", n)); } d += "</sub></r>"; }
	note("document %s", brief(d).c_str());
	same("load_from_string", d, whole(d), want);
	same("two pieces", d, pieces(d, d.size() / 2, d.size() / 2, true), want);
}
SCENARIO("C24", "xml/big", QUICK, THOROUGH, "35 lengths of 127..70000: of a text, an attribute, a nested text, an unknown element, names, the number of items or attributes, blanks around a number; as string, in pieces of 1, 13, 4096 bytes and half, and as file")
{
	int n = biglen(), k = choose(9), how = choose(6); nontrivial(); Obj want; S l, d; for (int i = 0; i < n; i++) l += "abcdefghijk\n"[i % 12];
	S a = l; for (char &c : a) if (c == '\n') c = '-';
	switch (k)
	{
	case 0: d = "<r><s>" + l + "</s><i>4</i></r>"; want.r.s = l; want.r.i = 4; break;
	case 1: d = "<r s='" + a + "'><i>4</i></r>"; want.r.s = a; want.r.i = 4; break;
	case 2: d = "<r><sub><it name='" + a + "'>" + l + "</it><y>4</y></sub></r>"; want.r.sub.it.push_back(item(a, l)); want.r.sub.y = 4; break;
	case 3: d = "<r><q z='" + a + "'>" + l + "<s>no</s></q><s>x</s></r>"; want.r.s = "x"; break;
	case 4: d = "<r><" + a + " " + a + "='no'/><s>x</s></r>"; want.r.s = "x"; break;
	case 5: if (how == 1 && n > 5000) return; d = "<r>"; for (int i = 0; i < n; i++) { S t = std::to_string(i); d += "<v>" + t + "</v>"; want.r.v.push_back(t); } d += "</r>"; break;
	case 6: if (n > 5000) return; d = "<r"; for (int i = 0; i < n; i++) d += " a" + std::to_string(i) + "='no'"; d += " s='x'/>"; want.r.s = "x"; break;
	case 7: d = "<r><i>" + S(n, ' ') + "42</i><s>x</s></r>"; want.r.i = 42; want.r.s = "x"; break;
	default: d = "<r><t>" + l + "&amp;<![CDATA[" + l + "]]>" + l + "</t></r>"; want.r.t = l + "&" + l + l; break;
	}
	note("%zu bytes", d.size());
	if (how == 0) same("load_from_string", d, whole(d), want); else if (how == 5) same("load_from_file", d, file(d), want); else if (how == 4) same("two pieces", d, pieces(d, d.size() / 2, d.size() / 2, true), want);
	else
	{
		size_t st = how == 1 ? 1 : how == 2 ? 13 : 4096;
		Res r = attempt([&](Obj &o) { coda::txml_parser p(&o); for (size_t i = 0; i < d.size(); i += st) p.parse(d.data() + i, std::min(st, d.size() - i), false); p.parse("", 0, true); });
		same("pieces", d, r, want);
	}
}
MC_MAIN
