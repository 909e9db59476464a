// C26 (faults during start-up), C27 (file helpers): every system call of the helpers may fail, up to two per execution.
#define SF_MMAP
#define SF_READ
#include "sysfault.hpp"
#include <sys/file.h>
#include <sys/wait.h>
#include <signal.h>
#include <limits.h>
extern "C" {
#include "coda/system.h"
#include "coda/daemon.h"
#include "coda/random.h"
}
#include "coda/logger.h"
#include "coda/string.hpp"
using namespace mc;
typedef std::string S;

static S dir() { log_level = -1; S d = sf::scratch(); sf::wipe(d); sf::fail_close = false; sf::hook = NULL; sf::after = NULL; sf::virtual_pid = 0; return d; }
static int nfaults() { return 2; }
static bool has(const char *s) { return sf::what.find(s) != S::npos; }
static const char *W() { static S r; r = sf::what.empty() ? S("no failure") : "failing " + sf::what; return r.c_str(); }

// ------------------------------------------------------------------ C27
SCENARIO("C27", "fdmove", QUICK, THOROUGH, "source open/not open x target negative/same/open/free/too big/0, every single and double failure")
{
	S d = dir(); int srck = choose(2), dstk = choose(6); sf::Low0 low0(dstk == 5); shard_here();
	sf::spit(d + "/A", "aaa"); sf::spit(d + "/B", "bbb");
	auto A = sf::ident(d + "/A"), B = sf::ident(d + "/B");
	int fd = 31, nd; if (!srck) { int t = sf::openraw(d + "/A", O_RDONLY); sf::sys(SYS_dup2, t, fd); sf::sys(SYS_close, t); }
	nd = dstk == 0 ? -1 : dstk == 1 ? fd : dstk == 2 ? 32 : dstk == 3 ? 33 : dstk == 5 ? 0 : 1 << 28;
	if (dstk == 2) { int t = sf::openraw(d + "/B", O_RDONLY); sf::sys(SYS_dup2, t, nd); sf::sys(SYS_close, t); }
	note("fdmove(%s, %s)", srck ? "a closed descriptor" : "an open descriptor", dstk == 0 ? "-1" : dstk == 1 ? "itself" : dstk == 2 ? "an open descriptor" : dstk == 3 || dstk == 5 ? "a free number" : "a number out of range");
	sf::Fds before; g().devs_left = nfaults(); sf::fail_close = true; int r;
	{ sf::Arm arm; r = coda_fdmove(fd, nd); }
	sf::Fds now; step(sf::calls); if (sf::faults) nontrivial();
	S df = before.diff(now);
	if (dstk < 2) MC_CHECK(r == fd && df.empty(), "coda_fdmove returns %d, %s", r, df.c_str());
	else if (r >= 0)
	{
		MC_CHECK(r == nd && srck == 0 && dstk != 4, "coda_fdmove returns %d with %s", r, W());
		MC_CHECK(now.same(nd, A.first, A.second), "after coda_fdmove the target is another file (%s)", W());
		MC_CHECK(!now.t[fd].open, "after coda_fdmove the source is still open (%s)", W());
	}
	else
	{
		MC_CHECK(sf::faults || srck || dstk == 4, "coda_fdmove fails although every call succeeds");
		if (dstk != 4 && now.same(nd, A.first, A.second) && !srck) MC_CHECK(has("close"), "the target is replaced although coda_fdmove fails with %s", W());
		else MC_CHECK(df.empty(), "coda_fdmove fails with %s and changes: %s", W(), df.c_str());
		if (dstk != 4 && dstk == 2) MC_CHECK(now.t[nd].open, "the target is closed by a failed coda_fdmove (%s)", W());
	}
	for (int k = 31; k < 34; k++) sf::sys(SYS_close, k);
}
SCENARIO("C27", "fdopen", QUICK, THOROUGH, "target none/open/free/lowest free number/standard input, existing/new/missing file, four flag sets, standard input open or closed, every single and double failure")
{
	S d = dir(); int tk = choose(5), fk = choose(3), fl = choose(4), z = tk == 4 ? 0 : choose(2); sf::Low0 low0(z || tk == 4, tk == 4); shard_here();
	sf::spit(d + "/B", "bbb"); auto B = sf::ident(d + "/B");
	S fn = d + (fk == 2 ? "/no/such" : "/A"); if (fk == 0) sf::spit(fn, "aaa");
	static const int FL[] = { O_RDONLY, O_CREAT | O_APPEND | O_WRONLY, O_RDWR | O_CREAT, O_WRONLY | O_TRUNC };
	int low = sf::openraw("/dev/null", O_RDONLY); sf::sys(SYS_close, low);
	int fd = tk == 0 ? -1 : tk == 1 ? 32 : tk == 2 ? 33 : tk == 4 ? 0 : low;
	if (tk == 1) { int t = sf::openraw(d + "/B", O_RDONLY); sf::sys(SYS_dup2, t, fd); sf::sys(SYS_close, t); }
	note("fdopen(%d, %s, %x)", fd, fk == 0 ? "existing" : fk == 1 ? "new" : "impossible", FL[fl]);
	sf::Fds before; g().devs_left = nfaults(); sf::fail_close = true; int r;
	{ sf::Arm arm; r = coda_fdopen(fd, fn.c_str(), FL[fl]); }
	sf::Fds now; step(sf::calls); if (sf::faults) nontrivial();
	auto A = sf::ident(fn);
	bool possible = fk == 0 || (fk == 1 && (FL[fl] & O_CREAT));
	if (r >= 0)
	{
		MC_CHECK(possible, "coda_fdopen returns %d for a file that cannot be opened", r);
		MC_CHECK(fd < 0 || r == fd, "coda_fdopen(%d) returns %d with %s", fd, r, W());
		MC_CHECK(now.same(r, A.first, A.second), "descriptor %d is not the opened file (%s)", r, W());
		MC_CHECK((now.t[r].fl & (O_ACCMODE | O_APPEND)) == (FL[fl] & (O_ACCMODE | O_APPEND)), "descriptor %d has flags %x", r, now.t[r].fl);
		S df = before.diff(now, r); MC_CHECK(df.empty(), "coda_fdopen succeeds (%s) and also: %s", W(), df.c_str());
		MC_CHECK(!sf::hard || (!has("open") && !has("dup")), "coda_fdopen reports success with %s", W());
	}
	else
	{
		MC_CHECK(sf::faults || !possible, "coda_fdopen fails although every call succeeds");
		S df = before.diff(now, has("close") ? fd : -1);
		MC_CHECK(df.empty(), "coda_fdopen fails with %s and: %s", W(), df.c_str());
		if (fd >= 0 && tk == 1) MC_CHECK(now.same(fd, B.first, B.second) || (has("close") && now.same(fd, A.first, A.second)), "the target is neither the old nor the new file (%s)", W());
	}
	if (r >= 0) sf::sys(SYS_close, r);
	sf::sys(SYS_close, 32); sf::sys(SYS_close, 33);
	if (tk == 3 && r < 0) sf::sys(SYS_close, low);
}
static void mkpath(const S &rel, bool abs, int pre, int faults)
{
	S d = dir(); if (sf::sys(SYS_chdir, (long) d.c_str()) < 0) internal_error("chdir %s", d.c_str());
	if (pre == 1) sf::sys(SYS_mkdir, (long) "a", 0755);
	if (pre == 2) { sf::sys(SYS_mkdir, (long) "a", 0755); sf::sys(SYS_mkdir, (long) "a/b", 0755); }
	S path = abs ? d + "/" + rel : rel;
	note("mkpath(%s)%s", rel.c_str(), pre ? ", some directories exist" : "");
	struct stat st0; bool pr = sf::sys(SYS_stat, (long) rel.c_str(), (long) &st0) == 0;
	char *p = (char *) malloc(path.size() + 1); memcpy(p, path.c_str(), path.size() + 1);
	sf::Fds before; g().devs_left = faults; int r;
	{ sf::Arm arm; r = coda_mkpath(p); }
	sf::Fds now; step(sf::calls); if (sf::calls) nontrivial();
	MC_CHECK(!memcmp(p, path.c_str(), path.size() + 1), "coda_mkpath(%s) changes the path to %s (%s)", path.c_str(), p, W());
	free(p);
	MC_CHECK(before.diff(now).empty(), "coda_mkpath changes descriptors: %s", before.diff(now).c_str());
	if (sf::faults) MC_CHECK(r < 0, "coda_mkpath(%s) reports success with %s", rel.c_str(), W());
	else
	{
		MC_CHECK(r == 0, "coda_mkpath(%s) fails although every call succeeds", rel.c_str());
		for (size_t i = 1; i < rel.size(); i++) if (rel[i] == '/')
		{
			struct stat st; S par = rel.substr(0, i);
			MC_CHECK(sf::sys(SYS_stat, (long) par.c_str(), (long) &st) == 0 && S_ISDIR(st.st_mode), "after coda_mkpath(%s) the directory %s does not exist", rel.c_str(), par.c_str());
		}
		size_t e = rel.size(); while (e && rel[e - 1] == '/') e--;
		if (e == rel.size() && e && rel.find_first_not_of("/") != S::npos)
		{
			struct stat st; bool there = sf::sys(SYS_stat, (long) rel.c_str(), (long) &st) == 0;
			// the last part is created only if it is also a parent of the path (as in a/b/../..); the alphabet has no dots
			bool alias = false; for (size_t i = 1; i < rel.size(); i++) if (rel[i] == '/' && rel.substr(0, i) == rel) alias = true;
			if (!pr && !alias) MC_CHECK(!there, "coda_mkpath(%s) creates the last part, too", rel.c_str());
		}
	}
}
SCENARIO("C27", "mkpath", QUICK, THOROUGH, "every path of 0..6 (thorough 8) characters over {a b /} (relative or below a directory), directories missing or there, every single and double failure")
{
	int n = choose(g().tier ? 9 : 7); S rel; for (int i = 0; i < n; i++) rel += "ab/"[choose(3)];
	if (!rel.empty() && rel[0] == '/') return;
	int abs = choose(2), pre = choose(3); shard_here();
	mkpath(rel, abs, pre, abs ? 1 : nfaults());
}
// another process creates the same directories meanwhile
static S racepath;
static void race(const char *name)
{
	if (strcmp(name, "mkdir")) return;
	uint32_t k = choose(3); if (!k) return;
	int m = 0, made = 0;
	for (size_t i = 1; i < racepath.size() && (k == 2 || !made); i++) if (racepath[i] == '/')
		{ if (!sf::sys(SYS_mkdir, (long) racepath.substr(0, i).c_str(), 0755)) made++; m++; }
	note("the other process creates %d of its directories", made);
}
SCENARIO("C27", "mkpath-race", QUICK, THOROUGH, "every path of 0..6 (thorough 8) characters over {a b /}, directories missing or there, another process creating none/the next/all of the directories before every mkdir")
{
	int n = choose(g().tier ? 9 : 7); S rel; for (int i = 0; i < n; i++) rel += "ab/"[choose(3)];
	if (rel.find('/') == S::npos || rel[0] == '/') return;
	int pre = choose(2); shard_here();
	S d = dir(); if (sf::sys(SYS_chdir, (long) d.c_str()) < 0) internal_error("chdir %s", d.c_str());
	if (pre) sf::sys(SYS_mkdir, (long) "a", 0755);
	racepath = rel; char *p = strdup(rel.c_str()); int r;
	sf::hook = race; g().devs_left = 0;
	{ sf::Arm arm; r = coda_mkpath(p); }
	sf::hook = NULL; step(sf::calls); nontrivial();
	MC_CHECK(r == 0, "coda_mkpath(%s) fails because another process creates the same directories", rel.c_str());
	MC_CHECK(rel == p, "coda_mkpath(%s) changes the path to %s", rel.c_str(), p);
	free(p);
	for (size_t i = 1; i < rel.size(); i++) if (rel[i] == '/')
	{
		struct stat st; S par = rel.substr(0, i);
		MC_CHECK(sf::sys(SYS_stat, (long) par.c_str(), (long) &st) == 0 && S_ISDIR(st.st_mode), "after coda_mkpath(%s) the directory %s does not exist", rel.c_str(), par.c_str());
	}
}
SCENARIO("C27", "mkpath-long", QUICK, THOROUGH, "paths of 1..12 components of 1..200 characters, no failure")
{
	static const int L[] = { 1, 2, 8, 50, 200 };
	int n = 1 + choose(12), l = L[choose(5)], tr = choose(2); S rel; for (int i = 0; i < n; i++) { if (i) rel += "/"; rel += S(l, 'c' + i); } if (tr) rel += "/";
	int ab = choose(2); shard_here(); mkpath(rel, ab, 0, 0);
}
SCENARIO("C27", "mmap", QUICK, THOROUGH, "anonymous and file mappings: 7 file sizes x 5 requested sizes x read/write x private/shared, standard input open or closed, every single and double failure")
{
	static const int FS[] = { 0, 1, 4095, 4096, 4097, 10000, -1 }; static const int RQ[] = { 0, 1, 100, 4096, 8192 };
	S d = dir(); int fs = FS[choose(7)], rq = RQ[choose(5)], wr = choose(2), sh = choose(2), anon = choose(2), z = choose(2); sf::Low0 low0(z); shard_here();
	S body; for (int i = 0; i < fs; i++) body += (char) ('A' + i * 7 % 50);
	S fn = d + "/M"; if (fs >= 0) sf::spit(fn, body);
	if (anon && (rq == 0 || fs)) return;
	note("mmap %s, file size %d, requested %d, %s %s", anon ? "anonymous" : "file", fs, rq, wr ? "read/write" : "read", sh ? "shared" : "private");
	coda_strt a; a.size = rq; a.data = (char *) 1;
	sf::Fds before; g().devs_left = nfaults(); sf::fail_close = true; int r;
	{ sf::Arm arm; r = coda_mmap(&a, PROT_READ | (wr ? PROT_WRITE : 0), sh ? MAP_SHARED : MAP_PRIVATE, anon ? NULL : fn.c_str()); }
	sf::Fds now; step(sf::calls); if (sf::faults) nontrivial();
	MC_CHECK(before.diff(now).empty(), "coda_mmap returns %d with %s: %s", r, W(), before.diff(now).c_str());
	if (sf::faults) { MC_CHECK(r < 0, "coda_mmap reports success with %s", W()); return; }
	if (!anon && fs < 0) { MC_CHECK(r < 0, "coda_mmap of a missing file reports success"); return; }
	if (!anon && rq && !wr) { if (r == 0) coda_umap(&a); return; }  // a size cannot be imposed through a read-only descriptor
	if (!anon && !rq && !fs) { if (r == 0) coda_umap(&a); return; } // an empty mapping
	MC_CHECK(r == 0, "coda_mmap fails although every call succeeds");
	S want = anon ? S(rq, 0) : body; if (!anon && rq) want.resize(rq, 0);
	MC_CHECK(a.size == want.size(), "coda_mmap reports %zu bytes, expected %zu", a.size, want.size());
	MC_CHECK(!memcmp(a.data, want.data(), want.size()), "the mapped bytes differ from the file");
	if (!anon) { S c; sf::slurp(fn, c); MC_CHECK(c == want, "the file has changed to %zu bytes, expected %zu", c.size(), want.size()); }
	if (wr)
	{
		a.data[a.size - 1] = '!'; a.data[0] = '?';
		S c; if (!anon) { sf::slurp(fn, c); S w = want; if (sh) { w[w.size() - 1] = '!'; w[0] = '?'; } MC_CHECK(c == w, "a write through the %s mapping %s the file", sh ? "shared" : "private", sh ? "does not reach" : "changes"); }
	}
	if (anon && wr) // is it shared with a child?
	{
		pid_t c = fork(); if (!c) { a.data[0] = '#'; a.data[a.size / 2] = '#'; _exit(0); } int st; if (c < 0 || waitpid(c, &st, 0) != c) internal_error("fork");
		MC_CHECK((a.data[0] == '#') == (sh != 0) && (a.data[a.size / 2] == '#') == (sh != 0), "what a child writes to a %s anonymous mapping %s its parent", sh ? "shared" : "private", sh ? "does not reach" : "reaches");
	}
	MC_CHECK(coda_umap(&a) == 0, "unmapping fails");
	if (!anon && !rq) { coda_strt b; memset(&b, 0x5a, sizeof b); MC_CHECK(coda_mmap_file(&b, fn.c_str()) == 0 && b.size == want.size(), "coda_mmap_file fails"); coda_umap(&b); }
}
static uint32_t g_seed; static int g_seeds, g_reads;
extern "C" void srandom(unsigned s) { g_seed = s; g_seeds++; }
SCENARIO("C27", "random", QUICK, THOROUGH, "seeding and seeding again, standard input open or closed, every single and double failure, each in a fresh process")
{
	dir(); nontrivial();
	int tier = g().tier; (void) tier;
	// the failures are chosen here (the state of the generator lives in the process)
	int f1 = choose(4), f2 = choose(4), z = choose(2); shard_here(); // 0 none, 1 open, 2 read EIO, 3 read EINTR: for the first and the second attempt
	int p[2]; if (pipe(p)) internal_error("pipe");
	note("first attempt: %d, second attempt: %d", f1, f2);
	pid_t c = fork();
	if (!c)
	{
		char msg[200] = ""; if (z) sf::sys(SYS_close, 0); sf::Fds before; g_seeds = 0;
		int want[2] = { f1, f2 }; bool seeded = false;
		for (int k = 0; k < 3; k++)
		{
			int f = k < 2 ? want[k] : 0; int r; int seeds0 = g_seeds;
			static int mode; mode = f;
			sf::hook = NULL;
			// inject by replaying a fixed choice list
			std::vector<uint32_t> sv = g().replay; bool rp = g().replaying; size_t pos = g().pos;
			g().replaying = true; g().replay.clear(); g().pos = 0; g().devs_left = 1;
			// open has two errors, then read two
			if (f == 1) { g().replay.push_back(1); } else if (f == 2) { g().replay.push_back(0); g().replay.push_back(1); } else if (f == 3) { g().replay.push_back(0); g().replay.push_back(2); }
			{ sf::Arm arm; r = coda_random_init(); }
			bool used = sf::faults; g().replay = sv; g().replaying = rp; g().pos = pos;
			sf::Fds now; S df = before.diff(now);
			if (!df.empty()) { snprintf(msg, sizeof msg, "seeding attempt %d (%s): %s", k, sf::what.c_str(), df.c_str()); break; }
			if (used && r >= 0 && f != 3) { snprintf(msg, sizeof msg, "seeding reports success with %s", sf::what.c_str()); break; }
			if (!used && r != 0) { snprintf(msg, sizeof msg, "seeding fails although every call succeeds"); break; }
			if (r >= 0 && !seeded && g_seeds != seeds0 + 1) { snprintf(msg, sizeof msg, "seeding reports success without seeding"); break; }
			if (seeded && g_seeds != seeds0) { snprintf(msg, sizeof msg, "the generator is seeded again"); break; }
			if (r < 0 && g_seeds != seeds0) { snprintf(msg, sizeof msg, "a failed seeding changes the generator"); break; }
			if (r >= 0) seeded = true;
		}
		if (sf::sys(SYS_write, p[1], (long) msg, strlen(msg)) < 0) {}
		_exit(0);
	}
	sf::sys(SYS_close, p[1]); char b[256]; long n = sf::sys(SYS_read, p[0], (long) b, 255); sf::sys(SYS_close, p[0]); int st; waitpid(c, &st, 0); step(3);
	if (n < 0) n = 0; b[n] = 0;
	MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "seeding ends the process (status %x)", st);
	MC_CHECK(n == 0, "%s", b);
}
SCENARIO("C27", "random-string", QUICK, THOROUGH, "random strings of 0..40 characters over alphabets of 1..6 characters")
{
	int n = choose(41), a = 1 + choose(6); nontrivial(); char *al = (char *) malloc(a); for (int i = 0; i < a; i++) al[i] = "qZ0\x80\xff-"[i];
	S r = coda_random_string(n, al, a); step();
	MC_CHECK((int) r.size() == n, "coda_random_string(%d) returns %zu characters", n, r.size());
	for (char c : r) MC_CHECK(memchr(al, c, a), "coda_random_string returns a character outside the alphabet");
	free(al);
}

// ------------------------------------------------------------------ C26: failures of single calls
static void keep_signals(bool save)
{
	static struct sigaction old[65]; static bool have;
	if (save) { for (int s = 1; s < 65; s++) sigaction(s, NULL, &old[s]); have = true; }
	else if (have) for (int s = 1; s < 65; s++) if (s != SIGKILL && s != SIGSTOP) sigaction(s, &old[s], NULL);
}
SCENARIO("C26", "pidfile/faults", QUICK, THOROUGH, "missing/empty/foreign/stale pid file, three process ids, direct and through coda_daemon_load, standard input open or closed, every single and double failure; then a clean second start, stop and third start")
{
	S d = dir(); int pre = choose(4), via = choose(2); static const int PID[] = { 1, 12345, 4194304 }; int pid = PID[choose(3)], z = choose(2); sf::Low0 low0(z); shard_here();
	S fn = d + "/x.pid", old = pre == 2 ? "777\n" : pre == 3 ? "x" : ""; if (pre) sf::spit(fn, old);
	note("pid file %s, pid %d", pre == 0 ? "missing" : pre == 1 ? "empty" : "not empty", pid);
	coda_getopt_t opt; memset(&opt, 0, sizeof opt); opt.pid = fn.c_str();
	keep_signals(true);
	sf::Fds before; g().devs_left = nfaults(); sf::fail_close = true; sf::virtual_pid = pid; int r;
	{ sf::Arm arm; r = via ? coda_daemon_load(&opt) : coda_mkpidf(fn.c_str()); }
	S why = sf::what; bool any = sf::faults; step(sf::calls); if (any) nontrivial();
	sf::Fds now; S c; bool there = sf::slurp(fn, c); S mine = std::to_string(pid) + "\n";
	MC_CHECK(before.diff(now).empty(), "creation %s with %s: %s", r < 0 ? "fails" : "succeeds", W(), before.diff(now).c_str());
	if (pre >= 2) MC_CHECK(r < 0 && c == old, "a start on a non-empty pid file %s, the file holds %s", r < 0 ? "fails" : "succeeds", show(c).c_str());
	else if (r >= 0)
	{
		MC_CHECK(there && c == mine, "creation succeeds (%s) but the file holds %s", W(), show(c).c_str());
		MC_CHECK(!sf::hard || !has("open: ") && !has("flock: ") && !has("fstat: ") && !has("write: No space"), "creation reports success with %s", W());
	}
	else
	{
		MC_CHECK(any, "creation fails although every call succeeds");
		if (!has("unlock") && !has("close") && !has("ftruncate")) MC_CHECK(!there || c.empty(), "creation fails with %s and leaves %s in the file", W(), show(c).c_str());
	}
	// a second start, by another process
	bool taken = there && !c.empty(); sf::virtual_pid = pid + 1; g().devs_left = 0;
	{ sf::Arm arm; r = coda_mkpidf(fn.c_str()); }
	S c2; sf::slurp(fn, c2);
	if (taken) MC_CHECK(r < 0 && c2 == c, "a second start on %s: result %d, the file now holds %s", show(c).c_str(), r, show(c2).c_str());
	else MC_CHECK(r == 0 && c2 == std::to_string(pid + 1) + "\n", "after a failed start (%s) the next one: result %d, the file holds %s", why.c_str(), r, show(c2).c_str());
	// stop, perhaps failing, then a third start
	opt.daemon = pid % 2; g().devs_left = 1; { sf::Arm arm; r = coda_daemon_stop(&opt); } opt.daemon = 0;
	bool gone = sf::ident(fn).second == 0;
	MC_CHECK(gone == (r == 0), "coda_daemon_stop returns %d and the file is %s (%s)", r, gone ? "gone" : "still there", W());
	g().devs_left = 0; sf::virtual_pid = pid + 2; { sf::Arm arm; r = coda_daemon_load(&opt); }
	MC_CHECK((r == 0) == gone, "after a stop (%s) the next start returns %d", W(), r);
	sf::slurp(fn, c2); if (gone) MC_CHECK(c2 == std::to_string(pid + 2) + "\n", "the file of the third start holds %s", show(c2).c_str());
	sf::Fds last; MC_CHECK(before.diff(last).empty(), "start, stop, start: %s", before.diff(last).c_str());
	opt.pid = NULL; MC_CHECK(coda_daemon_stop(&opt) == 0 && coda_daemon_load(&opt) == 0, "load or stop without a pid file fails");
	keep_signals(false);
}
SCENARIO("C26", "daemon/detach", QUICK, THOROUGH, "detached start with a missing, empty or taken pid file, standard input open or closed, every single failure of the calls it makes")
{
	S d = dir(); int pre = choose(3), fault = choose(8), z = choose(2); shard_here(); S fn = d + "/x.pid"; if (pre) sf::spit(fn, pre == 2 ? "777\n" : "");
	note("detached start, pid file %s, failing call %d", pre == 0 ? "missing" : pre == 1 ? "empty" : "taken", fault); nontrivial();
	int p[2]; if (pipe(p)) internal_error("pipe");
	pid_t a = fork();
	if (!a)
	{
		setpgid(0, 0);
		sf::sys(SYS_dup2, p[1], 30);
		int t = sf::openraw("/dev/null", O_RDWR); sf::sys(SYS_dup2, t, 2); sf::spit(d + "/out", ""); t = sf::openraw(d + "/out", O_RDWR); sf::sys(SYS_dup2, t, 0); sf::sys(SYS_dup2, t, 1); if (z) sf::sys(SYS_close, 0);
		coda_getopt_t opt; memset(&opt, 0, sizeof opt); opt.pid = fn.c_str(); opt.daemon = 1;
		g().replaying = true; g().pos = 0; g().replay.assign(fault, 0); g().devs_left = 0; if (fault) { g().devs_left = 1; g().replay.assign(fault - 1, 0); g().replay.push_back(1); }
		int r; { sf::Arm arm; r = coda_daemon_load(&opt); }
		struct { int r, faults, pid, sid, in, out; char what[60]; } m; memset(&m, 0, sizeof m);
		auto nul = sf::ident("/dev/null"); sf::Fds f;
		m.r = r; m.faults = sf::faults; m.pid = sf::sys(SYS_getpid); m.sid = sf::sys(SYS_getsid, 0); m.in = f.same(0, nul.first, nul.second); m.out = f.same(1, nul.first, nul.second);
		snprintf(m.what, sizeof m.what, "%s", sf::what.c_str());
		if (sf::sys(SYS_write, 30, (long) &m, sizeof m) < 0) {}
		_exit(7);
	}
	sf::sys(SYS_close, p[1]);
	struct { int r, faults, pid, sid, in, out; char what[60]; } m; memset(&m, 0, sizeof m);
	long n = sf::sys(SYS_read, p[0], (long) &m, sizeof m); sf::sys(SYS_close, p[0]);
	int st; waitpid(a, &st, 0); step(6);
	MC_CHECK(n == (long) sizeof m, "a detached start never returns in the new process");
	S c; sf::slurp(fn, c);
	MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the starting process of a detached start ends with status %x", st);
	MC_CHECK(m.pid != a, "a detached start returns in the starting process");
	if (m.r == 0)
	{
		MC_CHECK(pre != 2, "a detached start succeeds although the pid file is taken");
		MC_CHECK(c == std::to_string(m.pid) + "\n", "the pid file holds %s, the daemon is %d", show(c).c_str(), m.pid);
		MC_CHECK(m.sid == m.pid && m.in && m.out, "the daemon is not detached (session %d of %d, stdin %d, stdout %d)", m.sid, m.pid, m.in, m.out);
		MC_CHECK(!m.faults || strstr(m.what, "close") || strstr(m.what, "unlock"), "a detached start reports success with failing %s", m.what);
	}
	else
	{
		MC_CHECK(m.faults || pre == 2, "a detached start fails although every call succeeds");
		MC_CHECK(c == (pre == 2 ? "777\n" : "") || strstr(m.what, "unlock") || strstr(m.what, "close"), "a failed detached start (%s) leaves %s in the pid file", m.what, show(c).c_str());
	}
}
MC_MAIN
