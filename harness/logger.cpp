// C28: the logger.  Standard error is a file of the scratch directory during an execution; the clock is virtual.
#include "sysfault.hpp"
#include "vclock.hpp"
#include <semaphore.h>
#include <pthread.h>
#include <sys/wait.h>
extern "C" {
#include "coda/system.h"
}
#include "coda/error.h"
#include "coda/logger.h"
using namespace mc;
typedef std::string S;

static const char *const LV[] = { "access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug" };
static int g_off; // seconds east of UTC
static int saved2 = -1;
static void plain_write(const char *s) { if (sf::sys(SYS_write, saved2 >= 0 ? saved2 : 2, (long) s, strlen(s)) < 0) {} }

static void emit(int l, const char *s)
{
	switch (l)
	{
	case 0: log_access("%s", s); break; case 1: log_emerg("%s", s); break; case 2: log_alert("%s", s); break;
	case 3: log_crit("%s", s); break; case 4: log_error("%s", s); break; case 5: log_warn("%s", s); break;
	case 6: log_notice("%s", s); break; case 7: log_info("%s", s); break; case 8: log_debug("%s", s); break;
	}
}
static S stamp(long long sec, long usec)
{
	sec += g_off; long long d = sec / 86400, r = sec % 86400; int y = 1970;
	for (;; y++) { int n = (y % 4 == 0 && y % 100) || y % 400 == 0 ? 366 : 365; if (d < n) break; d -= n; }
	static const int M[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; int m = 0;
	for (;; m++) { int n = M[m] + (m == 1 && leap); if (d < n) break; d -= n; }
	char b[80]; snprintf(b, sizeof b, "%04d-%02d-%02d %02lld:%02lld:%02lld.%03ld", y, m + 1, (int) d + 1, r / 3600, r / 60 % 60, r % 60, usec / 1000);
	return b;
}
static S line(int l, const S &who, const S &msg) { return stamp(vclock::sec(), vclock::now_us % 1000000) + " " + LV[l] + " " + who + " " + msg + "\n"; }
static S self() { return std::to_string((unsigned long) pthread_self()); }
static void tz(const char *name, int off) { setenv("TZ", name, 1); tzset(); g_off = off; }

struct Err // standard error is the file fn while this lives
{
	Err(const S &fn)
	{
		if (saved2 < 0) { saved2 = 900; sf::sys(SYS_dup2, 2, saved2); }
		long f = sf::sys(SYS_openat, AT_FDCWD, (long) fn.c_str(), O_CREAT | O_RDWR | O_APPEND, 0644); sf::sys(SYS_dup2, f, 2); sf::sys(SYS_close, f);
	}
	~Err() { sf::sys(SYS_dup2, saved2, 2); log_level = 7; log_thread_name_set(NULL); sf::hook = NULL; }
};
static S dir() { S d = sf::scratch(); sf::wipe(d); sf::hook = NULL; sf::after = NULL; sf::fail_close = false; tz("UTC0", 0); vclock::now_us = 1700000000ll * 1000000 + 5000; return d; }
static const char *ro(const S &s) // a copy in memory that cannot be written
{
	static char *page; if (!page) page = (char *) mmap(NULL, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(page, 4096, PROT_READ | PROT_WRITE); memcpy(page, s.c_str(), s.size() + 1); mprotect(page, 4096, PROT_READ); return page;
}

SCENARIO("C28", "matrix", QUICK, THOROUGH, "all 9 levels x current levels -1..9 x 5 thread names x 9 messages")
{
	S d = dir(); int l = choose(9), cur = choose(11) - 1, nm = choose(5), mk = choose(9);
	static const char *const NM[] = { NULL, "main", "", "a b", "%s%d%n" };
	S msg = mk == 0 ? S("") : mk == 1 ? S("x") : mk == 2 ? S("%d%s") : mk == 3 ? S("two\nlines") : mk == 4 ? S(100, 'y') : mk == 5 ? S(1023, 'z') : mk == 6 ? S(5000, 'w') : mk == 7 ? S("\xff\x80") : S("  ");
	Err e(d + "/err"); log_thread_name_set(NM[nm]); log_level = cur;
	emit(l, msg.c_str()); step(); bool on = l <= cur; if (on) nontrivial();
	S out; sf::slurp(d + "/err", out); S want = on ? line(l, NM[nm] ? NM[nm] : self(), msg) : "";
	MC_CHECK(out == want, "level %s at current level %d, name %s: %s written, expected %s", LV[l], cur, NM[nm] ? NM[nm] : "(none)", show(out).c_str(), show(want).c_str());
}
SCENARIO("C28", "time", QUICK, THOROUGH, "40 time stamps around every kind of boundary x 6 fractions x 3 zones")
{
	static const long long T[] = { 0, 1, 59, 60, 3599, 3600, 86399, 86400, 2678399, 2678400, 5097599, 5097600, 31535999, 31536000, 68169599, 68169600, 68255999, 68256000, 94694399, 94694400,
		951782399, 951782400, 951868799, 951868800, 978307199, 978307200, 1000000000, 1234567890, 1700000000, 2147483647, 2147483648LL, 4107542399LL, 4107542400LL, 4102444799LL, 4102444800LL, 253402214400LL, 253402300799LL, 1709164800, 1709251199, 1709251200 };
	static const long U[] = { 0, 999, 1000, 9999, 10000, 999999 };
	S d = dir(); long long t = T[choose(40)]; long u = U[choose(6)]; int z = choose(3); nontrivial();
	if (z == 1) tz("XXX-5:30", 19800); else if (z == 2) { tz("YYY+3", -10800); if (t < 10800) return; }
	if (z == 1 && t + 19800 > 253402300799LL) return;
	vclock::now_us = t * 1000000 + u; Err e(d + "/err"); log_level = 4;
	emit(4, "m"); step(); S out; sf::slurp(d + "/err", out); S want = line(4, self(), "m");
	MC_CHECK(out == want, "at %lld.%06ld: %s written, expected %s", t, u, show(out).c_str(), show(want).c_str());
}
SCENARIO("C28", "names", QUICK, THOROUGH, "every level name in every mixture of cases, up to 8 letters, and the default")
{
	int l = choose(9); S n = LV[l]; for (auto &c : n) if (choose(2)) c = toupper(c); step(); nontrivial();
	int r = log_levels(n.c_str()); MC_CHECK(r == l, "log_levels(%s) is %d, not %d", n.c_str(), r, l);
	int mine = strcmp(LV[l], "access") == 0 ? LOG_access : l == 1 ? LOG_emerg : l == 2 ? LOG_alert : l == 3 ? LOG_crit : l == 4 ? LOG_error : l == 5 ? LOG_warn : l == 6 ? LOG_notice : l == 7 ? LOG_info : LOG_debug;
	MC_CHECK(mine == l, "level %s has the number %d", LV[l], mine);
}

SCENARIO("C28", "long", QUICK, THOROUGH, "messages of 35 lengths of 127..70000 bytes, thread names of 0..70000 bytes, named or not; the line that follows is whole, too")
{
	S d = dir(); int n = biglen(), l = choose(9), nm = choose(5); static const int NL[] = { 0, 15, 16, 255, 70000 }; nontrivial();
	S msg, name(NL[nm], 'n'); for (int i = 0; i < n; i++) msg += (char) ('a' + i % 26);
	Err e(d + "/err"); if (nm) log_thread_name_set(name.c_str()); log_level = 8; emit(l, msg.c_str()); emit(8 - l, "next"); step(2);
	S out, who = nm ? name : self(); sf::slurp(d + "/err", out); MC_CHECK(out == line(l, who, msg) + line(8 - l, who, "next"), "a message of %d bytes is written as %zu bytes: %s", n, out.size(), show(out).c_str());
}
SCENARIO("C28", "errors", QUICK, THOROUGH, "messages with an error number (0..134, -1, 4096) by log_err and log_die, written and suppressed, named thread or not: number and text of the error, the exit status")
{
	S d = dir(); int err = choose(137), how = choose(2) * 2, on = choose(2), nm = choose(2); if (err > 134) err = err == 135 ? -1 : 4096; shard_here(); nontrivial(); step(); int lv = how == 2 ? 1 : 4, status = 0, r = err;
	Err e(d + "/err"); if (nm) log_thread_name_set("n"); log_level = on ? lv : lv - 1; errno = 11;
	if (how == 0) log_err(err, "%s", "m");
	else { if (!(r = fork())) { log_die(err, "%s", "m"); _exit(0); } MC_CHECK(r > 0 && sf::sys(SYS_wait4, r, (long) &status, 0, 0) == r, "fork"); MC_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAILURE, "log_die ends with status %#x", status); }
	S out, want = line(lv, nm ? S("n") : self(), S("m (") + std::to_string(err) + ": " + strerror(err) + ")"); sf::slurp(d + "/err", out); while (out.size() > 1 && out[out.size() - 1] == '\n' && out[out.size() - 2] == '\n') out.resize(out.size() - 1);
	MC_CHECK(out == (on ? want : S()), "error %d, %s: %s written, expected %s", err, on ? "written" : "suppressed", show(out).c_str(), on ? show(want).c_str() : "nothing");
}
SCENARIO("C28", "paths", QUICK, THOROUGH, "log files with path components of 1..255 characters, 1..15 of them, relative or absolute, existing or not")
{
	S d = dir(); static const int L[] = { 1, 15, 16, 63, 64, 100, 128, 200, 255 }; int l = L[choose(9)], n = 1 + choose(15), abs = choose(2), twice = choose(2); nontrivial(); if (sf::sys(SYS_chdir, (long) d.c_str()) < 0) internal_error("chdir");
	S p = abs ? d + "/" : S(""); for (int i = 0; i < n; i++) { if (i) p += "/"; p += S(l, 'a' + i); } if (p.size() > 3900) return;
	Err e(d + "/err"); int r = 0; for (int i = 0; i <= twice; i++) { r = log_create(ro(p), 8); MC_CHECK(r >= 0, "setting the log file %s (%zu characters) fails: %s", show(p).c_str(), p.size(), strerror(errno)); emit(3, "m"); step(); }
	S out, w = line(3, self(), "m"); if (twice) w += w; bool there = sf::slurp(p, out); MC_CHECK(there && out == w, "the log file with a path of %zu characters holds %s", p.size(), show(out).c_str());
	sf::slurp(d + "/err", out); MC_CHECK(out.empty(), "the earlier log receives %s", show(out).c_str()); if (sf::sys(SYS_chdir, (long) "/") < 0) {}
}
// ------------------------------------------------------------------ histories
static S snap(const std::map<S, S> &m) { S r; for (auto &x : m) r += x.first + "=" + show(x.second) + " "; return r; }
SCENARIO("C28", "history", QUICK, THOROUGH, "every sequence of 3 (thorough 4) of 22 operations: level changes, log files (new, existing, missing directories, impossible), rotations, names, messages; a message of every level after each")
{
	S d = dir(); Err e(d + "/err"); int depth = g().tier ? 4 : 3;
	std::map<S, S> files; S cur = "err", who; int level = 7; log_level = 7; log_thread_name_set(NULL);
	sf::spit(d + "/old", "earlier\n"); files["old"] = "earlier\n"; sf::spit(d + "/plain", "p"); files["plain"] = "p"; files["err"] = "";
	nontrivial(); int seq = 0;
	for (int k = 0; k < depth; k++)
	{
		int op = choose(22); S what;
		auto create = [&](const char *p, int how, int l) {
			S path = d + "/" + p; const char *q = ro(path); int r; bool bad = !strcmp(p, "plain/x") || !strcmp(p, "sub") || !strcmp(p, "");
			if (!strcmp(p, "sub")) { sf::sys(SYS_mkdir, (long) (d + "/sub").c_str(), 0755); }
			if (how == 0) r = log_create(q, l); else if (how == 1) r = log_rotate(q); else r = log_create_from_str(q, how == 2 ? "Crit" : "DEBUG");
			int nl = how == 0 ? l : how == 1 ? level : how == 2 ? 3 : 8;
			note("log file %s: %d", p, r);
			MC_CHECK((r >= 0) == !bad, "setting the log file %s: result %d", p, r);
			if (!bad) { cur = p; level = nl; }
		};
		auto away = [&](const char *p) {
			S a = d + "/" + p, b = a + ".1"; if (!files.count(p)) return; note("%s is renamed", p);
			if (sf::sys(SYS_rename, (long) a.c_str(), (long) b.c_str()) < 0) return;
			files[S(p) + ".1"] = files[p]; files.erase(p); if (cur == p) cur = S(p) + ".1"; else if (cur == S(p) + ".1") cur = "(gone)";
		};
		switch (op)
		{
		case 0: create("A", 0, 8); break; case 1: create("A", 0, 4); break; case 2: create("A", 1, 0); break;
		case 3: create("old", 0, 7); break; case 4: create("x/y/B", 0, 5); break; case 5: create("x/B", 1, 0); break;
		case 6: create("plain/x", 0, 2); break; case 7: create("sub", 0, 1); break; case 8: create("A", 2, 0); break; case 9: create("B", 3, 0); break;
		case 10: away("A"); break; case 11: away("old"); break;
		case 12: log_level = level = -1; note("level -1"); break; case 13: log_level = level = 0; note("level 0"); break;
		case 14: log_level = level = 6; note("level 6"); break; case 15: log_level = level = 8; note("level 8"); break;
		case 16: log_thread_name_set("worker"); who = "worker"; note("name worker"); break; case 17: log_thread_name_set(NULL); who = ""; note("no name"); break;
		case 18: create("", 0, 3); break; case 19: vclock::now_us += 86400ll * 1000000; break; case 20: create("err", 1, 0); break; case 21: create("x//C", 0, 8); break;
		}
		MC_CHECK(log_level == level, "the level is %d, not %d", log_level, level);
		const char *nm = log_thread_name_get(); MC_CHECK(S(nm ? nm : "") == who, "the thread name is %s", nm ? nm : "(none)");
		if (cur == "(gone)") cur = "(gone)"; else if (!files.count(cur)) files[cur] = "";
		for (int l = 0; l < 9; l++)
		{
			S m = "m" + std::to_string(seq++); emit(l, m.c_str()); step();
			if (l <= level && cur != "(gone)") files[cur] += line(l, who.empty() ? self() : who, m);
		}
		std::map<S, S> now; for (auto &x : files) { S c; if (sf::slurp(d + "/" + x.first, c)) now[x.first] = c; }
		MC_CHECK(now == files, "the files hold %s expected %s", snap(now).c_str(), snap(files).c_str());
		uint64_t h = hstr(1, cur); h = hmix(h, level); h = hstr(h, who); for (auto &x : files) { h = hstr(h, x.first); h = hmix(h, x.second.size()); } state(h);
	}
}

// ------------------------------------------------------------------ rotation with another thread's messages and failing calls
static int g_lines; static std::vector<S> g_emitted;
static void other_thread(const char *) { S m = "other" + std::to_string(g_lines++); emit(4, m.c_str()); g_emitted.push_back(line(4, self(), m)); }
SCENARIO("C28", "rotation", QUICK, THOROUGH, "7 changes of the log file (twice), every single and double call failure, another thread's message before every system call")
{
	S d = dir(); int first = choose(4), how = choose(7); shard_here();
	Err e(d + "/err"); log_level = 7; S cur = "err";
	if (first == 1) { MC_CHECK(log_create(ro(d + "/A"), 6) >= 0, "log_create fails"); cur = "A"; }
	if (first == 2) { MC_CHECK(log_create(ro(d + "/q/A"), 5) >= 0, "log_create fails"); cur = "q/A"; }
	if (first == 3) { MC_CHECK(log_create(ro(d + "/A"), 6) >= 0, "log_create fails"); sf::sys(SYS_rename, (long) (d + "/A").c_str(), (long) (d + "/A.1").c_str()); cur = "A.1"; }
	static const char *const P[] = { "A", "B", "x/y/z", "q/A", "err", "A.1", "x/" };
	S to = P[how]; bool bad = how == 6; int level = log_level; if (bad) sf::sys(SYS_mkdir, (long) (d + "/x").c_str(), 0755);
	for (int round = 0; round < 2; round++)
	{
		S a0, b0, a1, b1; sf::slurp(d + "/" + cur, a0); if (to != cur) sf::slurp(d + "/" + to, b0);
		sf::Fds before; const char *q = ro(d + "/" + to); g_lines = 0; g_emitted.clear(); sf::hook = other_thread; g().devs_left = round ? 1 : 2; int r;
		{ sf::Arm arm; r = round ? log_rotate(q) : log_create(q, 5); }
		sf::hook = NULL; sf::Fds now; step(sf::calls); if (sf::faults) nontrivial();
		S w = sf::what.empty() ? S("no failure") : "failing " + sf::what;
		MC_CHECK(before.diff(now, 2).empty(), "%s after changing the log file with %s", before.diff(now, 2).c_str(), w.c_str());
		if (r >= 0) { MC_CHECK(!bad && !sf::hard, "changing the log file reports success with %s", w.c_str()); if (!round) level = 5; }
		else MC_CHECK(bad || sf::faults, "changing the log file fails although every call succeeds");
		MC_CHECK(log_level == level, "after changing the log file (result %d, %s) the level is %d, not %d", r, w.c_str(), log_level, level);
		other_thread(NULL);
		sf::slurp(d + "/" + cur, a1); if (to != cur && !bad) sf::slurp(d + "/" + to, b1);
		MC_CHECK(a1.compare(0, a0.size(), a0) == 0 && b1.compare(0, b0.size(), b0) == 0, "changing the log file (%s) damages the existing contents", w.c_str());
		S all; for (auto &x : g_emitted) all += x;
		S add = a1.substr(a0.size()), badd = b1.substr(b0.size());
		MC_CHECK(add + badd == all, "of the lines %s written while the log file changes (%s), the old file gets %s and the new file %s", show(all).c_str(), w.c_str(), show(add).c_str(), show(badd).c_str());
		S last = g_emitted.back(); bool innew = badd.size() >= last.size() && badd.compare(badd.size() - last.size(), last.size(), last) == 0;
		if (to != cur) MC_CHECK(innew == (r >= 0), "after changing the log file (result %d, %s) a message goes to the %s file", r, w.c_str(), innew ? "new" : "old");
		MC_CHECK(add.empty() || add[add.size() - 1] == '\n', "a line is split");
		if (r >= 0) cur = to;
		if (round == 0) { to = cur == "B" ? "A" : "B"; bad = false; }
	}
}

// ------------------------------------------------------------------ thread names
struct Worker { pthread_t t; sem_t go, done; int cmd, arg; bool live; } W[2];
static void *work(void *p)
{
	Worker *w = (Worker *) p;
	for (;;)
	{
		while (sem_wait(&w->go) < 0) ;
		static const char *const N[] = { "one", "two" };
		if (w->cmd == 0) log_thread_name_set(N[w->arg]); else if (w->cmd == 1) log_thread_name_set(NULL); else if (w->cmd == 2) emit(4, "w");
		bool quit = w->cmd == 3; sem_post(&w->done); if (quit) return NULL;
	}
}
static void start(Worker &w) { sem_init(&w.go, 0, 0); sem_init(&w.done, 0, 0); w.live = true; if (pthread_create(&w.t, NULL, work, &w)) internal_error("pthread_create"); }
static void cmd(Worker &w, int c, int a) { w.cmd = c; w.arg = a; sem_post(&w.go); while (sem_wait(&w.done) < 0) ; if (c == 3) { pthread_join(w.t, NULL); w.live = false; } }
SCENARIO("C28", "threads", QUICK, THOROUGH, "every sequence of 4 (thorough 5) name changes, messages and thread restarts on three threads (main and two others), a message of every thread after each")
{
	S d = dir(); int depth = g().tier ? 5 : 4; std::vector<int> ops; for (int k = 0; k < depth; k++) ops.push_back(choose(9)); shard_here();
	Err e(d + "/err"); log_level = 4; S want, nm[3]; nontrivial();
	start(W[0]); start(W[1]);
	static const char *const N[] = { "one", "two" };
	for (int op : ops)
	{
		int t = op / 4, c = op % 4; // t 0, 1: workers; 2: main
		if (op == 8) { log_thread_name_set(nm[2].empty() ? "main" : NULL); nm[2] = nm[2].empty() ? "main" : ""; note("main toggles its name"); }
		else if (c < 2) { cmd(W[t], 0, c); nm[t] = N[c]; note("thread %d is named %s", t, N[c]); }
		else if (c == 2) { cmd(W[t], 1, 0); nm[t] = ""; note("thread %d loses its name", t); }
		else { cmd(W[t], 3, 0); start(W[t]); nm[t] = ""; note("thread %d ends, a new one starts", t); }
		step();
		for (int k = 0; k < 2; k++) { cmd(W[k], 2, 0); want += line(4, nm[k].empty() ? std::to_string((unsigned long) W[k].t) : nm[k], "w"); }
		emit(4, "w"); want += line(4, nm[2].empty() ? self() : nm[2], "w");
	}
	cmd(W[0], 3, 0); cmd(W[1], 3, 0);
	S out; sf::slurp(d + "/err", out); MC_CHECK(out == want, "the log holds %s, expected %s", show(out).c_str(), show(want).c_str());
}
MC_MAIN
