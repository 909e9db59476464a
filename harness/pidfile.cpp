// C26: processes that start and stop concurrently with one pid file; a process is a coroutine, and every system call is a
// scheduling point.  Locks made by flock belong to the open file, so they work between coroutines as between processes.
#include "sysfault.hpp"
#include "sched.hpp"
#include <signal.h>
extern "C" {
#include "coda/system.h"
#include "coda/daemon.h"
}
#include "coda/logger.h"
using namespace mc;
typedef std::string S;

static S g_fn; static uint64_t now_;
struct P { int pid; int start_rc; uint64_t t0, t1, s0, s1; bool started, stopped, gave; int stop_rc; S seen; };
static P p_[4];
static void at(const char *name) { if (sched::active()) { sf::armed = true; sched::point(name); sf::virtual_pid = p_[sched::id()].pid; } }
static int wait_flock(int fd, int op)
{
	int r = -2; int *pr = &r; sched::block("flock", [=]() { if (*pr == -2 && (sf::sys(SYS_flock, fd, op | LOCK_NB) >= 0 || errno != EWOULDBLOCK)) *pr = 0; return *pr == 0; });
	if (sched::active()) sf::virtual_pid = p_[sched::id()].pid; return 0;
}

static int start(int i, int via)
{
	coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = g_fn.c_str(); P &p = p_[i]; p.t0 = ++now_;
	int r = via ? coda_daemon_load(&o) : coda_mkpidf(g_fn.c_str());
	p.t1 = ++now_; p.start_rc = r; p.started = true; note("process %d: start %s", p.pid, r < 0 ? "refused" : "succeeds");
	return r;
}
static int stop(int i) { coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = g_fn.c_str(); P &p = p_[i]; o.daemon = i & 1; p.s0 = ++now_; p.stop_rc = coda_daemon_stop(&o); p.s1 = ++now_; p.stopped = true; note("process %d: stop %d", p.pid, p.stop_rc); return p.stop_rc; }

struct Armed { Armed() { sf::calls = sf::faults = sf::hard = 0; sf::what.clear(); sf::armed = true; } ~Armed() { sf::armed = false; } };
static void prepare(int pre)
{
	S d = sf::scratch(); sf::wipe(d); log_level = -1; sf::fail_close = false; sf::after = NULL; sf::hook = at; sf::wait_flock = wait_flock; g_fn = d + "/x.pid"; now_ = 0;
	memset((void *) p_, 0, 0); for (int i = 0; i < 4; i++) { p_[i] = P(); p_[i].pid = i == 0 ? 7 : i == 1 ? 4194303 : i == 2 ? 1234 : 55; p_[i].start_rc = -2; }
	if (pre) sf::spit(g_fn, pre == 1 ? "" : pre == 2 ? "99\n" : "1");
}
// a process's signal handlers are changed by coda_daemon_load; keep the explorer's
static void signals(bool save) { static struct sigaction o[65]; static bool have; if (save && !have) { for (int s = 1; s < 65; s++) sigaction(s, NULL, &o[s]); have = true; } else if (!save) for (int s = 1; s < 65; s++) if (s != SIGKILL && s != SIGSTOP) sigaction(s, &o[s], NULL); }

static void race(int n, int stops, int preempts, int faults, bool load)
{
	static const S OLD[] = { "", "", "99\n", "1" };
	int pre = choose(faults ? 2 : 4), via = load ? 1 : 0; int order = n == 3 ? choose(2) : 0; shard_here(); prepare(pre);
	static const char *const N[] = { "P0", "P1", "P2", "P3" };
	sf::Fds before; sched::Run r(preempts); signals(true);
	for (int i = 0; i < n; i++) r.add(N[i], [=]() { sf::virtual_pid = p_[i].pid; int k = start(i, via); if (k >= 0 && i < stops) stop(i); if (order && k < 0 && i == 2) start(i, via); });
	g().devs_left = faults; { Armed a; r.go(); } g().devs_left = 0; signals(false); sf::hook = NULL; sf::virtual_pid = 0;
	if (r.steps > 4) nontrivial();
	MC_CHECK(!r.deadlock, "processes wait for ever: %s", r.blocked().c_str());
	sf::Fds now; MC_CHECK(before.diff(now).empty(), "after %d concurrent starts (%s): %s", n, sf::what.c_str(), before.diff(now).c_str());
	S c; bool there = sf::slurp(g_fn, c); int owners = 0, last = -1; S who; uint64_t h = 1;
	for (int i = 0; i < n; i++)
	{
		P &p = p_[i]; h = hmix(h, p.start_rc >= 0); h = hmix(h, p.stop_rc >= 0); MC_CHECK(p.started, "a start never returns");
		if (p.start_rc >= 0) { who += " " + std::to_string(p.pid); if (!p.stopped || p.stop_rc < 0) { owners++; last = i; } MC_CHECK(pre < 2, "a start on a pid file holding %s succeeds", show(OLD[pre]).c_str()); }
		if (p.stopped) MC_CHECK(p.stop_rc >= 0 || sf::faults, "the owner cannot remove its pid file");
	}
	outcome(h);
	// two owners at the same time?
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
	{
		P &a = p_[i], &b = p_[j]; if (a.start_rc < 0 || b.start_rc < 0) continue;
		bool a_first = a.stopped && a.stop_rc >= 0 && a.s0 < b.t1, b_first = b.stopped && b.stop_rc >= 0 && b.s0 < a.t1;
		MC_CHECK(a_first || b_first, "processes %d and %d own the pid file at the same time (%s)", a.pid, b.pid, sf::what.c_str());
	}
	if (pre >= 2) { MC_CHECK(there && c == OLD[pre], "a pid file holding %s is changed to %s", show(OLD[pre]).c_str(), show(c).c_str()); return; }
	if (owners == 1) MC_CHECK(there && c == std::to_string(p_[last].pid) + "\n", "process %d owns the pid file, which holds %s (%s)", p_[last].pid, there ? show(c).c_str() : "nothing: it is gone", sf::what.c_str());
	else if (!owners && !sf::faults) MC_CHECK(!there || c.empty(), "nobody owns the pid file, which holds %s", show(c).c_str());
	else if (!owners && sf::what.find("truncate") == S::npos && sf::what.find("unlock") == S::npos && sf::what.find("close") == S::npos) MC_CHECK(!there || c.empty(), "nobody owns the pid file after %s, which holds %s", sf::what.c_str(), show(c).c_str());
	// somebody must have succeeded, unless calls failed: the first to hold the lock of an empty file finds nothing in the way
	if (!sf::faults) { bool any = false; for (int i = 0; i < n; i++) any = any || p_[i].start_rc >= 0; if (stops == 0) MC_CHECK(any, "of %d concurrent starts with an empty pid file none succeeds", n); }
	// afterwards
	if (!owners && (!there || c.empty())) { sf::virtual_pid = 4242; int k; { Armed a; k = coda_mkpidf(g_fn.c_str()); } sf::slurp(g_fn, c); MC_CHECK(k >= 0 && c == "4242\n", "a later start returns %d, the file holds %s", k, show(c).c_str()); sf::virtual_pid = 0; }
	else if (owners) { sf::virtual_pid = 4242; S c2; int k; { Armed a; k = coda_mkpidf(g_fn.c_str()); } sf::slurp(g_fn, c2); MC_CHECK(k < 0 && c2 == c, "a later start on a taken pid file returns %d, the file holds %s", k, show(c2).c_str()); sf::virtual_pid = 0; }
}
SCENARIO("C26", "race/2", QUICK, THOROUGH, "2 processes start (missing, empty, taken, one-byte file), every interleaving of their system calls") { race(2, 0, 100, 0, false); }
SCENARIO("C26", "race/2-load", QUICK, THOROUGH, "2 processes start through coda_daemon_load, every interleaving of their system calls") { race(2, 0, 100, 0, true); }
SCENARIO("C26", "race/2-stop", QUICK, THOROUGH, "2 processes start, the first or both stop when they succeeded, every interleaving") { int s = 1 + choose(2); race(2, s, 100, 0, false); }
SCENARIO("C26", "race/2-faults", QUICK, THOROUGH, "2 processes start, any one (thorough two) of their calls fails, every interleaving") { race(2, 0, 100, g().tier ? 2 : 1, false); }
SCENARIO("C26", "race/2-stop-faults", QUICK, THOROUGH, "2 processes start and stop, any one call fails, every interleaving with up to 4 (thorough any number of) preemptions") { race(2, 2, g().tier ? 100 : 4, 1, false); }
SCENARIO("C26", "race/3", QUICK, THOROUGH, "3 processes start (one perhaps twice), up to 3 (thorough 5) preemptions") { race(3, 0, g().tier ? 5 : 3, 0, false); }
SCENARIO("C26", "race/3-stop", QUICK, THOROUGH, "3 processes start, one, two or all stop, up to 3 (thorough 4) preemptions") { int s = 1 + choose(3); race(3, s, g().tier ? 4 : 3, 0, false); }
SCENARIO("C26", "race/4", THOROUGH, THOROUGH, "4 processes start and two stop, up to 3 preemptions") { race(4, 2, 3, 0, false); }
MC_MAIN
