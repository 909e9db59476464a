// C29: signal set-up, flags and masks.  SIGPROF and SIGVTALRM are among the handled signals, so the hang watch uses SIGRTMIN+2.
#include "mc.hpp"
#include <poll.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "coda/daemon.h"
}
#include "coda/logger.h"
using namespace mc;
typedef std::string S;

struct Sg { int n; const char *name; int flag; }; // flag: 0 none 1 terminate 2 changecfg 3 rotatelog 4 changebin
static const Sg SG[] = { { SIGHUP, "HUP", 2 }, { SIGINT, "INT", 1 }, { SIGTERM, "TERM", 1 }, { SIGUSR1, "USR1", 3 }, { SIGUSR2, "USR2", 4 }, { SIGALRM, "ALRM", 0 }, { SIGQUIT, "QUIT", 0 },
	{ SIGPIPE, "PIPE", 0 }, { SIGCHLD, "CHLD", 0 }, { SIGCONT, "CONT", 0 }, { SIGTSTP, "TSTP", 0 }, { SIGTTIN, "TTIN", 0 }, { SIGTTOU, "TTOU", 0 }, { SIGPROF, "PROF", 0 }, { SIGSYS, "SYS", 0 },
	{ SIGTRAP, "TRAP", 0 }, { SIGURG, "URG", 0 }, { SIGVTALRM, "VTALRM", 0 }, { SIGXCPU, "XCPU", 0 }, { SIGXFSZ, "XFSZ", 0 }, { SIGWINCH, "WINCH", 0 } };
enum { NS = sizeof SG / sizeof *SG };

static struct sigaction g_old[65]; static sigset_t g_mask;
static void save_all() { for (int s = 1; s < 65; s++) sigaction(s, NULL, &g_old[s]); sigprocmask(SIG_SETMASK, NULL, &g_mask); }
static void restore_all()
{
	// pending signals are dropped first
	sigset_t none; sigemptyset(&none);
	for (int k = 0; k < NS; k++) signal(SG[k].n, SIG_IGN);
	sigprocmask(SIG_SETMASK, &none, NULL);
	for (int s = 1; s < 65; s++) if (s != SIGKILL && s != SIGSTOP) sigaction(s, &g_old[s], NULL);
	sigprocmask(SIG_SETMASK, &g_mask, NULL);
	coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0; log_level = LOG_info;
}
struct Env
{
	struct itimerval it; bool ok;
	Env() : ok(false) { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, &it); save_all(); log_level = -1; coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0; }
	~Env() { restore_all(); struct itimerval v; v.it_interval.tv_sec = v.it_value.tv_sec = 1; v.it_interval.tv_usec = v.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &v, NULL); }
};
static int flags() { return (coda_terminate ? 1 : 0) | (coda_changecfg ? 2 : 0) | (coda_rotatelog ? 4 : 0) | (coda_changebin ? 8 : 0); }
static int bit(int f) { return f ? 1 << (f - 1) : 0; }
static void setup(int how) // 0 restart 1 norestart 2 both 3 both in the other order 4 through coda_daemon_load
{
	int r = 0; if (how == 0 || how == 3) { if (how == 3) r |= coda_signal_init_norestart(); r |= coda_signal_init(); } else if (how == 1 || how == 2) { if (how == 2) r |= coda_signal_init(); r |= coda_signal_init_norestart(); }
	else { coda_getopt_t o; memset(&o, 0, sizeof o); r = coda_daemon_load(&o); }
	MC_CHECK(r == 0, "the signal set-up fails");
	for (int k = 0; k < NS; k++)
	{
		struct sigaction sa; sigaction(SG[k].n, NULL, &sa);
		MC_CHECK(sa.sa_handler != SIG_DFL, "after the set-up SIG%s has its default effect", SG[k].name); // some defaults kill or stop
		MC_CHECK(sa.sa_handler != SIG_IGN || !SG[k].flag, "after the set-up SIG%s is ignored", SG[k].name);
	}
}
static void send(int k) { note("SIG%s", SG[k].name); if (raise(SG[k].n)) internal_error("raise"); step(); }

SCENARIO("C29", "flags", QUICK, THOROUGH, "5 set-ups x every sequence of 3 (thorough 4) of the 21 handled signals, the flags after each, cleared or kept in between")
{
	int how = choose(5), clear = choose(2), n = g().tier ? 4 : 3; Env env; setup(how); int want = 0; nontrivial();
	for (int k = 0; k < n; k++)
	{
		int s = choose(NS); send(s); want |= bit(SG[s].flag);
		MC_CHECK(flags() == want, "after SIG%s the flags are %x, expected %x (terminate 1, changecfg 2, rotatelog 4, changebin 8)", SG[s].name, flags(), want);
		if (clear && k == 0) { coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0; want = 0; }
	}
	state(want);
}
static volatile int g_foreign; static void foreign(int) { g_foreign++; }
// every signal number, before, under and after a mask
static void blocked_set(std::set<int> &b) { sigset_t m; sigprocmask(SIG_BLOCK, NULL, &m); b.clear(); for (int s = 1; s < 65; s++) if (sigismember(&m, s)) b.insert(s); }
static bool maskable(int s) { for (int k = 0; k < NS; k++) if (SG[k].n == s) return true; return false; }
SCENARIO("C29", "mask-sets", QUICK, THOROUGH, "block/unblock/set x every mask of 0..2 (thorough 3) of the 31 numbers and all of them, from 3 earlier masks: the resulting mask")
{
	int how = choose(3), pre = choose(3), n = choose(g().tier ? 5 : 4); unsigned mask = 0; Env env; setup(0);
	int lim = g().tier ? 4 : 3;
	if (n == lim) mask = ~0u; else { int last = 0; for (int k = 0; k < n; k++) { int s = last + 1 + choose(32); if (s > 31) return; mask |= 1u << s; last = s; } }
	std::set<int> before, now, want; sigset_t p; sigemptyset(&p);
	if (pre == 1) { sigaddset(&p, SIGHUP); sigaddset(&p, SIGTERM); sigaddset(&p, SIGRTMIN + 5); } else if (pre == 2) { for (int k = 0; k < NS; k++) sigaddset(&p, SG[k].n); sigaddset(&p, SIGIO); }
	sigprocmask(SIG_SETMASK, &p, NULL); blocked_set(before);
	static const int H[] = { SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK }; nontrivial(); step(); note("mask operation %d, %x, earlier mask %d", how, mask, pre);
	int r = coda_signal_mask(H[how], mask); blocked_set(now);
	MC_CHECK(r == 0, "coda_signal_mask fails");
	std::set<int> m; for (int s = 1; s < 32; s++) if ((mask >> s & 1) && maskable(s)) m.insert(s);
	if (how == 0) { want = before; want.insert(m.begin(), m.end()); } else if (how == 1) { want = before; for (int s : m) want.erase(s); } else want = m;
	S d; for (int s = 1; s < 65; s++) if (now.count(s) != want.count(s)) { char b[40]; snprintf(b, sizeof b, "signal %d is %s; ", s, now.count(s) ? "blocked" : "not blocked"); d += b; }
	MC_CHECK(d.empty(), "after mask operation %d with %x: %s", how, mask, d.c_str());
}
SCENARIO("C29", "mask", QUICK, THOROUGH, "every sequence of 4 (thorough 5) operations: block/unblock/set masks over {HUP TERM USR1 USR2 QUIT} (one or two signals), raise one of them; flags and pending signals after each")
{
	static const int X[] = { 0, 2, 3, 4, 6 }; // indices in SG
	int how = choose(2), n = g().tier ? 5 : 4; Env env; setup(how); int want = 0; std::set<int> blocked, pending; nontrivial();
	for (int k = 0; k < n; k++)
	{
		int op = choose(5 + 5 + 5 + 3);
		if (op < 5) { int s = X[op]; send(s); if (blocked.count(s)) pending.insert(s); else want |= bit(SG[s].flag); }
		else
		{
			unsigned m = 0; int h; std::set<int> set;
			if (op < 10) { h = SIG_BLOCK; set.insert(X[op - 5]); if (op % 2) set.insert(X[(op - 5 + 2) % 5]); }
			else if (op < 15) { h = SIG_UNBLOCK; set.insert(X[op - 10]); }
			else { h = SIG_SETMASK; if (op == 16) { set.insert(X[0]); set.insert(X[1]); } if (op == 17) for (int s : X) set.insert(s); }
			for (int s : set) m |= 1u << SG[s].n;
			note("%s %x", h == SIG_BLOCK ? "block" : h == SIG_UNBLOCK ? "unblock" : "set", m);
			int r = coda_signal_mask(h, m); step(); MC_CHECK(r == 0, "coda_signal_mask fails");
			if (h == SIG_BLOCK) blocked.insert(set.begin(), set.end()); else if (h == SIG_UNBLOCK) for (int s : set) blocked.erase(s); else blocked = set;
			for (auto i = pending.begin(); i != pending.end();) if (!blocked.count(*i)) { want |= bit(SG[*i].flag); i = pending.erase(i); } else ++i;
		}
		MC_CHECK(flags() == want, "the flags are %x, expected %x", flags(), want);
		uint64_t h = want; for (int s : blocked) h = hmix(h, s); h = hmix(h, 99); for (int s : pending) h = hmix(h, s); state(h);
	}
}

// a blocked read: the signal arrives while the reader sleeps in the kernel
static bool asleep(pid_t p) { char b[64], s[600]; snprintf(b, sizeof b, "/proc/%d/stat", (int) p); int f = open(b, O_RDONLY); if (f < 0) return false; long n = read(f, s, sizeof s - 1); close(f); if (n <= 0) return false; s[n] = 0; char *q = strrchr(s, ')'); return q && q[2] == 'S'; }
SCENARIO("C29", "read", QUICK, THOROUGH, "5 set-ups (and none of them twice) x every handled signal arriving while the process sleeps in read, twice, from a process whose handlers had or had not SA_RESTART before")
{
	int how = choose(5), s = choose(NS), earlier = choose(3); Env env; nontrivial(); bool restarts = how == 0 || how == 3 || how == 4;
	note("set-up %d, SIG%s, earlier handlers %d", how, SG[s].name, earlier);
	int p[2], q[2]; if (pipe(p) || pipe(q)) internal_error("pipe");
	pid_t c = fork();
	if (!c)
	{
		close(p[1]); close(q[0]);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = earlier == 2 ? foreign : SIG_DFL; sa.sa_flags = earlier ? SA_RESTART : 0;
		for (int k = 0; k < NS; k++) sigaction(SG[k].n, &sa, NULL);
		int r = 0;
		if (how == 0 || how == 3) { if (how == 3) r |= coda_signal_init_norestart(); r |= coda_signal_init(); } else if (how == 1 || how == 2) { if (how == 2) r |= coda_signal_init(); r |= coda_signal_init_norestart(); }
		else { coda_getopt_t o; memset(&o, 0, sizeof o); r = coda_daemon_load(&o); }
		if (write(q[1], r ? "!" : "r", 1) < 0) _exit(9);
		for (;;)
		{
			char b = 0; long n = read(p[0], &b, 1); char a[2] = { (char) (n == 1 ? b : n == 0 ? 'E' : errno == EINTR ? 'I' : '?'), (char) flags() };
			if (write(q[1], a, 2) < 0) _exit(9);
			if (n == 0 || b == 'q') _exit(0);
		}
	}
	close(p[0]); close(q[1]); char r = 0; long n;
	while ((n = read(q[0], &r, 1)) < 0 && errno == EINTR) ;
	bool fine = n == 1 && r == 'r'; S bad;
	for (int k = 0; fine && k < 2; k++)
	{
		while (!asleep(c) && waitpid(c, NULL, WNOHANG) == 0) sched_yield();
		if (kill(c, SG[s].n)) break;
		// restarting: nothing comes until a byte is written; the byte is written once the signal has been taken
		char a[2] = { 0, 0 };
		if (restarts)
		{
			char st[64], buf[3000]; snprintf(st, sizeof st, "/proc/%d/status", (int) c);
			for (;;) { int f = open(st, O_RDONLY); long m = f < 0 ? 0 : read(f, buf, sizeof buf - 1); if (f >= 0) close(f); if (m <= 0) break; buf[m] = 0; char *x = strstr(buf, "ShdPnd:"); unsigned long long pend = x ? strtoull(x + 7, NULL, 16) : 0; if (!(pend >> (SG[s].n - 1) & 1)) break; sched_yield(); }
			while (!asleep(c) && waitpid(c, NULL, WNOHANG) == 0) sched_yield();
			if (write(p[1], "x", 1) < 0) break;
		}
		struct pollfd pf; pf.fd = q[0]; pf.events = POLLIN; int w; while ((w = poll(&pf, 1, 20000)) < 0 && errno == EINTR) ; // (not even close to that long)
		if (w == 0) { bad = restarts ? "the read does not go on" : "the read goes on, expected EINTR"; break; }
		long got = 0; while (got < 2) { n = read(q[0], a + got, 2 - got); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; got += n; }
		step();
		char want = restarts ? 'x' : 'I';
		if (got < 2) { bad = "the process dies or stops"; break; }
		if (a[0] != want) { bad = S("the read ") + (a[0] == 'I' ? "fails with EINTR" : a[0] == 'x' ? "goes on" : "ends otherwise") + ", expected " + (want == 'I' ? "EINTR" : "that it goes on"); break; }
		if (a[1] != bit(SG[s].flag)) { bad = "the flags are " + std::to_string(a[1]); break; }
	}
	if (write(p[1], "q", 1) < 0) {}
	int st; if (!bad.empty() || !fine) kill(c, SIGKILL);
	close(p[1]); while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; close(q[0]);
	MC_CHECK(fine, "the signal set-up fails"); MC_CHECK(bad.empty(), "SIG%s during a read with set-up %d: %s", SG[s].name, how, bad.c_str());
	MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "SIG%s ends the process (status %x)", SG[s].name, st);
}
SCENARIO("C29", "nested", QUICK, THOROUGH, "two different signals pending together (all pairs), delivered by one unblocking, with set-ups 0 and 1")
{
	int how = choose(2), a = choose(NS), b = choose(NS); Env env; setup(how); nontrivial();
	unsigned m = 1u << SG[a].n | 1u << SG[b].n; MC_CHECK(coda_signal_mask(SIG_BLOCK, m) == 0, "blocking fails");
	send(a); send(b); MC_CHECK(flags() == 0, "blocked signals SIG%s, SIG%s raise the flags %x", SG[a].name, SG[b].name, flags());
	int first = choose(2); unsigned f = 1u << SG[first ? b : a].n; int want = bit(SG[first ? b : a].flag);
	MC_CHECK(coda_signal_mask(SIG_UNBLOCK, f) == 0, "unblocking fails");
	MC_CHECK(flags() == want, "unblocking SIG%s of the pending SIG%s, SIG%s: flags %x, expected %x", SG[first ? b : a].name, SG[a].name, SG[b].name, flags(), want);
	want = bit(SG[a].flag) | bit(SG[b].flag); MC_CHECK(coda_signal_mask(SIG_UNBLOCK, m) == 0, "unblocking fails");
	MC_CHECK(flags() == want, "unblocking SIG%s and SIG%s: flags %x, expected %x", SG[a].name, SG[b].name, flags(), want);
}
#include <sys/mman.h>
SCENARIO("C29", "undisturbed", QUICK, THOROUGH, "5 set-ups x every handled signal x the message written / not enabled x standard error a file, full, closed x the zone known, missing: errno stays as it was")
{
	int how = choose(5), s = choose(NS), lev = choose(3), err = choose(3), zone = choose(2), val = choose(3); Env env; setup(how); log_level = lev == 0 ? LOG_debug : lev == 1 ? LOG_error : -1; nontrivial();
	static const int E[] = { 0, EINTR, EAGAIN }; note("set-up %d, SIG%s, level %d, standard error %d, zone %d, errno %d", how, SG[s].name, (int) log_level, err, zone, E[val]);
	int keep = dup(2); if (keep < 0) internal_error("dup"); if (err == 0) { int f = memfd_create("err", 0); dup2(f, 2); close(f); } else if (err == 1) { int f = open("/dev/full", O_WRONLY); dup2(f, 2); close(f); } else close(2);
	setenv("TZ", zone ? "/nonexistent/zone" : "UTC0", 1); tzset();
	errno = E[val]; raise(SG[s].n); int now = errno; clearerr(stderr); unsetenv("TZ"); dup2(keep, 2); close(keep); step();
	MC_CHECK(now == E[val], "SIG%s turns errno %d of the interrupted code into %d (%s)", SG[s].name, E[val], now, strerror(now)); MC_CHECK(flags() == bit(SG[s].flag), "after SIG%s the flags are %x", SG[s].name, flags()); outcome(hmix(flags(), err));
}
MC_MAIN
