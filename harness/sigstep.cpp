// C29: a handled signal at every single instruction of what a program does between signals: logging, opening a log, masking.
// The processor's trap flag stops the program after each instruction; there a copy of the process (fork) gets the signal and goes on.
#include "mc.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
#include "coda/daemon.h"
}
#include "coda/logger.h"
using namespace mc;
typedef std::string S;

static volatile int in_zone; // the interrupted code is inside a function that takes the C library's time-zone lock (known finding: the handler's message needs it, too)
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f)) dlsym(RTLD_NEXT, #f); in_zone++; auto x = real
#define DONE in_zone--; return x
extern "C" struct tm *localtime_r(const time_t *t, struct tm *r) { REAL(localtime_r)(t, r); DONE; }
extern "C" struct tm *gmtime_r(const time_t *t, struct tm *r) { REAL(gmtime_r)(t, r); DONE; }
extern "C" struct tm *localtime(const time_t *t) { REAL(localtime)(t); DONE; }
extern "C" struct tm *gmtime(const time_t *t) { REAL(gmtime)(t); DONE; }
extern "C" size_t strftime(char *s, size_t n, const char *f, const struct tm *t) { REAL(strftime)(s, n, f, t); DONE; }
enum { BLOCK = 256, BLOCKS = 96 };
static volatile long pos_, lo_, hi_; static volatile int stepping; static int sig_, bad_; static long badpos_, deaths_; static bool known_; static S what_;
static int memfd_; static volatile bool is_child;
static bool sleeping(pid_t p) { char b[64], s[400]; snprintf(b, sizeof b, "/proc/%d/stat", (int) p); int f = open(b, O_RDONLY); if (f < 0) return false; long n = read(f, s, sizeof s - 1); close(f); if (n <= 0) return false; s[n] = 0; char *q = strrchr(s, ')'); return q && q[2] == 'S'; }
static void own_file() // the copy's standard error is a copy, too
{
	if (memfd_ < 0) return; char b[4096]; long n = pread(memfd_, b, sizeof b, 0); int f = memfd_create("copy", MFD_CLOEXEC); if (f < 0) _exit(9); if (n > 0 && write(f, b, n) != n) _exit(9);
	if (dup2(f, memfd_) < 0 || dup2(f, 2) < 0) _exit(9); close(f); fcntl(2, F_SETFL, O_APPEND);
}
static void trap(int, siginfo_t *, void *u)
{
	ucontext_t *uc = (ucontext_t *) u; if (!stepping) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ul; return; }
	int e = errno; long p = pos_++; if (p < lo_ || p >= hi_ || bad_) { errno = e; return; }
	pid_t c = syscall(SYS_clone, 0, 0, 0, 0, 0); // no SIGCHLD, which would interrupt, too; not fork(), which needs locks that the interrupted code may hold
	if (c == 0) { is_child = true; stepping = 0; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ul; own_file(); errno = e; syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig_); if (errno != e) _exit(7); return; } // goes on with the operation after the signal
	if (c < 0) { bad_ = 1; what_ = "fork"; errno = e; return; }
	deaths_++; int st, nap = 0; 
	for (long k = 0;; k++)
	{
		pid_t r = waitpid(c, &st, WNOHANG | __WALL); if (r == c) break; struct timespec ts = { 0, 20000 }; nanosleep(&ts, NULL);
		nap = sleeping(c) ? nap + 1 : 0;
		if (nap > 60 || k > 200000) { kill(c, SIGKILL); waitpid(c, &st, __WALL); st = -1; break; }
	}
	if (st != 0) { bool z = in_zone; if (st == -1 && z) known_ = true; else { bad_ = 1; badpos_ = p; what_ = st == -1 ? "the program hangs" : WIFEXITED(st) ? (WEXITSTATUS(st) == 7 ? "errno changes" : WEXITSTATUS(st) == 2 ? "the flags are wrong afterwards" : WEXITSTATUS(st) == 3 ? "the interrupted operation fails" : WEXITSTATUS(st) == 4 ? "the message is lost or split" : "the program ends") : "the program is killed"; } }
	errno = e;
}
static int flags() { return (coda_terminate ? 1 : 0) | (coda_changecfg ? 2 : 0) | (coda_rotatelog ? 4 : 0) | (coda_changebin ? 8 : 0); }
__attribute__((noinline)) static void step_on() { stepping = 1; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
__attribute__((noinline)) static void step_off() { __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); stepping = 0; }
static const char *const OPS[] = { "a log message", "a message that is not enabled", "masking a signal", "opening a log file", "the thread's name" };
SCENARIO("C29", "anywhere", QUICK, THOROUGH, "HUP and TERM (thorough: all five flagged signals) arriving at every single instruction of five operations, the signal's own message enabled or not, both set-ups: the operation completes, the flag is set, errno is kept")
{
	static const int SIGS[] = { SIGHUP, SIGTERM, SIGINT, SIGUSR1, SIGUSR2 }, BIT[] = { 2, 1, 1, 4, 8 }; int op = choose(5), si = choose(g().tier ? 5 : 2), talk = choose(2), blk = choose(BLOCKS), how = (op + si + talk) % 2; shard_here();
	struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL); struct sigaction old[65]; for (int s = 1; s < 65; s++) sigaction(s, NULL, &old[s]);
	MC_CHECK((how ? coda_signal_init() : coda_signal_init_norestart()) == 0, "the signal set-up fails");
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
	setenv("TZ", "UTC0", 1); tzset(); memfd_ = memfd_create("err", MFD_CLOEXEC); int keep = dup(2); dup2(memfd_, 2); static S path = S(getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp") + "/step.log"; S base = "P";
	log_level = LOG_debug; log_thread_name_set("nm"); log_info("warm"); if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET); fcntl(2, F_SETFL, O_APPEND);
	log_level = talk ? LOG_notice : LOG_warn; coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0; sig_ = SIGS[si]; pos_ = 0; lo_ = (long) blk * BLOCK; hi_ = lo_ + BLOCK; bad_ = 0; known_ = false; deaths_ = 0; in_zone = 0; what_ = ""; is_child = false; int rc = 0;
	char pb[300]; snprintf(pb, sizeof pb, "%s", path.c_str());
	if (op == 3) { close(memfd_); memfd_ = -1; }
	switch (op)
	{
	case 0: step_on(); log_error("hello %d of %s", 42, "world"); step_off(); break;
	case 1: step_on(); log_debug("hello %d of %s", 42, "world"); step_off(); break;
	case 2: step_on(); rc = coda_signal_mask(SIG_BLOCK, 1u << SIGUSR2); rc |= coda_signal_mask(SIG_UNBLOCK, 1u << SIGUSR2); step_off(); break;
	case 3: step_on(); rc = log_create(pb, log_level) == 2 ? 0 : -1; step_off(); break;
	default: step_on(); log_thread_name_set("other"); rc = log_thread_name_get() ? 0 : -1; step_off();
	}
	if (is_child)
	{
		// the copy that got the signal
		if (flags() != BIT[si]) _exit(2); if (rc) _exit(3);
		if (op == 0) { char b[2000]; int n = pread(memfd_, b, sizeof b - 1, 0); if (n < 0) n = 0; b[n] = 0; char *h = strstr(b, " error nm hello 42 of world\n"); if (!h || strstr(h + 12, "hello") || b[n - 1] != '\n') _exit(4); int lines = 0; for (int i = 0; i < n; i++) lines += b[i] == '\n'; if (lines != (talk ? 2 : 1)) _exit(4); }
		_exit(0);
	}
	dup2(keep, 2); close(keep); if (memfd_ >= 0) close(memfd_); unlink(path.c_str()); unsetenv("TZ"); for (int s = 1; s < 65; s++) if (s != SIGKILL && s != SIGSTOP) sigaction(s, &old[s], NULL); log_thread_name_set(NULL); log_level = LOG_info; coda_terminate = coda_changecfg = coda_rotatelog = coda_changebin = 0;
	z.it_interval.tv_sec = z.it_value.tv_sec = 1; setitimer(ITIMER_PROF, &z, NULL); long n = pos_; for (long i = 0; i < deaths_; i++) step(); if (deaths_) nontrivial();
	if (bad_ == 1 && what_ == "fork") internal_error("fork"); note("%s, signal %d, %s: %ld instructions, %ld with a signal%s", OPS[op], sig_, talk ? "logged" : "not logged", n, deaths_, known_ ? " (known finding)" : "");
if (n >= (long) BLOCK * BLOCKS) note("only the first %d instructions are covered", BLOCK * BLOCKS);
	MC_CHECK(!bad_, "signal %d at instruction %ld of %s: %s", sig_, badpos_, OPS[op], what_.c_str()); outcome(hmix(op, hmix(known_, deaths_)));
}
MC_MAIN
