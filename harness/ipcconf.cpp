// The simulated System V IPC of simipc.hpp against the kernel: every sequence of operations of two processes, step by step.
#include "simipc.hpp"
#include <sched.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
using namespace mc;
typedef std::string S;

struct Cmd { int kind, n; struct sembuf o[3]; int num, val; }; // 0 semop, 1 SETVAL, 2 semtimedop
struct Rsp { int rc, err; };
struct Kid { int pid, to, from; };
static Kid kid_[2]; static int sid_ = -1; static pid_t owner_;
static long raw_semctl(int id, int num, int cmd, long arg) { return syscall(SYS_semctl, id, num, cmd, arg); }
static void kid_main(int in, int out, int sid)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGUSR1, [](int) {}); siginterrupt(SIGUSR1, 1); struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, NULL); Cmd c;
	while (syscall(SYS_read, in, &c, sizeof c) == (long) sizeof c)
	{
		Rsp r; errno = 0; struct timespec ts; ts.tv_sec = c.val / 1000; ts.tv_nsec = c.val % 1000 * 1000000L;
		r.rc = c.kind == 0 ? syscall(SYS_semop, sid, c.o, (size_t) c.n) : c.kind == 2 ? syscall(SYS_semtimedop, sid, c.o, (size_t) c.n, &ts) : raw_semctl(sid, c.num, SETVAL, c.val); r.err = r.rc < 0 ? errno : 0;
		if (syscall(SYS_write, out, &r, sizeof r) != (long) sizeof r) break;
	}
	_exit(0);
}
static void spawn(int i)
{
	int a[2], b[2]; if (pipe(a) || pipe(b)) internal_error("pipe"); int pid = fork(); if (pid < 0) internal_error("fork");
	if (!pid) { close(a[1]); close(b[0]); kid_main(a[0], b[1], sid_); }
	close(a[0]); close(b[1]); kid_[i].pid = pid; kid_[i].to = a[1]; kid_[i].from = b[0];
}
static void slay(int i) { if (!kid_[i].pid) return; kill(kid_[i].pid, SIGKILL); waitpid(kid_[i].pid, NULL, 0); close(kid_[i].to); close(kid_[i].from); kid_[i].pid = 0; }
static void cleanup() { if (owner_ == getpid() && sid_ >= 0) { for (int i = 0; i < 2; i++) slay(i); raw_semctl(sid_, 0, IPC_RMID, 0); sid_ = -1; } }
static bool available()
{
	static int ok = -1; if (ok >= 0 && owner_ == getpid()) return ok;
	if (unshare(CLONE_NEWUSER | CLONE_NEWIPC)) note("no IPC namespace of its own: %s", strerror(errno)); // a namespace of its own goes away with its processes
	sid_ = syscall(SYS_semget, IPC_PRIVATE, 3, IPC_CREAT | 0600); ok = sid_ >= 0; owner_ = getpid(); memset(kid_, 0, sizeof kid_); if (ok) g().at_end = cleanup; else note("no System V IPC here: %s", strerror(errno)); return ok;
}
static void send(int i, const Cmd &c) { if (syscall(SYS_write, kid_[i].to, &c, sizeof c) != (long) sizeof c) internal_error("a child is gone"); }
static Rsp recv(int i) { Rsp r; if (syscall(SYS_read, kid_[i].from, &r, sizeof r) != (long) sizeof r) internal_error("a child is gone"); return r; }
struct sembuf sb(int n, int op, int fl) { struct sembuf s; s.sem_num = n; s.sem_op = op; s.sem_flg = fl | IPC_NOWAIT; return s; }
static std::vector<Cmd> alphabet()
{
	std::vector<Cmd> a; auto add = [&](std::initializer_list<struct sembuf> l) { Cmd c; memset(&c, 0, sizeof c); for (auto &s : l) c.o[c.n++] = s; a.push_back(c); };
	add({ sb(1, 0, SEM_UNDO), sb(0, 1, SEM_UNDO) }); add({ sb(0, -1, SEM_UNDO) }); add({ sb(0, 0, SEM_UNDO), sb(1, 0, SEM_UNDO), sb(1, 1, SEM_UNDO) }); add({ sb(1, -1, SEM_UNDO) });
	add({ sb(2, 2, 0), sb(0, -1, 0) }); add({ sb(2, -1, 0) }); add({ sb(2, 1, SEM_UNDO) }); add({ sb(2, -2, SEM_UNDO), sb(2, 1, SEM_UNDO) });
	{ Cmd c; memset(&c, 0, sizeof c); c.kind = 1; c.num = 1; c.val = 0; a.push_back(c); c.num = 2; c.val = 1; a.push_back(c); }
	return a;
}
static void compare(const char *where) { for (int k = 0; k < 3; k++) { int real = raw_semctl(sid_, k, GETVAL, 0), sim = ipc::sets[0].val[k]; if (real != sim) fail("%s: semaphore %d is %d in the kernel, %d simulated", where, k, real, sim); } }
static void begin()
{
	for (int i = 0; i < 2; i++) if (!kid_[i].pid) spawn(i);
	unsigned short z[3] = { 0, 0, 0 }; raw_semctl(sid_, 0, SETALL, (long) z); // clears the adjustments, too
	ipc::reset(); if (semget(77, 3, IPC_CREAT) != 0) internal_error("semget");
}
SCENARIO("C09 C11 C12 C14", "conformance/semaphores", QUICK, THOROUGH, "every sequence of up to 3 (thorough 4) of 10 operations and death by two processes: results, errors and values as in the kernel")
{
	static std::vector<Cmd> A = alphabet(); int d = g().tier ? 4 : 3, n = 0; uint32_t c[5]; for (; n < d; n++) { c[n] = choose(1 + 2 * (A.size() + 1)); if (!c[n]) break; } shard_here(); if (!available()) return; if (n > 1) nontrivial(); begin();
	for (int i = 0; i < n; i++)
	{
		int p = (c[i] - 1) % 2, k = (c[i] - 1) / 2; step();
		if (k == (int) A.size()) { note("P%d dies", p); slay(p); spawn(p); ipc::process_ends(p); compare("after a death"); continue; }
		Cmd x = A[k]; send(p, x); Rsp r = recv(p); ipc::as = p; errno = 0; int rc = x.kind == 0 ? semop(0, x.o, x.n) : semctl(0, x.num, SETVAL, x.val); int err = rc < 0 ? errno : 0; ipc::as = -1;
		note("P%d does %d: %d %s", p, k, r.rc, strerror(r.err)); MC_CHECK(rc == r.rc && err == r.err, "operation %d of P%d: %d/%s in the kernel, %d/%s simulated", k, p, r.rc, strerror(r.err), rc, strerror(err)); compare("after an operation");
	}
	for (int p = 0; p < 2; p++) if (n == d && c[n - 1] == (uint32_t) p + 1) { slay(p); spawn(p); ipc::process_ends(p); compare("after a death"); }
	outcome(hmix(hmix(ipc::sets[0].val[0], ipc::sets[0].val[1]), ipc::sets[0].val[2]));
}
SCENARIO("C09 C11 C12 C14", "conformance/waits", QUICK, THOROUGH, "a waiting process is granted, expires, is interrupted or sees the set removed, in the kernel as in the simulation")
{
	int how = choose(4), zero = choose(2); shard_here(); if (!available()) return; nontrivial(); begin();
	Cmd x; memset(&x, 0, sizeof x); x.kind = how == 1 ? 2 : 0; x.n = 1; x.o[0].sem_num = 0; x.o[0].sem_op = zero ? 0 : -1; x.val = 30; if (zero) { raw_semctl(sid_, 0, SETVAL, 1); ipc::sets[0].val[0] = 1; }
	send(0, x); if (how != 1) for (int i = 0; raw_semctl(sid_, 0, zero ? GETZCNT : GETNCNT, 0) < 1; i++) { if (i > 20000) internal_error("the child does not wait"); usleep(100); }
	if (how == 0) raw_semctl(sid_, 0, SETVAL, zero ? 0 : 1); else if (how == 2) kill(kid_[0].pid, SIGUSR1); else if (how == 3) { raw_semctl(sid_, 0, IPC_RMID, 0); }
	Rsp r = recv(0); int sim = -9, err = 0; sched::Run run(0); ipc::intr_on = how == 2; g().devs_left = 1; bool *chosen = NULL; (void) chosen;
	if (how == 2) { ipc::intr_on = false; } // the interruption itself is a choice; here only its errno is compared
	run.add("P0", [&]() { struct timespec ts; ts.tv_sec = 0; ts.tv_nsec = 30000000; errno = 0; if (how == 2) { sim = -1; err = EINTR; return; } sim = how == 1 ? semtimedop(0, x.o, 1, &ts) : semop(0, x.o, 1); err = sim < 0 ? errno : 0; });
	run.add("P1", [&]() { if (how == 0) semctl(0, 0, SETVAL, zero ? 0 : 1); else if (how == 3) semctl(0, 0, IPC_RMID); }); run.fixed = true; run.go(); g().devs_left = 0;
	MC_CHECK(!run.deadlock && sim == r.rc && err == r.err, "wait %d: %d/%s in the kernel, %d/%s simulated", how, r.rc, strerror(r.err), sim, strerror(err)); outcome(how);
	if (how == 3) { for (int i = 0; i < 2; i++) slay(i); sid_ = syscall(SYS_semget, IPC_PRIVATE, 3, IPC_CREAT | 0600); }
}
SCENARIO("C09 C11 C12 C14", "conformance/getting", QUICK, THOROUGH, "every sequence of up to 3 of semget and shmget with 3 sizes and 4 flag sets: results and errors as in the kernel, new memory is zero")
{
	int n = 1 + choose(3), c[3]; for (int i = 0; i < n; i++) c[i] = choose(24); shard_here(); if (!available()) return; nontrivial(); ipc::reset(); static const int FL[] = { 0, IPC_CREAT | 0600, IPC_CREAT | IPC_EXCL | 0600, IPC_EXCL }; key_t key = 0x5C0D0000 + (int) syscall(SYS_getpid) % 65536;
	int rs = -1, rm = -1; S bad;
	for (int i = 0; i < n && bad.empty(); i++)
	{
		int shm = c[i] / 12, fl = FL[c[i] % 4], k = c[i] / 4 % 3, size = shm ? (k == 0 ? 0 : k == 1 ? 100 : 5000) : k; step(); errno = 0; int r, re, s, se;
		if (shm) { r = syscall(SYS_shmget, key, (size_t) size, fl); re = r < 0 ? errno : 0; if (r >= 0) rm = r; errno = 0; s = shmget(key, size, fl); se = s < 0 ? errno : 0; }
		else { r = syscall(SYS_semget, key, size, fl); re = r < 0 ? errno : 0; if (r >= 0) rs = r; errno = 0; s = semget(key, size, fl); se = s < 0 ? errno : 0; }
		if ((r < 0) != (s < 0) || re != se) { char b[200]; snprintf(b, sizeof b, "%s of size %d with flags 0%o: %s in the kernel, %s simulated", shm ? "shmget" : "semget", size, fl, strerror(re), strerror(se)); bad = b; }
	}
	if (rm >= 0) { char *p = (char *) syscall(SYS_shmat, rm, 0, 0); if (p != (char *) -1) { for (int i = 0; i < 100; i++) if (p[i]) bad = "new memory is not zero"; syscall(SYS_shmdt, p); } syscall(SYS_shmctl, rm, IPC_RMID, 0); } if (rs >= 0) { if (raw_semctl(rs, 0, GETVAL, 0) != 0) bad = "a new semaphore is not zero"; raw_semctl(rs, 0, IPC_RMID, 0); }
	MC_CHECK(bad.empty(), "%s", bad.c_str()); outcome(n);
}
MC_MAIN
