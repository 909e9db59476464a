// simipc.hpp -- System V semaphores and shared memory between the coroutines of sched.hpp, each coroutine being a process.
//
// Semantics of the Linux kernel: a semop array is atomic, waits as a whole and reports EAGAIN/EINTR/EIDRM/EFBIG/ERANGE/EINVAL;
// SEM_UNDO adjustments belong to (process, semaphore), are applied when the process ends and cleared by SETVAL/SETALL; new
// semaphores are 0, new segments are zero.  Each process attaches a segment at an address of its own, and loads and stores of
// attached memory are scheduling points.  Timed waits may expire and interruptible waits may (as a deviation) be interrupted
// at any time at which they cannot proceed.  harness/ipcconf.cpp compares all of this with the kernel.
#pragma once
#include "sched.hpp"
#include <map>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace ipc {
enum { NP = sched::MAXC + 1, NSETS = 6, NSEGS = 4, NSEM = 4, SEGSMALL = 65536, SEGBIG = 16 << 20 };
struct Set { bool alive; key_t key; int n, val[NSEM], pid[NSEM], adj[NP][NSEM]; bool operated; int waiters; };
struct Seg { bool alive; key_t key; size_t size, max; int fd; bool attached[NP]; void *map[NP]; bool open_[NP]; bool doomed; };
static Set sets[NSETS]; static Seg segs[NSEGS];
static bool faults_on;                 // any call may fail (a deviation)
static bool intr_on;                   // waits may be interrupted (a deviation)
static int faults;                     // of this execution
static std::string what;
static uint64_t slept_us[NP];          // waited by expired timed waits
static int contended;                  // waits of this execution
static size_t limit = (size_t) 1 << 30; // larger segments are refused
static void (*on_wait)(int proc, int set, int sem);

static int as = -1;                    // the main context acts as this process
MC_NOINSTR static int me() { return as >= 0 && sched::id() < 0 ? as : sched::id() < 0 ? NP - 1 : sched::id(); }
struct Quiet { Quiet() { sched::quiet++; } ~Quiet() { sched::quiet--; } };
static const char *who() { return sched::me ? sched::me->name : "main"; }

static void drop(int s, int p)
{
	Seg &g = segs[s]; if (!g.attached[p]) return; g.attached[p] = false; sched::region_del(g.map[p]);
	if (g.open_[p]) { mprotect(g.map[p], g.max, PROT_NONE); g.open_[p] = false; }
	if (g.doomed) { bool any = false; for (int i = 0; i < NP; i++) any = any || g.attached[i]; if (!any) { g.alive = false; g.doomed = false; } }
}
static void inside(void *p, unsigned n, bool w) // accesses stay within the segment
{
	for (int s = 0; s < NSEGS; s++) for (int q = 0; q < NP; q++) if (segs[s].attached[q] && (char *) p >= (char *) segs[s].map[q] && (char *) p < (char *) segs[s].map[q] + segs[s].max)
	{
		size_t off = (char *) p - (char *) segs[s].map[q];
		if (off + n > segs[s].size) mc::fail("%s outside of the shared memory: offset %zu, size %zu", w ? "a store" : "a load", off, segs[s].size);
		if (q != me()) mc::fail("a process uses the address at which another process attached the memory");
	}
}
static void reset()
{
	sched::access_hook = inside; as = -1;
	for (int i = 0; i < NSETS; i++) memset(&sets[i], 0, sizeof sets[i]);
	for (int s = 0; s < NSEGS; s++) { for (int p = 0; p < NP; p++) drop(s, p); segs[s].alive = segs[s].doomed = false; }
	memset(slept_us, 0, sizeof slept_us); faults = contended = 0; what.clear(); sched::nregions = 0;
}
static void process_ends(int p) // what the kernel does: undo and detach
{
	for (int i = 0; i < NSETS; i++) if (sets[i].alive) for (int k = 0; k < sets[i].n; k++) { int &v = sets[i].val[k]; v += sets[i].adj[p][k]; sets[i].adj[p][k] = 0; if (v < 0) v = 0; if (v > 32767) v = 32767; }
	for (int s = 0; s < NSEGS; s++) drop(s, p);
}
static int attachments(int s) { int n = 0; for (int p = 0; p < NP; p++) n += segs[s].attached[p]; return n; }
static bool attached(int p) { for (int s = 0; s < NSEGS; s++) if (segs[s].attached[p]) return true; return false; }

static int enter(const char *name, std::initializer_list<int> errs)
{
	if (mc::g().in_fail) return 0;
	sched::point(name);
	Quiet q;
	if (!faults_on || !sched::active()) return 0;
	uint32_t k = mc::choose_dev(1 + errs.size()); if (!k) return 0;
	int e = errs.begin()[k - 1]; faults++; what += std::string(what.empty() ? "" : ", ") + who() + "'s " + name + ": " + strerror(e); mc::note("%s fails: %s", name, strerror(e));
	return e;
}
#define IPC_FAIL(name, ...) do { int e_ = ipc::enter(name, { __VA_ARGS__ }); if (e_) { errno = e_; return -1; } } while (0)
#define IPC_FAILP(name, ...) do { int e_ = ipc::enter(name, { __VA_ARGS__ }); if (e_) { errno = e_; return (void *) -1; } } while (0)

// flags nobody set hold the compiler's fill pattern: taken as no flags (the fill happens to contain SEM_UNDO, a fortunate value)
static short flags_of(const struct sembuf &o) { return (unsigned short) o.sem_flg == 0xFEFE ? 0 : o.sem_flg; }
// 0: done, 1: would wait, else an error
static int attempt(int id, int p, const struct sembuf *o, unsigned n, bool commit, bool &nowait)
{
	Set &s = sets[id]; int v[NSEM]; memcpy(v, s.val, sizeof v); nowait = false;
	for (unsigned i = 0; i < n; i++)
	{
		int &x = v[o[i].sem_num];
		if (o[i].sem_op == 0) { if (x) { nowait = flags_of(o[i]) & IPC_NOWAIT; return 1; } }
		else if (x + o[i].sem_op < 0) { nowait = flags_of(o[i]) & IPC_NOWAIT; return 1; }
		else if (x + o[i].sem_op > 32767) return ERANGE;
		else x += o[i].sem_op;
	}
	if (!commit) return 0;
	for (unsigned i = 0; i < n; i++) { s.val[o[i].sem_num] += o[i].sem_op; if (flags_of(o[i]) & SEM_UNDO) s.adj[p][o[i].sem_num] -= o[i].sem_op; s.pid[o[i].sem_num] = p + 1; }
	s.operated = true;
	return 0;
}
static bool holds(int id) { if (id < 0 || id >= NSETS) return false; for (int k = 0; k < sets[id].n; k++) if (sets[id].adj[me()][k]) return true; return false; }
static int op(int id, const struct sembuf *ops, size_t n, const struct timespec *ts)
{
	Quiet q; int p = me();
	if (!n || n > 500) { errno = n ? E2BIG : EINVAL; return -1; }
	if (id < 0 || id >= NSETS || !sets[id].alive) { errno = EINVAL; return -1; }
	if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) { errno = EINVAL; return -1; }
	for (size_t i = 0; i < n; i++) if (ops[i].sem_num >= sets[id].n) { errno = EFBIG; return -1; }
	struct sembuf o[8]; if (n > 8) mc::internal_error("semop of %zu operations", n); memcpy(o, ops, n * sizeof *o); // the caller's memory is not read while it waits
	bool nowait; int r = attempt(id, p, o, n, true, nowait);
	if (r == 1 && nowait) { errno = EAGAIN; return -1; }
	if (r == 1)
	{
		contended++; bool intr = intr_on && mc::choose_dev(2), timed = ts; int w = -1;
		for (size_t i = 0; i < n; i++) if (w < 0 && (o[i].sem_op ? sets[id].val[o[i].sem_num] + o[i].sem_op < 0 : sets[id].val[o[i].sem_num] != 0)) w = o[i].sem_num;
		if (on_wait) on_wait(p, id, w);
		if (intr) mc::note("%s will be interrupted", who());
		sets[id].waiters++;
		auto ready = [=]() { bool x; return !sets[id].alive || attempt(id, p, o, n, false, x) != 1; };
		if (intr || timed) sched::wait_open("semop"); else sched::block("semop", ready);
		sets[id].waiters--;
		if (!sets[id].alive) { errno = EIDRM; return -1; }
		r = attempt(id, p, o, n, true, nowait);
		if (r == 1 && intr) { mc::note("%s is interrupted", who()); errno = EINTR; faults++; what += std::string(what.empty() ? "" : ", ") + who() + "'s wait is interrupted"; return -1; }
		if (r == 1 && timed) { slept_us[p] += ts->tv_sec * 1000000ull + ts->tv_nsec / 1000; mc::note("%s's wait expires", who()); errno = EAGAIN; return -1; }
		if (r == 1) mc::internal_error("resumed too early");
	}
	if (r > 1) { errno = r; return -1; }
	if (mc::g().tracing) { std::string s; for (size_t i = 0; i < n; i++) s += " " + std::to_string(o[i].sem_num) + ":" + std::to_string(o[i].sem_op); mc::note("%s: semop%s -> %d %d", who(), s.c_str(), sets[id].val[0], sets[id].val[1]); }
	return 0;
}
} // namespace ipc

extern "C" {
key_t ftok(const char *fn, int proj) noexcept
{
	IPC_FAIL("ftok", EACCES); ipc::Quiet q;
	if (strstr(fn, "missing")) { errno = ENOENT; return -1; }
	return (key_t) (mc::hbytes(7, fn, strlen(fn)) % 1000) * 256 + (proj & 255) + 1;
}
int semget(key_t k, int n, int fl) noexcept
{
	IPC_FAIL("semget", EACCES, ENOSPC); ipc::Quiet q; using namespace ipc;
	if (n < 0) { errno = EINVAL; return -1; }
	if (k != IPC_PRIVATE) for (int i = 0; i < NSETS; i++) if (sets[i].alive && sets[i].key == k)
	{
		if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
		if (n > sets[i].n) { errno = EINVAL; return -1; }
		return i;
	}
	if (!(fl & IPC_CREAT) && k != IPC_PRIVATE) { errno = ENOENT; return -1; }
	if (n == 0) { errno = EINVAL; return -1; }
	if (n > NSEM) mc::internal_error("a set of %d semaphores", n);
	for (int i = 0; i < NSETS; i++) if (!sets[i].alive && !sets[i].operated) { memset(&sets[i], 0, sizeof sets[i]); sets[i].alive = true; sets[i].key = k; sets[i].n = n; mc::note("%s creates the semaphores", who()); return i; }
	errno = ENOSPC; return -1;
}
// taking a lock may fail; an operation of a process that already has adjustments (it holds a lock) does not
#define IPC_FAILOP(name) do { int e_ = ipc::holds(id) ? ipc::enter(name, {}) : ipc::enter(name, { ENOSPC, EACCES }); if (e_) { errno = e_; return -1; } } while (0)
int semop(int id, struct sembuf *o, size_t n) noexcept { IPC_FAILOP("semop"); return ipc::op(id, o, n, NULL); }
int semtimedop(int id, struct sembuf *o, size_t n, const struct timespec *ts) noexcept { IPC_FAILOP("semtimedop"); return ipc::op(id, o, n, ts); }
int semctl(int id, int num, int cmd, ...) noexcept
{
	va_list ap; va_start(ap, cmd); union { int val; void *buf; unsigned short *array; } u; u.buf = va_arg(ap, void *); va_end(ap);
	if (cmd == IPC_RMID) ipc::enter("semctl", {}); else IPC_FAIL("semctl", EACCES);
	ipc::Quiet q; using namespace ipc;
	if (id < 0 || id >= NSETS || !sets[id].alive) { errno = EINVAL; return -1; }
	Set &s = sets[id]; bool per = cmd == GETVAL || cmd == SETVAL || cmd == GETPID || cmd == GETNCNT || cmd == GETZCNT;
	if (per && (num < 0 || num >= s.n)) { errno = EINVAL; return -1; }
	switch (cmd)
	{
	case GETVAL: return s.val[num];
	case SETVAL: if (u.val < 0 || u.val > 32767) { errno = ERANGE; return -1; } s.val[num] = u.val; s.pid[num] = me() + 1; for (int p = 0; p < NP; p++) s.adj[p][num] = 0; mc::note("%s: SETVAL %d := %d", who(), num, u.val); return 0;
	case GETALL: for (int i = 0; i < s.n; i++) u.array[i] = s.val[i]; return 0;
	case SETALL: for (int i = 0; i < s.n; i++) { s.val[i] = u.array[i]; for (int p = 0; p < NP; p++) s.adj[p][i] = 0; } return 0;
	case GETPID: return s.pid[num];
	case GETNCNT: case GETZCNT: return s.waiters;
	case IPC_RMID: s.alive = false; s.operated = true; mc::note("%s removes the semaphores", who()); return 0; // the slot is not used again: waiters see EIDRM
	case IPC_STAT: { struct semid_ds *d = (struct semid_ds *) u.buf; memset(d, 0, sizeof *d); d->sem_nsems = s.n; d->sem_otime = s.operated ? 1 : 0; d->sem_perm.mode = 0666; return 0; }
	case IPC_SET: return 0;
	}
	errno = EINVAL; return -1;
}
int shmget(key_t k, size_t n, int fl) noexcept
{
	IPC_FAIL("shmget", EACCES, ENOSPC); ipc::Quiet q; using namespace ipc;
	if (k != IPC_PRIVATE) for (int i = 0; i < NSEGS; i++) if (segs[i].alive && !segs[i].doomed && segs[i].key == k)
	{
		if ((fl & IPC_CREAT) && (fl & IPC_EXCL)) { errno = EEXIST; return -1; }
		if (n > segs[i].size) { errno = EINVAL; return -1; }
		return i;
	}
	if (!(fl & IPC_CREAT) && k != IPC_PRIVATE) { errno = ENOENT; return -1; }
	if (n == 0) { errno = EINVAL; return -1; }
	if (n > limit) { errno = ENOMEM; return -1; }
	for (int i = 0; i < NSEGS; i++) if (!segs[i].alive)
	{
		Seg &s = segs[i]; s.alive = true; s.doomed = false; s.key = k; s.size = n;
		size_t max = n > SEGBIG ? (n + 4095) & ~size_t(4095) : n > SEGSMALL ? SEGBIG : SEGSMALL; // what is larger is sparse, and made anew each time
		if (s.map[0] && (s.max != max || max > SEGBIG)) { for (int p = 0; p < NP; p++) { munmap(s.map[p], s.max); s.map[p] = NULL; s.open_[p] = false; } close(s.fd); }
		if (!s.map[0])
		{
			s.max = max;
			s.fd = syscall(SYS_memfd_create, "seg", 0); if (s.fd < 0 || ftruncate(s.fd, max)) mc::internal_error("no memfd");
			for (int p = 0; p < NP; p++) { s.map[p] = mmap(NULL, max, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, s.fd, 0); if (s.map[p] == MAP_FAILED) mc::internal_error("no mapping"); mprotect(s.map[p], s.max, PROT_NONE); }
			// the explorer's own view
			s.open_[NP - 1] = false;
		}
		int p = NP - 1; if (!s.open_[p]) { mprotect(s.map[p], s.max, PROT_READ | PROT_WRITE); s.open_[p] = true; }
		char *m = (char *) s.map[p]; if (max <= SEGBIG) for (size_t j = 0; j < (n + 7) / 8; j++) ((volatile uint64_t *) m)[j] = 0;
		mc::note("%s creates the segment", who()); return i;
	}
	errno = ENOSPC; return -1;
}
void *shmat(int id, const void *a, int) noexcept
{
	IPC_FAILP("shmat", ENOMEM, EACCES); ipc::Quiet q; using namespace ipc;
	if (id < 0 || id >= NSEGS || !segs[id].alive || a) { errno = EINVAL; return (void *) -1; }
	Seg &s = segs[id]; int p = me(); if (s.attached[p]) mc::internal_error("attached twice by one process: not simulated");
	if (!s.open_[p]) { mprotect(s.map[p], s.max, PROT_READ | PROT_WRITE); s.open_[p] = true; }
	s.attached[p] = true; sched::region_add(s.map[p], s.max, "shm"); return s.map[p];
}
int shmdt(const void *a) noexcept
{
	IPC_FAIL("shmdt"); ipc::Quiet q; using namespace ipc; int p = me();
	for (int i = 0; i < NSEGS; i++) if (segs[i].attached[p] && segs[i].map[p] == a) { drop(i, p); mc::note("%s detaches", who()); return 0; }
	errno = EINVAL; return -1;
}
int shmctl(int id, int cmd, struct shmid_ds *d) noexcept
{
	IPC_FAIL("shmctl", EACCES); ipc::Quiet q; using namespace ipc;
	if (id < 0 || id >= NSEGS || !segs[id].alive) { errno = EINVAL; return -1; }
	Seg &s = segs[id];
	if (cmd == IPC_RMID) { if (attachments(id)) s.doomed = true; else s.alive = false; return 0; }
	if (cmd == IPC_STAT) { memset(d, 0, sizeof *d); d->shm_segsz = s.size; d->shm_nattch = attachments(id); d->shm_perm.mode = 0666; return 0; }
	errno = EINVAL; return -1;
}
// block copies touch shared memory in up to four pieces
MC_NOINSTR static bool shared(const void *p) { for (int i = 0; i < sched::nregions; i++) if ((const char *) p >= sched::regions[i].b && (const char *) p < sched::regions[i].e) return true; return false; }
MC_NOINSTR static void raw_copy(char *d, const char *s, size_t n) { if (d <= s || d >= s + n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); else while (n--) ((volatile char *) d)[n] = s[n]; }
MC_NOINSTR static size_t piece(size_t n) { size_t k = ((n + 3) / 4 + 7) & ~size_t(7); return k ? k : 8; }
MC_NOINSTR void *memcpy(void *d, const void *s, size_t n) noexcept
{
	if (!sched::me || sched::quiet || (!shared(d) && !shared(s))) { raw_copy((char *) d, (const char *) s, n); return d; }
	size_t k = piece(n);
	for (size_t i = 0; i < n; i += k) { size_t m = n - i < k ? n - i : k; if (shared(s)) sched_access((char *) s + i, m, 0); else sched_access((char *) d + i, m, 1); raw_copy((char *) d + i, (const char *) s + i, m); }
	return d;
}
MC_NOINSTR void *memmove(void *d, const void *s, size_t n) noexcept { if (!sched::me || sched::quiet || (!shared(d) && !shared(s))) { raw_copy((char *) d, (const char *) s, n); return d; } return memcpy(d, s, n); }
MC_NOINSTR void *memset(void *d, int c, size_t n) noexcept
{
	char *p = (char *) d; size_t k = n ? n : 1; bool sh = sched::me && !sched::quiet && shared(d); if (sh) k = piece(n);
	for (size_t i = 0; i < n; i += k) { size_t m = n - i < k ? n - i : k; if (sh) sched_access(p + i, m, 1); char *q = p + i; size_t j = m; __asm__ volatile("rep stosb" : "+D"(q), "+c"(j) : "a"(c) : "memory"); }
	return d;
}
}
