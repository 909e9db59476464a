// sysfault.hpp -- system calls of the code under test as exploration points.
//
// The wrappers below replace the libc functions for the whole executable.  While sf::armed is set, each call
//  - runs sf::hook (a scheduler point, or another thread's work), and
//  - asks the explorer (a deviation, so bounded by devs_left) whether it fails, and with which error.
// Otherwise, and after that, the real system call is made.  Failing close() closes the descriptor, as Linux does.
#pragma once
#define MC_NO_RSS
#include "mc.hpp"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sf {
static bool armed;                       // calls are exploration points
static void (*hook)(const char *name);   // before the call
static void (*after)(const char *name, long a, long r); // after the call (even a failed one)
static int calls, faults, hard;          // of this execution (hard: not counting interruptions)
static int virtual_pid;                  // 0: the real one
static bool fail_close;                  // close may fail, too
static std::string what;                 // the injected failures, for messages
static bool fault_reads = true;
static int (*wait_flock)(int fd, int op); // a flock that may wait
static int repeat;                       // 1: remember the decisions of this run in script, 2: take them from there (and allocate nothing)
static uint32_t script[256]; static unsigned script_n, script_at;

static long sys(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return syscall(nr, a, b, c, d, e, f); }
static int enter(const char *name, std::initializer_list<int> errs)
{
	if (!armed || mc::g().in_fail) return 0;
	calls++;
	if (hook) { armed = false; hook(name); armed = true; }
	if (!errs.size()) return 0;
	if (repeat == 2) { uint32_t s = script_at < script_n ? script[script_at++] : 0; if (!s || s > errs.size()) return 0; return errs.begin()[s - 1]; }
	uint32_t k = mc::choose_dev(1 + errs.size());
	if (repeat == 1 && script_n < 256) script[script_n++] = k;
	if (!k) { mc::note("%s", name); return 0; }
	int e = errs.begin()[k - 1]; faults++; if (e != EINTR) hard++;
	what += std::string(what.empty() ? "" : ", ") + name + ": " + strerror(e);
	mc::note("%s fails: %s", name, strerror(e));
	return e;
}
static long leave(const char *name, long a, long r) { if (armed && after) { int e = errno; armed = false; after(name, a, r); armed = true; errno = e; } return r; }
struct Arm { Arm() { calls = faults = hard = 0; what.clear(); armed = true; } ~Arm() { armed = false; } };

// descriptor table: which numbers are open, on what
struct Fds
{
	enum { N = 40 };
	struct { bool open; dev_t d; ino_t i; int fl; } t[N];
	Fds()
	{
		memset(t, 0, sizeof t);
		for (int k = 0; k < N; k++)
		{
			struct stat st; long fl = sys(SYS_fcntl, k, F_GETFL);
			if (fl < 0 || sys(SYS_fstat, k, (long) &st) < 0) continue;
			t[k].open = true; t[k].d = st.st_dev; t[k].i = st.st_ino; t[k].fl = fl;
		}
	}
	std::string diff(const Fds &o, int except = -1) const // changes from this to o
	{
		std::string r; char b[80];
		for (int k = 0; k < N; k++)
		{
			if (k == except) continue;
			if (t[k].open != o.t[k].open) { snprintf(b, sizeof b, "descriptor %d %s; ", k, o.t[k].open ? "left open" : "closed"); r += b;
				if (o.t[k].open) { char l[300]; snprintf(b, sizeof b, "/proc/self/fd/%d", k); long n = sys(SYS_readlink, (long) b, (long) l, sizeof l); if (n > 0) r += "(" + std::string(l, n) + ") "; } }
			else if (t[k].open && (t[k].d != o.t[k].d || t[k].i != o.t[k].i)) { snprintf(b, sizeof b, "descriptor %d replaced; ", k); r += b; }
		}
		return r;
	}
	bool same(int k, dev_t d, ino_t i) const { return t[k].open && t[k].d == d && t[k].i == i; }
};
static std::string scratch() // a directory of this process, below MC_SCRATCH
{
	static std::string d; static int owner;
	if (d.empty() || owner != (int) sys(SYS_getpid))
	{
		if (!d.empty()) return d;
		owner = sys(SYS_getpid); const char *e = getenv("MC_SCRATCH"); char b[600];
		snprintf(b, sizeof b, "%s/s%d", e ? e : "/tmp", owner); d = b; sys(SYS_mkdir, (long) b, 0755);
	}
	return d;
}
static void wipe(const std::string &dir) // empties a directory below the scratch directory
{
	if (dir.find("/s") == std::string::npos) mc::internal_error("refusing to empty %s", dir.c_str());
	struct dent { ino64_t i; off64_t o; unsigned short l; unsigned char t; char n[1]; };
	long fd = sys(SYS_openat, AT_FDCWD, (long) dir.c_str(), O_RDONLY | O_DIRECTORY); if (fd < 0) return;
	char buf[8192]; long n;
	std::vector<std::string> names;
	while ((n = sys(SYS_getdents64, fd, (long) buf, sizeof buf)) > 0)
		for (long p = 0; p < n;) { dent *e = (dent *) (buf + p); if (strcmp(e->n, ".") && strcmp(e->n, "..")) names.push_back(e->n); p += e->l; }
	sys(SYS_close, fd);
	for (auto &s : names) { std::string p = dir + "/" + s; if (sys(SYS_unlink, (long) p.c_str()) < 0 && (errno == EISDIR || errno == EPERM)) { wipe(p); sys(SYS_rmdir, (long) p.c_str()); } }
}
static bool slurp(const std::string &fn, std::string &out)
{
	long fd = sys(SYS_openat, AT_FDCWD, (long) fn.c_str(), O_RDONLY); if (fd < 0) return false;
	out.clear(); char b[4096]; long n; while ((n = sys(SYS_read, fd, (long) b, sizeof b)) > 0) out.append(b, n);
	sys(SYS_close, fd); return true;
}
static void spit(const std::string &fn, const std::string &s)
{
	long fd = sys(SYS_openat, AT_FDCWD, (long) fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) mc::internal_error("cannot create %s", fn.c_str());
	if (sys(SYS_write, fd, (long) s.data(), s.size()) != (long) s.size()) mc::internal_error("cannot write %s", fn.c_str());
	sys(SYS_close, fd);
}
static int openraw(const std::string &fn, int fl) { return sys(SYS_openat, AT_FDCWD, (long) fn.c_str(), fl, 0644); }
static std::pair<dev_t, ino_t> ident(const std::string &fn) { struct stat st; if (sys(SYS_stat, (long) fn.c_str(), (long) &st) < 0) return std::make_pair((dev_t) 0, (ino_t) 0); return std::make_pair(st.st_dev, st.st_ino); }
struct Low0 // the lowest free descriptor is 0, as in a program started with its standard input closed
{
	bool on;
	Low0(bool o, bool keep = false) : on(o) { if (on) { sys(SYS_dup2, 0, 500); if (!keep) sys(SYS_close, 0); } }
	~Low0() { if (on) { sys(SYS_dup2, 500, 0); sys(SYS_close, 500); } }
};
} // namespace sf

#define SF_FAIL(name, ...) do { int e_ = sf::enter(name, { __VA_ARGS__ }); if (e_) { errno = e_; return sf::leave(name, -1, -1); } } while (0)

extern "C" {
int open(const char *p, int fl, ...)
{
	int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
	SF_FAIL("open", EACCES, EMFILE);
	return sf::leave("open", 0, sf::sys(SYS_openat, AT_FDCWD, (long) p, fl, mode));
}
int open64(const char *p, int fl, ...)
{
	int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
	SF_FAIL("open", EACCES, EMFILE);
	return sf::leave("open", 0, sf::sys(SYS_openat, AT_FDCWD, (long) p, fl, mode));
}
int openat(int d, const char *p, int fl, ...)
{
	int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
	SF_FAIL("open", EACCES, EMFILE);
	return sf::leave("open", 0, sf::sys(SYS_openat, d, (long) p, fl, mode));
}
int creat(const char *p, mode_t m) { SF_FAIL("creat", EACCES, EMFILE); return sf::leave("open", 0, sf::sys(SYS_creat, (long) p, m)); }
int close(int fd)
{
	int e = 0;
	if (sf::armed) e = sf::fail_close ? sf::enter("close", { EIO }) : sf::enter("close", {});
	long r = sf::sys(SYS_close, fd);
	if (e && r == 0) { errno = e; r = -1; }
	return sf::leave("close", fd, r);
}
int dup(int a) { SF_FAIL("dup", EMFILE); return sf::leave("dup", a, sf::sys(SYS_dup, a)); }
int dup2(int a, int b) { SF_FAIL("dup2", EBADF, EINTR, EMFILE); return sf::leave("dup2", a, sf::sys(SYS_dup2, a, b)); }
int dup3(int a, int b, int f) { SF_FAIL("dup3", EBADF, EINTR, EMFILE); return sf::leave("dup2", a, sf::sys(SYS_dup3, a, b, f)); }
int mkdir(const char *p, mode_t m) { SF_FAIL("mkdir", EACCES, ENOSPC); return sf::leave("mkdir", 0, sf::sys(SYS_mkdir, (long) p, m)); }
int flock(int fd, int op)
{
	if (op & LOCK_UN) SF_FAIL("flock(unlock)", EINTR); else if (op & LOCK_NB) SF_FAIL("flock", EWOULDBLOCK, ENOLCK); else SF_FAIL("flock", EINTR, ENOLCK);
	if (sf::wait_flock && sf::armed && !(op & (LOCK_UN | LOCK_NB))) return sf::leave("flock", fd, sf::wait_flock(fd, op));
	return sf::leave("flock", fd, sf::sys(SYS_flock, fd, op));
}
int fstat(int fd, struct stat *st) { SF_FAIL("fstat", EIO); return sf::leave("fstat", fd, sf::sys(SYS_fstat, fd, (long) st)); }
int fstat64(int fd, struct stat64 *st) { SF_FAIL("fstat", EIO); return sf::leave("fstat", fd, sf::sys(SYS_fstat, fd, (long) st)); }
int ftruncate(int fd, off_t n) { SF_FAIL("ftruncate", EIO, EFBIG); return sf::leave("ftruncate", fd, sf::sys(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { SF_FAIL("ftruncate", EIO, EFBIG); return sf::leave("ftruncate", fd, sf::sys(SYS_ftruncate, fd, n)); }
int unlink(const char *p) { SF_FAIL("unlink", EACCES); return sf::leave("unlink", 0, sf::sys(SYS_unlink, (long) p)); }
pid_t getpid() { return sf::armed && sf::virtual_pid ? sf::virtual_pid : sf::sys(SYS_getpid); }
ssize_t write(int fd, const void *b, size_t n)
{
	if (!sf::armed || mc::g().in_fail) return sf::sys(SYS_write, fd, (long) b, n);
	int e = n > 1 ? sf::enter("write", { ENOSPC, EINTR, -1 }) : sf::enter("write", { ENOSPC, EINTR });
	if (e == -1) return sf::leave("write", fd, sf::sys(SYS_write, fd, (long) b, n / 2)); // a partial write
	if (e) { errno = e; return sf::leave("write", fd, -1); }
	return sf::leave("write", fd, sf::sys(SYS_write, fd, (long) b, n));
}
}
// mmap, read, sockets: only in the harnesses that ask for them
#ifdef SF_MMAP
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
	if (sf::armed) { int e = sf::enter("mmap", { ENOMEM, EACCES }); if (e) { errno = e; return MAP_FAILED; } }
	return (void *) sf::sys(SYS_mmap, (long) a, n, pr, fl, fd, o);
}
extern "C" void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) { return mmap(a, n, pr, fl, fd, o); }
#endif
#ifdef SF_READ
extern "C" ssize_t read(int fd, void *b, size_t n) { if (sf::fault_reads) SF_FAIL("read", EIO, EINTR); return sf::sys(SYS_read, fd, (long) b, n); }
#endif
