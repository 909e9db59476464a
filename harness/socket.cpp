// C30: socket helpers on real loopback sockets; every system call may fail.
#include "sysfault.hpp"
#include <fcntl.h>
#include <poll.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <signal.h>

// system calls of the helpers
namespace sk { static std::vector<int> recv_plan; static size_t recv_pos; static bool plan; static int last_flags; static struct timeval last_to; static int last_to_len; }
extern "C" {
int socket(int d, int t, int p) noexcept { SF_FAIL("socket", EMFILE, ENOBUFS); return sf::leave("socket", 0, sf::sys(SYS_socket, d, t, p)); }
int ioctl(int fd, unsigned long rq, ...) noexcept { va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap); SF_FAIL("ioctl", ENOTTY); return sf::leave("ioctl", fd, sf::sys(SYS_ioctl, fd, rq, (long) a)); }
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept
{
	if (l == SOL_SOCKET && o == SO_RCVTIMEO && n == sizeof sk::last_to) { memcpy(&sk::last_to, v, n); sk::last_to_len = n; }
	SF_FAIL("setsockopt", ENOPROTOOPT); return sf::leave("setsockopt", fd, sf::sys(SYS_setsockopt, fd, l, o, (long) v, n));
}
int bind(int fd, const struct sockaddr *a, socklen_t n) noexcept { SF_FAIL("bind", EADDRINUSE, EACCES); return sf::leave("bind", fd, sf::sys(SYS_bind, fd, (long) a, n)); }
int listen(int fd, int b) noexcept { SF_FAIL("listen", EADDRINUSE); return sf::leave("listen", fd, sf::sys(SYS_listen, fd, b)); }
int accept(int fd, struct sockaddr *a, socklen_t *n) { SF_FAIL("accept", EMFILE, ECONNABORTED, EINTR); return sf::leave("accept", fd, sf::sys(SYS_accept, fd, (long) a, (long) n)); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { SF_FAIL("accept", EMFILE, ECONNABORTED, EINTR); return sf::leave("accept", fd, sf::sys(SYS_accept4, fd, (long) a, (long) n, f)); }
int connect(int fd, const struct sockaddr *a, socklen_t n) { SF_FAIL("connect", ECONNREFUSED, EINTR, ETIMEDOUT); return sf::leave("connect", fd, sf::sys(SYS_connect, fd, (long) a, n)); }
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); if (c == F_SETFL) SF_FAIL("fcntl", EBADF); return sf::leave("fcntl", fd, sf::sys(SYS_fcntl, fd, c, a)); }
ssize_t recv(int fd, void *b, size_t n, int fl)
{
	if (sk::plan)
	{
		if (sk::recv_pos >= sk::recv_plan.size()) { errno = ENOSYS; sk::recv_pos++; return -1; }
		int x = sk::recv_plan[sk::recv_pos++]; sk::last_flags = fl; if (x < 0) { errno = -x; return -1; }
		if ((size_t) x > n) x = n; memset(b, 'd', x); return x;
	}
	return sf::sys(SYS_recvfrom, fd, (long) b, n, fl, 0, 0);
}
}
#include <inttypes.h>
extern "C" {
#include "coda/socket.h"
}
using namespace mc;
typedef std::string S;
static const char *W() { static S r; r = sf::what.empty() ? S("no failure") : "failing " + sf::what; return r.c_str(); }

// ------------------------------------------------------------------ addresses
static void addr(const S &t)
{
	char *p = (char *) malloc(t.size() ? t.size() : 1); memcpy(p, t.data(), t.size()); step();
	in_addr_t r = coda_inet_addr(p, t.size()); free(p);
	int n = 0, v = 0, dig = 0; bool ok = true; unsigned long a = 0;
	for (size_t i = 0; i <= t.size() && ok; i++)
	{
		char c = i < t.size() ? t[i] : '.';
		if (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); dig++; if (v > 255) ok = false; }
		else if (c == '.') { if (!dig) ok = false; a = a * 256 + v; n++; v = dig = 0; } else ok = false;
	}
	if (n != 4) ok = false;
	in_addr_t want = INADDR_NONE; unsigned char o[4] = { (unsigned char) (a >> 24), (unsigned char) (a >> 16), (unsigned char) (a >> 8), (unsigned char) a }; if (ok) { memcpy(&want, o, 4); nontrivial(); }
	MC_CHECK(r == want, "coda_inet_addr(%s) is %08x, expected %08x", show(t).c_str(), r, want);
	// the same inside a longer text
	S l = "1" + t + "1.2.3.4"; r = coda_inet_addr(l.data() + 1, t.size()); MC_CHECK(r == want, "coda_inet_addr(%s, %zu) is %08x, expected %08x", show(l.substr(1)).c_str(), t.size(), r, want);
}
SCENARIO("C30", "inet/short", QUICK, THOROUGH, "all texts of 0..8 (thorough 9) characters over {0 2 5 . x}")
{
	int n = choose(g().tier ? 10 : 9); S t; for (int i = 0; i < n; i++) t += "025.x"[choose(5)];
	addr(t);
}
SCENARIO("C30", "inet/octets", QUICK, THOROUGH, "1..6 octets out of 18 (thorough: 25) texts, first four free, others fixed, with 5 endings")
{
	static const char *const O[] = { "0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "", "00", "007", "0255", "1000", "999", "2550", "4294967296", "18446744073709551616", " 1", "+1" };
	int m = g().tier ? 25 : 18, n = 1 + choose(6), e = choose(5); S t;
	for (int i = 0; i < n; i++) { if (i) t += "."; t += i < 4 ? O[choose(m)] : "5"; }
	static const char *const E[] = { "", ".", "\0x", "x", " " }; if (e == 2) t.push_back(0); else t += E[e];
	addr(t);
}
SCENARIO("C30", "inet/huge", QUICK, THOROUGH, "each octet out of 40 long texts: 0..30 leading zeros, multiples of 2^8, 2^16, 2^32 and 2^64 plus small numbers, 4..40 digits; 35 lengths of 127..70000 zeros")
{
	static const char *const O[] = { "256", "257", "511", "512", "65535", "65536", "65537", "65791", "16777216", "16777217", "2147483648", "4294967295", "4294967296", "4294967297", "4294967551", "1099511627776", "9223372036854775808", "9223372036854775809",
		"18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551871", "36893488147419103232", "36893488147419103233", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457" };
	int k = choose(4), c = choose(3); S o; if (c == 0) o = O[choose(sizeof O / sizeof *O)]; else { o = S(c == 1 ? choose(31) : biglen(), '0'); static const char *const V[] = { "", "1", "255", "256", "300" }; o += V[choose(5)]; }
	S t; for (int i = 0; i < 4; i++) { if (i) t += "."; t += i == k ? o : std::to_string(i + 1); } addr(t);
}
SCENARIO("C30", "inet/values", QUICK, THOROUGH, "every value 0..300 of each octet, with every byte value after each octet")
{
	int k = choose(4), v = choose(301), c = choose(257) - 1; S t;
	for (int i = 0; i < 4; i++) { if (i) t += "."; t += i == k ? std::to_string(v) : std::to_string(i + 1); if (i == k && c >= 0) t.push_back((char) c); }
	addr(t);
}

// ------------------------------------------------------------------ real sockets
static S fdname(int fd) { struct sockaddr_in a; socklen_t n = sizeof a; if (getsockname(fd, (struct sockaddr *) &a, &n)) return "?"; return S(inet_ntoa(a.sin_addr)) + ":" + std::to_string(ntohs(a.sin_port)); }
static bool nonblocking(int fd) { return sf::sys(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK; }
static void drop(int fd) { struct linger l = { 1, 0 }; sf::sys(SYS_setsockopt, fd, SOL_SOCKET, SO_LINGER, (long) &l, sizeof l); sf::sys(SYS_close, fd); }
static int rawlisten(int *port)
{
	int s = sf::sys(SYS_socket, AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001);
	if (s < 0 || sf::sys(SYS_bind, s, (long) &a, sizeof a) < 0 || sf::sys(SYS_listen, s, 5) < 0) internal_error("no loopback network: %s", strerror(errno));
	socklen_t n = sizeof a; getsockname(s, (struct sockaddr *) &a, &n); *port = ntohs(a.sin_port); return s;
}
static int rawconnect(int port, unsigned from = 0x7f000001)
{
	int s = sf::sys(SYS_socket, AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(from);
	if (s < 0 || sf::sys(SYS_bind, s, (long) &a, sizeof a) < 0) internal_error("bind");
	a.sin_addr.s_addr = htonl(0x7f000001); a.sin_port = htons(port); if (sf::sys(SYS_connect, s, (long) &a, sizeof a) < 0) internal_error("connect: %s", strerror(errno));
	return s;
}
static void clean() { sf::hook = NULL; sf::after = NULL; sf::fail_close = false; sk::plan = false; }
static void judge(const char *fn, int r, bool possible, const sf::Fds &before)
{
	sf::Fds now; step(sf::calls); if (sf::faults) nontrivial();
	S df = before.diff(now, r >= 0 ? r : -1);
	MC_CHECK(df.empty(), "%s returns %d with %s: %s", fn, r, W(), df.c_str());
	if (r < 0) MC_CHECK(sf::faults || !possible, "%s fails although every call succeeds (errno %d)", fn, errno);
	else { MC_CHECK(!sf::hard, "%s reports success with %s", fn, W()); MC_CHECK(possible, "%s succeeds although it cannot", fn); MC_CHECK(!before.t[r].open && now.t[r].open, "%s returns %d, which is not a new open descriptor", fn, r); }
}
static bool readable(int fd) { struct pollfd p = { fd, POLLIN, 0 }; return poll(&p, 1, 3000) == 1; }
SCENARIO("C30", "listen", QUICK, THOROUGH, "free port/taken port/address of another host, port 0 or explicit (with and without a leading zero), 2 addresses, blocking or not, standard input open or closed, every single and double failure; the socket then accepts a connection")
{
	clean(); int kind = choose(5), host = choose(2), nb = choose(2), bl = choose(2), z = choose(2); shard_here();
	const char *h = kind == 3 ? "192.0.2.1" : host ? "127.0.0.1" : "127.0.0.2"; int other = -1, port = 0; S ps = "0";
	if (kind == 1) { other = rawlisten(&port); ps = std::to_string(port); if (!host) { sf::sys(SYS_close, other); other = -1; } } // 1: taken on 127.0.0.1, 0: just released
	if (kind == 4) { other = rawlisten(&port); sf::sys(SYS_close, other); other = -1; ps = "0" + std::to_string(port); } // decimal all the same
	if (kind == 2) ps = "00000";
	bool possible = kind == 0 || kind == 2 || kind == 4 || (kind == 1 && !host);
	note("listen(%s, %s, %d, %d)", h, kind == 1 ? "taken" : ps.c_str(), bl ? 5 : 1, nb);
	sf::Low0 low0(z); sf::Fds before; g().devs_left = 2; int r; { sf::Arm arm; r = coda_listen(h, ps.c_str(), bl ? 5 : 1, nb); }
	judge("coda_listen", r, possible, before);
	if (r >= 0)
	{
		MC_CHECK(nonblocking(r) == (nb != 0), "the listening socket is %sblocking", nonblocking(r) ? "non-" : "");
		struct sockaddr_in a; socklen_t n = sizeof a; getsockname(r, (struct sockaddr *) &a, &n);
		MC_CHECK(a.sin_addr.s_addr == inet_addr(h) && (port == 0 || ntohs(a.sin_port) == port), "the socket listens at %s", fdname(r).c_str());
		int v = 0; n = sizeof v; getsockopt(r, SOL_SOCKET, SO_ACCEPTCONN, &v, &n); MC_CHECK(v, "the socket does not listen");
		n = sizeof v; getsockopt(r, SOL_SOCKET, SO_REUSEADDR, &v, &n); MC_CHECK(v, "the listening socket does not reuse its address");
		int c = sf::sys(SYS_socket, AF_INET, SOCK_STREAM, 0); MC_CHECK(sf::sys(SYS_connect, c, (long) &a, sizeof a) == 0, "no connection to the listening socket: %s", strerror(errno));
		MC_CHECK(readable(r), "the connection does not arrive"); int s = sf::sys(SYS_accept, r, 0, 0); MC_CHECK(s >= 0, "the connection cannot be accepted"); drop(s); sf::sys(SYS_close, c); sf::sys(SYS_close, r);
	}
	if (other >= 0) sf::sys(SYS_close, other);
}
SCENARIO("C30", "accept", QUICK, THOROUGH, "connection waiting/none (non-blocking listener), 3 client addresses, blocking or not, standard input open or closed, every single and double failure; bytes pass afterwards")
{
	clean(); int conn = choose(2), from = choose(3), nb = choose(2), lnb = choose(2), both = choose(2), z = choose(2); shard_here(); if (!conn && !lnb) return;
	static const unsigned A[] = { 0x7f000001, 0x7f000002, 0x7f010203 }; int port, l = rawlisten(&port), c = -1, c2 = -1;
	if (lnb) { int one = 1; sf::sys(SYS_ioctl, l, FIONBIO, (long) &one); }
	if (conn) { c = rawconnect(port, A[from]); if (both) c2 = rawconnect(port, A[(from + 1) % 3]); MC_CHECK(readable(l), "no connection"); }
	struct in_addr ip; ip.s_addr = 0x55555555; sf::Low0 low0(z); sf::Fds before; g().devs_left = 2; int r; { sf::Arm arm; r = coda_accept(l, &ip, nb); }
	judge("coda_accept", r, conn, before);
	if (r >= 0)
	{
		MC_CHECK(nonblocking(r) == (nb != 0), "the accepted socket is %sblocking", nonblocking(r) ? "non-" : "");
		MC_CHECK(ip.s_addr == htonl(A[from]), "the reported client is %s", inet_ntoa(ip));
		char b[8]; MC_CHECK(sf::sys(SYS_sendto, c, (long) "ping", 4, 0, 0, 0) == 4 && readable(r) && coda_unix_recv(r, b, 8) == 4 && !memcmp(b, "ping", 4), "bytes from the client do not arrive");
		MC_CHECK(coda_unix_send(r, b, 4) == 4 && sf::sys(SYS_recvfrom, c, (long) b, 8, 0, 0, 0) == 4, "bytes to the client do not arrive");
		drop(r);
	}
	if (c >= 0) drop(c); if (c2 >= 0) drop(c2); sf::sys(SYS_close, l);
}
SCENARIO("C30", "connect", QUICK, THOROUGH, "listening/closed port, blocking or not, standard input open or closed, every single and double failure; bytes pass afterwards")
{
	clean(); int open_ = choose(2), nb = choose(2), ten = choose(2), z = choose(2); shard_here(); int port, l = rawlisten(&port); if (!open_) { sf::sys(SYS_close, l); l = -1; }
	S ps = std::to_string(port); if (ten) ps = "0" + ps; note("connect to a %s port, %s", open_ ? "listening" : "closed", nb ? "non-blocking" : "blocking");
	sf::Low0 low0(z); sf::Fds before; g().devs_left = 2; int r; { sf::Arm arm; r = coda_connect("127.0.0.1", ps.c_str(), nb); }
	if (!open_ && nb) { if (r >= 0) { drop(r); } else { sf::Fds now; MC_CHECK(before.diff(now).empty(), "coda_connect fails with %s: %s", W(), before.diff(now).c_str()); } return; } // refused now or later
	judge("coda_connect", r, open_, before);
	if (r >= 0)
	{
		MC_CHECK(nonblocking(r) == (nb != 0), "the connected socket is %sblocking", nonblocking(r) ? "non-" : "");
		struct pollfd p = { r, POLLOUT, 0 }; MC_CHECK(poll(&p, 1, 3000) == 1 && (p.revents & POLLOUT) && !(p.revents & POLLERR), "the connection is not established");
		MC_CHECK(readable(l), "the connection does not arrive"); int s = sf::sys(SYS_accept, l, 0, 0); struct sockaddr_in a; socklen_t n = sizeof a; getpeername(r, (struct sockaddr *) &a, &n);
		MC_CHECK(ntohs(a.sin_port) == port, "connected to %d", ntohs(a.sin_port));
		char b[8]; MC_CHECK(coda_unix_send(r, (void *) "abc", 3) == 3 && sf::sys(SYS_recvfrom, s, (long) b, 8, 0, 0, 0) == 3, "bytes do not arrive"); drop(s); drop(r);
	}
	if (l >= 0) sf::sys(SYS_close, l);
}
SCENARIO("C30", "connect/pending", QUICK, THOROUGH, "a non-blocking connection that stays in progress (full backlog), and a blocking one that must not be treated as such")
{
	clean(); int nb = 1; nontrivial();
	int s = sf::sys(SYS_socket, AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001);
	sf::sys(SYS_bind, s, (long) &a, sizeof a); sf::sys(SYS_listen, s, 0); socklen_t n = sizeof a; getsockname(s, (struct sockaddr *) &a, &n); S ps = std::to_string(ntohs(a.sin_port));
	std::vector<int> fds; bool pending = false;
	for (int k = 0; k < 6; k++)
	{
		sf::Fds before; errno = 0; int r; { sf::Arm arm; g().devs_left = 0; r = coda_connect("127.0.0.1", ps.c_str(), nb); } sf::Fds now;
		MC_CHECK(r >= 0, "a non-blocking connection fails: %s", strerror(errno)); step(); MC_CHECK(before.diff(now, r).empty(), "%s", before.diff(now, r).c_str());
		struct pollfd p = { r, POLLOUT, 0 }; if (poll(&p, 1, 20) == 0) pending = true; fds.push_back(r);
	}
	note(pending ? "one stays in progress" : "all complete"); for (int f : fds) drop(f); sf::sys(SYS_close, s);
}

// ------------------------------------------------------------------ receiving and sending
SCENARIO("C30", "recv/interrupted", QUICK, THOROUGH, "every sequence of up to 5 (thorough 7) interruptions followed by each of 9 results, with 4 buffer sizes")
{
	clean(); int n = choose(g().tier ? 8 : 6), e = choose(9), sz = choose(4); static const int E[] = { 0, 1, 3, 100, -EAGAIN, -ECONNRESET, -EBADF, -ENOTCONN, -ENOMEM }; static const int Z[] = { 0, 1, 4, 4096 };
	sk::recv_plan.assign(n, -EINTR); sk::recv_plan.push_back(E[e]); sk::recv_plan.push_back(-ENOSYS); sk::recv_pos = 0; nontrivial();
	char *b = (char *) malloc(Z[sz] ? Z[sz] : 1); errno = 0; sk::plan = true; int r = coda_unix_recv(7, b, Z[sz]); int err = errno; sk::plan = false; free(b); step(n + 1);
	int want = E[e] < 0 ? -1 : E[e] > Z[sz] ? Z[sz] : E[e];
	MC_CHECK(r == want && (r >= 0 || err == -E[e]), "after %d interruptions and the result %d, coda_unix_recv(%d) returns %d (errno %d)", n, E[e], Z[sz], r, err);
	MC_CHECK((int) sk::recv_pos == n + 1, "coda_unix_recv calls recv %zu times for %d interruptions", sk::recv_pos, n);
}
SCENARIO("C30", "transfer", QUICK, THOROUGH, "socket pairs: 6 message sizes x 5 buffer sizes, closed peers, empty non-blocking sockets; sending to a closed peer raises no signal")
{
	clean(); static const int MS[] = { 0, 1, 3, 100, 4096, 60000 }; static const int BS[] = { 1, 3, 100, 4096, 70000 };
	int type = choose(2), m = MS[choose(6)], bs = BS[choose(5)], st = choose(3); nontrivial(); int p[2]; if (sf::sys(SYS_socketpair, AF_UNIX, type ? SOCK_SEQPACKET : SOCK_STREAM, 0, (long) p)) internal_error("socketpair");
	struct Pair { int *p; ~Pair() { sf::sys(SYS_close, p[0]); if (p[1] >= 0) sf::sys(SYS_close, p[1]); } } guard = { p }; if (type && m == 0) m = 1;
	S x; for (int i = 0; i < m; i++) x += (char) (i * 7 + i / 256); std::vector<char> b(bs);
	MC_CHECK(coda_set_nonblk(p[0], 1) == 0 && nonblocking(p[0]), "coda_set_nonblk(1) does not make the socket non-blocking");
	errno = 0; int r = coda_unix_recv(p[0], b.data(), bs); MC_CHECK(r == -1 && (errno == EAGAIN || errno == EWOULDBLOCK), "receiving from an empty non-blocking socket returns %d (errno %d)", r, errno);
	MC_CHECK(coda_set_nonblk(p[0], 0) == 0 && !nonblocking(p[0]), "coda_set_nonblk(0) does not make the socket blocking");
	r = coda_unix_send(p[1], (void *) x.data(), x.size()); MC_CHECK(r == m, "sending %d bytes returns %d", m, r); step(2);
	if (st == 1) { sf::sys(SYS_close, p[1]); p[1] = -1; }
	if (m || st == 1) { r = coda_unix_recv(p[0], b.data(), bs); int want = bs < m ? bs : m; MC_CHECK(r == want && !memcmp(b.data(), x.data(), r), "receiving %d of %d bytes returns %d", bs, m, r); }
	if (st == 1 && (bs >= m || type)) { r = coda_unix_recv(p[0], b.data(), bs); MC_CHECK(r == 0, "receiving from a closed peer returns %d", r); }
	if (st == 1)
	{
		signal(SIGPIPE, SIG_DFL); static volatile int piped; piped = 0; struct H { static void h(int) { piped++; } }; signal(SIGPIPE, H::h); errno = 0; r = coda_unix_send(p[0], (void *) "x", 1); int e = errno; signal(SIGPIPE, SIG_DFL);
		MC_CHECK(r == -1 && e == EPIPE, "sending to a closed peer returns %d (errno %d)", r, e); MC_CHECK(!piped, "sending to a closed peer raises SIGPIPE");
	}
	if (st == 2) { MC_CHECK(coda_set_sckopt(p[0], SOL_SOCKET, SO_RCVBUF, 8000) == 0, "coda_set_sckopt fails"); int v = 0; socklen_t n = sizeof v; getsockopt(p[0], SOL_SOCKET, SO_RCVBUF, &v, &n); MC_CHECK(v == 16000, "SO_RCVBUF is %d after setting 8000", v); MC_CHECK(coda_set_sckopt(p[0], SOL_SOCKET, 99999, 1) < 0, "an unknown option can be set"); }
}
SCENARIO("C30", "timeout", QUICK, THOROUGH, "20 timeouts from 0 to 100000 seconds, and real waits of 20 to 30 ms")
{
	clean(); static const long T[] = { 0, 1, 999, 1000, 10000, 999999, 1000000, 1000001, 1500000, 1999999, 2000000, 2000001, 59999999, 60000000, 3600000000L, 4294967295L, 4294967296L, 100000000000L, 250000, 25000 };
	long t = T[choose(20)]; int again = choose(2); nontrivial(); int p[2]; if (sf::sys(SYS_socketpair, AF_UNIX, SOCK_STREAM, 0, (long) p)) internal_error("socketpair");
	struct Pair { int *p; ~Pair() { sf::sys(SYS_close, p[0]); sf::sys(SYS_close, p[1]); } } guard = { p };
	if (again) MC_CHECK(coda_set_socket_timeout(p[0], 7000000) == 0, "a timeout of 7 s is rejected");
	int r = coda_set_socket_timeout(p[0], t); step(); MC_CHECK(r == 0, "a timeout of %ld us is rejected", t);
	struct timeval v; memset(&v, 0, sizeof v); socklen_t n = sizeof v; getsockopt(p[0], SOL_SOCKET, SO_RCVTIMEO, &v, &n);
	// the kernel rounds up to its clock tick
	long long got = v.tv_sec * 1000000LL + v.tv_usec; MC_CHECK(t == 0 ? got == 0 : got >= t && got <= t + 10000, "after setting a timeout of %ld us the socket has %lld us", t, got);
	if (t == 25000) { char b; errno = 0; r = coda_unix_recv(p[0], &b, 1); MC_CHECK(r == -1 && (errno == EAGAIN || errno == EWOULDBLOCK), "a receive with a timeout returns %d (errno %d)", r, errno); }
}
MC_MAIN
