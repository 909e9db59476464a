// mc.hpp -- stateless bounded explorer used by every harness in /verif/harness.
//
// A scenario is a function that calls mc::choose(n) wherever the explored space
// branches.  The explorer re-executes the scenario for every possible sequence
// of choices (depth first, exhaustively), so a choice list *is* a replayable
// counterexample.  mc::fail() stops at the first violation and writes one.
//
// Exit codes of a harness: 0 all explored, 10 violation (replay file written),
// 3 internal error (e.g. divergence while replaying a prefix).
//
// The choices of the running execution are also kept in a file (MC_JOURNAL), from which bin/check.py learns which
// execution ended the process when the code under test made it exit or be killed.  With --isolate every execution
// runs in a process of its own, started from the initial state (for code that keeps state across executions).
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>
#include <map>
#include <set>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
extern "C" const char *__asan_default_options();
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=10:handle_segv=1:handle_sigbus=1:handle_sigfpe=1:handle_abort=1:"
	       "allocator_may_return_null=1:detect_stack_use_after_return=0:check_initialization_order=0:quarantine_size_mb=8:"
	       "malloc_context_size=2"
#if !defined(MC_NO_RSS) // (the limit starts a thread that opens a file now and then)
	       ":hard_rss_limit_mb=3500"
#endif
	       ;
}
#endif

#define MC_NOINSTR __attribute__((no_sanitize("thread")))

namespace mc {

struct Choice { uint32_t c, n; };
struct Prune {};

enum { QUICK = 0, THOROUGH = 1 };

struct Scenario
{
	const char *props; // space separated property ids
	std::string name;
	void (*fn)(void *);
	void *arg;
	int min_tier;      // QUICK: both tiers; THOROUGH: thorough only
	int max_tier;
	const char *bound; // human readable statement of the bound
};

inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }

struct HashSet // open addressing set of 64 bit hashes, capped
{
	std::vector<uint64_t> t; size_t used; bool capped; size_t cap;
	HashSet() : t(1024, 0), used(0), capped(false), cap(500000) {}
	MC_NOINSTR bool insert(uint64_t h)
	{
		if (!h) h = 1;
		size_t m = t.size() - 1, i = (h * 0x9E3779B97F4A7C15ull >> 20) & m;
		while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
		if (used >= cap) { capped = true; return false; }
		t[i] = h; used++;
		if (used * 2 > t.size())
		{
			std::vector<uint64_t> o; o.swap(t); t.assign(o.size() * 2, 0); m = t.size() - 1;
			for (uint64_t v : o) if (v) { i = (v * 0x9E3779B97F4A7C15ull >> 20) & m; while (t[i]) i = (i + 1) & m; t[i] = v; }
		}
		return true;
	}
};

struct Stats
{
	uint64_t execs, nontrivial, steps, maxdepth, pruned;
	Stats() : execs(0), nontrivial(0), steps(0), maxdepth(0), pruned(0) {}
};

struct Journal { uint32_t n; char prop[16]; uint32_t tier; char scen[236]; uint32_t c[4000]; volatile uint32_t beat; };
struct Arena // results of an isolated execution
{
	uint32_t done, pruned, npath, pos, sharddone, nontriv; uint64_t steps, sidx, ntrace, ns, no;
	Choice path[65536]; char trace[2048]; uint64_t st[1 << 20], ou[1 << 20];
};

struct Global
{
	Journal *journal; Arena *arena; bool isolate;
	std::vector<Choice> path; size_t pos;
	std::vector<uint32_t> replay; bool replaying; bool tracing;
	int tier; uint32_t shard, nshards; bool sharddone; uint64_t sidx, sprod;
	const char *prop; const char *replay_out; const char *out;
	const Scenario *cur; Stats st; HashSet states, outcomes;
	uint64_t total_execs; volatile uint64_t progress; bool nontriv;
	std::string trace; std::vector<std::string> samples; double deadline; bool capped;
	int devs_left;
	void (*prune_hook)(); void (*at_end)();
	bool in_fail; uint64_t phash;
	std::string lastinput;
	Global() : journal(NULL), arena(NULL), isolate(false), pos(0), replaying(false), tracing(false), tier(0), shard(0), nshards(1), sharddone(true), sidx(0), sprod(1),
		prop(""), replay_out(NULL), out(NULL), cur(NULL), total_execs(0), progress(0), nontriv(false), deadline(0), capped(false),
		devs_left(0), prune_hook(NULL), at_end(NULL), in_fail(false), phash(0) {}
};
inline Global &g() { static Global x; return x; }

inline double now_real()
{
	struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// async-signal-safe enough: used from death callbacks too
MC_NOINSTR inline void write_replay(const char *why)
{
	Global &G = g();
	if (G.in_fail) return;
	G.in_fail = true;
	if (!G.replay_out) return;
	int fd = open(G.replay_out, O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0) return;
	char b[1200];
	int n = snprintf(b, sizeof b, "property %s\ntier %d\nscenario %s\nreason %s\nchoices", G.prop, G.tier, G.cur ? G.cur->name.c_str() : "-", why);
	if (n > (int) sizeof b - 1) n = sizeof b - 1;
	if (write(fd, b, n) < 0) {}
	size_t cnt = G.replaying ? G.pos : (G.pos < G.path.size() ? G.pos : G.path.size());
	for (size_t i = 0; i < cnt; i++)
	{
		n = snprintf(b, sizeof b, " %u", G.replaying ? (i < G.replay.size() ? G.replay[i] : 0) : G.path[i].c);
		if (write(fd, b, n) < 0) {}
	}
	if (write(fd, "\n", 1) < 0) {}
	close(fd);
}

inline void out_trace()
{
	Global &G = g();
	if (G.tracing && !G.trace.empty()) { fprintf(stdout, "TRACE\n%s", G.trace.c_str()); }
	fflush(stdout);
}

MC_NOINSTR __attribute__((format(printf, 1, 2))) inline void note(const char *fmt, ...)
{
	Global &G = g();
	if (!G.tracing) return;
	char b[2048];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (G.trace.size() < 200000) { G.trace += "  "; G.trace += b; G.trace += "\n"; }
}

MC_NOINSTR __attribute__((format(printf, 1, 2), noreturn)) inline void fail(const char *fmt, ...)
{
	char b[1024];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char *p = b; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
	write_replay(b);
	out_trace();
	fprintf(stdout, "FAIL %s %s: %s\n", g().prop, g().cur ? g().cur->name.c_str() : "-", b);
	fflush(stdout);
	if (g().at_end) { void (*f)() = g().at_end; g().at_end = NULL; f(); }
	_exit(10);
}

MC_NOINSTR __attribute__((format(printf, 1, 2), noreturn)) inline void internal_error(const char *fmt, ...)
{
	char b[1024];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	fprintf(stdout, "INTERNAL %s: %s\n", g().cur ? g().cur->name.c_str() : "-", b);
	fflush(stdout);
	if (g().at_end) { void (*f)() = g().at_end; g().at_end = NULL; f(); }
	_exit(3);
}

#define MC_CHECK(cond, ...) do { if (__builtin_expect(!(cond), 0)) mc::fail(__VA_ARGS__); } while (0)

MC_NOINSTR inline uint32_t choose(uint32_t n)
{
	Global &G = g();
	if (n <= 1) return 0;
	if (G.replaying)
	{
		uint32_t c = G.pos < G.replay.size() ? G.replay[G.pos] : 0;
		G.pos++;
		if (c >= n) internal_error("replay choice %u out of range %u at %zu", c, n, G.pos - 1);
		return c;
	}
	uint32_t c;
	if (G.pos < G.path.size())
	{
		if (G.path[G.pos].n != n) internal_error("divergence: branch %zu had %u options, now %u", G.pos, G.path[G.pos].n, n);
		c = G.path[G.pos].c;
	}
	else
	{
		Choice x = {0, n};
		G.path.push_back(x); c = 0;
	}
	if (G.journal && G.pos < 4000) { G.journal->c[G.pos] = c; G.journal->n = G.pos + 1; G.journal->beat++; }
	G.pos++;
	if (!G.sharddone)
	{
		G.sidx = G.sidx * n + c; G.sprod *= n;
		if (G.sprod >= (uint64_t) 64 * G.nshards)
		{
			G.sharddone = true;
			if (G.sidx % G.nshards != G.shard)
			{
				if (G.prune_hook) G.prune_hook();
				throw Prune();
			}
		}
	}
	return c;
}

// shard on the choices made so far (for scenarios whose later choices come from deep inside the code under test)
inline void shard_here()
{
	Global &G = g();
	if (G.sharddone) return;
	G.sharddone = true;
	if (G.sidx % G.nshards != G.shard) { if (G.prune_hook) G.prune_hook(); throw Prune(); }
}

// environment deviation: 0 is the default answer, others cost one unit of the budget
MC_NOINSTR inline uint32_t choose_dev(uint32_t n)
{
	Global &G = g();
	if (G.devs_left <= 0) return 0;
	uint32_t c = choose(n);
	if (c) G.devs_left--;
	return c;
}

MC_NOINSTR inline void step(uint64_t k = 1) { g().st.steps += k; }
MC_NOINSTR inline void nontrivial() { g().nontriv = true; }
MC_NOINSTR inline void state(uint64_t h) { Global &G = g(); if (G.states.insert(h) && G.arena && G.arena->ns < (1 << 20)) G.arena->st[G.arena->ns++] = h; }
MC_NOINSTR inline void outcome(uint64_t h) { Global &G = g(); if (G.outcomes.insert(h) && G.arena && G.arena->no < (1 << 20)) G.arena->ou[G.arena->no++] = h; }
MC_NOINSTR inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
MC_NOINSTR inline uint64_t hbytes(uint64_t h, const void *p, size_t n)
{
	const unsigned char *b = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	return hmix(h, n);
}
MC_NOINSTR inline uint64_t hstr(uint64_t h, const std::string &s) { return hbytes(h, s.data(), s.size()); }

inline std::string show(const void *p, size_t n)
{
	std::string r = "\"";
	const unsigned char *b = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++)
	{
		char t[8];
		if (i > 300) { snprintf(t, sizeof t, "...+%d", (int) (n - i)); r += t; break; }
		if (b[i] == '"' || b[i] == '\\') { r += '\\'; r += (char) b[i]; }
		else if (b[i] >= 32 && b[i] < 127) r += (char) b[i];
		else { snprintf(t, sizeof t, "\\x%02x", b[i]); r += t; }
	}
	return r + "\"";
}
inline std::string show(const std::string &s) { return show(s.data(), s.size()); }

// lengths around the sizes of counters and buffers
inline int biglen()
{
	static const int B[] = { 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000 };
	return B[choose(sizeof B / sizeof *B)];
}

// ---- death handling -------------------------------------------------------
MC_NOINSTR inline void death(const char *why)
{
	write_replay(why);
	Global &G = g();
	char b[256];
	int n = snprintf(b, sizeof b, "FAIL %s %s: %s\n", G.prop, G.cur ? G.cur->name.c_str() : "-", why);
	if (G.tracing && !G.trace.empty()) { if (write(1, "TRACE\n", 6) < 0) {} if (write(1, G.trace.data(), G.trace.size()) < 0) {} }
	if (write(1, b, n) < 0) {}
}
#if defined(__SANITIZE_ADDRESS__)
inline void asan_death() { if (!g().in_fail) death("memory error reported by AddressSanitizer (see stderr of the replay)"); _exit(10); }
#endif
MC_NOINSTR inline void sig_death(int s)
{
	char b[64]; snprintf(b, sizeof b, "fatal signal %d", s);
	death(b); _exit(10);
}
struct Watch { uint64_t last; int cpu, wall; Watch() : last(0), cpu(0), wall(0) {} };
inline Watch &watch() { static Watch w; return w; }
MC_NOINSTR inline void sig_watch(int s)
{
	Watch &w = watch();
	if (g().progress != w.last) { w.last = g().progress; w.cpu = w.wall = 0; return; }
	if (s == SIGPROF) w.cpu++; else w.wall++;
	if (w.cpu >= 25 || w.wall >= 150) { death("no progress: the operation under test does not terminate"); _exit(10); }
}
MC_NOINSTR inline void arm_watch()
{
	struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
	setitimer(ITIMER_PROF, &it, NULL);
}

inline void install_handlers()
{
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
#if defined(__SANITIZE_ADDRESS__)
	__sanitizer_set_death_callback(asan_death);
#else
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
	for (int s : sigs)
	{
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = sig_death; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
		sigaction(s, &sa, NULL);
	}
#endif
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = sig_watch; sa.sa_flags = SA_RESTART | SA_ONSTACK;
	sigaction(SIGPROF, &sa, NULL);
	arm_watch();
}
// wall-clock variant of the hang watch (SIGALRM); harnesses that test SIGALRM do not call it
inline void install_wall_watch()
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = sig_watch; sa.sa_flags = SA_RESTART | SA_ONSTACK;
	sigaction(SIGALRM, &sa, NULL);
	struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
	setitimer(ITIMER_REAL, &it, NULL);
}

inline void json_str(FILE *f, const std::string &s)
{
	fputc('"', f);
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

struct SRes { std::string name, bound; Stats st; bool capped; };

inline void run_one()
{
	Global &G = g();
	if (G.journal) { G.journal->n = 0; G.journal->beat++; }
	G.pos = 0; G.nontriv = false; G.sidx = 0; G.sprod = 1; G.sharddone = (G.nshards == 1) || G.replaying;
	G.devs_left = 0;
	G.trace.clear();
	G.cur->fn(G.cur->arg);
}

// one execution in a child process; the explorer's state comes back through the arena
inline void run_isolated(bool &pruned)
{
	Global &G = g(); Arena &A = *G.arena;
	A.done = A.pruned = 0; A.ns = A.no = 0; A.ntrace = 0; A.npath = 0;
	fflush(stdout);
	pid_t c = fork();
	if (c < 0) internal_error("fork");
	if (!c)
	{
		arm_watch();
		uint64_t steps0 = G.st.steps;
		try { run_one(); } catch (Prune &) { A.pruned = 1; }
		if (G.path.size() > 65536) internal_error("execution too long");
		A.npath = G.path.size(); for (size_t i = 0; i < G.path.size(); i++) A.path[i] = G.path[i];
		A.pos = G.pos; A.sharddone = G.sharddone; A.sidx = G.sidx; A.nontriv = G.nontriv; A.steps = G.st.steps - steps0;
		A.ntrace = G.trace.size() < sizeof A.trace ? G.trace.size() : sizeof A.trace; memcpy(A.trace, G.trace.data(), A.ntrace);
		A.done = 1;
		fflush(stdout);
		if (G.at_end) G.at_end();
		_exit(0);
	}
	int w; while (waitpid(c, &w, 0) < 0) {}
	if (!A.done || !WIFEXITED(w) || WEXITSTATUS(w)) _exit(WIFEXITED(w) && WEXITSTATUS(w) ? WEXITSTATUS(w) : 4); // the report, if any, is the child's
	pruned = A.pruned; G.pos = A.pos; G.sharddone = A.sharddone; G.sidx = A.sidx; G.nontriv = A.nontriv; G.st.steps += A.steps;
	G.path.assign(A.path, A.path + A.npath);
	G.trace.assign(A.trace, A.ntrace);
	for (uint64_t i = 0; i < A.ns; i++) G.states.insert(A.st[i]);
	for (uint64_t i = 0; i < A.no; i++) G.outcomes.insert(A.ou[i]);
}

inline void explore(const Scenario &s, SRes &r)
{
	Global &G = g();
	G.cur = &s; G.st = Stats(); G.path.clear();
	if (G.journal) { snprintf(G.journal->prop, sizeof G.journal->prop, "%s", G.prop); G.journal->tier = G.tier; snprintf(G.journal->scen, sizeof G.journal->scen, "%s", s.name.c_str()); }
	size_t nsamp = 0;
	uint64_t next_sample = 2;
	bool capped = false;
	for (;;)
	{
		bool pruned = false;
		uint64_t steps0 = G.st.steps;
		bool want = nsamp < 3 && G.st.execs + 1 == next_sample;
		G.tracing = want;
		if (G.isolate) run_isolated(pruned);
		else try { run_one(); } catch (Prune &) { pruned = true; }
		if (!pruned && G.pos != G.path.size() && !G.path.empty()) internal_error("divergence: execution used %zu of %zu choices", G.pos, G.path.size());
		G.progress++;
		bool mine = !pruned && (G.sharddone || G.nshards == 1 || G.sidx % G.nshards == G.shard);
		if (mine)
		{
			G.st.execs++; G.total_execs++;
			if (G.nontriv) G.st.nontrivial++;
			if (G.pos > G.st.maxdepth) G.st.maxdepth = G.pos;
			if (want)
			{
				next_sample = next_sample * 23 + 7; nsamp++;
				std::string t = s.name + ":\n" + G.trace;
				if (t.size() > 900) t = t.substr(0, 900) + "...";
				if (G.samples.size() < 12) G.samples.push_back(t);
			}
		}
		else { G.st.pruned++; G.st.steps = steps0; }
		if (pruned) G.path.resize(G.pos);
		while (!G.path.empty() && G.path.back().c + 1 >= G.path.back().n) G.path.pop_back();
		if (G.path.empty()) break;
		G.path.back().c++;
		if (G.deadline && ((G.st.execs & 15) == 0 || G.isolate) && now_real() > G.deadline) { capped = true; break; }
	}
	r.name = s.name; r.bound = s.bound ? s.bound : ""; r.st = G.st; r.capped = capped;
	G.tracing = false;
}

inline bool has_prop(const char *props, const char *p)
{
	size_t n = strlen(p);
	for (const char *q = strstr(props, p); q; q = strstr(q + 1, p))
		if ((q == props || q[-1] == ' ') && (q[n] == 0 || q[n] == ' ')) return true;
	return false;
}

inline int main_(int argc, char **argv)
{
	Global &G = g();
	const char *replay = NULL, *only = NULL;
	double budget = 0;
	setvbuf(stdout, NULL, _IOLBF, 0);
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		const char *v = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--tier") { G.tier = !strcmp(v, "thorough"); i++; }
		else if (a == "--prop") { G.prop = v; i++; }
		else if (a == "--shard") { sscanf(v, "%u/%u", &G.shard, &G.nshards); i++; }
		else if (a == "--out") { G.out = v; i++; }
		else if (a == "--replay-out") { G.replay_out = v; i++; }
		else if (a == "--replay") { replay = v; i++; }
		else if (a == "--only") { only = v; i++; }
		else if (a == "--budget") { budget = atof(v); i++; }
		else if (a == "--isolate") G.isolate = true;
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	install_handlers();
	if (replay)
	{
		FILE *f = fopen(replay, "r");
		if (!f) return 2;
		static char prop[64], scen[512]; prop[0] = scen[0] = 0;
		char *line = NULL; size_t cap = 0; ssize_t len;
		while ((len = getline(&line, &cap, f)) > 0)
		{
			if (line[len - 1] == '\n') line[--len] = 0;
			if (!strncmp(line, "property ", 9)) snprintf(prop, sizeof prop, "%s", line + 9);
			else if (!strncmp(line, "tier ", 5)) G.tier = atoi(line + 5);
			else if (!strncmp(line, "scenario ", 9)) snprintf(scen, sizeof scen, "%s", line + 9);
			else if (!strncmp(line, "choices", 7))
			{
				char *p = line + 7;
				while (*p) { char *e; unsigned long x = strtoul(p, &e, 10); if (e == p) break; G.replay.push_back(x); p = e; }
			}
		}
		free(line); fclose(f);
		G.prop = prop; G.replaying = true; G.tracing = true; G.nshards = 1;
		for (const Scenario &s : scenarios())
			if (s.name == scen && has_prop(s.props, prop) && G.tier >= s.min_tier && G.tier <= s.max_tier)
			{
				G.cur = &s;
				run_one();
				out_trace();
				printf("REPLAY-OK the recorded case no longer fails\n");
				return 0;
			}
		printf("REPLAY-MISSING scenario %s\n", scen);
		return 3;
	}
	if (const char *jf = getenv("MC_JOURNAL"))
	{
		int fd = open(jf, O_CREAT | O_RDWR, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(Journal))) return 2;
		void *p = mmap(NULL, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		if (p == MAP_FAILED) return 2;
		G.journal = (Journal *) p;
	}
	if (G.isolate)
	{
		void *p = mmap(NULL, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) return 2;
		G.arena = (Arena *) p;
	}
	if (budget > 0) G.deadline = now_real() + budget;
	std::vector<SRes> res;
	for (const Scenario &s : scenarios())
	{
		if (!has_prop(s.props, G.prop)) continue;
		if (G.tier < s.min_tier || G.tier > s.max_tier) continue;
		if (only && s.name.find(only) == std::string::npos) continue;
		double t0 = now_real();
		SRes r; explore(s, r); res.push_back(r);
		if (!G.out) printf("%-40s execs=%llu steps=%llu nontriv=%llu depth=%llu %.2fs%s\n", s.name.c_str(), (unsigned long long) r.st.execs,
			(unsigned long long) r.st.steps, (unsigned long long) r.st.nontrivial, (unsigned long long) r.st.maxdepth, now_real() - t0, r.capped ? " CAPPED" : "");
	}
	if (G.out)
	{
		FILE *f = fopen(G.out, "w");
		if (!f) return 2;
		fprintf(f, "{\"scenarios\":[");
		for (size_t i = 0; i < res.size(); i++)
		{
			SRes &r = res[i];
			fprintf(f, "%s{\"name\":", i ? "," : ""); json_str(f, r.name);
			fprintf(f, ",\"bound\":"); json_str(f, r.bound);
			fprintf(f, ",\"executions\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"max_choices\":%llu,\"capped\":%s}",
				(unsigned long long) r.st.execs, (unsigned long long) r.st.nontrivial, (unsigned long long) r.st.steps,
				(unsigned long long) r.st.maxdepth, r.capped ? "true" : "false");
		}
		fprintf(f, "],\"states_capped\":%s,\"samples\":[", G.states.capped || G.outcomes.capped ? "true" : "false");
		for (size_t i = 0; i < G.samples.size(); i++) { if (i) fputc(',', f); json_str(f, G.samples[i]); }
		fprintf(f, "]}\n");
		fclose(f);
		const char *ext[2] = { ".states", ".outcomes" }; HashSet *hs[2] = { &G.states, &G.outcomes };
		for (int k = 0; k < 2; k++)
		{
			FILE *b = fopen((std::string(G.out) + ext[k]).c_str(), "wb");
			if (!b) return 2;
			for (uint64_t v : hs[k]->t) if (v) fwrite(&v, 8, 1, b);
			fclose(b);
		}
	}
	else printf("states=%zu outcomes=%zu\n", G.states.used, G.outcomes.used);
	fflush(stdout);
	if (G.at_end) G.at_end();
	_exit(0);
}

struct Reg
{
	Reg(const char *props, const std::string &name, void (*fn)(void *), void *arg, int lo, int hi, const char *bound)
	{
		Scenario s = { props, name, fn, arg, lo, hi, bound }; scenarios().push_back(s);
	}
};

} // namespace mc

// SCENARIO(props, name, min_tier, max_tier, bound) { body }
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(props, name, lo, hi, bound) \
	static void MC_CAT(mc_scn_, __LINE__)(void *); \
	static mc::Reg MC_CAT(mc_reg_, __LINE__)(props, name, MC_CAT(mc_scn_, __LINE__), NULL, mc::lo, mc::hi, bound); \
	static void MC_CAT(mc_scn_, __LINE__)(void *)
#define MC_MAIN int main(int argc, char **argv) { return mc::main_(argc, argv); }
