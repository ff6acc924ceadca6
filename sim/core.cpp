// Scheduler, virtual clock, thread / lock / signal / process interposition and
// instrumentation callbacks. One simulated process = one forked child whose
// pthreads run strictly one at a time; the simulator picks who.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <malloc.h>
#include <unordered_map>
#include <algorithm>
#include <exception>
#include <typeinfo>

void* sim_real_lookup(const char* name) {
	void* p = dlsym(RTLD_NEXT, name);
	if(!p) { fprintf(stderr, "sim: no real %s\n", name); _exit(97); }
	return p;
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = nullptr; if(!real_##name) real_##name = (ret (*)(__VA_ARGS__))sim_real_lookup(#name)

namespace sim {
volatile int g_mode = M_OFF;
Shared* sh = nullptr;
Rng g_rng(1);
const Plan* g_plan = nullptr;
int g_inc = 0;
uint64_t g_vt = 0;
FILE* g_trace = nullptr;

const char* const op_names[OP_COUNT] = {"open", "read", "write", "seek", "close", "rename", "unlink", "stat", "thread", "alloc"};
const char* const end_names[] = {"none", "exit", "abort", "segv", "deadlock", "stepcap", "cpu", "crash", "signal"};

// ---------------------------------------------------------------- rng
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t mix64(uint64_t x) { return splitmix(x); }
void Rng::reseed(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); if(!s[0] && !s[1]) s[0] = 1; }
uint64_t Rng::next() { uint64_t a = s[0], b = s[1], r = a + b; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return r * 0x9e3779b97f4a7c15ull ^ (r >> 29); }
uint64_t Rng::log_uniform(uint64_t lo, uint64_t hi) {
	if(hi <= lo) return lo;
	int b0 = 64 - __builtin_clzll(lo | 1), b1 = 64 - __builtin_clzll(hi | 1);
	int b = (int)range(b0, b1);
	uint64_t a = 1ull << (b - 1), z = (b >= 64 ? ~0ull : (1ull << b) - 1);
	if(a < lo) a = lo;
	if(z > hi) z = hi;
	return a + below(z - a + 1);
}
uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; while(*s) { h ^= (uint8_t)*s++; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- shared counters
void named_add(Named* a, int& n, const char* name, uint64_t add) {
	for(int i = 0; i < n; ++i) if(!strcmp(a[i].name, name)) { a[i].n += add; return; }
	if(n < MAXNAMED) { strncpy(a[n].name, name, sizeof(a[n].name) - 1); a[n].n = add; n++; }
}
void fired_add(const char* name, uint64_t add) { named_add(sh->fired, sh->nfired, name, add); }
void probe(const char* name, uint64_t add) { if(sh) named_add(sh->probes, sh->nprobes, name, add); }
void violation(const std::string& cls, const std::string& detail) {
	if(sh->violated) return;
	strncpy(sh->vcls, cls.c_str(), sizeof(sh->vcls) - 1);
	strncpy(sh->vdetail, detail.c_str(), sizeof(sh->vdetail) - 1);
	sh->violated = 1;
	trace("VIOLATION %s: %s", cls.c_str(), detail.c_str());
}
bool violated() { return sh->violated; }
bool active() { return g_mode == M_ACTIVE; }
Quiet::Quiet() { old = g_mode == M_ACTIVE; if(old) g_mode = M_QUIET; }
Quiet::~Quiet() { if(old) g_mode = M_ACTIVE; }
double now() { return g_vt * 1e-9; }
void note(const std::string& s) { trace("note %s", s.c_str()); }

// ---------------------------------------------------------------- scheduler state
static const int MAXT = 1 << 16;
static std::vector<Thr*> g_all;              // by id
static std::vector<Thr*> g_live;             // not DONE
static thread_local Thr* t_self = nullptr;
static Thr* g_cur = nullptr;
static uint64_t g_steps = 0, g_switches = 0, g_hash = 0, g_shash = 0, g_rseq = 0, g_faults = 0;
static uint64_t g_next_timer = ~0ull;
static uint64_t g_step_cap = ~0ull;
static Thr* g_reap = nullptr;
static bool g_in_handler = false;
static bool g_ending = false;
static int g_lowest_prio = 0, g_highest_prio = 2000000;
static uint64_t g_fairw = 10000, g_starve_check = 0;
// policy
static int pol = 0; static uint64_t psw_num = 0; static uint64_t spur_num = 0;
static std::vector<uint64_t> pct_pts; static size_t pct_i = 0;
static uint64_t g_next_sig_t = ~0ull;
struct SigState { Sig s; bool done; }; static std::vector<SigState> g_sigs;
static std::vector<Crash> g_crashes; static uint64_t g_crash_step = ~0ull, g_sig_step = ~0ull, g_crash_t = ~0ull;
static std::unordered_map<uint64_t, uint64_t> g_devs;      // explicit mode
static bool g_explicit = false;
static std::map<int, void (*)(int)> g_handlers; static std::map<int, int> g_hflags;
static uint64_t dev_key(int kind, uint32_t a, uint64_t b) { return mix64(((uint64_t)kind << 56) ^ ((uint64_t)a << 36) ^ b ^ ((uint64_t)kind * 0x1234567)); }

Thr* self() { return t_self; }
uint64_t g_random_bytes = 0;
uint64_t step() { return g_steps; }
bool in_ctx() { return g_mode == M_ACTIVE && t_self && !g_in_handler; }
bool preemptible() { return in_ctx(); }

void trace(const char* fmt, ...) {
	if(!g_trace) return;
	int m = g_mode; if(m == M_ACTIVE) g_mode = M_QUIET;
	char buf[1200]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	fprintf(g_trace, "[%d %12.6f #%llu t%d%s%s] %s\n", g_inc, g_vt * 1e-9, (unsigned long long)g_steps, t_self ? t_self->id : -1,
		t_self && t_self->name[0] ? " " : "", t_self ? t_self->name : "", buf);
	fflush(g_trace);
	g_mode = m;
}

#ifdef SIM_FOLDLOG
static uint64_t* g_fl = (uint64_t*)mmap(0, 1ull << 30, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); uint64_t* foldlog() { return g_fl; }
#define FL(v) g_fl[++g_fl[0]] = v;
#else
#define FL(v)
#endif
void fold(uint64_t v) { FL(v) g_hash = (g_hash ^ v) * 0x9ddfea08eb382d69ull; g_hash ^= g_hash >> 29; }

static long raw_futex(volatile int* addr, int op, int val) {
	long r;
	register long r10 __asm__("r10") = 0; register long r8 __asm__("r8") = 0; register long r9 __asm__("r9") = 0;
	__asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_futex), "D"(addr), "S"((long)op), "d"((long)val), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static void park(Thr* t) { while(!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0); t->go = 0; }
static void unpark(Thr* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }

static void record(int kind, uint32_t a, uint64_t b, uint64_t val) {
	if(sh->ndevs < MAXDEV) sh->devs[sh->ndevs++] = Dev{(uint32_t)g_inc, (uint32_t)kind, a, b, val}; else sh->dev_overflow = 1;
}

// A nondeterministic choice keyed by (thread, per-thread choice index).
uint64_t choice(int kind, uint64_t dflt, const std::function<uint64_t()>& gen) {
	Thr* t = t_self; uint64_t idx = t->nch++;
	if(g_explicit) { auto it = g_devs.find(dev_key(kind, t->id, idx)); return it == g_devs.end() ? dflt : it->second; }
	uint64_t v = gen();
	if(v != dflt) record(kind, t->id, idx, v);
	return v;
}

void make_ready(Thr* t) { if(t->st != S_READY && t->st != S_RUN && t->st != S_DONE) { t->st = S_READY; t->obj = nullptr; t->rseq = ++g_rseq; t->rstep = g_steps; } }

static void timers(bool) {
	g_next_timer = ~0ull;
	for(Thr* t : g_live) if(t->timed && t->st != S_READY && t->st != S_RUN && t->st != S_DONE) {
		if(t->wake_ns <= g_vt) { t->timed = false; t->timed_out = true; make_ready(t); }
		else if(t->wake_ns < g_next_timer) g_next_timer = t->wake_ns;
	}
}

static void deliver(int signo) {
	fired_add(signo == SIGINT ? "signal.SIGINT" : "signal.SIGTERM");
	trace("deliver signal %d", signo); fold(0x516 + signo);
	auto it = g_handlers.find(signo);
	if(it == g_handlers.end() || it->second == SIG_DFL) end_run(END_SIGNAL, signo);
	if(it->second == SIG_IGN) return;
	auto h = it->second; const int fl = g_hflags[signo]; if(fl & SA_RESETHAND) { it->second = SIG_DFL; g_hflags[signo] = 0; }
	g_in_handler = true;
	if(fl & SA_SIGINFO) { siginfo_t si{}; si.si_signo = signo; ((void (*)(int, siginfo_t*, void*))h)(signo, &si, nullptr); } else h(signo);
	g_in_handler = false;
}
static void due_events() {
	if(g_steps >= g_crash_step || g_vt >= g_crash_t) { fired_add("crash.step"); trace("crash"); end_run(END_CRASH, 9); }
	if(g_steps >= g_sig_step || g_vt >= g_next_sig_t) {
		g_sig_step = ~0ull; g_next_sig_t = ~0ull;
		std::vector<int> todo;
		for(auto& s : g_sigs) if(!s.done) {
			uint64_t tns = s.s.t >= 0 ? (uint64_t)(s.s.t * 1e9) : ~0ull;
			if((s.s.t >= 0 && g_vt >= tns) || (s.s.t < 0 && g_steps >= s.s.step)) { s.done = true; todo.push_back(s.s.signo); }
			else if(s.s.t >= 0) g_next_sig_t = std::min(g_next_sig_t, tns);
			else g_sig_step = std::min(g_sig_step, s.s.step);
		}
		for(int sg : todo) deliver(sg);
	}
}

static std::string wait_graph() {
	static const char* nm[] = {"new", "ready", "run", "mutex", "cond", "join", "sleep", "futex", "done", "sem", "rwlock"};
	std::map<std::string, int> m;
	for(Thr* t : g_live) { std::string n = t->name[0] ? t->name : (t->id == 0 ? "main" : "thread"); m[n + " waits on " + nm[t->st]]++; }
	std::string s; for(auto& e : m) s += e.first + " x" + std::to_string(e.second) + "; ";
	return s;
}

// default choice: keep running, else the thread that has been ready the longest
static Thr* default_next(const std::vector<Thr*>& ready, Thr* cur) {
	if(cur && cur->st == S_RUN && cur->burst < 4000) return cur;
	Thr* b = nullptr; for(Thr* t : ready) if(t != cur && (!b || t->rseq < b->rseq)) b = t;
	return b ? b : cur;
}

static Thr* policy_next(const std::vector<Thr*>& ready, Thr* cur, bool forced) {
	bool can_stay = cur && cur->st == S_RUN;
	switch(pol) {
	case 0: { // random walk
		if(can_stay && !forced && (g_rng.next() & 0xffff) >= psw_num) return cur;
		return ready[g_rng.below(ready.size())];
	}
	case 1: { // priorities (PCT)
		while(pct_i < pct_pts.size() && g_steps >= pct_pts[pct_i]) { if(cur) cur->prio = --g_lowest_prio; pct_i++; }
		if(can_stay && cur->burst >= 20000) cur->prio = --g_lowest_prio;
		if(forced && cur) cur->prio = --g_lowest_prio;
		Thr* b = nullptr; for(Thr* t : ready) if(!b || t->prio > b->prio) b = t;
		return b;
	}
	case 2: { // run to block, few random preemptions
		if(can_stay && cur->burst < 4000 && !forced) {
			if(pct_i < pct_pts.size() && g_steps >= pct_pts[pct_i]) { pct_i++; return ready[g_rng.below(ready.size())]; }
			return cur;
		}
		if(g_rng.below(65536) < psw_num) return ready[g_rng.below(ready.size())];
		return default_next(ready, forced ? nullptr : cur);
	}
	default: { // newest ready first, random preemptions
		if(can_stay && !forced && cur->burst < 4000 && (g_rng.next() & 0xffff) >= psw_num) return cur;
		Thr* b = nullptr; for(Thr* t : ready) if((!can_stay || t != cur) && (!b || t->rseq > b->rseq)) b = t;
		if(!b) b = cur;
		if(g_rng.below(16) == 0) return ready[g_rng.below(ready.size())];
		return b;
	}
	}
}

static std::vector<Thr*> g_ready;
// Pick the next thread and hand over. cur may be running (S_RUN), blocked or done.
static void reschedule(bool forced, bool is_pre, uint32_t site, uint64_t occ) {
	Thr* cur = t_self;
	for(;;) {
		due_events();
		if(g_vt >= g_next_timer) timers(true);
		g_ready.clear();
		for(Thr* t : g_live) if(t->st == S_READY || t->st == S_RUN) g_ready.push_back(t);
		if(!g_ready.empty()) break;
		timers(false);
		bool any = false; for(Thr* t : g_live) if(t->st == S_READY) any = true;
		if(any) continue;
		uint64_t nt = std::min(std::min(g_next_timer, g_next_sig_t), g_crash_t);
		if(g_next_timer == ~0ull && g_next_sig_t == ~0ull) {
			std::string w = wait_graph(); trace("DEADLOCK %s", w.c_str());
			end_run(END_DEADLOCK, 0, w.c_str());
		}
		g_vt = nt;
	}
	Thr* d = default_next(g_ready, forced ? nullptr : cur);
	if(forced && (!d)) d = cur;
	Thr* n = d;
	if(g_explicit) {
		auto it = is_pre ? g_devs.find(dev_key(DEV_PRE, site, occ)) : g_devs.find(dev_key(DEV_SCHED, cur->id, cur->npts));
		if(it != g_devs.end()) for(Thr* t : g_ready) if((uint64_t)t->id == it->second) n = t;
	} else {
		n = policy_next(g_ready, cur, forced);
		if(g_steps >= g_starve_check) {   // bounded unfairness: nobody stays ready without running for long
			Thr* o = nullptr; for(Thr* t : g_ready) if(t != cur && (!o || t->rstep < o->rstep)) o = t;
			if(o && g_steps - o->rstep > g_fairw) { n = o; o->prio = ++g_highest_prio; fired_add("sched.starvation_bound"); }
			g_starve_check = g_steps + g_fairw / 8 + 1;
		}
		if(is_pre) record(DEV_PRE, site, occ, n->id);
		else if(n != d) record(DEV_SCHED, cur->id, cur->npts, n->id);
	}
	if(!is_pre) cur->npts++;
	if(n == cur) { cur->burst++; cur->st = S_RUN; return; }
	g_switches++;
	g_shash = (g_shash ^ ((uint64_t)n->id + 0x1000 * (cur->st == S_RUN))) * 0x9ddfea08eb382d69ull; g_shash ^= g_shash >> 31;
	fold(0x5000000 + n->id);
	if(cur->st == S_RUN) { cur->st = S_READY; cur->rseq = ++g_rseq; cur->rstep = g_steps; }
	cur->burst = 0;
	n->st = S_RUN; n->burst = 0; g_cur = n;
	bool done = cur->st == S_DONE;
	if(done) g_reap = cur;
	unpark(n);
	if(done) return;            // the real thread now leaves; n joins it first thing
	park(cur);
	if(g_reap) { REAL(int, pthread_join, pthread_t, void**); Thr* r = g_reap; g_reap = nullptr; real_pthread_join(r->real, nullptr); }
}

static inline void tick() {
	g_steps++; g_vt += 500;
	if(g_steps > g_step_cap) { std::string w = wait_graph(); end_run(END_STEPCAP, 0, w.c_str()); }
}
void point(uint32_t tag) {
	if(!in_ctx()) return;
	tick(); fold(((uint64_t)tag << 20) ^ t_self->id);
	if(g_live.size() == 1 && g_steps < g_crash_step && g_steps < g_sig_step && g_vt < g_next_sig_t && g_vt < g_crash_t) { t_self->npts++; return; }
	reschedule(false, false, 0, 0);
}
void block(int st, const void* obj, bool timed, uint64_t wake_ns) {
	Thr* t = t_self; tick();
	t->st = st; t->obj = obj; t->timed = timed; t->timed_out = false; t->wake_ns = wake_ns; t->spurious = false;
	if(timed && wake_ns < g_next_timer) g_next_timer = wake_ns;
	reschedule(false, false, 0, 0);
	t->timed = false;
}
int wake_all_on(const void* obj, int st) { int n = 0; for(Thr* t : g_live) if(t->st == st && t->obj == obj) { make_ready(t); n++; } return n; }
void sleep_ns(uint64_t ns, int) { if(!in_ctx()) return; block(S_SLEEP, nullptr, true, g_vt + ns); }

// ---------------------------------------------------------------- instrumentation (plain accesses, atomics)
static const uint32_t NSITE = 1u << 21;
static const uint32_t FAIR = 40000000;
static uint32_t* site_cnt = nullptr;      // countdown
static uint64_t* site_occ = nullptr;      // occurrences so far (at last reload)
static uint32_t* site_load = nullptr;
static uint64_t pre_left = 0; static uint64_t pre_max_gap = 1 << 20; static double pre_repeat = 0.5;
static std::unordered_map<uint32_t, std::vector<uint64_t>> g_pre;   // explicit: site -> sorted occurrences
extern "C" char __executable_start, etext;
static void site_reload(uint32_t s, bool fired_) {
	site_occ[s] += site_load[s];
	uint32_t n = FAIR;
	if(g_explicit) {
		auto it = g_pre.find(s);
		if(it != g_pre.end()) for(uint64_t o : it->second) if(o > site_occ[s]) { if(o - site_occ[s] < FAIR) n = (uint32_t)(o - site_occ[s]); break; }
	} else if(fired_ && g_rng.chance(pre_repeat)) n = (uint32_t)g_rng.log_uniform(1, pre_max_gap);
	site_load[s] = n; site_cnt[s] = n;
}
static __attribute__((noinline)) void site_slow(uint32_t s) {
	if(g_mode != M_ACTIVE || !t_self || g_in_handler) { site_cnt[s] = 1; return; }
	uint64_t occ = site_occ[s] + site_load[s];
	bool fair = site_load[s] == FAIR;
	bool go = true;
	if(g_explicit) { auto it = g_pre.find(s); go = fair || (it != g_pre.end() && std::binary_search(it->second.begin(), it->second.end(), occ)); }
	else if(!fair) { if(!pre_left) go = false; else pre_left--; }
	site_reload(s, !fair);
	if(!go || g_live.size() < 2) return;
	tick(); fold(0x9000000 ^ s);
	if(fair) { fired_add("sched.fairness_backstop"); reschedule(true, true, s, occ); }
	else { fired_add("sched.plain_access_preemption"); reschedule(!g_explicit, true, s, occ); }
}
static inline __attribute__((always_inline)) void access(void* pc) {
	if(__builtin_expect(!site_cnt, 0)) return;
	uint32_t s = (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start) & (NSITE - 1);
	if(__builtin_expect(--site_cnt[s] == 0, 0)) site_slow(s);
}
static uint32_t* g_sites = nullptr; extern uint64_t g_acnt; static uint64_t next_agap();
static void init_sites(const Plan& p) {
	site_cnt = nullptr;
	static uint32_t* c = nullptr; static uint64_t* o; static uint32_t* l;
	if(!c) {
		c = (uint32_t*)mmap(0, NSITE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		o = (uint64_t*)mmap(0, NSITE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		l = (uint32_t*)mmap(0, NSITE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	site_occ = o; site_load = l;
	size_t n = (uintptr_t)&etext - (uintptr_t)&__executable_start; if(n > NSITE) n = NSITE;
	double act = p.get("pre_sites") / 65536.0; pre_left = p.get("pre_left"); pre_max_gap = p.get("pre_gap", 1 << 20); pre_repeat = p.get("pre_rep", 500) / 1000.0;
	uint32_t thr = (uint32_t)(act * 4294967295.0);
	for(size_t i = 0; i < n; ++i) {
		uint32_t v = FAIR;
		if(!g_explicit && thr && pre_left && (uint32_t)(g_rng.next() >> 32) < thr) v = (uint32_t)g_rng.log_uniform(1, pre_max_gap);
		c[i] = l[i] = v; o[i] = 0;
	}
	if(g_explicit) for(auto& e : g_pre) { std::sort(e.second.begin(), e.second.end()); if(e.second[0] < FAIR) c[e.first] = l[e.first] = (uint32_t)e.second[0]; }
	g_sites = c;      // counting starts with the first thread: nothing can interleave before, and option parsing hashes pointers
}
static void start_instr() { site_cnt = g_sites; g_acnt = next_agap(); }

// atomics: every agap-th (random gap) atomic operation is a scheduling point
uint64_t g_acnt = ~0ull; static uint64_t g_agap = 1; static Rng g_arng(1);
static uint64_t next_agap() { return g_agap <= 1 ? 1 : g_arng.log_uniform(1, g_agap); }
__attribute__((noinline)) void apoint_slow() { g_acnt = next_agap(); if(in_ctx()) point(20); }

// ---------------------------------------------------------------- start / end of a simulated process
static std::map<std::string, uint64_t> last_fired_local;
[[noreturn]] void end_run(int kind, int code, const char* info) {
	if(g_ending) _exit(0);
	g_ending = true; g_mode = M_QUIET;
	fs::child_end(kind == END_EXIT);
	fs::collect_counts();
	sh->end_kind = kind; sh->end_code = code; sh->points = g_steps; sh->switches = g_switches;
	fold(kind * 1000003ull + (uint64_t)(uint32_t)code); sh->hash = g_hash; sh->sched_hash = g_shash; sh->vtime_ns = g_vt; sh->threads = (int)g_all.size(); sh->faults_fired = g_faults;
	if(info && *info) strncpy(sh->info, info, sizeof(sh->info) - 1);
	trace("end %s code=%d %s", end_names[kind], code, info ? info : "");
	_exit(0);
}
void end_process(int kind, int code) { end_run(kind, code); }

static void fatal_handler(int sig, siginfo_t* si, void*) {
	static volatile int once = 0; if(once++) _exit(0);
	char b[100]; snprintf(b, sizeof b, "signal %d at %p (t%d %s)", sig, si ? si->si_addr : nullptr, t_self ? t_self->id : -1, t_self ? t_self->name : "");
	// no allocation here: the heap may be corrupted
	sh->end_kind = sig == SIGXCPU ? END_CPU : END_SEGV; sh->end_code = sig; sh->points = g_steps; sh->switches = g_switches; sh->hash = g_hash ^ sig; sh->sched_hash = g_shash; sh->vtime_ns = g_vt;
	strncpy(sh->info, b, sizeof(sh->info) - 1);
	_exit(0);
}

static void start_policy(const Plan& p) {
	pol = (int)p.get("pol", 2); psw_num = p.get("psw", 0); spur_num = p.get("spur", 0);
	pct_pts.clear(); pct_i = 0; g_fairw = p.get("fairw", 10000); g_starve_check = g_fairw;
	int d = (int)p.get("pct_d", 0); uint64_t span = p.get("pct_span", 20000);
	for(int i = 0; i < d; ++i) pct_pts.push_back(g_rng.below(span));
	std::sort(pct_pts.begin(), pct_pts.end());
}
void gen_policy(Rng& r, Plan& plan, double est) {
	auto& p = plan.p;
	switch(r.below(10)) {
	case 0: p["pol"] = 0; p["psw"] = 65536; break;
	case 1: case 2: p["pol"] = 0; p["psw"] = (int64_t)r.log_uniform(200, 32000); break;
	case 3: case 4: case 5: p["pol"] = 1; p["pct_d"] = r.range(0, 12); p["pct_span"] = (int64_t)r.log_uniform(64, (uint64_t)est + 64); break;
	case 6: case 7: p["pol"] = 2; p["psw"] = r.chance(0.5) ? 0 : (int64_t)r.below(65536); p["pct_d"] = (int64_t)r.log_uniform(1, 64); p["pct_span"] = (int64_t)r.log_uniform(64, (uint64_t)est + 64); break;
	default: p["pol"] = 3; p["psw"] = (int64_t)r.log_uniform(16, 20000); break;
	}
	p["fairw"] = (int64_t)r.log_uniform(1500, 25000);
	p["agap"] = r.chance(0.3) ? (int64_t)r.log_uniform(1, 32) : (int64_t)r.log_uniform(64, 100000);
	p["spur"] = r.chance(0.3) ? (int64_t)r.log_uniform(8, 6000) : 0;
	if(r.chance(0.6)) { p["pre_sites"] = (int64_t)r.log_uniform(200, 40000); p["pre_left"] = (int64_t)r.log_uniform(4, 3000); p["pre_gap"] = (int64_t)r.log_uniform(16, 1 << 20); p["pre_rep"] = r.range(0, 900); }
	else p["pre_left"] = 0;
	p["blk"] = r.chance(0.75) ? 4096 : r.pick(std::vector<int>{512, 1024, 16384, 65536});
}

void account(const Exit& e);
int incarnations() { return sh->incarnation; }

Exit exec(const Plan& plan, const std::function<int()>& fn, const Limits& lim) {
	int inc = sh->incarnation++;
	sh->end_kind = END_NONE; sh->end_code = 0; memset(sh->info, 0, sizeof sh->info); sh->points = sh->switches = sh->hash = sh->sched_hash = 0; sh->max_fds = 0; sh->nops = 0; sh->threads = 0; sh->faults_fired = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if(pid == 0) {
		g_plan = &plan; g_inc = inc; g_vt = sh->vtime_ns; g_step_cap = lim.step_cap;
		g_rng.reseed(mix64(plan.seed * 0x9e3779b97f4a7c15ull + 77 + inc));
		g_explicit = plan.explicit_sched;
		g_devs.clear(); g_pre.clear();
		if(g_explicit) for(auto& d : plan.devs) if((int)d.inc == inc) {
			if(d.kind == DEV_PRE) g_pre[d.a].push_back(d.b);
			g_devs[dev_key(d.kind, d.a, d.b)] = d.val;
		}
		start_policy(plan);
		g_sigs.clear(); for(auto& s : plan.sigs) if(s.inc == inc) { g_sigs.push_back({s, false}); if(s.t >= 0) g_next_sig_t = std::min(g_next_sig_t, (uint64_t)(s.t * 1e9)); else g_sig_step = std::min(g_sig_step, s.step); }
		g_crashes.clear(); for(auto& c : plan.crashes) if(c.inc == inc) { g_crashes.push_back(c); if(c.op < 0) { if(c.t >= 0) g_crash_t = std::min(g_crash_t, (uint64_t)(c.t * 1e9)); else g_crash_step = std::min(g_crash_step, c.step); } }
		struct rlimit rl; rl.rlim_cur = lim.cpu_secs; rl.rlim_max = lim.cpu_secs + 20; REAL(int, setrlimit, __rlimit_resource_t, const struct rlimit*); real_setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0; real_setrlimit(RLIMIT_CORE, &rl);
		static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
		struct sigaction sa{}; sa.sa_sigaction = fatal_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
		REAL(int, sigaction, int, const struct sigaction*, struct sigaction*);
		for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGABRT}) real_sigaction(s, &sa, nullptr);
		fs::child_start();
		Thr* t = new Thr; t->id = 0; t->st = S_RUN; t->prio = 1000; strcpy(t->name, "main");
		g_all.push_back(t); g_live.push_back(t); t_self = t; g_cur = t;
		init_sites(plan);
		g_agap = plan.get("agap", 64); g_arng.reseed(mix64(plan.seed + 0xa7 + inc)); g_acnt = ~0ull;
		g_mode = M_ACTIVE;
		int rc = 255;
		rc = fn();
		end_run(END_EXIT, rc & 255);
	}
	int st = 0; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Exit e; e.kind = sh->end_kind; e.code = sh->end_code; e.points = sh->points; e.switches = sh->switches; e.vtime_ns = sh->vtime_ns; e.hash = sh->hash; e.sched_hash = sh->sched_hash; e.threads = sh->threads; e.max_fds = sh->max_fds; e.info = sh->info; e.faults_fired = sh->faults_fired;
	if(e.kind == END_NONE) { e.kind = END_SEGV; e.code = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st); e.info = "process vanished"; }
	g_vt = sh->vtime_ns;
	fold(e.hash);
	account(e);
	return e;
}
uint64_t history_hash() { return g_hash; }
void reset_history_hash() { g_hash = 0; g_vt = 0; }

void check_crash(int op, const char* cls, bool after) {
	for(auto& c : g_crashes) if(c.op == op && c.after == (int)after && (c.cls == "*" || c.cls == cls)) {
		if(c.nth > 0 && --c.nth == 0) { fired_add(after ? "crash.after_io" : "crash.before_io"); trace("crash at %s %s", op_names[op], cls); end_run(END_CRASH, 9); }
	}
}

// ---------------------------------------------------------------- threads
static void* trampoline(void* a) {
	Thr* t = (Thr*)a; t_self = t;
	park(t);
	if(g_reap) { REAL(int, pthread_join, pthread_t, void**); Thr* r = g_reap; g_reap = nullptr; real_pthread_join(r->real, nullptr); }
	t->ret = t->fn(t->arg);
	if(g_mode == M_ACTIVE || g_mode == M_QUIET) {
		tick(); fold(0x7000 + t->id);
		t->st = S_DONE;
		g_live.erase(std::find(g_live.begin(), g_live.end(), t));
		for(Thr* w : g_live) if(w->st == S_JOIN && w->obj == t) make_ready(w);
		reschedule(false, false, 0, 0);
	}
	return t->ret;
}
static const uintptr_t FAKE = 0x510000000000ull;
static Thr* by_handle(pthread_t h) { uintptr_t v = (uintptr_t)h; if(v >= FAKE && v < FAKE + g_all.size() * 64) return g_all[(v - FAKE) / 64]; return nullptr; }
}
using namespace sim;

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
	REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	if(!in_ctx()) return real_pthread_create(out, attr, fn, arg);
	point(1);
	if(fault_thread()) return EAGAIN;
	Thr* t = new Thr; t->id = (int)g_all.size(); t->fn = fn; t->arg = arg; t->st = S_READY; t->rseq = ++g_rseq; t->rstep = g_steps;
	t->prio = 1 + (int)g_rng.below(1000000);
	g_all.push_back(t); g_live.push_back(t);
	*out = (pthread_t)(FAKE + (uintptr_t)t->id * 64);
	if(real_pthread_create(&t->real, nullptr, trampoline, t)) { fprintf(stderr, "sim: real pthread_create failed\n"); _exit(98); }
	if(t->id == 1) start_instr();
	fold(0x6000 + t->id); trace("create thread %d", t->id);
	point(2);
	return 0;
}
int pthread_join(pthread_t h, void** ret) {
	REAL(int, pthread_join, pthread_t, void**);
	Thr* t = by_handle(h);
	if(!t) return in_ctx() ? ESRCH : real_pthread_join(h, ret);
	if(t == t_self) return EDEADLK;
	point(3);
	while(t->st != S_DONE) block(S_JOIN, t, false, 0);
	t->joined = true; if(ret) *ret = t->ret;
	point(4);
	return 0;
}
int pthread_detach(pthread_t h) { REAL(int, pthread_detach, pthread_t); Thr* t = by_handle(h); if(!t) return real_pthread_detach(h); t->detached = true; return 0; }
pthread_t pthread_self(void) noexcept { if(t_self && g_mode != M_OFF) return (pthread_t)(FAKE + (uintptr_t)t_self->id * 64); REAL(pthread_t, pthread_self, void); return real_pthread_self(); }
int pthread_setname_np(pthread_t h, const char* n) noexcept { Thr* t = by_handle(h); if(t) { strncpy(t->name, n, sizeof(t->name) - 1); return 0; } return 0; }
int pthread_getname_np(pthread_t h, char* b, size_t n) noexcept { Thr* t = by_handle(h); if(n) { strncpy(b, t ? t->name : "", n - 1); b[n - 1] = 0; } return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept { return 0; }
int pthread_kill(pthread_t, int) noexcept { return 0; }
int sched_yield(void) noexcept { if(!in_ctx()) return 0; tick(); t_self->burst = 1 << 20; reschedule(true, false, 0, 0); return 0; }

// mutex: state lives in the first words of the object; all zero = unlocked
struct MX { int owner1; unsigned count; int waiters; };
static inline MX* mx(pthread_mutex_t* m) { return (MX*)m; }
static inline int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lock_slow(pthread_mutex_t* m, bool timed, uint64_t t) {
	MX* x = mx(m); int me = t_self->id + 1;
	while(x->owner1) {
		if(x->owner1 == me) {
			if(mkind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
			if(mkind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
		}
		block(S_MUTEX, m, timed, t);
		if(timed && t_self->timed_out && x->owner1) return ETIMEDOUT;
	}
	x->owner1 = me; x->count = 1;
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(int, pthread_mutex_lock, pthread_mutex_t*); if(!in_ctx()) return g_mode == M_OFF ? real_pthread_mutex_lock(m) : 0; point(5); return lock_slow(m, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
	REAL(int, pthread_mutex_trylock, pthread_mutex_t*); if(!in_ctx()) return g_mode == M_OFF ? real_pthread_mutex_trylock(m) : 0;
	point(6); MX* x = mx(m);
	if(x->owner1) { if(x->owner1 == t_self->id + 1 && mkind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; } return EBUSY; }
	x->owner1 = t_self->id + 1; x->count = 1; return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { point(5); return lock_slow(m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec - 1622505600000000000ull); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
	REAL(int, pthread_mutex_unlock, pthread_mutex_t*); if(!in_ctx()) return g_mode == M_OFF ? real_pthread_mutex_unlock(m) : 0;
	MX* x = mx(m);
	if(x->count > 1) { x->count--; return 0; }
	x->owner1 = 0; x->count = 0;
	wake_all_on(m, S_MUTEX);
	point(7);
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*); return real_pthread_mutex_init(m, a); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t t) {
	if(!in_ctx()) return 0;
	point(8);
	MX* x = mx(m); unsigned cnt = x->count; x->owner1 = 0; x->count = 0;
	wake_all_on(m, S_MUTEX);
	uint64_t spur = spur_num || g_explicit ? choice(DEV_SPUR, 0, [] { return g_rng.below(65536) < spur_num ? 1 + g_rng.below(200) : 0; }) : 0;
	bool to = false;
	if(spur) { // spurious wake-up after a short while
		fired_add("sched.spurious_wakeup");
		uint64_t w = g_vt + spur * 500; bool mine = timed && t <= w;
		block(S_COND, c, true, mine ? t : w); to = mine && t_self->timed_out;
	} else { block(S_COND, c, timed, t); to = timed && t_self->timed_out; }
	while(x->owner1) block(S_MUTEX, m, false, 0);
	x->owner1 = t_self->id + 1; x->count = cnt;
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_common(c, m, false, 0); }
// the wall clock is set once: at virtual millisecond jump_t, by jump_d seconds
static int64_t rt_off() {
	static int64_t jt = -1, jd = 0; static bool init = false, done = false;
	if(!init) { init = true; jt = g_plan ? g_plan->get("jump_t", -1) : -1; jd = g_plan ? g_plan->get("jump_d") : 0; }
	if(jt < 0 || g_vt < (uint64_t)jt * 1000000ull) return 0;
	if(!done) { done = true; fired_add("clock_jump"); }
	return jd * 1000000000ll;
}
static uint64_t abs_real(const struct timespec* ts) { int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec - 1622505600000000000ll - rt_off(); return v < 0 ? 0 : v; }
static uint64_t abs_mono(const struct timespec* ts) { int64_t v = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec - 1000000000000ll; return v < 0 ? 0 : v; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait_common(c, m, true, abs_real(ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) { return cond_wait_common(c, m, true, clk == CLOCK_MONOTONIC ? abs_mono(ts) : abs_real(ts)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
	if(!in_ctx()) return 0;
	std::vector<Thr*> w; for(Thr* t : g_live) if(t->st == S_COND && t->obj == c) w.push_back(t);
	if(!w.empty()) { size_t i = w.size() > 1 ? choice(DEV_WAKE, 0, [&] { return g_rng.below(w.size()); }) : 0; if(i >= w.size()) i = 0; make_ready(w[i]); }
	point(9);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if(!in_ctx()) return 0; wake_all_on(c, S_COND); point(10); return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
	REAL(int, pthread_once, pthread_once_t*, void (*)(void));
	if(!in_ctx()) return real_pthread_once(o, fn);
	point(11);
	for(;;) {
		if(*o == 2) return 0;
		if(*o == 0) { *o = 1; try { fn(); } catch(...) { *o = 0; wake_all_on(o, S_FUTEX); throw; } *o = 2; wake_all_on(o, S_FUTEX); return 0; }
		block(S_FUTEX, o, false, 0);
	}
}
int __cxa_guard_acquire(uint64_t* g) noexcept {
	char* b = (char*)g;
	for(;;) {
		if(b[0]) return 0;
		if(!b[1]) { b[1] = 1; return 1; }
		if(!in_ctx()) return 1;
		block(S_FUTEX, g, false, 0);
	}
}
void __cxa_guard_release(uint64_t* g) noexcept { char* b = (char*)g; b[0] = 1; b[1] = 0; if(in_ctx()) wake_all_on(g, S_FUTEX); }
void __cxa_guard_abort(uint64_t* g) noexcept { char* b = (char*)g; b[1] = 0; if(in_ctx()) wake_all_on(g, S_FUTEX); }

// rwlock (std::shared_mutex), semaphores: state in the object
struct RW { int writer1; int readers; };
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if(!in_ctx()) return 0; point(12); RW* r = (RW*)l; while(r->writer1) block(S_RW, l, false, 0); r->readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if(!in_ctx()) return 0; point(12); RW* r = (RW*)l; while(r->writer1 || r->readers) block(S_RW, l, false, 0); r->writer1 = t_self->id + 1; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if(!in_ctx()) return 0; point(12); RW* r = (RW*)l; if(r->writer1) return EBUSY; r->readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if(!in_ctx()) return 0; point(12); RW* r = (RW*)l; if(r->writer1 || r->readers) return EBUSY; r->writer1 = t_self->id + 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if(!in_ctx()) return 0; RW* r = (RW*)l; if(r->writer1) r->writer1 = 0; else if(r->readers) r->readers--; wake_all_on(l, S_RW); point(13); return 0; }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int sem_init(sem_t* s, int, unsigned v) noexcept { *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_wait(sem_t* s) { if(!in_ctx()) return 0; point(14); while(*(int*)s <= 0) block(S_SEM, s, false, 0); --*(int*)s; return 0; }
int sem_trywait(sem_t* s) noexcept { if(!in_ctx()) return 0; point(14); if(*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }
int sem_post(sem_t* s) noexcept { ++*(int*)s; if(!in_ctx()) return 0; wake_all_on(s, S_SEM); point(15); return 0; }

long syscall(long n, ...) noexcept {
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
	if(n == SYS_futex && in_ctx()) {
		int* addr = (int*)a; int op = (int)b & 127 & ~FUTEX_CLOCK_REALTIME;
		if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			point(16);
			if(*addr != (int)c) { errno = EAGAIN; return -1; }
			bool timed = d != 0; uint64_t t = 0;
			if(timed) { auto* ts = (const struct timespec*)d; t = op == FUTEX_WAIT ? g_vt + ts->tv_sec * 1000000000ull + ts->tv_nsec : ((b & FUTEX_CLOCK_REALTIME) ? abs_real(ts) : abs_mono(ts)); }
			block(S_FUTEX, addr, timed, t);
			if(timed && t_self->timed_out) { errno = ETIMEDOUT; return -1; }
			return 0;
		}
		if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			long k = 0; for(Thr* t : std::vector<Thr*>(g_live)) if(k < c && t->st == S_FUTEX && t->obj == addr) { make_ready(t); k++; }
			point(17); return k;
		}
		errno = ENOSYS; return -1;
	}
	REAL(long, syscall, long, ...);
	return real_syscall(n, a, b, c, d, e, f);
}

// ---------------------------------------------------------------- time
static const int64_t EPOCH = 1622505600ll;     // 2021-06-01 00:00:00 UTC at virtual time 0
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
	REAL(int, clock_gettime, clockid_t, struct timespec*);
	if(g_mode == M_OFF) return real_clock_gettime(c, ts);
	uint64_t v = g_vt; if(in_ctx()) { g_vt += 100; }
	if(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) { int64_t w = (int64_t)v + rt_off() + EPOCH * 1000000000ll; ts->tv_sec = w / 1000000000ll; ts->tv_nsec = w % 1000000000ll; }
	else { ts->tv_sec = 1000 + v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; }
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock(void) noexcept { return (clock_t)(g_vt / 1000); }
int nanosleep(const struct timespec* a, struct timespec*) { REAL(int, nanosleep, const struct timespec*, struct timespec*); if(!in_ctx()) return g_mode == M_OFF ? real_nanosleep(a, nullptr) : 0; trace("sleep %ld.%09ld", (long)a->tv_sec, a->tv_nsec); sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec, 0); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec*) {
	if(!in_ctx()) return 0;
	if(fl & TIMER_ABSTIME) { uint64_t t = c == CLOCK_MONOTONIC ? abs_mono(a) : abs_real(a); if(t > g_vt) sleep_ns(t - g_vt, 0); } else sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec, 0);
	return 0;
}
int usleep(useconds_t u) { if(in_ctx()) sleep_ns((uint64_t)u * 1000, 0); return 0; }
unsigned sleep(unsigned s) { if(in_ctx()) sleep_ns((uint64_t)s * 1000000000ull, 0); return 0; }

// ---------------------------------------------------------------- signals, process end
typedef void (*sigh)(int);
sigh signal(int s, sigh h) noexcept { if(g_mode == M_OFF) { REAL(sigh, signal, int, sigh); return real_signal(s, h); } sigh o = g_handlers.count(s) ? g_handlers[s] : SIG_DFL; g_handlers[s] = h; g_hflags[s] = 0; return o; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) noexcept {
	REAL(int, sigaction, int, const struct sigaction*, struct sigaction*);
	if(g_mode == M_OFF) return real_sigaction(s, a, o);
	if(o) { memset(o, 0, sizeof *o); o->sa_handler = g_handlers.count(s) ? g_handlers[s] : SIG_DFL; }
	if(o) o->sa_flags = g_hflags[s];
	if(a) { g_handlers[s] = a->sa_handler; g_hflags[s] = a->sa_flags; }
	return 0;
}
int raise(int s) noexcept { if(g_mode == M_OFF) { REAL(int, raise, int); return real_raise(s); } deliver(s); return 0; }
int kill(pid_t p, int s) noexcept { REAL(int, kill, pid_t, int); if(g_mode == M_OFF) return real_kill(p, s); if(p == getpid() || p == 0) deliver(s); return 0; }
pid_t getpid(void) noexcept { if(g_mode == M_OFF) { REAL(pid_t, getpid, void); return real_getpid(); } return 4242; }
void exit(int c) noexcept { if(g_mode == M_OFF) { REAL(void, exit, int); real_exit(c); } trace("exit(%d)", c); end_run(END_EXIT, c & 255); }
void _exit_sim(int c) { end_run(END_EXIT, c & 255); }
void quick_exit(int c) noexcept { end_run(END_EXIT, c & 255); }
void abort(void) noexcept {
	if(g_mode == M_OFF) { REAL(void, abort, void); real_abort(); }
	std::string what = "abort";
	if(auto ep = std::current_exception()) { g_mode = M_QUIET; try { std::rethrow_exception(ep); } catch(const std::exception& ex) { what = std::string("uncaught: ") + ex.what(); } catch(...) { what = "uncaught exception"; } }
	if(t_self && t_self->name[0]) what += std::string(" [") + t_self->name + "]";
	end_run(END_ABORT, 6, what.c_str());
}
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { char b[300]; snprintf(b, sizeof b, "assert %s %s:%u", e, f, l); if(g_mode == M_OFF) { fprintf(stderr, "%s\n", b); _exit(99); } end_run(END_ABORT, 6, b); }
void __stack_chk_fail(void) { end_run(END_SEGV, 6, "stack smashing"); }
void randombytes_buf(void* const b, const size_t n) {
	g_random_bytes += n;
	static Rng* r = nullptr; const uint64_t ks = g_plan ? g_plan->get("keyseed", 7) : 7; const int inc = g_plan && g_plan->get("samekeys") ? 0 : g_inc;
	if(g_plan && g_plan->get("rnear")) {      // successive values agree in all bytes but one: every byte has to count
		static unsigned draws = 0; Rng x(mix64(ks)); for(size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = (uint8_t)(x.next() >> 32);
		if(n) ((uint8_t*)b)[g_plan->get("rpos") % n] ^= (uint8_t)(++draws + 64 * inc);
		fired_add("random_near_equal"); return;
	}
	if(!r) r = new Rng(mix64(ks + 1000003ull * inc)); for(size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = (uint8_t)(r->next() >> 32);
}
}

// ---------------------------------------------------------------- compiler instrumentation (-fsanitize=thread, our runtime)
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW_(n) void __tsan_read##n(void*) { access(PC); } void __tsan_write##n(void*) { access(PC); } \
	void __tsan_volatile_read##n(void*) { access(PC); } void __tsan_volatile_write##n(void*) { access(PC); } \
	void __tsan_unaligned_read##n(void*) { access(PC); } void __tsan_unaligned_write##n(void*) { access(PC); } \
	void __tsan_unaligned_volatile_read##n(void*) { access(PC); } void __tsan_unaligned_volatile_write##n(void*) { access(PC); } \
	void __tsan_read##n##_pc(void*, void*) { access(PC); } void __tsan_write##n##_pc(void*, void*) { access(PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void*, unsigned long) { access(PC); }
void __tsan_write_range(void*, unsigned long) { access(PC); }
static inline void apoint() { if(__builtin_expect(--sim::g_acnt == 0, 0)) sim::apoint_slow(); }
#define AT(sz, T) \
	T __tsan_atomic##sz##_load(const volatile T* a, int) { apoint(); return *a; } \
	void __tsan_atomic##sz##_store(volatile T* a, T v, int) { apoint(); *a = v; } \
	T __tsan_atomic##sz##_exchange(volatile T* a, T v, int) { apoint(); T o = *a; *a = v; return o; } \
	T __tsan_atomic##sz##_fetch_add(volatile T* a, T v, int) { apoint(); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##sz##_fetch_sub(volatile T* a, T v, int) { apoint(); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##sz##_fetch_and(volatile T* a, T v, int) { apoint(); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##sz##_fetch_or(volatile T* a, T v, int) { apoint(); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##sz##_fetch_xor(volatile T* a, T v, int) { apoint(); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##sz##_fetch_nand(volatile T* a, T v, int) { apoint(); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##sz##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { apoint(); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##sz##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { apoint(); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##sz##_compare_exchange_val(volatile T* a, T c, T v, int, int) { apoint(); T o = *a; if(o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { apoint(); }
void __tsan_atomic_signal_fence(int) {}
}
