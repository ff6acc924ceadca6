#pragma once
#include "sim.h"
#include <pthread.h>
#include <ctime>
#include <sys/types.h>
#include <atomic>

namespace sim {
enum Mode { M_OFF, M_ACTIVE, M_QUIET };
extern volatile int g_mode;

constexpr size_t MAXDEV = 1u << 22;
constexpr int MAXNAMED = 512;
struct Named { char name[72]; uint64_t n; };
struct OpCount { int op; char cls[88]; uint64_t n; };

struct Shared {
	// verdict
	volatile int violated;
	char vcls[96];
	char vdetail[3000];
	// end of incarnation
	int end_kind, end_code;
	uint64_t points, switches, hash, sched_hash, faults_fired;
	int threads, max_fds;
	char info[3000];
	// history
	uint64_t vtime_ns;             // carries over incarnations
	int incarnation;
	uint64_t ndevs; int dev_overflow;
	int nfired, nprobes, nops;
	Named fired[MAXNAMED];
	Named probes[MAXNAMED];
	OpCount ops[MAXNAMED];
	Dev devs[MAXDEV];
};
extern Shared* sh;
void named_add(Named* a, int& n, const char* name, uint64_t add);
void fired_add(const char* name, uint64_t add = 1);

// ---- scheduler
enum St { S_NEW, S_READY, S_RUN, S_MUTEX, S_COND, S_JOIN, S_SLEEP, S_FUTEX, S_DONE, S_SEM, S_RW };
struct Thr {
	int id = 0; volatile int go = 0; int st = S_NEW;
	const void* obj = nullptr; const void* obj2 = nullptr;
	uint64_t wake_ns = 0; bool timed = false; bool timed_out = false; bool spurious = false;
	void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
	bool detached = false, joined = false;
	pthread_t real{};
	uint64_t npts = 0, nch = 0; int prio = 0; uint64_t rseq = 0; uint64_t rstep = 0; uint64_t burst = 0;
	char name[20] = {};
};
Thr* self();
void point(uint32_t tag);                              // a scheduling point
void block(int st, const void* obj, bool timed, uint64_t wake_ns);   // give up the cpu until made ready
void make_ready(Thr* t);
int wake_all_on(const void* obj, int st);
void sleep_ns(uint64_t ns, int why);
void fold(uint64_t v);                                 // event log hash
uint64_t choice(int kind, uint64_t dflt, const std::function<uint64_t()>& gen);
extern Rng g_rng;
extern const Plan* g_plan;
extern int g_inc;
extern uint64_t g_vt;
extern FILE* g_trace;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run(int kind, int code, const char* info = "");
void check_crash(int op, const char* cls, bool after);
bool preemptible();

// fs
namespace fs { void init_arena(); void reset(); void child_start(); void child_end(bool flush); void collect_counts(); void* arena_base(); }
bool fault_thread();
bool in_ctx();
template<class F> F real_fn(const char* name) { extern void* real_lookup(const char*); return (F)real_lookup(name); }
}
void* sim_real_lookup(const char* name);
