// Deterministic simulator: public interface used by the worlds.
// See DESIGN.md section "Simulator".
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- random
struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { reseed(seed); }
	void reseed(uint64_t seed);
	uint64_t next();
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(double p) { return unit() < p; }
	uint64_t log_uniform(uint64_t lo, uint64_t hi);
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix64(uint64_t x);
uint64_t hash_str(const char* s);

// ---------------------------------------------------------------- plan
enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_STAT, OP_THREAD, OP_ALLOC, OP_COUNT };
extern const char* const op_names[OP_COUNT];

enum Sticky { STICKY_ONCE, STICKY_FILE, STICKY_MOUNT };

struct Fault {
	int inc = 0;               // which incarnation (process start) of the history
	int op = 0;
	std::string cls;           // path class, "*" = any
	uint64_t nth = 1;          // nth matching operation (1 based)
	int err = 5;
	int sticky = STICKY_ONCE;
	int frac = 0;              // torn write: per mille of the buffer that reaches the disk
	int lose = 0;              // close: last write of the descriptor is lost
};
struct Window {                // a whole directory tree misbehaves during [t0,t1) of virtual time
	std::string prefix; double t0 = 0, t1 = 0; int err = 5; int ops = 0; // ops: bit mask of Op
};
struct Sig { int inc = 0; double t = -1; uint64_t step = 0; int signo = 2; };  // t>=0: virtual seconds, else at step
struct Crash { int inc = 0; uint64_t step = 0; double t = -1; std::string cls; int op = -1; uint64_t nth = 0; int after = 0; };

enum DevKind { DEV_SCHED = 0, DEV_WAKE = 1, DEV_SPUR = 2, DEV_LAT = 3, DEV_PRE = 4 };
struct Dev { uint32_t inc, kind; uint32_t a; uint64_t b; uint64_t val; };

struct Plan {
	std::string world, prop;
	uint64_t seed = 0;
	std::map<std::string, int64_t> p;       // scenario parameters
	std::map<std::string, std::string> sp;
	std::vector<Fault> faults;
	std::vector<Window> windows;
	std::vector<Sig> sigs;
	std::vector<Crash> crashes;
	bool explicit_sched = false;
	std::vector<Dev> devs;
	int64_t get(const char* n, int64_t d = 0) const { auto i = p.find(n); return i == p.end() ? d : i->second; }
	std::string gets(const char* n, const std::string& d = "") const { auto i = sp.find(n); return i == sp.end() ? d : i->second; }
	std::string to_text() const;
	bool from_text(const std::string& t);
};

// draws a scheduling policy into plan.p ("pol","psw","pct_d",...)
void gen_policy(Rng& r, Plan& plan, double est_points = 20000);

// ---------------------------------------------------------------- incarnation
enum EndKind { END_NONE, END_EXIT, END_ABORT, END_SEGV, END_DEADLOCK, END_STEPCAP, END_CPU, END_CRASH, END_SIGNAL };
extern const char* const end_names[];
struct Exit {
	int kind = END_NONE; int code = 0;
	uint64_t points = 0, switches = 0; uint64_t vtime_ns = 0; uint64_t hash = 0, sched_hash = 0;
	int threads = 0; int max_fds = 0; uint64_t faults_fired = 0;
	std::string info;          // wait graph on deadlock, what() on abort
	bool ok() const { return kind == END_EXIT && code == 0; }
};

struct Limits { uint64_t step_cap = 60000000; int cpu_secs = 100; };
// Runs fn as the main thread of a fresh simulated process. Called in the supervisor.
Exit exec(const Plan& plan, const std::function<int()>& fn, const Limits& lim = Limits());
int incarnations();                         // number of exec() calls of this history

// ---------------------------------------------------------------- verdicts / stats
void violation(const std::string& cls, const std::string& detail);   // first one wins
bool violated();
void probe(const char* name, uint64_t add = 1);                       // "rare condition was hit" counters
void note(const std::string& s);                                      // free text in trace mode

bool active();            // inside a simulated process, scheduler on
extern uint64_t g_random_bytes;   // bytes of randomness handed out in this incarnation
struct Quiet { bool old; Quiet(); ~Quiet(); };   // no scheduling, no faults inside
double now();             // virtual seconds since start of history
uint64_t step();
void end_process(int kind, int code);            // ends the current simulated process

// ---------------------------------------------------------------- simulated file system
namespace fs {
void mount(const std::string& dir, uint64_t capacity = ~0ull, int dev = 0);   // equal dev: rename between them works
//        // dir ends with '/'
void set_capacity(const std::string& dir, uint64_t capacity);
struct Info { std::string path; uint64_t size; uint64_t ino; };
std::vector<Info> list(const std::string& prefix = "/sim/");
bool exists(const std::string& path);
uint64_t size(const std::string& path);
std::vector<uint8_t> read_file(const std::string& path, uint64_t off = 0, uint64_t len = ~0ull);
void write_file(const std::string& path, const void* data, size_t n, uint64_t off = 0, bool trunc = true);
void unlink(const std::string& path);
uint64_t content_hash(const std::string& path);
uint64_t used(const std::string& dir);           // bytes (file sizes incl. unlinked-but-open) on the mount
uint64_t peak(const std::string& dir);
uint64_t peak_all();                             // peak of the sum over all mounts
int open_count();
// a file whose content is computed: fn(offset, buf, n)
typedef void (*Gen)(uint64_t off, uint8_t* buf, size_t n);
void set_generated(const std::string& path, Gen fn, uint64_t size);
std::string path_class(const std::string& path);
struct Count { int op; std::string cls; uint64_t n; };
std::vector<Count> op_counts();                  // of the last incarnation
}
// called after every successful file system operation (in the simulated process, baton held)
extern std::function<void(int op, const std::string& path, const std::string& path2)> fs_observer;

// fault counters over the history: kind -> fired
std::map<std::string, uint64_t> fired();

// ---------------------------------------------------------------- main loop
struct World {
	const char* name;
	std::function<void(Rng&, Plan&)> gen;        // seed -> plan (pure function of rng + calibration)
	std::function<void(const Plan&)> run;        // executes a history, reports violations
	std::function<void()> init;                  // once per worker process (calibration, references)
};
void add_world(const World& w);
int main_loop(int argc, char** argv);

extern std::string g_cache_dir;                  // where references may be cached
}
