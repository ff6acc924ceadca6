// Plan (de)serialisation, seeded search loop, replay and minimisation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <set>

namespace sim {
uint64_t history_hash(); void reset_history_hash();
std::string g_cache_dir = ".";
static std::vector<World>& worlds() { static std::vector<World> w; return w; }
void add_world(const World& w) { worlds().push_back(w); }

std::string Plan::to_text() const {
	std::ostringstream o; o.precision(17);
	o << "simplan 1\nworld " << world << "\nprop " << prop << "\nseed " << seed << "\n";
	for(auto& e : p) o << "p " << e.first << " " << e.second << "\n";
	for(auto& e : sp) o << "sp " << e.first << " " << e.second << "\n";
	for(auto& f : faults) o << "fault " << f.inc << " " << op_names[f.op] << " " << f.nth << " " << f.err << " " << f.sticky << " " << f.frac << " " << f.lose << " " << f.cls << "\n";
	for(auto& w : windows) o << "window " << w.t0 << " " << w.t1 << " " << w.err << " " << w.ops << " " << w.prefix << "\n";
	for(auto& s : sigs) o << "sig " << s.inc << " " << s.t << " " << s.step << " " << s.signo << "\n";
	for(auto& c : crashes) o << "crash " << c.inc << " " << c.t << " " << c.step << " " << c.op << " " << c.nth << " " << c.after << " " << (c.cls.empty() ? "*" : c.cls) << "\n";
	o << "explicit " << (explicit_sched ? 1 : 0) << "\n";
	for(auto& d : devs) o << "dev " << d.inc << " " << d.kind << " " << d.a << " " << d.b << " " << d.val << "\n";
	o << "end\n";
	return o.str();
}
bool Plan::from_text(const std::string& t) {
	std::istringstream in(t); std::string line; bool end = false; *this = Plan();
	while(std::getline(in, line)) {
		std::istringstream l(line); std::string k; l >> k;
		if(k == "world") l >> world; else if(k == "prop") l >> prop; else if(k == "seed") l >> seed;
		else if(k == "p") { std::string n; int64_t v; l >> n >> v; p[n] = v; }
		else if(k == "sp") { std::string n, v; l >> n >> v; sp[n] = v; }
		else if(k == "fault") { Fault f; std::string op; l >> f.inc >> op >> f.nth >> f.err >> f.sticky >> f.frac >> f.lose >> f.cls; for(int i = 0; i < OP_COUNT; ++i) if(op == op_names[i]) f.op = i; faults.push_back(f); }
		else if(k == "window") { Window w; l >> w.t0 >> w.t1 >> w.err >> w.ops >> w.prefix; windows.push_back(w); }
		else if(k == "sig") { Sig s; l >> s.inc >> s.t >> s.step >> s.signo; sigs.push_back(s); }
		else if(k == "crash") { Crash c; l >> c.inc >> c.t >> c.step >> c.op >> c.nth >> c.after >> c.cls; crashes.push_back(c); }
		else if(k == "explicit") { int v; l >> v; explicit_sched = v; }
		else if(k == "dev") { Dev d; l >> d.inc >> d.kind >> d.a >> d.b >> d.val; devs.push_back(d); }
		else if(k == "end") end = true;
	}
	return end;
}

struct Result { bool violated = false; std::string cls, detail; uint64_t hash = 0; uint64_t points = 0, switches = 0, vtime = 0; std::vector<Dev> devs; bool overflow = false; int incs = 0; uint64_t shash = 0; bool broken = false; };

static World* find_world(const std::string& n) { for(auto& w : worlds()) if(n == w.name) return &w; return nullptr; }
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
struct Tot { volatile uint64_t hash, points, switches, vtime, shash; volatile int done; };
static Tot* tot = nullptr;
static bool g_keep_stats = true;
static std::string g_trace_path;

// Executes one history in a forked supervisor.
static Result run_plan(const Plan& plan, bool want_devs) {
	fs::reset();
	sh->violated = 0; memset(sh->vcls, 0, sizeof sh->vcls); memset(sh->vdetail, 0, sizeof sh->vdetail);
	sh->vtime_ns = 0; sh->incarnation = 0; sh->ndevs = 0; sh->dev_overflow = 0; sh->nops = 0;
	Named* sf = nullptr; int nf = 0, np = 0; std::vector<Named> keepf, keepp;
	if(!g_keep_stats) { nf = sh->nfired; np = sh->nprobes; keepf.assign(sh->fired, sh->fired + nf); keepp.assign(sh->probes, sh->probes + np); }
	(void)sf;
	memset((void*)tot, 0, sizeof *tot);
	pid_t pid = fork();
	if(pid == 0) {
		setpgid(0, 0);
		if(!getenv("SIM_STDOUT")) { int fd = ::open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
		if(!g_trace_path.empty()) { g_trace = fopen(g_trace_path.c_str(), "w"); if(g_trace) setvbuf(g_trace, nullptr, _IOFBF, 1 << 16); }
		reset_history_hash();
		World* w = find_world(plan.world);
		w->run(plan);
		tot->hash = history_hash() ^ (sh->violated ? hash_str(sh->vcls) : 0); tot->vtime = sh->vtime_ns; tot->done = 1;
		if(g_trace) fflush(g_trace);
		_exit(0);
	}
	int st; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Result r; r.violated = sh->violated; r.cls = sh->vcls; r.detail = sh->vdetail; r.hash = tot->hash; r.points = tot->points; r.switches = tot->switches; r.vtime = tot->vtime; r.overflow = sh->dev_overflow; r.incs = sh->incarnation; r.shash = tot->shash;
	if(!tot->done) { r.broken = true; }
	if(want_devs) r.devs.assign(sh->devs, sh->devs + sh->ndevs);
	if(!g_keep_stats) { memcpy(sh->fired, keepf.data(), nf * sizeof(Named)); sh->nfired = nf; memcpy(sh->probes, keepp.data(), np * sizeof(Named)); sh->nprobes = np; for(int i = nf; i < MAXNAMED; ++i) memset(&sh->fired[i], 0, sizeof(Named)); for(int i = np; i < MAXNAMED; ++i) memset(&sh->probes[i], 0, sizeof(Named)); }
	return r;
}
// called by the worlds' exec() accounting
void account(const Exit& e) { tot->points += e.points; tot->switches += e.switches; tot->shash = (tot->shash ^ e.sched_hash) * 0x9ddfea08eb382d69ull + e.points; char b[40]; snprintf(b, sizeof b, "end.%s", end_names[e.kind]); named_add(sh->probes, sh->nprobes, b, 1); }

static std::string jesc(const std::string& s) { std::string o; for(char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f); o << d; }

static Plan make_plan(World* w, const std::string& prop, uint64_t seed) { Plan p; p.world = w->name; p.prop = prop; p.seed = seed; Rng r(mix64(seed ^ 0xabcdef)); w->gen(r, p); return p; }

static Plan minimise(Plan p, const std::string& cls, double budget, int& tries, double& shrunk_from) {
	double t0 = wall(); g_keep_stats = false; tries = 0; shrunk_from = (double)p.devs.size();
	auto fails = [&](const Plan& q) { tries++; Result r = run_plan(q, false); return r.violated && r.cls == cls; };
	auto left = [&] { return wall() - t0 < budget; };
	if(!p.devs.empty()) { Plan q = p; q.devs.clear(); if(fails(q)) p = q; }
	// environment events, one at a time
	auto drop_each = [&](auto member) {
		for(size_t i = 0; i < (p.*member).size() && left();) { Plan q = p; (q.*member).erase((q.*member).begin() + i); if(fails(q)) p = q; else ++i; }
	};
	drop_each(&Plan::faults); drop_each(&Plan::windows); drop_each(&Plan::sigs); drop_each(&Plan::crashes);
	// schedule: first the tail, then delta debugging
	{ size_t lo = 0, hi = p.devs.size(); while(lo < hi && left()) { size_t mid = (lo + hi) / 2; Plan q = p; q.devs.resize(mid); if(fails(q)) { p = q; hi = mid; } else lo = mid + 1; } }
	size_t n = 2;
	while(p.devs.size() > 1 && left()) {
		size_t len = (p.devs.size() + n - 1) / n; bool prog = false;
		for(size_t i = 0; i < p.devs.size() && left(); ) {
			Plan q = p; size_t e = std::min(p.devs.size(), i + len); q.devs.erase(q.devs.begin() + i, q.devs.begin() + e);
			if(fails(q)) { p = q; prog = true; } else i = e;
		}
		if(prog) n = std::max<size_t>(2, n - 1); else { if(len <= 1) break; n = std::min(p.devs.size(), n * 2); }
	}
	if(p.devs.size() == 1 && left()) { Plan q = p; q.devs.clear(); if(fails(q)) p = q; }
	return p;
}

static volatile int g_stop = 0;
static void on_term(int) { g_stop = 1; }
int main_loop(int argc, char** argv) {
	std::map<std::string, std::string> a; std::string mode = argc > 1 ? argv[1] : "";
	for(int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	// one core, no address randomisation: makes timing irrelevant and addresses repeatable
	if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if(personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
	setenv("TZ", "UTC", 1); tzset();
	mallopt(M_ARENA_MAX, 1); mallopt(M_PERTURB, 0x5a); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_TOP_PAD, 1 << 26);
	if(a.count("--core")) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(atoi(a["--core"].c_str()), &c); sched_setaffinity(0, sizeof c, &c); }
	else { cpu_set_t c; sched_getaffinity(0, sizeof c, &c); for(int i = 0, first = 1; i < CPU_SETSIZE; ++i) if(CPU_ISSET(i, &c)) { if(!first) CPU_CLR(i, &c); first = 0; } sched_setaffinity(0, sizeof c, &c); }
	if(a.count("--cache")) g_cache_dir = a["--cache"];
	if(a.count("--trace")) g_trace_path = a["--trace"];
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tot = (Tot*)mmap(0, sizeof(Tot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fs::init_arena();
	if(mode == "replay") {
		Plan p; if(!p.from_text(slurp(a["--file"]))) { printf("{\"error\":\"bad plan\"}\n"); return 3; }
		World* w = find_world(p.world); if(!w) { printf("{\"error\":\"no world\"}\n"); return 3; }
		if(w->init) w->init();
		Result r = run_plan(p, false);
		printf("{\"violated\":%d,\"class\":\"%s\",\"detail\":\"%s\",\"hash\":\"%016llx\",\"points\":%llu,\"broken\":%d}\n", r.violated, jesc(r.cls).c_str(), jesc(r.detail).c_str(), (unsigned long long)r.hash, (unsigned long long)r.points, r.broken);
		return r.violated ? 1 : 0;
	}
	World* w = find_world(a["--world"]);
	if(mode == "seed" || mode == "search" || mode == "confirm") { if(!w) { printf("{\"error\":\"no world\"}\n"); return 3; } if(w->init) w->init(); }
	if(mode == "seed") {   // one seed, print the plan and the result
		Plan p = make_plan(w, a["--prop"], strtoull(a["--seed"].c_str(), 0, 0));
		if(a.count("--plan")) spit(a["--plan"], p.to_text());
		double t0 = wall(); Result r = run_plan(p, true);
		printf("{\"violated\":%d,\"class\":\"%s\",\"detail\":\"%s\",\"hash\":\"%016llx\",\"points\":%llu,\"switches\":%llu,\"devs\":%zu,\"wall\":%.3f,\"vtime\":%.3f,\"incs\":%d,\"broken\":%d}\n", r.violated, jesc(r.cls).c_str(), jesc(r.detail).c_str(), (unsigned long long)r.hash, (unsigned long long)r.points, (unsigned long long)r.switches, r.devs.size(), wall() - t0, r.vtime * 1e-9, r.incs, r.broken);
		for(int i = 1; a.count("--repeat") && i < atoi(a["--repeat"].c_str()); ++i) { if(!g_trace_path.empty()) g_trace_path = a["--trace"] + "." + std::to_string(i); std::vector<std::string> junk; for(int j = 0; j < i * 37; ++j) junk.push_back(std::string(10 + j, 'x')); 
#ifdef SIM_FOLDLOG
			extern uint64_t* foldlog(); std::vector<uint64_t> l1(foldlog(), foldlog() + foldlog()[0] + 1); foldlog()[0] = 0;
#endif
			Result r2 = run_plan(p, false);
#ifdef SIM_FOLDLOG
			{ uint64_t* l2 = foldlog(); size_t x = 1; while(x < l1.size() && x <= l2[0] && l1[x] == l2[x]) ++x; if(x < l1.size()) for(size_t y = x > 30 ? x - 30 : 1; y < x + 10; ++y) printf("%zu %llx %llx%s\n", y, (unsigned long long)l1[y], (unsigned long long)l2[y], l1[y] == l2[y] ? "" : " <<<"); }
#endif
			printf("repeat %d hash %016llx points %llu%s\n", i, (unsigned long long)r2.hash, (unsigned long long)r2.points, r2.hash == r.hash ? "" : " DIFFERENT"); }
		for(int i = 0; i < sh->nfired; ++i) printf("fired %s %llu\n", sh->fired[i].name, (unsigned long long)sh->fired[i].n);
		for(int i = 0; i < sh->nprobes; ++i) printf("probe %s %llu\n", sh->probes[i].name, (unsigned long long)sh->probes[i].n);
		return r.violated ? 1 : 0;
	}
	if(mode == "confirm") {   // seed twice + explicit replay + minimise
		uint64_t seed = strtoull(a["--seed"].c_str(), 0, 0);
		Plan p = make_plan(w, a["--prop"], seed); g_keep_stats = false;
		Result r1 = run_plan(p, true); Result r2 = run_plan(p, false);
		bool det = r1.violated && r2.violated && r1.cls == r2.cls;   // hash equality is reported separately: a violation that corrupts memory may log other addresses
		Plan e = p; e.explicit_sched = true; e.devs = r1.devs;
		Result r3 = run_plan(e, false);
		bool expl = r3.violated && r3.cls == r1.cls && !r1.overflow;
		int tries = 0; double from = 0; Plan m = e; 
		if(det && expl) m = minimise(e, r1.cls, atof(a["--budget"].c_str()), tries, from);
		spit(a["--out"], (expl ? m : p).to_text());
		Result r4 = run_plan(expl ? m : p, false);
		printf("{\"hash_equal\":%d,\"det\":%d,\"explicit\":%d,\"hash_equal_explicit\":%d,\"class\":\"%s\",\"detail\":\"%s\",\"devs_from\":%.0f,\"devs_to\":%zu,\"tries\":%d,\"final_class\":\"%s\",\"final_hash\":\"%016llx\",\"final_detail\":\"%s\"}\n",
			r1.hash == r2.hash, det, expl, r3.hash == r1.hash, jesc(r1.cls).c_str(), jesc(r1.detail).c_str(), from, m.devs.size(), tries, jesc(r4.cls).c_str(), (unsigned long long)r4.hash, jesc(r4.detail).c_str());
		return det && expl && r4.violated ? 0 : 2;
	}
	if(mode == "search") {
		uint64_t base = strtoull(a["--seed"].c_str(), 0, 0); uint64_t i = strtoull(a["--from"].c_str(), 0, 0), stride = strtoull(a["--stride"].c_str(), 0, 0);
		double secs = atof(a["--secs"].c_str()); uint64_t maxruns = a.count("--max") ? strtoull(a["--max"].c_str(), 0, 0) : ~0ull; int maxviol = a.count("--maxviol") ? atoi(a["--maxviol"].c_str()) : 1;
		int detevery = a.count("--detevery") ? atoi(a["--detevery"].c_str()) : 40;
		double t0 = wall(); uint64_t runs = 0, incs = 0, points = 0, switches = 0, detn = 0, detbad = 0, broken = 0; double vt = 0; int nviol = 0; std::set<uint64_t> shashes; std::string viol, detseeds;
		std::string samples; { struct sigaction sa{}; sa.sa_handler = on_term; sigaction(SIGTERM, &sa, nullptr); }
		for(; runs < maxruns && !g_stop && (wall() - t0 < secs || runs < 1); i += stride ? stride : 1) {
			uint64_t seed = mix64(base * 1000003ull + i) >> 1;
			Plan p = make_plan(w, a["--prop"], seed);
			Result r = run_plan(p, false);
			runs++; incs += r.incs; points += r.points; switches += r.switches; vt += r.vtime * 1e-9; if(r.switches >= 2) shashes.insert(r.shash);
			if(r.broken) { broken++; if(!samples.empty()) samples += ","; samples += "{\"broken_seed\":" + std::to_string(seed) + "}"; }
			if(runs <= 3) { if(!samples.empty()) samples += ","; std::string t = p.to_text(); samples += "{\"seed\":" + std::to_string(seed) + ",\"plan\":\"" + jesc(t.substr(0, 900)) + "\",\"points\":" + std::to_string(r.points) + ",\"switches\":" + std::to_string(r.switches) + "}"; }
			if(r.violated) { if(nviol++) viol += ","; viol += "{\"seed\":" + std::to_string(seed) + ",\"class\":\"" + jesc(r.cls) + "\",\"detail\":\"" + jesc(r.detail) + "\"}"; if(nviol >= maxviol) break; }
			if(detevery && runs % detevery == 3 % detevery && wall() - t0 < secs) { g_keep_stats = false; Result r2 = run_plan(p, false); g_keep_stats = true; detn++; if(r2.hash != r.hash) { detbad++; detseeds += (detseeds.empty() ? "" : ",") + std::to_string(seed); } }
		}
		printf("{\"runs\":%llu,\"incarnations\":%llu,\"points\":%llu,\"switches\":%llu,\"vtime\":%.3f,\"wall\":%.3f,\"broken\":%llu,\"det_checked\":%llu,\"det_bad\":%llu,\"det_seeds\":[%s],\"violations\":[%s],\"samples\":[%s],\"fired\":{", (unsigned long long)runs, (unsigned long long)incs, (unsigned long long)points, (unsigned long long)switches, vt, wall() - t0, (unsigned long long)broken, (unsigned long long)detn, (unsigned long long)detbad, detseeds.c_str(), viol.c_str(), samples.c_str());
		for(int k = 0; k < sh->nfired; ++k) printf("%s\"%s\":%llu", k ? "," : "", sh->fired[k].name, (unsigned long long)sh->fired[k].n);
		printf("},\"probes\":{");
		for(int k = 0; k < sh->nprobes; ++k) printf("%s\"%s\":%llu", k ? "," : "", sh->probes[k].name, (unsigned long long)sh->probes[k].n);
		printf("},\"shashes\":[");
		bool first = true; for(uint64_t h : shashes) { printf("%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
		printf("]}\n");
		return 0;
	}
	fprintf(stderr, "usage: search|confirm|replay|seed ...\n");
	return 3;
}
}
