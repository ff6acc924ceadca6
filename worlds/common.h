#pragma once
#include "../sim/sim.h"
#include "../ref/ref.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <signal.h>
#include <algorithm>
#include <set>

namespace w {
using namespace sim;
inline std::string S(long long v) { return std::to_string(v); }
inline bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
inline bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
inline ref::Reader reader(const std::string& path) { return [path](uint64_t o, uint64_t n) { return fs::read_file(path, o, n); }; }
inline std::string ending(const Exit& e) { return std::string(end_names[e.kind]) + " code " + S(e.code) + (e.info.empty() ? "" : " (" + e.info + ")"); }
// the process must have ended by itself with status 0
inline bool need_success(const Exit& e, const char* what = "run without faults") { if(e.ok()) return true; violation(std::string("not-finished.") + end_names[e.kind], std::string(what) + " ended with " + ending(e)); return false; }
inline bool hung(const Exit& e) { return e.kind == END_DEADLOCK || e.kind == END_STEPCAP || e.kind == END_CPU; }
inline std::vector<std::string> plots(const std::string& prefix = "/sim/") { std::vector<std::string> v; for(auto& f : fs::list(prefix)) if(ends(f.path, ".plot")) v.push_back(f.path); return v; }
// foreign files that must survive untouched
struct Foreign { std::map<std::string, uint64_t> h; };
inline void put_foreign(Foreign& f, Rng& r, const std::vector<std::string>& dirs) {
	static const char* names[] = {"plot-k16-2021-05-31-23-59-0000000000000000000000000000000000000000000000000000000000000000.plot", "notes.txt", "other.tmp", "plot-k32-2021-01-01-00-00-abcd.plot.tmp", ".chia_plot_tmp.old", "x.sort_bucket_3.tmp", "p1.table1.tmp", "plot-k16-2021-05-31-23-59-1111.plot.2.tmp", "readme.p2.t2.sort_bucket_0.tmp"};
	for(auto& d : dirs) for(auto n : names) if(r.chance(0.5)) { std::string p = d + n; std::vector<uint8_t> b(r.range(0, 300)); for(auto& c : b) c = (uint8_t)r.next(); fs::write_file(p, b.data(), b.size()); f.h[p] = fs::content_hash(p); }
}
inline std::string check_foreign(const Foreign& f) { for(auto& e : f.h) { if(!fs::exists(e.first)) return e.first + " disappeared"; if(fs::content_hash(e.first) != e.second) return e.first + " was modified"; } return ""; }

// ---- faults placed by calibrated operation counts
struct Calib { std::vector<fs::Count> c; };
inline void save_calib(const std::string& file, const Calib& c) { if(FILE* f = fopen((file + "." + S(getpid())).c_str(), "w")) { for(auto& e : c.c) fprintf(f, "%d %llu %s\n", e.op, (unsigned long long)e.n, e.cls.c_str()); fclose(f); ::rename((file + "." + S(getpid())).c_str(), file.c_str()); } }
inline bool load_calib(const std::string& file, Calib& c) { FILE* f = fopen(file.c_str(), "r"); if(!f) return false; int op; unsigned long long n; char b[300]; c.c.clear(); while(fscanf(f, "%d %llu %299s", &op, &n, b) == 3) c.c.push_back({op, b, n}); fclose(f); return !c.c.empty(); }
// one fault at a random operation; classes are drawn uniformly so that rare files get their share
inline Fault draw_fault(Rng& r, const Calib& c, int inc, bool io_only, const std::function<bool(const fs::Count&)>& ok = nullptr) {
	Fault f; f.inc = inc;
	if(!io_only && r.chance(0.25)) {
		uint64_t nt = 30; for(auto& e : c.c) if(e.op == OP_THREAD) nt = e.n;
		if(r.chance(0.6)) { f.op = OP_THREAD; f.cls = "thread"; f.nth = 1 + r.below(nt); f.err = EAGAIN; }
		else { f.op = OP_ALLOC; f.cls = "alloc"; f.nth = r.log_uniform(1, 20000); f.err = ENOMEM; }
		return f;
	}
	std::vector<const fs::Count*> v;
	for(auto& e : c.c) if(e.op != OP_THREAD && e.op != OP_ALLOC && e.op != OP_STAT && e.n && (!ok || ok(e))) v.push_back(&e);
	if(v.empty()) { f.op = OP_WRITE; f.cls = "*"; f.nth = 1 + r.below(1000); return f; }
	// operation kind first, then class
	std::set<int> kinds; for(auto e : v) kinds.insert(e->op);
	std::vector<int> kv(kinds.begin(), kinds.end()); if(kinds.count(OP_WRITE)) { kv.push_back(OP_WRITE); kv.push_back(OP_WRITE); } if(kinds.count(OP_READ)) kv.push_back(OP_READ); if(kinds.count(OP_CLOSE)) kv.push_back(OP_CLOSE);
	int op = r.pick(kv); std::vector<const fs::Count*> w; for(auto e : v) if(e->op == op) w.push_back(e);
	const fs::Count* e = w[r.below(w.size())];
	f.op = op; f.cls = e->cls; f.nth = 1 + r.below(e->n); if(r.chance(0.15)) f.nth = e->n; if(r.chance(0.1)) f.nth = 1;
	switch(op) {
	case OP_WRITE: f.err = r.chance(0.5) ? ENOSPC : EIO; f.sticky = f.err == ENOSPC ? (r.chance(0.7) ? STICKY_MOUNT : STICKY_ONCE) : (int)r.below(3); f.frac = r.chance(0.5) ? (int)r.below(1000) : 0; break;
	case OP_READ: f.err = EIO; f.sticky = r.chance(0.5) ? STICKY_FILE : STICKY_ONCE; break;
	case OP_CLOSE: f.err = r.chance(0.5) ? EIO : EDQUOT; f.lose = r.chance(0.5); break;
	case OP_OPEN: f.err = r.pick(std::vector<int>{EMFILE, EACCES, ENOSPC, EIO}); break;
	case OP_RENAME: f.err = r.pick(std::vector<int>{EIO, ENOSPC, EACCES}); f.sticky = r.chance(0.3) ? STICKY_MOUNT : STICKY_ONCE; break;
	case OP_UNLINK: f.err = r.pick(std::vector<int>{EIO, EACCES}); break;
	case OP_SEEK: f.err = EIO; break;
	}
	return f;
}
}
