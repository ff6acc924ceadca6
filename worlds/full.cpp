// Whole program: the real main() and the real phases 1-4 at small k.
#include "common.h"
#include <unistd.h>
#include <sys/mman.h>
using namespace w;
int chia_plot_main(int, char**);
extern size_t g_read_chunk_size, g_write_chunk_size;
namespace {
const char* TA = "/sim/a/"; const char* TB = "/sim/b/"; const char* TD = "/sim/d/"; const char* TS = "/sim/s/";
struct Conf { int k, id, r, u, v, K; int64_t rc, wc; int dirs, direct, contract, swap, near; };
void gen_conf(Rng& r, Plan& p, const std::string& s, int mode) {
	auto& q = p.p;
	if(s.empty()) { q["k"] = 16; q["id"] = r.below(4); if(mode == 1 && getenv("SIM_DEEP")) { double x = r.unit(); if(x < 0.08) { q["k"] = 17; q["id"] = 0; } else if(x < 0.10) { q["k"] = 18; q["id"] = 0; } } }
	q["r" + s] = r.chance(0.85) ? r.range(1, 8) : r.range(9, 16);
	double x = r.unit(); q["u" + s] = x < 0.8 ? 16 : x < 0.96 ? 32 : 64;
	q["v" + s] = r.chance(0.7) ? 0 : r.chance(0.8) ? 16 : 32;
	q["K" + s] = r.chance(0.8) ? 1 : r.range(2, 4);
	q["rc" + s] = r.chance(0.4) ? 65536 : (int64_t)r.log_uniform(700, 65536);
	q["wc" + s] = r.chance(0.4) ? 4096 : (int64_t)r.log_uniform(24, 4096);
	q["dirs" + s] = r.below(6); q["direct" + s] = r.chance(0.2); q["contract" + s] = 0;
}
Conf get_conf(const Plan& p, const std::string& s) { Conf c; c.k = p.get("k", 16); c.id = p.get("id"); auto g = [&](const char* n, int64_t d) { return p.get((std::string(n) + s).c_str(), d); }; c.r = g("r", 4); c.u = g("u", 16); c.v = g("v", 0); c.K = g("K", 1); c.rc = g("rc", 65536); c.wc = g("wc", 4096); c.dirs = g("dirs", 0); c.direct = g("direct", 0); c.contract = p.get("contract"); c.swap = g("swap", 0); c.near = g("near", 0); return c; }
std::array<uint8_t, 32> id_of(const Conf& c) { auto x = ref::pool_id(c.id); if(c.near) x[(c.near - 1) / 8] ^= 1 << (c.near - 1) % 8; return x; }
std::string keyhex(int n, int which) { auto a = ref::pool_id(1000 + n * 2 + which), b = ref::pool_id(3000 + n * 2 + which); return ref::hex(a.data(), 32) + ref::hex(b.data(), 16); }
const char* CONTRACT = "xch1pvc9275lcn5suv6c0k3v0mq3xedcpfw2au2rjh5r4rxly9euvxrqgvg6zz";   // puzzle hash bytes i*37+11
struct Dirs { std::string t, t2, d, s; };
Dirs dirs_of(const Conf& c) {
	Dirs d{TA, TB, TD, ""};
	switch(c.dirs) { case 1: d.t2 = ""; break; case 2: d.d = ""; break; case 3: d.s = TS; break; case 4: d.t2 = d.d = ""; break; default: break; }
	if(c.swap) { if(d.t2.empty()) d.t = TB; else std::swap(d.t, d.t2); }
	return d;
}
std::vector<std::string> args_of(const Conf& c, int n = 1) {
	Dirs d = dirs_of(c); auto id = id_of(c);
	std::vector<std::string> a = {"chia_plot", "-k", S(c.k), "-x", "9699", "-r", S(c.r), "-u", S(c.u), "-t", d.t, "-f", keyhex(c.id, 1), "-K", S(c.K)};
	if(c.contract) { a.push_back("-c"); a.push_back(CONTRACT); } else { a.push_back("-p"); a.push_back(keyhex(c.id, 0)); }
	if(c.v) { a.push_back("-v"); a.push_back(S(c.v)); }
	if(!d.t2.empty()) { a.push_back("-2"); a.push_back(d.t2); }
	if(!d.d.empty()) { a.push_back("-d"); a.push_back(d.d); }
	if(!d.s.empty()) { a.push_back("-s"); a.push_back(d.s); }
	if(c.direct && !d.d.empty()) a.push_back("-D");
	if(n == 1) { a.push_back("-i"); a.push_back(ref::hex(id.data(), 32)); } else { a.push_back("-n"); a.push_back(S(n)); }
	return a;
}
std::string final_of(const Conf& c) { Dirs d = dirs_of(c); return d.d.empty() ? d.t : d.d; }
int call_main(const std::vector<std::string>& a) { std::vector<char*> v; for(auto& s : a) v.push_back(strdup(s.c_str())); v.push_back(nullptr); return chia_plot_main((int)a.size(), v.data()); }
bool* g_started = nullptr;
Exit run_conf(const Plan& p, const Conf& c, int n = 1, Limits lim = Limits{40000000, 120}) {
	int64_t m = std::max(c.u, c.v); if(m > 32 && lim.step_cap < 100000000) { lim.step_cap *= m / 32; lim.cpu_secs += m; }   // the work grows with the number of buckets
	return exec(p, [&]() -> int {
		g_read_chunk_size = c.rc; g_write_chunk_size = c.wc;
		if(p.prop == "C20") fs_observer = [](int op, const std::string& a, const std::string&) { if(op == OP_OPEN && g_started && a.find("/.chia_plot") == std::string::npos) *g_started = true; };
		if(p.prop == "C18") fs_observer = [&c](int op, const std::string& a, const std::string&) {
			if(op != OP_OPEN) return; std::string dir = a.substr(0, a.rfind('/') + 1), b = a.substr(dir.size()); if(starts(b, ".chia_plot")) return;
			Dirs d = dirs_of(c); std::string st = c.direct && !d.d.empty() ? final_of(c) : d.s.empty() ? d.t : d.s; bool plot = ends(b, ".plot") || ends(b, ".plot.tmp");
			if(plot ? dir != st && dir != final_of(c) : dir != d.t && dir != (d.t2.empty() ? d.t : d.t2)) violation("place", (plot ? "plot file " : "temporary file ") + a + " is in none of the directories meant for it");
		};
		struct Ev { uint64_t last = 0, del = 0, size = 0; }; std::map<std::string, Ev> ev; uint64_t seq = 0;
		if(p.prop == "C15") fs_observer = [&](int op, const std::string& a, const std::string&) {
			if(op != OP_READ && op != OP_UNLINK) return; if(!ends(a, ".tmp") || ends(a, ".plot.tmp")) return; ++seq;
			if(op == OP_READ) { auto& e = ev[a]; e.last = seq; e.del = 0; e.size = fs::size(a); } else { auto i = ev.find(a); if(i != ev.end()) i->second.del = seq; }
		};
		int rc = call_main(args_of(c, n));
		if(p.prop == "C15" && !rc) {      // data read for the last time and still on the disk
			std::vector<std::pair<uint64_t, int64_t>> v; for(auto& x : ev) { v.push_back({x.second.last, (int64_t)x.second.size}); v.push_back({x.second.del ? x.second.del : seq + 1, -(int64_t)x.second.size}); } std::sort(v.begin(), v.end());
			int64_t cur = 0, top = 0; for(auto& x : v) { cur += x.second; top = std::max(top, cur); } double d = top / (double)(1ull << c.k);
			if(d > 13) violation("kept", std::to_string(d) + " bytes per table entry of temporary files were still on the disk after their last read (at most 9.1, one whole table, in the released code; limit 13)");
			double late = 0; std::string which; for(auto& x : ev) { uint64_t del = x.second.del ? x.second.del : seq + 1; double b = 0; for(auto& y : ev) if(y.second.last > x.second.last && y.second.last < del) b += y.second.size; b /= (double)(1ull << c.k); if(x.second.size && b > late) { late = b; which = x.first; } }
			if(late > 25) violation("late", which + " was kept after its last read until " + std::to_string(late) + " bytes per table entry of other temporary files had been read for the last time as well (at most 9 in the released code; limit 25)");
		}
		if(fs::open_count()) { probe("open_at_exit"); if(p.prop == "C16") violation("files-left-open", S(fs::open_count()) + " files still open when main returned"); }
		return rc;
	}, lim);
}
void mount_all(const Plan& p) { int same = p.get("samedev"); for(auto d : {TA, TB, TD, TS}) fs::mount(d, ~0ull, same ? 7 : 0); }
// "" or what is wrong with the plot file
std::string judge(const std::string& path, const Conf& c, ref::Parsed* out = nullptr, std::string* cls = nullptr) {
	ref::Parsed P; std::string dummy; if(!cls) cls = &dummy;
	auto rd = reader(path);
	const ref::Plot& R = ref::get(c.k, ref::pool_id(c.id), g_cache_dir);
	*cls = "malformed";
	std::string e = ref::parse(rd, fs::size(path), P, R.T7.size());
	if(!e.empty()) return e;
	*cls = "header";
	if(P.id != ref::pool_id(c.id)) return "plot id in the header differs from the one requested";
	auto hexs = [](const std::string& h) { std::vector<uint8_t> v; for(size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), 0, 16)); return v; };
	std::vector<uint8_t> m; if(c.contract) for(int i = 0; i < 32; ++i) m.push_back((uint8_t)(i * 37 + 11)); else m = hexs(keyhex(c.id, 0)); auto fk = hexs(keyhex(c.id, 1)); m.insert(m.end(), fk.begin(), fk.end());
	if(P.memo.size() != m.size() + 32 || !std::equal(m.begin(), m.end(), P.memo.begin())) return "memo does not hold the keys given";
	*cls = "content";
	e = ref::compare(P, R); if(!e.empty()) return e;
	if(out) *out = P;
	return "";
}
// exactly one plot, in the final directory
bool judge_delivery(const Conf& c, const Foreign* fo, std::string& path) {
	std::vector<std::string> v; for(auto& x : plots()) if(!fo || !fo->h.count(x)) v.push_back(x);
	if(v.size() != 1) { violation("delivery", S(v.size()) + " plots after a successful run"); return false; }
	path = v[0];
	if(path.substr(0, path.rfind('/') + 1) != final_of(c)) { violation("delivery", "plot is at " + path + " instead of " + final_of(c)); return false; }
	return true;
}
Calib calib; std::string calib_prop;
void init() {}
void need_calib(Plan& p) {
	if(!calib.c.empty()) return;
	std::string f = g_cache_dir + "/calib-full.txt";
	if(load_calib(f, calib)) return;
	calib.c.push_back({OP_THREAD, "thread", 900});
	struct X { int op; const char* c; int n; };   // used only when no calibration run was done
	for(auto& x : std::vector<X>{{OP_WRITE, "*", 3000}, {OP_READ, "*", 3000}, {OP_OPEN, "*", 1500}, {OP_CLOSE, "*", 1500}, {OP_RENAME, "*", 2}, {OP_UNLINK, "*", 700}}) calib.c.push_back({x.op, x.c, (uint64_t)x.n});
}
void gen(Rng& r, Plan& p) {
	const std::string& pr = p.prop;
	gen_policy(r, p, 50000); if(p.p["agap"] < 64) p.p["agap"] = 64 + p.p["agap"];
	gen_conf(r, p, "", pr == "C01" || pr == "C02" || pr == "C03" || pr == "C07");
	p.p["samedev"] = r.chance(0.3); p.p["lat"] = r.chance(0.3) ? (int64_t)r.log_uniform(20, 5000) : 0; p.p["lat_max"] = 3000000;
	p.p["fseed"] = r.next() >> 8; if(pr == "C02") p.p["contract"] = r.chance(0.3);
	if(pr == "C03") { gen_conf(r, p, "_b", 0); p.p["samekeys"] = 1; }
	if(pr == "C20") {   // the numbers of buckets that can be used depend on k
		auto pick = [&] { return r.pick(std::vector<int>{16, 32, 63, 64, 100, 128, 255, 256, 300, 512, 1024, 4, 5, 6, 7, 8, 9, 10}); };
		p.p["u"] = pick(); p.p["v"] = r.chance(0.3) ? 0 : pick(); if(r.chance(0.5)) p.p[r.chance(0.5) ? "u" : "v"] = 16; p.p["r"] = r.range(1, 4); p.p["rc"] = 4096; p.p["wc"] = 512; p.p["lat"] = 0; p.p["agap"] += 1000;
		// with many buckets a whole run is expensive: outside the thorough tier it is cut off after it has read back a good part of what it sorted first
		auto big = [&](const char* x) { int64_t v = p.get(x); return v >= 128 || v == 7 || v == 8; };
		if(!getenv("SIM_DEEP") && (big("u") || big("v"))) { Crash c; c.inc = 0; c.op = OP_READ; c.cls = "*"; c.nth = r.range(20, 200); p.crashes.push_back(c); }
	}
	if(pr == "C16") { if(r.chance(0.4)) { p.p["n"] = 2; p.p["r"] = r.range(1, 4); } else if(r.chance(0.6)) p.p["r"] = r.chance(0.25) ? r.range(41, 96) : r.range(8, 40); p.p["rlim_soft"] = r.chance(0.5) ? 1024 : 256; p.p["rlim_hard"] = r.chance(0.5) ? 1048576 : 4096; if(p.get("n", 1) < 2 && r.chance(0.3)) { p.p["r"] = r.range(1, 4); int big = r.chance(0.3), m = getenv("SIM_DEEP") && r.chance(0.3) ? 128 : 64; p.p[big ? "u" : "v"] = m; p.p[big ? "v" : "u"] = 16; p.p["rlim_soft"] = r.range(60, m); p.p["rc"] = 65536; p.p["wc"] = 4096; } }
	if(pr == "C08" || pr == "C09" || pr == "CAL") {
		p.p["k"] = 16; p.p["u"] = 16; p.p["v"] = 0; p.p["rc"] = std::max<int64_t>(p.p["rc"], 2048); p.p["r"] = r.range(1, 5);
		if(pr != "CAL") {
			need_calib(p); int n = r.chance(0.85) ? 1 : 2; for(int i = 0; i < n; ++i) { p.faults.push_back(draw_fault(r, calib, 0, pr == "C08")); auto& f = p.faults.back(); if(starts(f.cls, "d/") || ends(f.cls, "P.plot") || f.cls.find(">d/") != std::string::npos) f.sticky = STICKY_ONCE; else if(f.sticky == STICKY_MOUNT && starts(f.cls, "a/P.plot")) f.sticky = STICKY_FILE; }   // a final directory that fails for ever is retried for ever (C12)
			if(pr == "C08" && r.chance(0.15)) { p.faults.clear(); p.p["cap"] = 1 + r.below(2); p.p["capb"] = r.log_uniform(1000, 9000000); }
		} else { p.p["r"] = 3; p.p["dirs"] = 0; p.p["direct"] = 0; p.p["samedev"] = 0; p.p["wc"] = 4096; p.p["rc"] = 65536; }
		ref::get(16, ref::pool_id(p.p["id"]), g_cache_dir);
		return;
	}
	if(pr == "C23") {
		gen_conf(r, p, "_b", 0); for(auto x : {"", "_b"}) { std::string s = x; p.p["u" + s] = 16; p.p["v" + s] = 0; p.p["r" + s] = r.range(1, 5); p.p["swap" + s] = r.chance(0.3); }
		p.p["k"] = 16; double x = r.unit(); if(x < 0.3) p.p["idb"] = 4 + r.below(4); else if(x < 0.9) { p.p["idb"] = p.p["id"]; p.p["near_b"] = 1 + r.below(256); if(r.chance(0.5)) p.p["near_b"] = 1 + (r.chance(0.5) ? r.below(8) : 248 + r.below(8)); } else { p.p["idb"] = p.p["id"]; p.p["kb"] = 17; }
	}
	if(pr == "C10" || pr == "C23") {
		p.p["k"] = 16; p.p["u"] = 16; p.p["v"] = 0; p.p["r"] = r.range(1, 5); need_calib(p);
		Crash c; c.inc = 0;
		if(r.chance(0.35)) c.step = r.chance(0.5) ? r.log_uniform(100, 200000) : r.range(1, 600000);
		else { std::vector<const fs::Count*> v; for(auto& e : calib.c) if(e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME || e.op == OP_UNLINK || e.op == OP_OPEN) v.push_back(&e); if(r.chance(pr == "C23" ? 0.5 : 0.25)) { auto w = v; w.erase(std::remove_if(w.begin(), w.end(), [](const fs::Count* e) { return e->cls.find("P.plot") == std::string::npos; }), w.end()); if(!w.empty()) v = w; } const fs::Count* e = v.empty() ? nullptr : v[r.below(v.size())]; c.op = e ? e->op : OP_WRITE; c.cls = e ? e->cls : "*"; c.nth = 1 + r.below(e ? e->n : 1000); c.after = r.below(2); }
		p.crashes.push_back(c);
	}
	ref::get(p.p["k"], ref::pool_id(p.p["id"]), g_cache_dir);
}
void run(const Plan& p) {
	const std::string& pr = p.prop; Conf c = get_conf(p, "");
	mount_all(p);
	if(p.get("cap")) { const char* d[] = {TA, TB, TD}; fs::set_capacity(d[p.get("cap") - 1], p.get("capb")); }
	Rng fr(p.get("fseed")); Foreign fo; if(pr == "C14" || pr == "C10") put_foreign(fo, fr, {TA, TB, TD});
	if(pr == "CAL") { run_conf(p, c); Calib k; k.c = fs::op_counts(); save_calib(g_cache_dir + "/calib-full.txt", k); return; }
	if(pr == "C20") {
		auto lg = [](int64_t v) { if(v < 16) return (int)v; int l = 0; while((1ll << (l + 1)) <= v) ++l; return l; }; int lu = lg(c.u), lv = c.v ? lg(c.v) : lu;
		bool* started = (bool*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_started = started; Exit e = run_conf(p, c, 1, Limits{60000000, 300}); std::string what = "k = " + S(c.k) + ", 2^" + S(lu) + " and 2^" + S(lv) + " buckets"; bool st = *started; munmap(started, 4096); g_started = nullptr;
		if(hung(e)) return;   // C07 and C09
		if(e.kind == END_CRASH) { probe("begun"); return; }
		if(!e.ok() && st) violation("started", "a plot was begun and then given up with " + ending(e) + " for " + what);
		else if(!e.ok() && 2 * std::max(lu, lv) <= c.k) violation("refused", ending(e) + " for " + what);
		else if(!e.ok()) probe("refused.buckets"); else { probe("made"); auto v = plots(final_of(c)); std::string m = v.size() == 1 ? judge(v[0], c) : "no plot"; if(!m.empty()) violation("bad-plot", m + " for " + what); }
		return;
	}
	if(pr == "C08" || pr == "C09") {
		Exit e = run_conf(p, c, 1, Limits{60000000, 90});
		if(pr == "C09") { if(hung(e)) violation(std::string("hang.") + end_names[e.kind], "after an injected failure the process does not end: " + ending(e)); return; }
		for(auto& path : plots()) { std::string m = judge(path, c); if(!m.empty()) { violation("bad-plot", path + ": " + m + " (process: " + ending(e) + ")"); return; } }
		if(e.ok() && plots(final_of(c)).size() != 1) violation("false-success", "exit status 0 but no plot in " + final_of(c));
		return;
	}
	if(pr == "C10") {
		Exit e = run_conf(p, c);
		for(auto& path : plots()) if(!fo.h.count(path)) { std::string m = judge(path, c); if(!m.empty()) { violation("incomplete-plot", path + " after crash: " + m); return; } }
		std::string m = check_foreign(fo); if(!m.empty()) { violation("older-file", m); return; }
		if(e.kind != END_CRASH) return;
		probe("crash_restart");
		Exit e2 = run_conf(p, c);
		if(!need_success(e2, "run after a crash")) return;
		auto v = plots(final_of(c)); int own = 0;
		for(auto& path : v) if(!fo.h.count(path)) { own++; m = judge(path, c); if(!m.empty()) { violation("bad-plot-after-restart", path + ": " + m); return; } }
		if(!own) violation("no-plot-after-restart", "no plot in the final directory");
		m = check_foreign(fo); if(!m.empty()) violation("older-file", m);
		return;
	}
	if(pr == "C23") {     // the first plotter is stopped at a random instant, the second runs in the state it finds
		Exit e = run_conf(p, c);
		std::map<std::string, uint64_t> h; for(auto& f : fs::list()) { std::string b = f.path.substr(f.path.rfind('/') + 1); if(!starts(b, ".chia_plot")) h[f.path] = fs::content_hash(f.path); }
		if(h.size() > 1) probe("shared_with_files"); if(e.kind == END_CRASH) probe("other_in_progress");
		Conf b = get_conf(p, "_b"); b.id = p.get("idb"); b.k = p.get("kb", 16); Plan p2 = p; p2.crashes.clear();
		Exit e2 = run_conf(p2, b); if(!need_success(e2, "second plotter in the same directories")) return;
		for(auto& x : h) { if(!fs::exists(x.first)) { violation("removed", "file " + x.first + " of another plotter disappeared"); return; } if(fs::content_hash(x.first) != x.second) { violation("changed", "file " + x.first + " of another plotter was changed"); return; } }
		std::vector<std::string> v; for(auto& x : plots(final_of(b))) if(!h.count(x)) v.push_back(x);
		if(v.size() != 1) { violation("delivery", S(v.size()) + " plots delivered by the second plotter"); return; }
		auto hd = fs::read_file(v[0], 0, 52); auto id = id_of(b); if(hd.size() < 52 || !std::equal(id.begin(), id.end(), hd.begin() + 19)) violation("other-id", v[0] + " does not carry the id of its plotter");
		return;
	}
	int n = (int)p.get("n", 1);
	std::set<std::string> outside;
	Exit e = run_conf(p, c, n);
	if(!need_success(e)) return;
	if(n > 1) { if((int)plots(final_of(c)).size() != n) violation("delivery", "wrong number of plots"); return; }
	std::string path; if(!judge_delivery(c, &fo, path)) return;
	if(pr == "C14") {
		for(auto& f : fs::list()) if(f.path != path && !fo.h.count(f.path)) { violation("left-behind", f.path + " (" + S(f.size) + " bytes)"); return; }
		std::string m = check_foreign(fo); if(!m.empty()) violation("foreign-file", m);
		return;
	}
	if(pr == "C15") {
		// documented for k32: 220 GiB, 110 GiB and together 256 GiB, i.e. 55, 27.5 and 64 bytes per entry of a table.
		// At small k tables shrink from 2^k entries (first) to n7 (last); the share is per entry, so scale by the mean
		// (the second directory peaks with tables 3 and 4, which are still nearly full).
		double n7 = (double)ref::get(c.k, ref::pool_id(c.id), g_cache_dir).T7.size(), N = ((double)(1ull << c.k) + n7) / 2;
		double a = fs::peak(TA) / N, b = fs::peak(TB) / (double)(1ull << c.k), all = fs::peak_all() / N; char m[200]; snprintf(m, sizeof m, "peak use per entry: tmpdir %.1f (documented 55), tmpdir2 %.1f (27.5), together %.1f (64)", a, b, all);
		bool two = c.dirs != 1 && c.dirs != 4;
		if(two ? a > 55 || b > 27.5 : a > 64) violation("peak", m); else if(all > 64) violation("peak-all", m);
		return;
	}
	std::string cls; ref::Parsed P; std::string m = judge(path, c, &P, &cls);
	if(!m.empty()) { violation(cls, path + ": " + m); return; }
	if(pr == "C03") {
		uint64_t h1 = ref::canonical_hash(reader(path), fs::size(path), P), s1 = fs::size(path);
		for(auto& f : fs::list()) fs::unlink(f.path);
		Conf b = get_conf(p, "_b"); Exit e2 = run_conf(p, b);
		if(!need_success(e2, "second run")) return;
		std::string p2; if(!judge_delivery(b, nullptr, p2)) return;
		ref::Parsed P2; m = judge(p2, b, &P2, &cls); if(!m.empty()) { violation(cls, p2 + ": " + m); return; }
		if(fs::size(p2) != s1 || ref::canonical_hash(reader(p2), fs::size(p2), P2) != h1) violation("differs", "plots of the two configurations differ");
	}
}
struct Reg { Reg() { World w; w.name = "full"; w.gen = gen; w.run = run; w.init = init; add_world(w); } } reg;
}
