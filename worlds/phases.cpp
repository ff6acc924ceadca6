// Phases without main(): "mini" runs the real phases 1-4 at k < 16, "syn" phases 2-4 on
// synthetic tables of chosen sizes, "p2" phase 2 alone on arbitrary tables, "big" the two
// writers of the plot file at k = KMAX and file offsets beyond 4 GiB.
#include "common.h"
#include "chia/phase1.hpp"
#include "chia/phase2.hpp"
#include "chia/phase3.hpp"
#include "chia/phase4.hpp"
#include <chia/DiskTable.h>
#include <chia/DiskSort.hpp>
#include <unistd.h>
#include <cmath>
using namespace w;
__attribute__((weak)) void p1_chain(const phase1::input_t&, phase1::output_t&, int, int, const std::string&, const std::string&, const std::string&);
extern __attribute__((weak)) uint64_t (*p3_stage2)(int, int, int, phase3::DiskSortLP*, phase3::DiskSortNP*, FILE*, uint64_t, uint64_t*);
extern __attribute__((weak)) uint64_t (*p4_file)(FILE*, uint8_t, int, phase3::DiskSortNP*, int, uint64_t, uint64_t);
namespace {
const char* TA = "/sim/a/"; const char* TB = "/sim/b/"; const char* TS = "/sim/s/"; const char* NAME = "plot-mini";
struct Conf { int k, id, r, lu, lv, K; int64_t rc, wc; int dirs; };
void gen_conf(Rng& r, Plan& p, const std::string& s, int k) {
	auto& q = p.p; int lm = k / 2;
	q["r" + s] = r.chance(0.85) ? r.range(1, 8) : r.chance(0.93) ? r.range(9, 20) : r.range(21, 80);
	q["lu" + s] = r.range(1, std::min(lm, r.chance(0.8) ? 4 : 6)); q["lv" + s] = r.chance(0.5) ? q["lu" + s] : r.range(1, std::min(lm, r.chance(0.8) ? 4 : 6));
	q["K" + s] = r.chance(0.7) ? 1 : r.range(2, 4);
	q["rc" + s] = r.chance(0.2) ? 65536 : (int64_t)r.log_uniform(64, 4096); q["wc" + s] = r.chance(0.2) ? 4096 : (int64_t)r.log_uniform(4, 1024);
	q["dirs" + s] = r.below(3);
}
Conf get_conf(const Plan& p, const std::string& s) { Conf c; auto g = [&](const char* n, int64_t d) { return p.get((std::string(n) + s).c_str(), d); }; c.k = p.get("k", 12); c.id = p.get("id"); c.r = g("r", 4); c.lu = g("lu", 3); c.lv = g("lv", 3); c.K = g("K", 1); c.rc = g("rc", 1024); c.wc = g("wc", 64); c.dirs = g("dirs", 0); return c; }
std::string dir2(const Conf& c) { return c.dirs == 1 ? TA : TB; }
std::string stage(const Conf& c) { return c.dirs == 2 ? TS : TA; }
phase1::input_t input_of(const Conf& c, const ref::Id& id) { phase1::input_t in; in.k = c.k; memcpy(in.id.data(), id.data(), 32); in.memo.resize(128); for(int i = 0; i < 128; ++i) in.memo[i] = (uint8_t)(i * 7 + c.id); in.plot_name = NAME; return in; }
void settings(const Conf& c) { g_read_chunk_size = c.rc; g_write_chunk_size = c.wc; phase2::g_thread_multi = c.K; }
void run_234(const Conf& c, phase1::output_t& o1) {
	const std::string n = NAME;
	phase2::output_t o2; phase2::compute(o1, o2, c.r, c.lv, n, TA, dir2(c));
	phase3::output_t o3; phase3::compute(o2, o3, c.r, c.lv, n, TA, dir2(c), stage(c));
	phase4::output_t o4; phase4::compute(o3, o4, c.r, c.lv, n, TA, dir2(c), stage(c));
}
int leak_check(const Plan& p) { if(fs::open_count() && p.prop == "C16") violation("files-left-open", S(fs::open_count()) + " files still open after the plot was finished"); return 0; }
const std::string PLOT(const Conf& c) { return stage(c) + NAME + ".plot"; }
std::string judge_with(const std::string& path, const Conf& c, const ref::Plot& R, const ref::Id& id, ref::Parsed* out, std::string* cls) {
	ref::Parsed P; std::string dummy; if(!cls) cls = &dummy; *cls = "malformed";
	std::string e = ref::parse(reader(path), fs::size(path), P, R.T7.size()); if(!e.empty()) return e;
	*cls = "header"; auto in = input_of(c, id);
	if(P.id != id) return "plot id in the header differs from the one requested";
	if(P.memo != in.memo) return "memo differs from the one given";
	*cls = "content"; e = ref::compare(P, R); if(!e.empty()) return e;
	if(out) *out = P; return "";
}

// ---------------------------------------------------------------- synthetic tables
struct Syn { ref::Tables T; };
ref::Tables make_tables(Rng& r, const Plan& p, bool realistic) {
	ref::Tables T; T.k = p.get("k"); uint64_t N = 1ull << T.k; std::vector<uint64_t> n(8);
	for(int t = 1; t <= 7; ++t) n[t] = p.get(("n" + S(t)).c_str());
	std::vector<uint64_t> xs(N); for(uint64_t i = 0; i < N; ++i) xs[i] = i; for(uint64_t i = N - 1; i > 0; --i) std::swap(xs[i], xs[r.below(i + 1)]);
	T.x.assign(xs.begin(), xs.begin() + std::min(n[1], N)); n[1] = T.x.size();
	bool cover = p.get("cover"); int omode = p.get("omode"); uint64_t base = p.get("base");
	for(int t = 2; t <= 7; ++t) {
		std::set<uint64_t> seen; auto& v = T.t[t]; uint64_t m = n[t - 1]; uint64_t lo = t == 2 ? base : 0; (void)lo;
		auto add = [&](uint64_t a, uint64_t o) { if(a + o >= m || !o || o > 1023) return; if(seen.insert(a << 10 | o).second) v.push_back({a, a + o}); };
		if(cover) { for(uint64_t i = 0; i + 1 < m; i += 2) add(i, 1); if(m & 1 && m > 2) add(m - 2, 1); }
		uint64_t tries = 0;
		while(v.size() < n[t] && tries++ < n[t] * 8 + 1000) { uint64_t a; if(realistic || r.chance(0.6)) a = r.below(m); else { uint64_t b = r.below(m); a = std::min(m - 1, b / 64 * 64 + 60 + r.below(8)); } uint64_t o = omode == 0 ? 1 + r.below(60) : omode == 1 ? 1 + r.below(1023) : r.log_uniform(1, 1023); add(a, o); }
		if(v.empty()) v.push_back({0, 1});
		if(t < 7) { if(p.get("order")) std::sort(v.begin(), v.end()); else for(uint64_t i = v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); } else std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
		n[t] = v.size();
	}
	for(uint64_t i = 0; i < n[7]; ++i) T.f7.push_back(r.below(N));
	return T;
}
template<class E> table_t put_table(const std::string& file, const std::vector<E>& v) {
	std::vector<uint8_t> b(v.size() * E::disk_size + 16); for(size_t i = 0; i < v.size(); ++i) v[i].write(&b[i * E::disk_size]);
	fs::write_file(file, b.data(), v.size() * E::disk_size); table_t t; t.file_name = file; t.num_entries = v.size(); return t;
}
phase1::output_t put_tables(const Conf& c, const ref::Tables& T, const ref::Id& id, uint64_t shift = 0) {
	phase1::output_t o; o.params = input_of(c, id); std::string pre = std::string(TA) + NAME + ".p1.";
	{ std::vector<phase1::tmp_entry_1> v(T.x.size()); for(size_t i = 0; i < v.size(); ++i) v[i].x = T.x[i]; o.table[0] = put_table(pre + "table1.tmp", v); }
	for(int t = 2; t <= 6; ++t) { std::vector<phase1::tmp_entry_x> v(T.t[t].size()); for(size_t i = 0; i < v.size(); ++i) { v[i].pos = T.t[t][i].first + (t == 2 ? shift : 0); v[i].off = T.t[t][i].second - T.t[t][i].first; } o.table[t - 1] = put_table(pre + "table" + S(t) + ".tmp", v); }
	{ std::vector<phase1::entry_7> v(T.t[7].size()); for(size_t i = 0; i < v.size(); ++i) { v[i].y = T.f7[i]; v[i].pos = T.t[7][i].first; v[i].off = T.t[7][i].second - T.t[7][i].first; } o.table[6] = put_table(dir2(c) + NAME + ".p1.table7.tmp", v); }
	return o;
}

// ---------------------------------------------------------------- mini and syn
Calib calib;
const Calib& need_calib() {
	if(calib.c.empty() && !load_calib(g_cache_dir + "/calib-mini.txt", calib)) { calib.c.push_back({OP_THREAD, "thread", 600}); for(int op : {OP_WRITE, OP_READ, OP_OPEN, OP_CLOSE, OP_UNLINK}) calib.c.push_back({op, "*", 400}); calib.c.push_back({OP_RENAME, "*", 1}); }
	return calib;
}
uint64_t near_multiple(Rng& r, uint64_t lo, uint64_t hi, uint64_t m) { uint64_t a = (lo + m - 1) / m, b = hi / m; if(a > b || r.chance(0.4)) return r.range(lo, hi); uint64_t v = (a + r.below(b - a + 1)) * m + r.range(-2, 3); return std::min(hi, std::max(lo, v)); }
void gen_common(Rng& r, Plan& p) {
	p.p["samedev"] = r.chance(0.3); p.p["lat"] = r.chance(0.3) ? (int64_t)r.log_uniform(20, 5000) : 0; p.p["lat_max"] = 3000000; p.p["fseed"] = r.next() >> 8;
	if(p.prop == "C08" || p.prop == "C09") { need_calib(); int n = r.chance(0.85) ? 1 : 2; for(int i = 0; i < n; ++i) p.faults.push_back(draw_fault(r, calib, 0, p.prop == "C08")); if(p.prop == "C08" && r.chance(0.15)) { p.faults.clear(); p.p["cap"] = 1 + r.below(2); p.p["capb"] = r.log_uniform(1000, 900000); } }
	if(p.prop == "C10") {
		Crash c; need_calib();
		if(r.chance(0.5)) c.step = r.log_uniform(100, 40000);
		else { std::vector<const fs::Count*> v; for(auto& e : calib.c) if(e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME || e.op == OP_UNLINK || e.op == OP_OPEN) v.push_back(&e); const fs::Count* e = v[r.below(v.size())]; c.op = e->op; c.cls = e->cls; c.nth = 1 + r.below(e->n); c.after = r.below(2); }
		if(r.chance(0.12)) p.p["again"] = 1; else p.crashes.push_back(c);
	}
}
void gen_mini(Rng& r, Plan& p) {
	gen_policy(r, p, 20000); if(p.p["agap"] < 16) p.p["agap"] = 16 + p.p["agap"];
	double x = r.unit(); int k = x < 0.7 ? 13 : x < 0.95 ? 14 : 15; p.p["k"] = k; p.p["id"] = r.below(k == 13 ? 7 : 4);   // smaller k: too few outputs for the checkpoint code
	gen_conf(r, p, "", k); if(p.prop == "C03") gen_conf(r, p, "_b", k);
	if(p.prop == "CAL") { p.p["k"] = 13; p.p["id"] = 0; p.p["r"] = 3; p.p["lu"] = p.p["lv"] = 3; p.p["rc"] = 512; p.p["wc"] = 64; p.p["dirs"] = 0; p.p["K"] = 1; }
	gen_common(r, p);
	ref::get(p.p["k"], ref::pool_id(p.p["id"]), g_cache_dir);
}
void gen_syn(Rng& r, Plan& p) {
	gen_policy(r, p, 20000); if(p.p["agap"] < 16) p.p["agap"] = 16 + p.p["agap"];
	double x = r.unit(); int k = x < 0.45 ? 12 : x < 0.85 ? 13 : x < 0.93 ? 14 : 15; p.p["k"] = k; p.p["id"] = 50; gen_conf(r, p, "", k); if(p.prop == "C03") gen_conf(r, p, "_b", k);
	uint64_t N = 1ull << k; p.p["cover"] = r.chance(0.7); p.p["omode"] = r.chance(0.7) ? 0 : r.below(3); p.p["order"] = 0;
	// densities of real plots, so that parks have the statistics the encoder is made for
	static const double kept[8] = {0, 1.0, 0.80, 0.81, 0.82, 0.835, 0.865, 0.99};
	for(int t = 1; t <= 7; ++t) p.p["n" + S(t)] = p.p["cover"] ? near_multiple(r, N * (kept[t] - 0.02), N * std::min(1.0, kept[t] + 0.01), t < 2 ? 64 : 2048) : near_multiple(r, N * 97 / 100, N, 2048);
	if(k == 15) p.p["n7"] = 30000 + r.range(-1, 4);
	gen_common(r, p);
}
void run_phases(const Plan& p, bool syn) {
	const std::string& pr = p.prop; Conf c = get_conf(p, ""); int same = p.get("samedev"); for(auto d : {TA, TB, TS}) fs::mount(d, ~0ull, same ? 7 : 0);
	if(p.get("cap")) fs::set_capacity(p.get("cap") == 1 ? TA : TB, p.get("capb"));
	Rng fr(p.get("fseed")); Foreign fo; if(pr == "C14" || pr == "C10") put_foreign(fo, fr, {TA, TB});
	ref::Id id = ref::pool_id(c.id); ref::Plot Rs; ref::Tables T; uint64_t tseed = fr.next();
	if(syn) { Rng tr(tseed); T = make_tables(tr, p, true); Rs = ref::build(T); Rs.id = id; }
	const ref::Plot& R = syn ? Rs : ref::get(c.k, id, g_cache_dir);
	std::function<void(int, const std::string&, const std::string&)> watch;
	auto go = [&](const Conf& cc, const Limits& lim) {
		phase1::output_t pre; if(syn) pre = put_tables(cc, T, id);
		return exec(p, [&]() -> int { settings(cc); if(watch) fs_observer = watch; { phase1::output_t o1 = pre; if(!syn) p1_chain(input_of(cc, id), o1, cc.r, cc.lu, NAME, TA, dir2(cc)); run_234(cc, o1); } return leak_check(p); }, lim);
	};
	Limits lim{60000000, 80}, flim{60000000, 80};
	if(pr == "CAL") { go(c, lim); Calib k; k.c = fs::op_counts(); save_calib(g_cache_dir + "/calib-mini.txt", k); return; }
	std::string cls, m;
	if(pr == "C08" || pr == "C09") {
		Exit e = go(c, flim);
		if(pr == "C09") { if(hung(e)) violation(std::string("hang.") + end_names[e.kind], "after an injected failure the process does not end: " + ending(e)); return; }
		for(auto& path : plots()) { m = judge_with(path, c, R, id, nullptr, nullptr); if(!m.empty()) { violation("bad-plot", path + ": " + m + " (process: " + ending(e) + ")"); return; } }
		if(e.ok() && !fs::exists(PLOT(c))) violation("false-success", "phases returned normally but there is no plot");
		return;
	}
	if(pr == "C10" && p.get("again")) {     // a second run of the same name must never leave an instant without the complete plot
		Exit e = go(c, lim); if(!need_success(e)) return; if(!fs::exists(PLOT(c))) { violation("no-plot", "phases ended normally without a plot"); return; }
		uint64_t sz = fs::size(PLOT(c)); probe("made_again");
		watch = [&](int op, const std::string& a, const std::string&) { if(op != OP_READ && op != OP_STAT && !violated() && (!fs::exists(PLOT(c)) || fs::size(PLOT(c)) != sz)) violation("gone", std::string("a process killed after ") + op_names[op] + " " + a + " leaves no complete plot although one was there"); };
		e = go(c, lim); if(violated() || !need_success(e, "second run of the same name")) return;
		m = judge_with(PLOT(c), c, R, id, nullptr, nullptr); if(!m.empty()) violation("bad-plot-after-restart", m);
		return;
	}
	if(pr == "C10") {
		Exit e = go(c, lim);
		for(int i = 0; i < 2; ++i) {
			for(auto& path : plots()) if(!fo.h.count(path)) { m = judge_with(path, c, R, id, nullptr, nullptr); if(!m.empty()) { violation(i ? "bad-plot-after-restart" : "incomplete-plot", path + ": " + m); return; } }
			m = check_foreign(fo); if(!m.empty()) { violation("older-file", m); return; }
			if(e.kind != END_CRASH) return;
			if(!i) { probe("crash_restart"); Exit e2 = go(c, lim); if(!need_success(e2, "run after a crash")) return; if(!fs::exists(PLOT(c))) { violation("no-plot-after-restart", "no plot"); return; } }
		}
		return;
	}
	Exit e = go(c, lim);
	if(!need_success(e)) return;
	if(pr == "C07") { if(!fs::exists(PLOT(c))) violation("no-plot", "phases ended normally without a plot"); return; }
	if(pr == "C16") return;
	if(pr == "C14") { for(auto& f : fs::list()) if(f.path != PLOT(c) && !fo.h.count(f.path)) { violation("left-behind", f.path); return; } m = check_foreign(fo); if(!m.empty()) violation("foreign-file", m); return; }
	ref::Parsed P; m = judge_with(PLOT(c), c, R, id, &P, &cls); if(!m.empty()) { violation(cls, m); return; }
	if(pr == "C03") {
		uint64_t h1 = ref::canonical_hash(reader(PLOT(c)), fs::size(PLOT(c)), P), s1 = fs::size(PLOT(c)); auto raw = fs::read_file(PLOT(c));
		for(auto& f : fs::list()) fs::unlink(f.path);
		Conf b = get_conf(p, "_b"); Exit e2 = go(b, lim); if(!need_success(e2, "second run")) return;
		ref::Parsed P2; m = judge_with(PLOT(b), b, R, id, &P2, &cls); if(!m.empty()) { violation(cls, m); return; }
		if(fs::size(PLOT(b)) != s1 || ref::canonical_hash(reader(PLOT(b)), fs::size(PLOT(b)), P2) != h1) {
			auto raw2 = fs::read_file(PLOT(b)); size_t i = 0; while(i < raw.size() && i < raw2.size() && raw[i] == raw2[i]) ++i; int sec = 0; for(int t = 1; t <= 10; ++t) if(i >= P2.ptr[t]) sec = t;
			violation("differs", "plots of the two configurations differ: sizes " + S(s1) + " and " + S(fs::size(PLOT(b))) + ", first at byte " + S(i) + " (table pointer " + S(sec) + " + " + S(sec ? i - P2.ptr[sec] : i) + ")");
		}
	}
}

// ---------------------------------------------------------------- p2: pruning
void gen_p2(Rng& r, Plan& p) {
	gen_policy(r, p, 4000);
	p.p["big"] = r.chance(0.012); if(p.p["big"]) p.p["agap"] = 3000000; int k = p.p["big"] ? 14 : (int)r.range(4, 14); p.p["k"] = k; p.p["id"] = 51; gen_conf(r, p, "", k); if(k < 6) p.p["lv"] = 1;
	uint64_t N = 1ull << k; double d = r.unit(); for(int t = 1; t <= 7; ++t) p.p["n" + S(t)] = std::max<uint64_t>(2, d < 0.3 ? N : d < 0.6 ? r.range(N / 2, N) : r.log_uniform(2, N));
	p.p["cover"] = r.chance(0.2); p.p["omode"] = r.below(3); p.p["order"] = r.chance(0.3); p.p["lat"] = 0; p.p["fseed"] = r.next() >> 8;
	p.p["top"] = r.below(3);
}
template<class E> struct Collect {
	std::vector<E> v; uint64_t next = 0; bool bad = false;
	void take(std::pair<std::vector<E>, size_t>& in) { Quiet q; if(in.second != next) bad = true; next += in.first.size(); v.insert(v.end(), in.first.begin(), in.first.end()); }
};
void run_p2(const Plan& p) {
	Conf c = get_conf(p, ""); for(auto d : {TA, TB, TS}) fs::mount(d);
	Rng tr(p.get("fseed")); ref::Tables T = make_tables(tr, p, false); ref::Kept K;
	{ // only the marking; line points of arbitrary tables need not be unique
		for(int t = 1; t <= 7; ++t) K.used[t].assign(t == 1 ? T.x.size() : T.t[t].size(), t == 7);
		for(int t = 7; t >= 2; --t) for(size_t i = 0; i < T.t[t].size(); ++i) if(K.used[t][i]) { K.used[t - 1][T.t[t][i].first] = 1; K.used[t - 1][T.t[t][i].second] = 1; }
	}
	// positions of table 1 close to the largest representable one
	uint64_t shift = 0, total1 = T.x.size();
	if(p.get("big")) { const uint64_t top = uint64_t(1) << PMAX; shift = (std::min<uint64_t>(top, uint64_t(1) << 32)) - T.x.size() + (p.get("top") ? 0 : 0); if(p.get("top") == 2 && PMAX > 32) shift = (uint64_t(1) << 32) - T.x.size() / 2; total1 = shift + T.x.size(); probe("p2_top_positions"); }
	phase1::output_t o1 = put_tables(c, T, ref::pool_id(c.id), shift); o1.table[0].num_entries = total1;
	auto fail = [&](const std::string& s) { violation("pruning", s); };
	Exit e = exec(p, [&]() -> int {
		settings(c);
		phase2::output_t o; phase2::compute(o1, o, c.r, c.lv, NAME, TA, dir2(c));
		for(size_t i = 0; i < T.x.size(); ++i) { Quiet q; if(o.bitfield_1->get(shift + i) != (bool)K.used[1][i]) { fail("table 1 entry " + S(shift + i) + (K.used[1][i] ? " is dropped although it is used" : " is kept although nothing refers to it")); return 0; } }
		std::vector<std::vector<uint64_t>> rank(8);
		for(int t = 1; t <= 7; ++t) { rank[t].resize(K.used[t].size() + 1); uint64_t n = 0; for(size_t i = 0; i < K.used[t].size(); ++i) { rank[t][i] = n; n += K.used[t][i]; } rank[t].back() = n; }
		auto want = [&](int t, size_t i, uint64_t pos, uint64_t off) { uint64_t a = T.t[t][i].first, b = T.t[t][i].second; return pos == rank[t - 1][a] && off == rank[t - 1][b] - rank[t - 1][a]; };
		{
			Collect<phase2::entry_7> col; DiskTable<phase2::entry_7> in(o.table_7); Thread<std::pair<std::vector<phase2::entry_7>, size_t>> th([&](std::pair<std::vector<phase2::entry_7>, size_t>& x) { col.take(x); });
			in.read(&th, 2); th.close(); Quiet q;
			if(col.v.size() != T.t[7].size()) { fail("table 7 has " + S(col.v.size()) + " entries, expected " + S(T.t[7].size())); return 0; }
			for(size_t i = 0; i < col.v.size(); ++i) if(col.v[i].y != T.f7[i] || !want(7, i, col.v[i].pos, col.v[i].off)) { fail("table 7 entry " + S(i) + " refers to (" + S(col.v[i].pos) + "," + S(col.v[i].off) + "), expected (" + S(rank[6][T.t[7][i].first]) + ",+" + S(rank[6][T.t[7][i].second] - rank[6][T.t[7][i].first]) + ")"); return 0; }
		}
		for(int t = 6; t >= 2; --t) {
			Collect<phase2::entry_x> col; Thread<std::pair<std::vector<phase2::entry_x>, size_t>> th([&](std::pair<std::vector<phase2::entry_x>, size_t>& x) { col.take(x); });
			o.sort[t - 1]->read(&th, 2); th.close(); Quiet q;
			std::vector<size_t> kept; for(size_t i = 0; i < K.used[t].size(); ++i) if(K.used[t][i]) kept.push_back(i);
			if(col.v.size() != kept.size()) { fail("table " + S(t) + " keeps " + S(col.v.size()) + " entries, expected " + S(kept.size())); return 0; }
			std::vector<char> seen(kept.size(), 0);
			for(auto& x : col.v) {
				if(x.key >= kept.size() || seen[x.key]) { fail("table " + S(t) + ": sort key " + S(x.key) + " missing or repeated"); return 0; }
				seen[x.key] = 1; size_t i = kept[x.key];
				if(!want(t, i, x.pos, x.off)) { fail("table " + S(t) + " entry " + S(i) + " now refers to (" + S(x.pos) + ",+" + S(x.off) + "), expected (" + S(rank[t - 1][T.t[t][i].first]) + ",+" + S(rank[t - 1][T.t[t][i].second] - rank[t - 1][T.t[t][i].first]) + ")"); return 0; }
			}
		}
		return 0;
	}, Limits{30000000, 80});
	if(!violated()) need_success(e, "pruning without faults");
}

// ---------------------------------------------------------------- big: writers at full width
extern "C" { extern const unsigned sim_c2 __attribute__((weak)); }
void gen_big(Rng& r, Plan& p) {
	gen_policy(r, p, 4000); int k = KMAX; p.p["k"] = k; p.p["id"] = 52; gen_conf(r, p, "", k); p.p["kind"] = r.below(2);
	p.p["n"] = p.p["kind"] ? (r.chance(0.4) ? 10000 * r.range(1, 2) + r.range(-1, 4) : (int64_t)r.log_uniform(1, 25000)) : (r.chance(0.5) ? 2048 * r.range(1, 6) + r.range(-2, 3) : (int64_t)r.log_uniform(1, 14000));
	if(r.chance(0.03)) { p.p["n"] = r.log_uniform(140000, p.p["kind"] ? 800000 : 600000); p.p["agap"] = 3000000; p.p["lu"] = 4; p.p["rc"] = p.p["wc"] = 4000; }   // many parks
	if(&sim_c2) { p.p["kind"] = 1; p.p["n"] = r.chance(0.6) ? 10000 * r.range(1, 13) + r.range(-1, 4) : (int64_t)r.log_uniform(1, 130000); p.p["agap"] = 3000000; p.p["lu"] = 4; p.p["rc"] = p.p["wc"] = 4000; }
	if(r.chance(0.15)) { p.p["kind"] = 2; p.p["n"] = r.range(1, 300); p.p["say"] = r.chance(0.5) ? (int64_t)r.log_uniform(1, (1ull << k) - 1) : (int64_t)((1ull << k) - r.below(1ull << (k - 3))); if(r.chance(0.3)) p.p["say"] = 100000000 * r.range(1, 40) + r.range(-1, 1); }
	p.p["L"] = r.range(1, 6); p.p["begin"] = r.chance(0.2) ? 252 : r.chance(0.5) ? (1ll << 32) - (int64_t)r.below(200000) : (int64_t)r.log_uniform(1ull << 31, 1ull << 40); p.p["lat"] = 0; p.p["fseed"] = r.next() >> 8;
}
void run_big(const Plan& p) {
	Conf c = get_conf(p, ""); for(auto d : {TA, TB, TS}) fs::mount(d); int k = c.k; uint64_t n = p.get("n"), begin = p.get("begin"); Rng r(p.get("fseed")); const std::string file = std::string(TA) + "big.bin";
	if(p.get("kind") == 0) {
		std::vector<ref::u128> lp; std::vector<uint64_t> key; std::set<uint64_t> ks; ref::u128 v = ((ref::u128)r.next() << 64 | r.next()) & ((((ref::u128)1) << (2 * k - 2)) - 1); if(r.chance(0.5)) v |= ((ref::u128)1) << (2 * k - 2); v >>= r.below(3); 
		ref::u128 top = (((ref::u128)1) << (2 * k - 1)) - ((ref::u128)n << (k + 3)); if(v > top) v = top;
		for(uint64_t i = 0; i < n; ++i) { lp.push_back(v); double u = r.unit(); double mean = p.get("L") == 1 ? 4.0 : 1.5; v += 1 + (ref::u128)(std::min(60.0, -log(1 - u) * mean) * (double)(1ull << (k - 3))); uint64_t q; do q = r.next() >> (64 - k); while(!ks.insert(q).second); key.push_back(q); }
		if(lp.back() >> (2 * k - 1)) { for(auto& x : lp) x -= ((ref::u128)n << (k + 3)); }
		std::vector<size_t> perm(n); for(size_t i = 0; i < n; ++i) perm[i] = i; for(size_t i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
		Exit e = exec(p, [&]() -> int {
			settings(c);
			phase3::DiskSortLP rs(2 * k - 1, c.lu, std::string(TB) + "lp"); phase3::DiskSortNP ls(k, c.lu, std::string(TB) + "np");
			for(size_t i : perm) { phase3::entry_lp x; x.point = lp[i]; x.key = key[i]; rs.add(x); }
			rs.finish();
			FILE* f = fopen(file.c_str(), "wb"); uint64_t end = 0; uint64_t w = p3_stage2(p.get("L"), k, c.r, &rs, &ls, f, begin, &end); if(fclose(f)) return 3;
			std::vector<phase3::entry_np> got; bool bad = false;
			{
				Thread<std::pair<std::vector<phase3::entry_np>, size_t>> th([&](std::pair<std::vector<phase3::entry_np>, size_t>& x) { Quiet q; if(x.second != got.size()) bad = true; got.insert(got.end(), x.first.begin(), x.first.end()); }); ls.read(&th, c.r); th.close();
			}
			Quiet q0;
			{ std::vector<std::pair<uint64_t, uint64_t>> want; for(size_t i = 0; i < n; ++i) want.push_back({key[i], i}); std::sort(want.begin(), want.end()); bool same = got.size() == n && !bad; for(size_t i = 0; same && i < n; ++i) same = got[i].key == want[i].first && got[i].pos == want[i].second; if(!same) { violation("positions", "new positions handed to the next table are wrong"); return 0; } }
			if(w != n) { violation("count", "stage 2 reports " + S(w) + " entries, expected " + S(n)); return 0; }
			std::vector<ref::u128> out; std::string m = ref::parse_P(reader(file), k, p.get("L"), begin, end, out);
			if(!m.empty()) { violation("malformed", m); return 0; }
			if(out != lp) { violation("content", "parks hold " + S(out.size()) + " entries, not the " + S(n) + " line points given"); return 0; }
			if(fs::size(file) != end) { violation("size", "file ends at " + S(fs::size(file)) + ", table at " + S(end)); return 0; }
			return 0;
		}, Limits{3000000, 60});
		if(!violated()) need_success(e, "writing a table");
		return;
	}
	// phase 4 alone: outputs and their positions at full width, tables far into the file
	std::vector<std::pair<uint64_t, uint64_t>> v; uint64_t y = r.chance(0.5) ? (r.next() >> (64 - k)) : r.below(1000); if(y + 4 * n + 1000 > (1ull << k)) y = (1ull << k) - 4 * n - 1000;
	for(uint64_t i = 0; i < n; ++i) { v.push_back({y, r.next() >> (63 - PMAX > 63 - k ? 64 - PMAX : 64 - k)}); double g = -log(1 - r.unit()) * 1.02; y += (uint64_t)std::min(g, 20.0); }
	std::vector<size_t> perm(n); for(size_t i = 0; i < n; ++i) perm[i] = i; for(size_t i = n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
	const int hs = 252;
	Exit e = exec(p, [&]() -> int {
		settings(c);
		phase3::DiskSortNP ls(k, c.lu, std::string(TB) + "np"); for(size_t i : perm) { phase3::entry_np x; x.key = v[i].first; x.pos = v[i].second; ls.add(x); } ls.finish();
		uint64_t say = p.get("kind") == 2 ? p.get("say") : n; FILE* f = fopen(file.c_str(), "wb"); uint64_t end = p4_file(f, k, hs, &ls, c.r, begin, say); if(fclose(f)) return 3;
		Quiet q0; if(&sim_c2) ref::c2_interval = sim_c2; ref::Parsed P; P.k = k; P.ptr[7] = begin; auto h = fs::read_file(file, hs - 24, 24); if(h.size() != 24) { violation("malformed", "table pointers missing"); return 0; }
		for(int i = 0; i < 3; ++i) { uint64_t x = 0; for(int j = 0; j < 8; ++j) x = x << 8 | h[i * 8 + j]; P.ptr[8 + i] = x; }
		if(p.get("kind") == 2) {   // where the tables of a big plot begin, without its entries
			std::string m = ref::layout_phase4(P, say, end); if(!m.empty() && ref::layout_phase4(P, n, end).empty()) m.clear();
			if(!m.empty()) violation("layout", "for " + S(say) + " entries " + m); return 0;
		}
		std::string m = ref::parse_phase4(reader(file), fs::size(file), P, n); if(!m.empty()) { violation("malformed", m); return 0; }
		if(P.end != end) { violation("size", "phase 4 reports the end at " + S(end) + ", the tables end at " + S(P.end)); return 0; }
		for(size_t i = 0; i < P.f7.size(); ++i) if(P.f7[i] != v[i].first) { violation("content", "output " + S(i) + " is " + S(P.f7[i]) + ", expected " + S(v[i].first)); return 0; }
		if(P.P7.size() != n) { violation("content", "P7 has " + S(P.P7.size()) + " entries, expected " + S(n)); return 0; }
		std::vector<std::pair<uint64_t, uint64_t>> a, b = v; for(size_t i = 0; i < n; ++i) a.push_back({v[i].first, P.P7[i]}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		if(a != b) { violation("content", "positions in P7 are not the ones given"); return 0; }
		return 0;
	}, Limits{3000000, 60});
	if(!violated() && p.get("kind") != 2) need_success(e, "writing the checkpoint tables");
}
struct Reg { Reg() {
	if(&p1_chain) { World w; w.name = "mini"; w.gen = gen_mini; w.run = [](const Plan& p) { run_phases(p, false); }; add_world(w); }
	{ World w; w.name = "syn"; w.gen = gen_syn; w.run = [](const Plan& p) { run_phases(p, true); }; add_world(w); }
	{ World w; w.name = "p2"; w.gen = gen_p2; w.run = run_p2; add_world(w); }
	if(&p3_stage2 && &p4_file) { World w; w.name = "big"; w.gen = gen_big; w.run = run_big; add_world(w); }
} } reg;
}
