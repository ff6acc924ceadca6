// The plotting loop: main(), copy thread, final_copy, signals, directory options.
// The four phases are stand-ins (tu/ctl_phases.cpp).
#include "common.h"
#include "ctl.h"
#include "../stubs/bls.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace w;
int chia_plot_main(int, char**);
extern size_t g_read_chunk_size, g_write_chunk_size;
Ctl* g_ctl = nullptr;
uint8_t ctl_byte(const char* name, uint64_t size, uint64_t i) { static char cn[160]; static uint64_t h = 0; if(strcmp(cn, name)) { strncpy(cn, name, 159); h = hash_str(name); } uint64_t x = (h + size * 1000003 + i / 8 + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (uint8_t)(x >> (8 * (i & 3) + 16)); }
uint64_t ctl_size(int64_t base, int idx) { static const int d[] = {0, 1, -1, 7, 512, -100, 4096, 1000}; int64_t v = base + d[idx & 7]; return v < 100 ? 100 : v; }
namespace {
const char* TA = "/sim/a/"; const char* TB = "/sim/b/"; const char* TD = "/sim/d/"; const char* TS = "/sim/s/";
bool complete(const std::string& path, const CtlRec& r) { if(fs::size(path) != r.size) return false; static std::map<std::string, std::vector<uint8_t>> want; auto& e = want[r.name]; if(e.size() != r.size) { e.resize(r.size); for(size_t i = 0; i < e.size(); ++i) e[i] = ctl_byte(r.name, r.size, i); } return fs::read_file(path) == e; }
struct Conf { int n, G, D, w, t2, d, s; };
Conf conf(const Plan& p) { Conf c; c.n = p.get("n", 1); c.G = p.get("G"); c.D = p.get("D"); c.w = p.get("w"); c.t2 = p.get("t2"); c.d = p.get("d"); c.s = p.get("s"); return c; }
std::string final_dir(const Conf& c) { return c.d ? TD : TA; }
int64_t g_ks = 0;   // which keys are given (C22)
std::string key(int n) { auto a = ref::pool_id(1000 + n + 7 * g_ks), b = ref::pool_id(3000 + n + 7 * g_ks); return ref::hex(a.data(), 32) + ref::hex(b.data(), 16); }
const char* CONTRACT = "xch1pvc9275lcn5suv6c0k3v0mq3xedcpfw2au2rjh5r4rxly9euvxrqgvg6zz";   // puzzle hash bytes i*37+11
std::vector<uint8_t> bytes(const std::string& h) { std::vector<uint8_t> v; for(size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), 0, 16)); return v; }
std::vector<uint8_t> puzzle() { std::vector<uint8_t> v; for(int i = 0; i < 32; ++i) v.push_back((uint8_t)(i * 37 + 11)); if(g_ks) { auto x = ref::pool_id(9000 + g_ks); memcpy(v.data(), x.data(), 32); if(g_ks % 5 == 1) v[0] = v[1] = 0; if(g_ks % 5 == 2) v[31] = v[30] = 0; if(g_ks % 5 == 3) v[31] |= 1; } return v; }
// bech32 (fin 1) or bech32m text of `n` five-bit symbols taken from the bytes given, with a valid checksum
std::string bech(const std::vector<uint8_t>& b, int n, uint32_t fin = 0x2bc830a3, const std::string& hrp = "xch") {
	static const char* cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; std::vector<uint8_t> d; for(int i = 0; i < n; ++i) { int x = 0; for(int j = 0; j < 5; ++j) { size_t bit = i * 5 + j; x = x * 2 + (bit / 8 < b.size() ? b[bit / 8] >> (7 - bit % 8) & 1 : 0); } d.push_back(x); }
	uint32_t c = 1; static const uint32_t g[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}; auto step = [&](uint8_t x) { uint8_t c0 = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x; for(int i = 0; i < 5; ++i) if((c0 >> i) & 1) c ^= g[i]; };
	for(char x : hrp) step((uint8_t)x >> 5); step(0); for(char x : hrp) step(x & 31); for(auto x : d) step(x); for(int i = 0; i < 6; ++i) step(0);
	std::string t = hrp + "1"; for(auto x : d) t += cs[x]; c ^= fin; for(int i = 0; i < 6; ++i) t += cs[c >> (5 * (5 - i)) & 31]; return t;
}
std::array<uint8_t, 32> fixed_id(const Plan& p) { auto v = ref::pool_id(p.get("fixid", 0)); std::array<uint8_t, 32> a; memcpy(a.data(), v.data(), 32); return a; }
std::vector<std::string> args_of(const Plan& p, const Conf& c) {
	std::map<std::string, std::string> o; std::vector<std::string> flags;
	o["-k"] = S(p.get("k", 16)); o["-x"] = S(p.get("port", 9699)); o["-r"] = S(p.get("r", 2)); o["-u"] = S(p.get("u", 16)); o["-t"] = TA; o["-f"] = key(2); if(p.get("contract")) o["-c"] = g_ks ? bech(puzzle(), 52) : CONTRACT; else o["-p"] = key(1); o["-n"] = S(c.n); if(p.get("v")) o["-v"] = S(p.get("v"));
	if(c.t2) o["-2"] = TB; if(c.d) o["-d"] = TD; if(c.s) o["-s"] = TS; if(p.get("Z")) flags.push_back("-Z");
	if(c.G) flags.push_back("-G"); if(c.D) flags.push_back("-D"); if(c.w) flags.push_back("-w");
	for(auto& e : p.sp) { if(e.second == "@none") o.erase(e.first); else if(e.second == "@flag") flags.push_back(e.first); else o[e.first] = e.second; }   // deviations drawn for C20
	int om = p.get("omit", 0); const char* opt[] = {"-k", "-x", "-r", "-u", "-n"}; for(int i = 0; i < 5; ++i) if(om >> i & 1) o.erase(opt[i]);   // the default is to be used
	if(p.get("K", 0)) o["-K"] = S(p.get("K")); if(p.get("fixid", 0)) o["-i"] = ref::hex(fixed_id(p).data(), 32);
	static const std::map<std::string, std::string> lng = {{"-k", "size"}, {"-x", "port"}, {"-i", "id"}, {"-n", "count"}, {"-r", "threads"}, {"-u", "buckets"}, {"-v", "buckets3"}, {"-t", "tmpdir"}, {"-2", "tmpdir2"}, {"-d", "finaldir"}, {"-s", "stagedir"}, {"-w", "waitforcopy"}, {"-p", "poolkey"}, {"-c", "contract"}, {"-f", "farmerkey"}, {"-G", "tmptoggle"}, {"-D", "directout"}, {"-Z", "unique"}, {"-K", "rmulti2"}};
	uint64_t ls = p.get("long", 0); auto form = [&](const std::string& x) { return ls ? (hash_str(x.c_str()) ^ ls) * 0x9E3779B97F4A7C15ull >> 62 : 0ull; };
	std::vector<std::string> a = {"chia_plot"};
	for(auto& e : o) { auto m = form(e.first); if(m < 2) { a.push_back(e.first); a.push_back(e.second); } else if(m == 2) { a.push_back("--" + lng.at(e.first)); a.push_back(e.second); } else a.push_back("--" + lng.at(e.first) + "=" + e.second); }
	for(auto& f : flags) a.push_back(form(f) >= 2 ? "--" + lng.at(f) : f);
	return a;
}
Foreign fo;
const CtlRec* rec_of(const std::string& path) { std::string b = path.substr(path.rfind('/') + 1); for(int i = 0; i < g_ctl->n; ++i) if(b == std::string(g_ctl->rec[i].name) + ".plot") return &g_ctl->rec[i]; return nullptr; }
// "" or what is wrong right now
std::string state_ok() {
	auto all = fs::list();
	for(auto& f : all) if(ends(f.path, ".plot") && !fo.h.count(f.path)) { auto r = rec_of(f.path); if(!r) return f.path + " is not a plot of this run"; if(!complete(f.path, *r)) return f.path + " is incomplete or damaged (" + S(f.size) + " of " + S(r->size) + " bytes)"; }
	for(int i = 0; i < g_ctl->n; ++i) { auto& r = g_ctl->rec[i]; if(!r.finished) continue; bool have = false; std::string nm = std::string("/") + r.name + ".plot"; for(auto& f : all) if(ends(f.path, nm)) have = true; if(!have) return std::string("no complete copy of ") + r.name + " is left"; }
	return "";
}
// a plot may be gone for good only if it never was finished
void watch(const Plan& p) {
	fs_observer = [&p](int op, const std::string& a, const std::string& b) {
		if(op == OP_READ || op == OP_STAT) return;
		if(op == OP_OPEN || op == OP_WRITE) { if(!ends(a, ".plot")) return; }
		for(int i = 0; i < g_ctl->n; ++i) { auto& r = g_ctl->rec[i]; if(r.delivered < 0) { std::string f = std::string(conf(p).d ? TD : TA) + r.name + ".plot"; if(fs::exists(f) && complete(f, r)) r.delivered = now(); } }
		if(p.prop == "C11" || p.prop == "C10" || p.prop == "C08" || p.prop == "C12") { std::string m = state_ok(); if(!m.empty()) violation("move", m + " after " + op_names[op] + " " + a + (b.empty() ? "" : " -> " + b)); }
	};
}
Exit go(const Plan& p, const Conf& c, const Limits& lim = Limits{3000000, 60}) {
	return exec(p, [&]() -> int {
		g_read_chunk_size = p.get("rc", 512); g_write_chunk_size = 4096; watch(p);
		auto a = args_of(p, c); std::vector<char*> v; for(auto& s : a) v.push_back(strdup(s.c_str())); v.push_back(nullptr);
		int before = g_ctl->n; int rc = chia_plot_main((int)a.size(), v.data());
		if(p.prop == "C22" && !rc && g_random_bytes < 32u * (g_ctl->n - before)) violation("entropy", S(g_random_bytes) + " random bytes were drawn for " + S(g_ctl->n - before) + " plots, fewer than the 32 of a secret key each");
		if(p.prop == "C16" && fs::open_count()) violation("files-left-open", S(fs::open_count()) + " files still open when main returned");
		return rc;
	}, lim);
}
void gen(Rng& r, Plan& p) {
	const std::string& pr = p.prop; auto& q = p.p;
	gen_policy(r, p, 2000); if(q["agap"] < 16) q["agap"] += 16;
	q["n"] = r.range(1, 5); q["t2"] = r.chance(0.7); q["d"] = 1; q["s"] = r.chance(0.25); q["w"] = r.chance(0.2); q["D"] = 0; q["G"] = 0; q["r"] = r.range(1, 6); q["k"] = r.range(16, 32); q["port"] = r.pick(std::vector<int>{8444, 9699, 11337});
	q["samedev"] = r.chance(0.25); q["rc"] = r.log_uniform(16, 4096); q["psize"] = r.log_uniform(100, 60000); if(r.chance(0.3)) q["psize"] = q["rc"] * 16 * r.range(1, 4); if(q["psize"] > 60000) q["psize"] = 60000;
	q["dur"] = r.log_uniform(1, 20000); q["fseed"] = r.next() >> 8; q["keyseed"] = r.next() >> 8; q["lat"] = r.chance(0.5) ? (int64_t)r.log_uniform(100, 20000) : 0; q["lat_max"] = r.chance(0.5) ? 20000000 : 30000000000ll;
	auto windows = [&](bool src) {
		int nw = r.range(1, 3); double T = q["dur"] * 0.97 + 1, t = 8 + r.unit() * T * std::max<int64_t>(q["n"], 1);
		const int W = 1 << OP_OPEN | 1 << OP_WRITE | 1 << OP_CLOSE | 1 << OP_RENAME;
		for(int i = 0; i < nw; ++i) {
			Window w; w.prefix = TD; w.t0 = t; double len = r.chance(0.5) ? (double)r.log_uniform(1, 20000) : r.chance(0.8) ? T * r.unit() * 4 : (double)r.log_uniform(20000, 360000); w.t1 = t + len;
			w.err = r.pick(std::vector<int>{ENOSPC, EIO, EACCES, ENOENT, ESTALE, EROFS}); w.ops = r.chance(0.3) ? W : r.pick(std::vector<int>{1 << OP_OPEN | 1 << OP_RENAME, 1 << OP_WRITE, 1 << OP_CLOSE, 1 << OP_RENAME, 1 << OP_WRITE | 1 << OP_CLOSE});
			if(src && r.chance(0.25)) { w.prefix = q["s"] ? TS : TA; w.ops = 1 << OP_READ; w.err = EIO; }
			p.windows.push_back(w); t = w.t1 + r.unit() * 2000;
		}
		q["lat_max"] = 20000000;
	};
	auto once = [&](int inc) {   // a fault around the move of the plot
		Fault f; f.inc = inc; std::string src = q["s"] ? "s/P.plot" : "a/P.plot", dst = "d/P.plot.tmp";
		switch(r.below(8)) {
		case 0: f.op = OP_WRITE; f.cls = dst; f.nth = 1 + r.below(1 + q["psize"] / 4096); f.err = r.chance(0.5) ? EIO : ENOSPC; f.frac = r.chance(0.5) ? r.below(1000) : 0; break;
		case 1: f.op = OP_READ; f.cls = src; f.nth = 1 + r.below(1 + q["psize"] / 4096); f.err = EIO; break;
		case 2: f.op = OP_CLOSE; f.cls = dst; f.nth = 1 + r.below(3); f.err = r.chance(0.5) ? EIO : EDQUOT; f.lose = r.chance(0.6); break;
		case 3: f.op = OP_RENAME; f.cls = dst + ">d/P.plot"; f.nth = 1 + r.below(3); f.err = r.pick(std::vector<int>{EIO, EACCES, ENOSPC, EBUSY}); break;
		case 4: f.op = OP_RENAME; f.cls = src + ">d/P.plot"; f.nth = 1 + r.below(3); f.err = r.pick(std::vector<int>{EIO, EACCES, EBUSY}); break;
		case 5: f.op = OP_OPEN; f.cls = r.chance(0.5) ? dst : src; f.nth = 1 + r.below(3); f.err = r.pick(std::vector<int>{EACCES, EMFILE, EIO}); break;
		case 6: f.op = OP_UNLINK; f.cls = src; f.nth = 1 + r.below(3); f.err = EACCES; break;
		default: f.op = r.pick(std::vector<int>{OP_WRITE, OP_CLOSE, OP_OPEN, OP_RENAME, OP_UNLINK}); f.cls = "*"; f.nth = 1 + r.below(60); f.err = EIO; if(f.op == OP_OPEN) f.nth += 40; break;
		}
		p.faults.push_back(f);
	};
	if(pr == "C11") { q["w"] = r.chance(0.3); if(r.chance(0.4)) windows(true); int k = r.range(0, 3); for(int i = 0; i < k; ++i) once(0); q["lat_max"] = 20000000; }
	if(pr == "C23") { q["G"] = !q["s"] && q["t2"] && r.chance(0.3); q["D"] = r.chance(0.2); q["lat_max"] = 20000000; if(r.chance(0.3)) windows(false); }
	if(pr == "C10" || pr == "C23" || (pr == "C11" && r.chance(0.6))) {
		Crash c; c.inc = 0; double x = r.unit();
		if(x < 0.35) { c.step = r.log_uniform(300, 6000); } else if(x < 0.5) { c.t = r.unit() * (q["dur"] + 1) * q["n"]; }
		else { c.op = r.pick(std::vector<int>{OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_OPEN, OP_READ}); std::string src = q["s"] ? "s/P.plot" : "a/P.plot"; c.cls = c.op == OP_READ || c.op == OP_UNLINK ? src : c.op == OP_RENAME ? (q["samedev"] ? src : "d/P.plot.tmp") + std::string(">d/P.plot") : "d/P.plot.tmp"; c.nth = 1 + r.below(c.op == OP_WRITE || c.op == OP_READ ? 1 + q["psize"] / 4096 : 3); c.after = r.below(2); if(r.chance(0.2)) { c.cls = "*"; c.nth = 1 + r.below(60); } }
		p.crashes.push_back(c); q["restart"] = 1;
	}
	if(pr == "C12") { q["samedev"] = r.chance(0.1); windows(true); if(r.chance(0.2)) once(0); }
	if(pr == "C13") {
		q["n"] = r.chance(0.2) ? -1 : r.range(2, 6); int nn = q["n"] < 0 ? 4 : q["n"]; double T = q["dur"] * 0.97; if(T < 3) { q["dur"] = 10; T = 9.7; }
		q["w"] = r.chance(0.3); if(r.chance(0.3)) windows(false); q["lat_max"] = 2000000;
		double x = r.unit(); if(q["n"] < 0) x = 0.3 + 0.7 * x;
		auto when = [&] { double t = 1.2 + r.unit() * T * (nn + 0.2); if(r.chance(0.3)) t = T * r.range(1, nn) + (r.unit() - 0.5) * 0.2; return t < 1.2 ? 1.2 : t; };
		auto sig = [&](double t) { Sig s; s.t = t; s.signo = r.chance(0.7) ? SIGINT : SIGTERM; p.sigs.push_back(s); };
		if(x < 0.15) {} else if(x < 0.6) { sig(when()); } else if(x < 0.8) { double t = when(); sig(t); sig(t + 0.001 + r.unit() * 0.94); } else { double t = when(); sig(t); int k = r.range(1, 3); for(int i = 0; i < k; ++i) { t += 1.1 + (r.chance(0.5) ? r.unit() * 3 : r.unit() * T); sig(t); } }
		if(q["n"] < 0 && p.sigs.empty()) sig(when());
	}
	if(pr == "C14" || pr == "C16") { q["D"] = r.chance(0.2); q["G"] = !q["s"] && q["t2"] && r.chance(0.3); q["d"] = q["G"] || r.chance(0.8); if(q["s"]) q["d"] = 1; if(q["d"] && !q["D"] && r.chance(0.5)) { q["samedev"] = 0; windows(false); } if(pr == "C16") { q["u"] = r.pick(std::vector<int>{16, 32, 128, 256}); q["rlim_soft"] = r.chance(0.5) ? 1024 : 256; q["rlim_hard"] = r.chance(0.5) ? 1048576 : 4096; } }
	if(pr == "C14" && r.chance(0.15)) { q["refuse"] = 1; q["u"] = r.pick(std::vector<int>{256, 128}); q["v"] = 0; if(r.chance(0.7)) { q["rlim_soft"] = r.range(32, q["u"] + 20); q["rlim_hard"] = r.range(q["rlim_soft"], q["u"] + 29); p.windows.clear(); } else { p.windows.clear(); Window w; w.prefix = q["d"] ? TD : TA; w.t0 = 0; w.t1 = 1e9; w.err = EACCES; w.ops = 1 << OP_OPEN; p.windows.push_back(w); } }
	if(pr == "C18") { q["G"] = r.chance(0.4); if(q["G"]) { q["s"] = 0; q["t2"] = 1; } q["D"] = r.chance(0.3); q["w"] = r.chance(0.4); q["d"] = q["G"] || q["s"] || r.chance(0.8); if(q["d"] && !q["D"] && r.chance(0.4)) windows(false); }
	if(pr == "C08") { int k = r.range(1, 2); for(int i = 0; i < k; ++i) once(0); }
	if(pr == "C22") { q["contract"] = r.chance(0.4); q["Z"] = r.chance(0.3); q["G"] = 0; q["lat_max"] = 20000000; q["n"] = r.range(1, 4); q["restart"] = r.chance(0.4); q["rnear"] = r.chance(0.35); q["rpos"] = r.below(32); q["dur"] = r.log_uniform(1, 500); q["ks"] = r.chance(0.3) ? 0 : 1 + r.below(1000000); if(r.chance(0.15)) { q["fixid"] = 1 + r.below(1000000); q["n"] = 1; q["restart"] = 0; } }
	if(pr != "C20" && r.chance(0.3)) { q["jump_t"] = r.unit() * 1000 * (q["dur"] + 2) * std::max<int64_t>(q["n"], 2); if(!p.sigs.empty() && r.chance(0.5)) q["jump_t"] = p.sigs[0].t * 1000 + r.log_uniform(1, 5000); q["jump_d"] = (r.chance(0.5) ? 1 : -1) * (int64_t)r.log_uniform(1, 10000000); }
	if(pr == "C20") {
		q["n"] = r.range(1, 2); q["dur"] = 1; q["u"] = r.pick(std::vector<int>{16, 32, 64, 100, 4, 8, 10, 12, 5, 256, 1000}); q["v"] = r.chance(0.5) ? 0 : r.pick(std::vector<int>{16, 32, 4, 9, 128, 511}); q["contract"] = r.chance(0.3); q["r"] = r.chance(0.8) ? r.range(1, 16) : r.range(17, 1024); q["G"] = !q["s"] && r.chance(0.3); q["D"] = r.chance(0.2); q["rlim_hard"] = 1048576; q["lat"] = 0;
		auto& sp = p.sp; auto pickv = [&](std::vector<std::string> v) { return v[r.below(v.size())]; }; auto dir = [&] { std::vector<std::string> v = {"-t", "-d"}; if(q["t2"]) v.push_back("-2"); if(q["s"]) v.push_back("-s"); return v[r.below(v.size())]; };
		auto path = [](const std::string& o) { return o == "-t" ? "/sim/a/" : o == "-2" ? "/sim/b/" : o == "-d" ? "/sim/d/" : "/sim/s/"; };
		q["bad"] = r.chance(0.3) ? -1 : (int64_t)r.below(21); std::string o;
		if(r.chance(0.5)) q["long"] = r.next() >> 8;
		if(q["bad"] < 0) { if(r.chance(0.5)) { int om = q["omit"] = r.below(32); if(om & 1) q["k"] = 32; if(om & 2) q["port"] = 8444; if(om & 4) q["r"] = 4; if(om & 8) q["u"] = 256; if(om & 16) q["n"] = 1; } q["K"] = r.chance(0.4) ? r.range(1, 8) : 0; q["Z"] = r.chance(0.2); q["w"] = r.chance(0.2); if(r.chance(0.2)) { q["fixid"] = 1 + r.below(1000000); } }
		switch(q["bad"]) {
		case 0: sp["-k"] = pickv({"15", "0", "-3", "33", "35", "40"}); break;
		case 1: sp["-r"] = pickv({"0", "-1", "1025", "100000"}); break;
		case 2: sp["-u"] = pickv({"0", "1", "2", "3", "131072", "200000"}); break;
		case 3: sp["-v"] = pickv({"1", "2", "3", "131072", "1000000"}); break;
		case 4: q["contract"] = 0; sp["-p"] = pickv({key(1).substr(2), key(1) + "00", "00", key(1).substr(0, 64)}); break;
		case 5: sp["-f"] = pickv({key(2).substr(2), key(2) + "00", "00", key(2).substr(0, 64)}); break;
		case 6: sp["-p"] = key(1); sp["-c"] = CONTRACT; break;
		case 7: sp["-p"] = "@none"; sp["-c"] = "@none"; break;
		case 8: sp["-f"] = "@none"; break;
		case 9: sp["-t"] = "@none"; break;
		case 10: o = dir(); sp[o] = std::string(path(o)).substr(0, 6); break;
		case 11: o = dir(); sp[o] = "/sim/nowhere/"; break;
		case 12: { o = dir(); Window w; w.prefix = path(o); w.t0 = 0; w.t1 = 1e9; w.err = r.pick(std::vector<int>{EACCES, EROFS, ENOENT, EIO}); w.ops = 1 << OP_OPEN; p.windows.push_back(w); break; }
		case 13: q["u"] = r.pick(std::vector<int>{256, 1024, 512}); q["v"] = 0; q["rlim_soft"] = r.range(32, 280); q["rlim_hard"] = r.range(q["rlim_soft"], 285); break;
		case 20: q["k"] = r.range(16, 31); sp[r.chance(0.5) ? "-u" : "-v"] = S(r.chance(0.5) ? 1 << (q["k"] / 2 + 1) : (int64_t)q["k"] / 2 + 1); if(q["k"] > 29) { sp.clear(); sp[r.chance(0.5) ? "-u" : "-v"] = "65536"; } if(q["k"] < 20 && r.chance(0.3)) { sp.clear(); sp["-u"] = "2000"; } break;
		case 17: q["u"] = r.chance(0.5) ? 16 : 32; q["v"] = r.pick(std::vector<int>{256, 1024, 512}); q["r"] = r.range(1, 6); q["rlim_soft"] = r.range(90, q["v"]); q["rlim_hard"] = r.range(q["rlim_soft"], q["v"] + 29); break;
		case 14: q["s"] = 0; q["t2"] = 1; sp["-s"] = TS; sp["-G"] = "@flag"; break;
		case 15: q["contract"] = 1; sp["-c"] = pickv({"xch1pvc9275lcn5suv6c0k3v0mq3xedcpfw2au2rjh5r4rxly9euvxrqgvg6zq", "xch1pvc9275lcn5suv6c0k3v0mq3xedcpfw2au2rjh5r4rxly9euvxrqgvg6", "hello", "xch1", "bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq"}); if(r.chance(0.6)) { g_ks = 1 + r.below(100000); sp["-c"] = r.chance(0.3) ? bech(puzzle(), 52, 1) : bech(puzzle(), r.pick(std::vector<int>{0, 1, 20, 32, 50, 51, 53, 54, 60})); g_ks = 0; } break;
		case 16: sp["-i"] = pickv({std::string(62, 'a'), std::string(66, 'b'), std::string(16, 'c'), std::string(63, 'd'), std::string(40, '7') + "g" + std::string(23, '1'), std::string(62, 'e') + "0x", " " + std::string(63, 'a'), std::string(32, '0') + "-1" + std::string(30, '0')}); break;
		case 18: sp["-K"] = pickv({"0", "-1", "-1024"}); break;
		case 19: sp[pickv({"-k", "-r", "-u", "-n"})] = pickv({"abc", "16b", "1x", "0.5"}); break;
		}
		if(q["bad"] != 20) for(auto x : {"u", "v"}) { int64_t v = q[x]; int l = 0; if(v < 16) l = v; else while((2ll << l) <= v) ++l; if(2 * l > q["k"]) q["k"] = 2 * l; }   // usable numbers of buckets depend on k
		q["lat_max"] = 20000000; (void)path;
	}
}
void run(const Plan& p) {
	const std::string& pr = p.prop; Conf c = conf(p); g_ks = p.get("ks", 0);
	g_ctl = (Ctl*)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_ctl->dur = p.get("dur", 10); g_ctl->psize = p.get("psize", 1000);
	for(auto d : {TA, TB, TD, TS}) fs::mount(d, ~0ull, p.get("samedev") ? 7 : 0);
	Rng fr(p.get("fseed")); fo.h.clear(); if(pr == "C14" || pr == "C10" || pr == "C11") put_foreign(fo, fr, {TA, TB, TD});
	Exit e = go(p, c); std::string F = final_dir(c); double tend = e.vtime_ns * 1e-9;
	if(violated()) return;
	double wend = 0; for(auto& w : p.windows) wend = std::max(wend, w.t1); bool faulty = !p.windows.empty() || !p.faults.empty();
	std::string m = state_ok();
	auto delivered = [&](int i) { return fs::exists(F + g_ctl->rec[i].name + ".plot"); };
	auto all_delivered = [&](int from, int want, const char* what) { if(g_ctl->n - from != want) { violation("count", std::string(what) + ": " + S(g_ctl->n - from) + " plots made instead of " + S(want)); return false; } for(int i = from; i < g_ctl->n; ++i) if(!delivered(i)) { violation("not-delivered", std::string(what) + ": exit status 0 but " + g_ctl->rec[i].name + " is not in " + F); return false; } return true; };
	if(pr == "C08") {
		if(!m.empty()) { violation("bad-plot", m + " (process: " + ending(e) + ")"); return; }
		if(e.ok()) all_delivered(0, c.n, "run with a failing operation"); return;
	}
	if(pr == "C10" || pr == "C11") {
		if(!m.empty()) { violation("move", m + " at the end (" + ending(e) + ")"); return; }
		std::string q = check_foreign(fo); if(!q.empty()) { violation("older-file", q); return; }
		if(e.kind == END_EXIT && e.code == 0) { if(!all_delivered(0, c.n, "run")) return; }
		if(e.kind == END_CRASH && p.get("restart")) {
			probe("crash_restart"); int old = g_ctl->n; double t0 = now(); (void)t0;
			Plan p2 = p; p2.windows.clear(); Exit e2 = go(p2, c); if(violated()) return;
			if(!need_success(e2, "run after a crash")) return;
			if(!all_delivered(old, c.n, "run after a crash")) return;
			m = state_ok(); if(!m.empty()) { violation("move", m + " after the restarted run"); return; }
			q = check_foreign(fo); if(!q.empty()) { violation("older-file", q); return; }
		} else if(pr == "C11" && hung(e)) violation(std::string("hang.") + end_names[e.kind], ending(e));
		return;
	}
	if(pr == "C23") {
		int old = g_ctl->n;
		Foreign h; for(auto& f : fs::list()) { std::string b = f.path.substr(f.path.rfind('/') + 1); if(!starts(b, ".chia_plot")) h.h[f.path] = fs::content_hash(f.path); }
		if(!h.h.empty() && e.kind == END_CRASH) probe("other_in_progress");
		Plan p2 = p; p2.windows.clear(); p2.crashes.clear(); Exit e2 = go(p2, c); if(violated() || !need_success(e2, "second plotter in the same directories")) return;
		std::string q = check_foreign(h); if(!q.empty()) { violation("disturbed", "file of another plotter: " + q); return; }
		all_delivered(old, c.n, "second plotter"); return;
	}
	if(pr == "C12") {
		bool generic = false; for(auto& f : p.faults) if(f.cls == "*") generic = true;
		if(generic && !e.ok() && !hung(e)) return;     // the fault hit the making of a plot, which ends the run
		if(!need_success(e, "run with a final directory that fails for a while")) return;
		if(!all_delivered(0, c.n, "run")) return;
		double slow = 600.0 * c.n + 10; (void)tend;
		double ended = 0;
		for(int i = 0; i < g_ctl->n; ++i) {
			auto& r = g_ctl->rec[i]; double from = std::max(r.finish, wend); if(i) from = std::max(from, g_ctl->rec[i - 1].delivered);
			if(r.delivered < 0 || r.delivered > from + 3600 + slow) { violation("late", std::string(r.name) + " was delivered " + S((long long)(r.delivered - from)) + " s after the directory worked again"); return; }
			ended = std::max(ended, r.delivered);
			if(i && !c.w) { auto& a = g_ctl->rec[i - 1]; bool backlog = false; for(int j = 0; j < i - 1; ++j) if(g_ctl->rec[j].delivered > a.finish) backlog = true; if(!backlog && r.start > a.finish + 30) { violation("stalled", "plot " + S(i + 1) + " started " + S((long long)(r.start - a.finish)) + " s after the one before was finished, while that was being copied"); return; } }
		}
		if(!p.windows.empty() && faulty) probe("windows_run");
		return;
	}
	if(pr == "C13") {
		std::vector<double> t; for(auto& s : p.sigs) t.push_back(s.t); std::sort(t.begin(), t.end());
		size_t dbl = 0; for(size_t i = 1; i < t.size(); ++i) if(t[i] - t[i - 1] <= 1.0) { dbl = i; break; }
		if(dbl && t[dbl] < tend - 1e-9) { violation("double-ignored", "second interrupt at " + std::to_string(t[dbl]) + ", process ran until " + std::to_string(tend) + " (" + ending(e) + ")"); return; }
		if(dbl && tend >= t[dbl] - 1e-6 && !(e.kind == END_EXIT && e.code == 0)) { if(hung(e) || e.kind == END_SEGV) violation("double", ending(e)); else probe("double_exit"); return; }
		if(dbl && e.ok() && tend > t[dbl] + 0.01) { violation("double-status", "status 0 after a double interrupt"); return; }
		if(!need_success(e, "run")) return;
		if(t.empty()) { all_delivered(0, c.n, "run without interrupt"); return; }
		int made = g_ctl->n; for(int i = 0; i < made; ++i) { auto& r = g_ctl->rec[i]; if(!delivered(i)) { violation("not-delivered", std::string("exit status 0 after an interrupt but ") + r.name + " is not in " + F); return; } if(r.start > t[0] + 0.05) { violation("started-after-interrupt", "plot " + S(i + 1) + " was started at " + std::to_string(r.start) + ", interrupt at " + std::to_string(t[0])); return; } }
		if(c.n > 0 && made > c.n) { violation("count", S(made) + " plots made instead of " + S(c.n)); return; }
		if(c.n > 0 && made < c.n && tend + 1e-3 < t[0]) { violation("count", S(made) + " plots made instead of " + S(c.n) + " and no interrupt had arrived"); return; }
		if(made && made < c.n && g_ctl->rec[made - 1].finish < t[0] - 1 && tend < t[0]) violation("count", "stopped early");
		probe("graceful");
		return;
	}
	if(pr == "C14" && p.get("refuse", 0)) {
		if(e.ok() || g_ctl->n) return;   // C20
		if(e.kind != END_EXIT) return; probe("refused");
		for(auto& f : fs::list()) if(!fo.h.count(f.path)) { violation("left-behind", "a run refused at start-up leaves " + f.path); return; }
		m = check_foreign(fo); if(!m.empty()) violation("foreign-file", m);
		return;
	}
	if(pr == "C14") {
		if(!need_success(e)) return;
		if(!all_delivered(0, c.n, "run")) { return; }
		std::set<std::string> own; for(int i = 0; i < g_ctl->n; ++i) own.insert(F + g_ctl->rec[i].name + ".plot");
		for(auto& f : fs::list()) if(!own.count(f.path) && !fo.h.count(f.path)) { violation("left-behind", f.path + " (" + S(f.size) + " bytes)"); return; }
		m = check_foreign(fo); if(!m.empty()) violation("foreign-file", m);
		return;
	}
	if(pr == "C16") { need_success(e); return; }
	if(pr == "C20") {
		if(p.get("bad") < 0) {
			if(!need_success(e, "run with usable parameters")) return; if(!all_delivered(0, c.n, "run with usable parameters")) return;
			auto lg = [](int64_t v) { if(v < 16) return (int)v; int l = 0; while((1ll << (l + 1)) <= v) ++l; return l; }; auto& r = g_ctl->rec[0];
			int lu = lg(p.get("u")), lv = p.get("v") ? lg(p.get("v")) : lu;
			if(r.k != p.get("k") || r.threads != p.get("r") || r.lu != lu || r.lv != lv) violation("parameters", "k, threads or bucket numbers are not used as given: k " + S(r.k) + " r " + S(r.threads) + " u 2^" + S(r.lu) + " v 2^" + S(r.lv));
			else if(r.K >= 0 && r.K != std::max<int64_t>(1, p.get("K", 0))) violation("parameters", "thread multiplier for phase 2 is " + S(r.K) + " instead of " + S(std::max<int64_t>(1, p.get("K", 0))));
			else if(p.get("fixid", 0) && memcmp(r.id, fixed_id(p).data(), 32)) violation("parameters", "the id given is not used");
			return;
		}
		std::string what = "with unusable parameters (" + S(p.get("bad")); for(auto& x : p.sp) what += " " + x.first + " " + x.second; what += ")";
		if(e.ok()) violation("accepted", "exit status 0 " + what); else if(g_ctl->n) violation("started", "plotting was started " + what); else if(e.kind == END_SEGV || hung(e)) violation("crash", ending(e) + " " + what);
		else probe(("refused." + S(p.get("bad"))).c_str());
		return;
	}
	if(pr == "C22") {
		if(!need_success(e)) return;
		if(p.get("restart")) { Exit e2 = go(p, c); if(!need_success(e2)) return; }
		std::set<std::string> ids, sks; bool con = p.get("contract"), uniq = p.get("Z") || p.get("port") == 11337;
		for(int i = 0; i < g_ctl->n; ++i) {
			auto& r = g_ctl->rec[i]; std::string who = "plot " + S(i + 1) + ": ";
			auto pk = con ? puzzle() : bytes(key(1)), fk = bytes(key(2)); size_t np = pk.size();
			if(r.nmemo != (int)np + 48 + 32) { violation("memo", who + "memo has " + S(r.nmemo) + " bytes instead of " + S(np + 80)); return; }
			if(memcmp(r.memo, pk.data(), np) || memcmp(r.memo + np, fk.data(), 48)) { violation("memo", who + "memo does not start with the pool and farmer keys given"); return; }
			bls::PrivateKey sk; memcpy(sk.s.data(), r.memo + np + 48, 32); bls::AugSchemeMPL M; auto loc = sk; for(uint32_t x : {12381u, (uint32_t)p.get("port"), 3u, 0u}) loc = M.DeriveChildSk(loc, x);
			auto lk = loc.GetG1Element(), F = bls::G1Element::FromByteVector(fk); auto P = lk + F; uint8_t h[32];
			if(con) { auto b = P.Serialize(), l = lk.Serialize(); b.insert(b.end(), l.begin(), l.end()); b.insert(b.end(), fk.begin(), fk.end()); std::vector<uint8_t> th(32); bls::Util::Hash256(th.data(), b.data(), b.size()); P = P + M.KeyGen(th).GetG1Element(); }
			auto b = pk; auto ps = P.Serialize(); b.insert(b.end(), ps.begin(), ps.end()); bls::Util::Hash256(h, b.data(), b.size());
			if(uniq) { uint8_t t[36]; memcpy(t, h, 32); uint32_t po = p.get("port"); memcpy(t + 32, &po, 4); bls::Util::Hash256(h, t, 36); }
			if(p.get("fixid", 0)) memcpy(h, fixed_id(p).data(), 32);   // the debugging option -i replaces the id, and nothing else
			if(memcmp(h, r.id, 32)) { violation("id", who + (p.get("fixid", 0) ? "id is not the one given" : "id does not follow from the keys in the memo")); return; }
			std::string hx = ref::hex(r.id, 32), sx = ref::hex(r.memo + np + 48, 32), nm = std::string(p.get("port") == 11337 ? "plot-mmx-k" : "plot-k") + S(p.get("k")) + "-";
			if(!ids.insert(hx).second || !sks.insert(sx).second) { violation("reused", who + "same id or secret key as an earlier plot"); return; }
			if(!starts(r.name, nm) || !ends(r.name, "-" + hx) || strlen(r.name) != nm.size() + 16 + 1 + 64) { violation("name", who + "file name " + r.name); return; }
		}
		if(g_ctl->n > 1) probe("several_plots");
		return;
	}
	if(pr == "C18") {
		if(!need_success(e)) return;
		if(!all_delivered(0, c.n, "run")) return;
		std::string ta = TA, tb = c.t2 ? TB : TA, st = c.s ? TS : TA;
		for(int i = 0; i < g_ctl->n; ++i) {
			auto& r = g_ctl->rec[i]; std::string x = ta, y = tb; if(c.G && (i & 1)) std::swap(x, y);
			if(x != r.t || y != r.t2) { violation("tmpdir", "plot " + S(i + 1) + " used " + r.t + " and " + r.t2 + " as temporary directories instead of " + x + " and " + y); return; }
			std::string o = r.out; if(c.D ? o != F : (o != st && !(c.G && o == x))) { violation("stagedir", "plot " + S(i + 1) + " was written in " + o + " instead of " + (c.D ? F : st)); return; }
			if(c.w && i + 1 < g_ctl->n && c.d && !c.D && g_ctl->rec[i + 1].start < r.delivered) { violation("no-wait", "plot " + S(i + 2) + " started before plot " + S(i + 1) + " had been delivered"); return; }
		}
	}
}
struct Reg { Reg() { World w; w.name = "ctl"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
