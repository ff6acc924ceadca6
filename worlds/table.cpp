// Temporary tables alone: written through the cache, read back by parallel readers; also
// tables beyond 4 GiB (content computed by the simulated disk).
#include "common.h"
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/DiskTable.h>
#include <thread>
#include <chrono>
using namespace w;
namespace {
const char* TA = "/sim/a/";
#ifdef CHIA_K34
constexpr int XB = 34, PB = 35, F7B = 34;
#else
constexpr int XB = 32, PB = 32, F7B = 32;
#endif
uint64_t rnd(Rng& r, int bits) { uint64_t m = ((uint64_t)1 << bits) - 1; double x = r.unit(); return x < 0.02 ? m : x < 0.03 ? 0 : r.next() & m; }
template<class T> struct Tr;
template<> struct Tr<phase1::tmp_entry_1> { typedef phase1::tmp_entry_1 E; static E make(Rng& r) { E e; e.x = (uintkx_t)rnd(r, XB); return e; } static bool eq(const E& a, const E& b) { return a.x == b.x; } };
template<> struct Tr<phase1::tmp_entry_x> { typedef phase1::tmp_entry_x E; static E make(Rng& r) { E e; e.pos = (uintkx_t)rnd(r, PB); e.off = (uint16_t)rnd(r, 10); return e; } static bool eq(const E& a, const E& b) { return a.pos == b.pos && a.off == b.off; } };
template<> struct Tr<phase1::entry_7> { typedef phase1::entry_7 E; static E make(Rng& r) { E e; e.y = (uintkx_t)rnd(r, F7B); e.pos = (uintkx_t)rnd(r, PB); e.off = (uint16_t)rnd(r, 10); return e; } static bool eq(const E& a, const E& b) { return a.y == b.y && a.pos == b.pos && a.off == b.off; } };
// an entry of 1 MiB makes tables beyond 4 GiB affordable; its number is stored at the front
struct huge_entry { uint64_t id = ~0ull; static constexpr size_t disk_size = 1 << 20; size_t read(const uint8_t* b) { memcpy(&id, b, 8); return disk_size; } size_t write(uint8_t* b) const { memcpy(b, &id, 8); return disk_size; } };
void gen_bytes(uint64_t off, uint8_t* buf, size_t n) { for(size_t i = 0; i < n;) { uint64_t o = off + i; if(o % (1 << 20) < 8) { uint64_t id = o >> 20; buf[i] = (uint8_t)(id >> (8 * (o % (1 << 20)))); ++i; } else { size_t k = std::min<size_t>(n - i, (1 << 20) - o % (1 << 20)); memset(buf + i, 0, k); i += k; } } }
void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 2000);
	p.p["type"] = r.chance(0.02) ? 3 : r.below(3); p.p["rc"] = r.log_uniform(1, 2000); p.p["wc"] = r.log_uniform(1, 700);
	p.p["rt"] = r.chance(0.85) ? r.range(1, 6) : r.range(7, 16); p.p["bs"] = r.chance(0.5) ? 0 : (int64_t)r.log_uniform(1, 3000);
	p.p["n"] = r.chance(0.05) ? r.range(1, 3) : (int64_t)r.log_uniform(4, 12000); if(r.chance(0.3)) p.p["n"] = std::max<int64_t>(1, (p.p["bs"] ? p.p["bs"] : p.p["rc"]) * r.range(1, 6) + r.range(-1, 1)); if(p.p["n"] > 20000) p.p["n"] = 20000;
	if(p.p["type"] == 3) { p.p["n"] = 4096 * r.range(1, 2) + r.range(-2, 40); p.p["rt"] = r.range(1, 4); p.p["bs"] = r.range(3, 40); p.p["rc"] = 16; p.p["wc"] = 4; }
	p.p["slow"] = r.chance(0.3); p.p["cons"] = r.below(2); p.p["early"] = r.chance(0.3); p.p["fseed"] = r.next() >> 8; p.p["twice"] = r.chance(0.3); p.p["flush"] = r.chance(0.3);
	p.p["lat"] = r.chance(0.3) ? (int64_t)r.log_uniform(20, 5000) : 0; p.p["lat_max"] = 3000000;
	if(p.prop == "C09" || p.prop == "C08") {
		p.p["type"] = r.below(3); p.p["n"] = r.log_uniform(50, 6000); Fault f; double x = r.unit(); int64_t bs = p.p["bs"] ? p.p["bs"] : p.p["rc"];
		if(p.prop == "C09" && x < 0.2) { f.op = OP_THREAD; f.cls = "thread"; f.nth = 1 + r.below(1 + p.p["rt"]); f.err = EAGAIN; }
		else if(p.prop == "C09" && x < 0.3) { f.op = OP_ALLOC; f.cls = "alloc"; f.nth = r.log_uniform(1, 1000); f.err = ENOMEM; }
		else { f.op = r.pick(std::vector<int>{OP_OPEN, OP_READ, OP_READ, OP_SEEK, OP_WRITE, OP_WRITE, OP_CLOSE}); f.cls = "*"; f.nth = f.op == OP_WRITE ? r.log_uniform(1, 1 + p.p["n"] / p.p["wc"]) : f.op == OP_READ || f.op == OP_SEEK ? r.log_uniform(1, 1 + p.p["n"] / bs) : f.op == OP_CLOSE ? 1 : 1 + r.below(1 + p.p["rt"]); f.err = f.op == OP_WRITE ? ENOSPC : EIO; f.sticky = r.chance(0.5) ? STICKY_ONCE : STICKY_MOUNT; if(f.op == OP_WRITE && r.chance(0.5)) f.frac = r.below(1000); if(f.op == OP_CLOSE) { f.sticky = STICKY_ONCE; f.lose = r.chance(0.6); } }
		p.faults.push_back(f);
	}
}
template<class E, class Eq> void readback(const Plan& p, const table_t& info, uint64_t n, Eq eq, Rng& r) {
	typedef std::pair<std::vector<E>, size_t> Block; std::vector<uint64_t> slow; for(int i = 0; i < 32; ++i) slow.push_back(p.get("slow") && r.chance(0.5) ? r.log_uniform(1000, 3000000) : 0);
	uint64_t next = 0, blk = 0; std::string bad;
	auto take = [&](Block& b) { uint64_t ns; { Quiet q; ns = slow[blk++ % slow.size()]; if(bad.empty() && b.second != next) bad = "block said to start at " + S(b.second) + " came when " + S(next) + " was due"; for(auto& e : b.first) { if(bad.empty() && (next >= n || !eq(next, e))) bad = "entry " + S(next) + " is not the one written"; next++; } } if(ns) std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); };
	{
		DiskTable<E> t(info);
		auto rd = [&](Processor<Block>* o) { if(p.get("bs")) t.read(o, p.get("rt"), p.get("bs")); else t.read(o, p.get("rt")); };
		if(p.get("cons") == 0) { Thread<Block> th([&](Block& b) { take(b); }); rd(&th); th.close(); }
		else { Thread<Block> sink([&](Block& b) { take(b); }); ThreadPool<Block, Block> pool([](Block& i, Block& o, size_t&) { o = std::move(i); }, &sink, 3); rd(&pool); pool.close(); sink.close(); }
	}
	Quiet q; if(p.prop == "C09") return;
	if(!bad.empty()) violation("content", bad); else if(next != n) violation("count", S(next) + " entries read, " + S(n) + " written");
}
template<class E> void go(const Plan& p) {
	typedef Tr<E> X; fs::mount(TA); Rng r(p.get("fseed")); uint64_t n = p.get("n"); std::vector<E> in; for(uint64_t i = 0; i < n; ++i) in.push_back(X::make(r));
	Exit ex = exec(p, [&]() -> int {
		g_read_chunk_size = p.get("rc"); g_write_chunk_size = p.get("wc"); table_t info; const std::string file = std::string(TA) + "x.table1.tmp";
		{ DiskTable<E> t(file); for(uint64_t i = 0; i < n; ++i) { t.write(in[i]); if(p.get("flush") && i == n / 2) t.flush(); } t.close(); info = t.get_info(); }
		{ Quiet q; if(info.num_entries != n && p.prop != "C09") { violation("count", "table says it holds " + S(info.num_entries) + " entries, " + S(n) + " were written"); return 0; } }
		for(int i = 0; i < 1 + p.get("twice") && !violated(); ++i) readback<E>(p, info, n, [&](uint64_t k, const E& e) { return X::eq(e, in[k]); }, r);
		return 0;
	}, Limits{20000000, 60});
	if(p.prop == "C08" || p.prop == "C09") { if(p.prop == "C09" && hung(ex)) violation(std::string("hang.") + end_names[ex.kind], "after an injected failure the table does not end: " + ending(ex)); return; }
	if(!violated()) need_success(ex, "table without faults");
}
void go_huge(const Plan& p) {
	fs::mount(TA); uint64_t n = p.get("n"); const std::string file = std::string(TA) + "x.table1.tmp"; fs::set_generated(file, gen_bytes, n << 20); Rng r(p.get("fseed")); probe("table_beyond_4GiB");
	Exit ex = exec(p, [&]() -> int { g_read_chunk_size = p.get("rc"); g_write_chunk_size = p.get("wc"); table_t info; info.file_name = file; info.num_entries = n; readback<huge_entry>(p, info, n, [](uint64_t k, const huge_entry& e) { return e.id == k; }, r); return 0; }, Limits{20000000, 100});
	if(!violated()) need_success(ex, "reading a table beyond 4 GiB");
}
void run(const Plan& p) { switch(p.get("type")) { case 0: go<phase1::tmp_entry_1>(p); break; case 1: go<phase1::tmp_entry_x>(p); break; case 2: go<phase1::entry_7>(p); break; default: go_huge(p); } }
struct Reg { Reg() { World w; w.name = "table"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
