// External sort alone: every entry type of the plotter over the full width of its fields,
// several producers, chosen key distributions, slow consumers.
#include "common.h"
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/DiskSort.hpp>
#include <thread>
#include <chrono>
#include <tuple>
using namespace w;
namespace {
const char* TA = "/sim/a/";
#ifdef CHIA_K34
constexpr int YB = 40, XB = 34, PB = 35, KB = 35, F7B = 34, LPB = 67;
#else
constexpr int YB = 38, XB = 32, PB = 32, KB = 32, F7B = 32, LPB = 63;
#endif
typedef unsigned __int128 u128;
u128 rnd(Rng& r, int bits) { u128 v = ((u128)r.next() << 64 | r.next()); u128 m = ((u128)1 << bits) - 1; double x = r.unit(); return x < 0.02 ? m : x < 0.03 ? 0 : v & m; }
// key distribution: 0 uniform, 1 all equal, 2 few values, 3 low end, 4 high end, 5 one bucket, 6 sequential
struct Keys { int mode, bits, lb; u128 base; u128 n; uint64_t i = 0;
	u128 draw(Rng& r) { u128 m = ((u128)1 << bits) - 1; switch(mode) { case 1: return base & m; case 2: return ((u128)(r.below(3)) << (bits - 2) | (base & 7)) & m; case 3: return rnd(r, std::min(bits, 10)); case 4: return m - rnd(r, std::min(bits, 10)); case 5: return ((base >> (bits - lb)) << (bits - lb) | rnd(r, bits - lb)) & m; case 6: return (base + i++) & m; default: return rnd(r, bits); } } };
template<class T> struct Tr;
typedef std::tuple<u128, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t> V;    // key, then the other fields
template<> struct Tr<phase1::DiskSort1> { typedef phase1::entry_1 E; static constexpr int bits = YB; static E make(Rng& r, u128 k) { E e; e.y = (uint64_t)k; e.x = (uintkx_t)rnd(r, XB); return e; } static V val(const E& e) { return V(e.y, e.x, 0, 0, 0, 0); } };
template<class E_> struct TrX { typedef E_ E; static constexpr int bits = YB; static E make(Rng& r, u128 k) { E e; e.y = (uint64_t)k; e.pos = (uintkx_t)rnd(r, PB); e.off = (uint16_t)rnd(r, 10); for(auto& b : e.meta) b = (uint8_t)r.next(); return e; } static V val(const E& e) { uint64_t m[3] = {}; memcpy(m, e.meta.data(), std::min<size_t>(24, e.meta.size())); return V(e.y, e.pos, e.off, m[0], m[1], m[2]); } };
template<> struct Tr<phase1::DiskSort2> : TrX<phase1::entry_2> {};
template<> struct Tr<phase1::DiskSort3> : TrX<phase1::entry_3> {};
template<> struct Tr<phase1::DiskSort5> : TrX<phase1::entry_5> {};
template<> struct Tr<phase1::DiskSort7> { typedef phase1::entry_7 E; static constexpr int bits = F7B; static E make(Rng& r, u128 k) { E e; e.y = (uintkx_t)k; e.pos = (uintkx_t)rnd(r, PB); e.off = (uint16_t)rnd(r, 10); return e; } static V val(const E& e) { return V(e.y, e.pos, e.off, 0, 0, 0); } };
template<> struct Tr<phase2::DiskSortT> { typedef phase2::entry_x E; static constexpr int bits = PB; static E make(Rng& r, u128 k) { E e; e.pos = (uintkx_t)k; e.key = (uintkx_t)rnd(r, KB); e.off = (uint16_t)rnd(r, 10); return e; } static V val(const E& e) { return V(e.pos, e.key, e.off, 0, 0, 0); } };
template<> struct Tr<phase3::DiskSortLP> { typedef phase3::entry_lp E; static constexpr int bits = LPB; static E make(Rng& r, u128 k) { E e; e.point = (uintlp_t)k; e.key = (uintkx_t)rnd(r, KB); return e; } static V val(const E& e) { return V(e.point, e.key, 0, 0, 0, 0); } };
template<> struct Tr<phase3::DiskSortNP> { typedef phase3::entry_np E; static constexpr int bits = KB; static E make(Rng& r, u128 k) { E e; e.key = (uintkx_t)k; e.pos = (uintkx_t)rnd(r, PB); return e; } static V val(const E& e) { return V(e.key, e.pos, 0, 0, 0, 0); } };

void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 3000);
	p.p["type"] = r.below(8); p.p["lb"] = r.chance(0.8) ? r.range(1, 5) : r.range(6, 8); p.p["mode"] = r.chance(0.4) ? 0 : r.below(7); p.p["kred"] = r.chance(0.5) ? 0 : r.below(12);
	p.p["n"] = r.chance(0.04) ? 0 : r.chance(0.05) ? r.range(1, 3) : (int64_t)r.log_uniform(4, 6000);
	p.p["prod"] = r.chance(0.3) ? 1 : r.range(2, 5); p.p["rt"] = r.chance(0.85) ? r.range(1, 6) : r.range(7, 16); p.p["rrt"] = r.chance(0.6) ? -1 : r.range(1, 5);
	p.p["rc"] = r.log_uniform(1, 2000); p.p["wc"] = r.log_uniform(1, 500); p.p["cons"] = r.below(2); p.p["slow"] = r.chance(0.3); p.p["keep"] = r.chance(0.25); p.p["fseed"] = r.next() >> 8; p.p["direct"] = r.chance(0.3);
	p.p["lat"] = r.chance(0.3) ? (int64_t)r.log_uniform(20, 5000) : 0; p.p["lat_max"] = 3000000;
	if((p.prop == "C04" || p.prop == "C07") && r.chance(0.02)) { p.p["lb"] = r.range(9, 12); p.p["wc"] = r.range(1, 8); p.p["prod"] = r.range(1, 3); p.p["rt"] = r.range(1, 6); p.p["rlim_soft"] = p.p["rlim_hard"] = 8192; }      // more buckets than fit in a byte
	if(p.prop == "C04" && r.chance(0.02)) { p.p["n"] = r.log_uniform(66000, 300000); p.p["lb"] = r.range(1, 4); p.p["agap"] = 3000000; p.p["rc"] = r.log_uniform(500, 70000); p.p["wc"] = r.log_uniform(100, 5000); p.p["lat"] = 0; p.p["slow"] = 0; if(r.chance(0.5)) p.p["mode"] = 5; }
	if(p.prop == "C19") { p.p["rt"] = r.range(1, 3); p.p["rrt"] = r.chance(0.5) ? -1 : r.range(1, 3); p.p["lb"] = r.range(5, 7); p.p["n"] = r.range(1000, 4000); p.p["mode"] = 0; p.p["keep"] = 0; p.p["cons"] = 0; p.p["rc"] = std::max<int64_t>(8, p.p["rc"]); }
	if(p.prop == "C09" || p.prop == "C08") {
		p.p["n"] = r.log_uniform(50, 3000); double nb = 1 << p.p["lb"];
		Fault f; double x = r.unit();
		if(x < 0.2) { f.op = OP_THREAD; f.cls = "thread"; f.nth = 1 + r.below(1 + 2 * p.p["rt"] + p.p["prod"]); f.err = EAGAIN; }
		else if(x < 0.3) { f.op = OP_ALLOC; f.cls = "alloc"; f.nth = r.log_uniform(1, 4000); f.err = ENOMEM; }
		else { f.op = r.pick(std::vector<int>{OP_OPEN, OP_READ, OP_READ, OP_WRITE, OP_WRITE, OP_CLOSE, OP_UNLINK}); f.cls = "*"; f.nth = f.op == OP_WRITE || f.op == OP_READ ? r.log_uniform(1, 1 + p.p["n"] / (f.op == OP_WRITE ? p.p["wc"] : p.p["rc"]) + nb) : 1 + r.below(2 * nb); f.err = f.op == OP_WRITE ? ENOSPC : EIO; f.sticky = r.chance(0.5) ? STICKY_ONCE : STICKY_MOUNT; if(f.op == OP_WRITE && r.chance(0.5)) f.frac = r.below(1000); if(f.op == OP_CLOSE) { f.sticky = STICKY_ONCE; f.lose = r.chance(0.6); } }
		p.faults.push_back(f);
	}
}
template<class D> void go(const Plan& p) {
	typedef Tr<D> X; typedef typename X::E E; fs::mount(TA);
	int lb = p.get("lb"); int bits = std::max<int>(X::bits - (int)p.get("kred"), 2 * lb); uint64_t n = p.get("n"); int prod = p.get("prod");
	Rng r(p.get("fseed")); Keys ks{(int)p.get("mode"), bits, lb, rnd(r, bits), n};
	std::vector<std::vector<E>> in(prod); std::vector<V> want;
	for(uint64_t i = 0; i < n; ++i) { E e = X::make(r, ks.draw(r)); in[r.below(prod)].push_back(e); want.push_back(X::val(e)); }
	std::sort(want.begin(), want.end());
	std::vector<uint64_t> slow; for(int i = 0; i < 64; ++i) slow.push_back(p.get("slow") && r.chance(0.5) ? r.log_uniform(1000, 3000000) : 0);
	bool faults = p.prop == "C08" || p.prop == "C09"; uint64_t stalled = ~0ull, blocks_taken = 0; (void)blocks_taken;
	Exit ex = exec(p, [&]() -> int {
		g_read_chunk_size = p.get("rc"); g_write_chunk_size = p.get("wc");
		typedef std::pair<std::vector<E>, size_t> Block;
		auto check = [&](std::vector<V>& got, uint64_t bad_off, const char* what) {
			Quiet q; if(p.prop == "C09") return;
			if(bad_off != ~0ull) { violation("offset", std::string(what) + "a block starting at entry " + S(got.size() ? (long long)bad_off : 0) + " was given another position"); return; }
			if(got.size() != n) { violation("count", std::string(what) + S(got.size()) + " entries out, " + S(n) + " in"); return; }
			for(size_t i = 1; i < got.size(); ++i) if(std::get<0>(got[i]) < std::get<0>(got[i - 1])) { violation("order", std::string(what) + "entry " + S(i) + " has a smaller key than the one before"); return; }
			std::vector<V> s = got; std::sort(s.begin(), s.end()); for(size_t i = 0; i < n; ++i) if(s[i] != want[i]) { violation("content", std::string(what) + "the entries handed out are not the ones added"); return; }
		};
		auto readback = [&](D& d, const char* what) {
			std::vector<V> got; uint64_t bad = ~0ull, blk = 0;
			auto take = [&](Block& b) {
				uint64_t ns; { Quiet q; ns = slow[blk++ % slow.size()]; if(b.second != got.size() && bad == ~0ull) bad = got.size(); for(auto& e : b.first) got.push_back(X::val(e)); }
				if(p.prop == "C19" && blk == 1) { std::this_thread::sleep_for(std::chrono::seconds(5)); Quiet q; stalled = fs::list(TA).size(); }
				else if(ns) std::this_thread::sleep_for(std::chrono::nanoseconds(ns));
			};
			if(p.get("cons") == 0) { Thread<Block> th([&](Block& b) { take(b); }); d.read(&th, p.get("rt"), p.get("rrt")); th.close(); }
			else { Thread<Block> sink([&](Block& b) { take(b); }); ThreadPool<Block, Block> pool([](Block& i, Block& o, size_t&) { o = std::move(i); }, &sink, 3); d.read(&pool, p.get("rt"), p.get("rrt")); pool.close(); sink.close(); }
			check(got, bad, what);
		};
		const std::string prefix = std::string(TA) + "x.t1";
		{
			D d(bits, lb, prefix); if(p.get("keep")) d.set_keep_files(true);
			{
				std::vector<std::thread> th;
				for(int t = 1; t < prod; ++t) th.emplace_back([&, t] { auto c = d.add_cache(); for(auto& e : in[t]) c->add(e); });
				if(p.get("direct")) for(auto& e : in[0]) d.add(e); else { auto c = d.add_cache(); for(auto& e : in[0]) c->add(e); c->flush(); }
				for(auto& t : th) t.join();
			}
			d.finish();
			readback(d, "");
			if(p.prop == "C19") { uint64_t total = 1ull << lb, rrt = p.get("rrt") < 0 ? std::max<int64_t>(p.get("rt") / 2, 2) : p.get("rrt"), max = 4 * (p.get("rt") + rrt) + 4; if(stalled != ~0ull && total - stalled > max && n > 500) violation("unbounded", S(total - stalled) + " of " + S(total) + " buckets were read in while the consumer had not finished its first block"); }
		}
		if(p.get("keep") && !violated() && !faults) { D d(bits, lb, prefix, true); readback(d, "read-only: "); }
		return 0;
	}, Limits{20000000, 60});
	if(faults) { if(p.prop == "C09" && hung(ex)) violation(std::string("hang.") + end_names[ex.kind], "after an injected failure the sort does not end: " + ending(ex)); return; }
	if(!violated()) need_success(ex, "sorting without faults");
}
void run(const Plan& p) {
	switch(p.get("type")) { case 0: go<phase1::DiskSort1>(p); break; case 1: go<phase1::DiskSort2>(p); break; case 2: go<phase1::DiskSort3>(p); break; case 3: go<phase1::DiskSort5>(p); break; case 4: go<phase1::DiskSort7>(p); break; case 5: go<phase2::DiskSortT>(p); break; case 6: go<phase3::DiskSortLP>(p); break; default: go<phase3::DiskSortNP>(p); }
}
struct Reg { Reg() { World w; w.name = "sort"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
