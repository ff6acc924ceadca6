// Phase 3 stage 1 at the field widths of real plots (any k up to KMAX): new positions, sort keys
// and x values anywhere in their range are merged into line points.
#include "common.h"
#include "chia/phase1.hpp"
#include "chia/phase2.hpp"
#include "chia/phase3.hpp"
#include <chia/DiskTable.h>
#include <chia/DiskSort.hpp>
#include <thread>
using namespace w; using namespace phase3;
namespace {
const char* TA = "/sim/a/"; const char* TB = "/sim/b/";
struct RE { uint64_t key, pos; uint16_t off; };
void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 4000); auto& q = p.p;
	q["k"] = r.chance(0.6) ? KMAX : r.range(16, KMAX); q["t"] = r.below(3); q["lb"] = r.chance(0.8) ? r.range(1, 4) : r.range(5, 7); q["rb"] = r.range(1, 5);
	q["r"] = r.chance(0.85) ? r.range(1, 9) : r.range(10, 20); q["rc"] = r.log_uniform(8, 2000); q["wc"] = r.log_uniform(2, 500);
	q["nl"] = r.log_uniform(2, 2500); q["nr"] = r.log_uniform(1, 2500); q["omode"] = r.below(3); q["keep"] = r.chance(0.2) ? 100 : r.range(30, 99);
	q["fseed"] = r.next() >> 8; q["lat"] = r.chance(0.25) ? (int64_t)r.log_uniform(20, 5000) : 0; q["lat_max"] = 3000000;
}
uint64_t wide(Rng& r, int bits) { uint64_t top = (1ull << bits) - 1; double x = r.unit(); return x < 0.1 ? top - r.below(100) : x < 0.15 ? r.below(100) : x < 0.25 ? (top >> 1) - 50 + r.below(100) : r.next() >> (64 - bits); }
typedef unsigned __int128 u128;
u128 lp(uint64_t a, uint64_t b) { if(a < b) std::swap(a, b); u128 x = a; u128 s = a % 2 ? x * ((x - 1) / 2) : (x / 2) * (x - 1); return s + b; }
template<class E> void put(const std::string& file, const std::vector<E>& v, table_t& t) { std::vector<uint8_t> b(v.size() * E::disk_size + 16); for(size_t i = 0; i < v.size(); ++i) v[i].write(&b[i * E::disk_size]); fs::write_file(file, b.data(), v.size() * E::disk_size); t.file_name = file; t.num_entries = v.size(); }
void run(const Plan& p) {
	Rng r(p.get("fseed")); fs::mount(TA); fs::mount(TB); const int k = p.get("k"), t = p.get("t"), lb = p.get("lb"), rb = p.get("rb"), nt = p.get("r"); const uint64_t nl = p.get("nl"), nr = p.get("nr");
	// left side: the kept entries, in order, and the number each one gets
	std::vector<uint64_t> all, np; std::vector<char> used; std::set<uint64_t> su;
	while(np.size() < nl) { uint64_t v; do v = wide(r, k); while(!su.insert(v).second); bool keep = t != 0 || (int)r.below(100) < p.get("keep"); all.push_back(v); used.push_back(keep); if(keep) np.push_back(v); }
	std::vector<RE> R; std::set<std::pair<uint64_t, uint64_t>> seen; std::set<uint64_t> keys;
	for(uint64_t i = 0; i < nr; ++i) {
		RE e; e.pos = r.below(nl - 1); uint64_t m = std::min<uint64_t>(1023, nl - 1 - e.pos), w = p.get("omode") == 0 ? std::min<uint64_t>(m, 60) : m; e.off = 1 + r.below(w); if(p.get("omode") == 2 && r.chance(0.3)) e.off = m;
		if(!seen.insert({e.pos, e.off}).second) continue;
		do e.key = wide(r, k); while(!keys.insert(e.key).second); R.push_back(e);
	}
	std::map<uint64_t, size_t> by; for(size_t i = 0; i < R.size(); ++i) by[R[i].key] = i;
	std::vector<RE> RS = R; std::stable_sort(RS.begin(), RS.end(), [](const RE& a, const RE& b) { return a.pos < b.pos; });
	for(size_t i = R.size(); i > 1; --i) std::swap(R[i - 1], R[r.below(i)]);
	by.clear(); for(size_t i = 0; i < R.size(); ++i) by[R[i].key] = i;
	std::set<uint64_t> lk; while(lk.size() < nl) lk.insert(wide(r, k)); std::vector<uint64_t> lkeys(lk.begin(), lk.end()); std::vector<size_t> lorder(nl); for(size_t i = 0; i < nl; ++i) lorder[i] = i; for(size_t i = nl; i > 1; --i) std::swap(lorder[i - 1], lorder[r.below(i)]);
	table_t lt, rt;
	if(t == 0) { std::vector<phase2::entry_1> v(all.size()); for(size_t i = 0; i < all.size(); ++i) v[i].x = all[i]; put(std::string(TA) + "l.tmp", v, lt); }
	if(t == 2) { std::vector<phase2::entry_7> v(RS.size()); for(size_t i = 0; i < RS.size(); ++i) { v[i].y = RS[i].key; v[i].pos = RS[i].pos; v[i].off = RS[i].off; } put(std::string(TA) + "r.tmp", v, rt); }
	int pb = 1; while((1ull << pb) < nl) ++pb;
	auto fail = [&](const char* c, const std::string& s) { if(p.prop != "C07") violation(c, "merge of kind " + S(t) + " at k " + S(k) + ": " + s); };
	Exit ex = exec(p, [&]() -> int {
		g_read_chunk_size = p.get("rc"); g_write_chunk_size = p.get("wc");
		DiskSortNP ls(k, lb, std::string(TB) + "x.l"); phase2::DiskSortT rs(std::max(pb, 2 * rb), rb, std::string(TB) + "x.r"); DiskSortLP out(2 * k - 1, lb, std::string(TB) + "x.o"); bitfield bf(std::max<size_t>(all.size(), 1));
		if(t != 0) { auto c = ls.add_cache(); for(size_t i : lorder) { entry_np e; e.key = lkeys[i]; e.pos = np[i]; c->add(e); } }
		if(t != 2) { auto c = rs.add_cache(); for(auto& x : R) { phase2::entry_x e; e.key = x.key; e.pos = x.pos; e.off = x.off; c->add(e); } }
		ls.finish(); rs.finish();
		if(t == 0) {
			bf.clear(); for(size_t i = 0; i < all.size(); ++i) if(used[i]) bf.set(i);
			DiskTable<phase2::entry_1> L(lt); compute_stage1<phase2::entry_1, phase2::entry_x, DiskSortNP, phase2::DiskSortT>(1, nt, nullptr, &rs, &out, &L, &bf);
		} else if(t == 1) compute_stage1<entry_np, phase2::entry_x, DiskSortNP, phase2::DiskSortT>(3, nt, &ls, &rs, &out);
		else { DiskTable<phase2::entry_7> T(rt); compute_stage1<entry_np, phase2::entry_7, DiskSortNP, phase2::DiskSort7>(6, nt, &ls, nullptr, &out, nullptr, nullptr, &T); }
		std::vector<entry_lp> v; { Thread<std::pair<std::vector<entry_lp>, size_t>> th([&](std::pair<std::vector<entry_lp>, size_t>& x) { Quiet q; v.insert(v.end(), x.first.begin(), x.first.end()); }); out.read(&th, std::max(1, nt)); th.close(); }
		Quiet q; if(v.size() != R.size()) { fail("count", S(v.size()) + " line points from " + S(R.size()) + " entries"); return 0; }
		std::set<uint64_t> got; if(R.size() > 100) probe("wide3_points", R.size());
		for(size_t i = 0; i < v.size(); ++i) {
			auto j = by.find(v[i].key); if(j == by.end() || !got.insert(v[i].key).second) { fail("key", "a line point carries a sort key that is not one of those given"); return 0; }
			const RE& e = R[j->second]; if((u128)v[i].point != lp(np[e.pos], np[e.pos + e.off])) { fail("line-point", "entry (" + S(e.pos) + ",+" + S(e.off) + ") got another line point than that of " + S(np[e.pos]) + " and " + S(np[e.pos + e.off])); return 0; }
			if(i && v[i].point < v[i - 1].point) { fail("order", "line points are not read back in order"); return 0; }
		}
		return 0;
	}, Limits{20000000, 60});
	if(!violated()) need_success(ex, "merging");
}
struct Reg { Reg() { World w; w.name = "wide3"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
