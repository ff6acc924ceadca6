// Phase 1 at the field widths of real plots (any k up to KMAX): one table step - sort, slice,
// match, evaluate, sort - on a sparse left table whose y values lie anywhere in the range,
// and the F1 block function and the matcher at positions a whole small plot never reaches.
#include "common.h"
#include "chia/phase1.hpp"
#include <chia/DiskSort.hpp>
#include <thread>
#include <mutex>
#include <memory>
using namespace w; using namespace phase1;
namespace {
const char* TA = "/sim/a/"; const char* TB = "/sim/b/";
const uint64_t BC = 119 * 127;
struct LE { uint64_t y, id1, id2; ref::BitS meta; };            // id1,id2: x or (pos,off)
void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 4000); auto& q = p.p;
	q["kind"] = r.chance(0.12) ? 1 : 0; q["k"] = r.chance(0.5) ? KMAX : r.range(16, KMAX); q["t"] = r.range(2, 7); q["lb"] = r.chance(0.8) ? r.range(1, 5) : r.range(6, 8);
	q["r"] = r.chance(0.85) ? r.range(1, 6) : r.range(7, 16); q["rc"] = r.log_uniform(8, 2000); q["wc"] = r.log_uniform(2, 500); q["prod"] = r.range(1, 3);
	q["runs"] = r.chance(0.1) ? 1 : r.range(2, 24); q["dens"] = r.log_uniform(2, 300); q["fseed"] = r.next() >> 8; q["lat"] = r.chance(0.2) ? (int64_t)r.log_uniform(20, 5000) : 0; q["lat_max"] = 3000000;
	q["pmode"] = r.below(4);
	if(p.prop == "C03" || r.chance(0.1)) { q["kind"] = 2; q["k1"] = r.chance(0.6) ? 17 : r.chance(0.8) ? 18 : 19; q["r"] = r.chance(0.6) ? r.range(1, 8) : r.range(9, 32); q["r_b"] = r.chance(0.6) ? r.range(1, 8) : r.range(9, 32); }
}
std::vector<uint64_t> make_ys(Rng& r, const Plan& p) {
	const int k = p.get("k"), lb = p.get("lb"); const uint64_t Y = 1ull << (k + 6), NB = Y / BC + 1; std::vector<uint64_t> ys; size_t cap = 2500;
	for(int i = 0; i < p.get("runs") && ys.size() < cap; ++i) {
		uint64_t g; double x = r.unit(); int len = r.range(1, 6);
		if(x < 0.12) g = 0; else if(x < 0.3) g = NB - std::min<uint64_t>(NB, 1 + r.below(6)); else if(x < 0.6) { uint64_t c = (r.below(1ull << lb)) << (k + 6 - lb); g = c / BC; g -= std::min<uint64_t>(g, r.below(3)); } else g = r.below(NB);
		std::vector<uint64_t> prev;
		for(int j = 0; j < len && (g + j) < NB; ++j) {
			std::vector<uint64_t> cur; int n = r.chance(0.08) ? 0 : (int)(1 + r.below(p.get("dens")));
			for(int q = 0; q < n; ++q) {
				uint64_t y = (g + j) * BC + r.below(BC);
				if(!prev.empty() && r.chance(0.6)) { uint64_t l = prev[r.below(prev.size())], m = r.below(64), e = l % BC, par = (l / BC) % 2; y = (g + j) * BC + ((e / 127 + m) % 119) * 127 + ((2 * m + par) * (2 * m + par) + e % 127) % 127; }
				else if(!cur.empty() && r.chance(0.1)) y = cur[r.below(cur.size())];
				if(y < Y) cur.push_back(y);
			}
			ys.insert(ys.end(), cur.begin(), cur.end()); prev = cur;
		}
	}
	// the slicer takes for granted that the first bucket has entries (236 on average in a real table)
	bool b0 = false, b1 = false; for(uint64_t y : ys) { b0 |= y < BC; b1 |= y / BC == 1; } if(b1 && !b0) ys.push_back(r.below(BC));
	return ys;
}
ref::BitS rndbits(Rng& r, size_t n) { ref::BitS b; while(b.n < n) { int q = (int)std::min<size_t>(32, n - b.n); b.put(r.next() & ((1ull << q) - 1), q); } return b; }
template<class M> void to_meta(const ref::BitS& b, M& m) { memset(m.data(), 0, m.size()); memcpy(m.data(), b.b.data(), std::min(b.b.size(), m.size())); }
template<class M> bool same_meta(const ref::BitS& b, const M& m) { for(size_t i = 0; i < b.n; ++i) if(((b.b[i / 8] ^ m[i / 8]) >> (7 - i % 8)) & 1) return false; return true; }
void make(entry_1& e, const LE& l) { e.y = l.y; e.x = (uintkx_t)l.id1; }
template<int N> void make(entry_xm<N>& e, const LE& l) { e.y = l.y; e.pos = (uintkx_t)l.id1; e.off = (uint16_t)l.id2; to_meta(l.meta, e.meta); }
std::pair<uint64_t, uint64_t> ident(const tmp_entry_1& e) { return {e.x, 0}; }
std::pair<uint64_t, uint64_t> ident(const tmp_entry_x& e) { return {e.pos, e.off}; }
template<int N> bool meta_ok(const entry_xm<N>& e, const ref::BitS& b) { return same_meta(b, e.meta); }
bool meta_ok(const entry_7&, const ref::BitS&) { return true; }
template<class E> struct Sink { std::vector<E> v; bool bad = false; void take(std::pair<std::vector<E>, size_t>& in) { Quiet q; if(in.second != v.size()) bad = true; v.insert(v.end(), in.first.begin(), in.first.end()); } };

template<class T, class ER, class R, class DL, class DR> void table(const Plan& p, int t) {
	const int k = p.get("k"), lb = p.get("lb"), nt = p.get("r"), prod = p.get("prod"); Rng r(p.get("fseed")); fs::mount(TA); fs::mount(TB);
	ref::Id id; for(auto& c : id) c = (uint8_t)r.next();
	std::vector<LE> L; std::map<std::pair<uint64_t, uint64_t>, size_t> who; const int PB = PMAX; std::vector<uint64_t> f1x;
	for(uint64_t y : make_ys(r, p)) {
		LE e; e.y = y;
		do { if(t == 2) { e.id1 = r.next() >> (64 - k); e.id2 = 0; } else { e.id1 = r.chance(0.05) ? (1ull << PB) - 1 - r.below(50) : r.next() >> (64 - PB); e.id2 = r.next() >> 54; } } while(who.count({e.id1, e.id2}));
		if(t == 2) e.meta.put(e.id1, k); else e.meta = rndbits(r, (size_t)ref::meta_len(t - 1) * k);
		who[{e.id1, e.id2}] = L.size(); L.push_back(e);
	}
	if(t == 2) for(int i = 0; i < 6; ++i) { uint64_t x = (i == 0 ? (1ull << k) - 16 : i == 1 ? 0 : (r.next() >> (64 - k)) & ~15ull); f1x.push_back(x); }
	std::vector<std::vector<size_t>> give(prod); for(size_t i = 0; i < L.size(); ++i) give[r.below(prod)].push_back(i);
	for(auto& g : give) for(size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r.below(i)]);
	auto fail = [&](const char* c, const std::string& s) { violation(c, "table " + S(t) + " at k " + S(k) + ": " + s); };
	Exit ex = exec(p, [&]() -> int {
		g_read_chunk_size = p.get("rc"); g_write_chunk_size = p.get("wc"); initialize();
		if(t == 2) {
			F1Calculator F(k, id.data());
			for(uint64_t x0 : f1x) { entry_1 b[16]; F.compute_block(x0, 16, b); Quiet q; for(int i = 0; i < 16; ++i) if(b[i].x != x0 + i || b[i].y != ref::f1(k, id, x0 + i)) { fail("f1", "F1(" + S(x0 + i) + ") is wrong"); return 0; } }
		}
		DL ls(k + kExtraBits, lb, std::string(TB) + "x.tl");
		{
			auto add = [&](int n) { auto c = ls.add_cache(); for(size_t i : give[n]) { T e; make(e, L[i]); c->add(e); } };
			std::vector<std::thread> th; for(int i = 1; i < prod; ++i) th.emplace_back(add, i); add(0); for(auto& x : th) x.join();
		}
		ls.finish();
		DiskTable<R> lt(std::string(TA) + "l.tmp"); std::shared_ptr<DR> rs; std::shared_ptr<DiskTable<ER>> rt; Sink<ER> out; Sink<R> left;
		if(t < 7) rs = std::make_shared<DR>(k + kExtraBits, lb, std::string(TB) + "x.tr"); else rt = std::make_shared<DiskTable<ER>>(std::string(TB) + "r.tmp");
		uint64_t n = compute_table<T, ER, R, DL, DR>(t, k, nt, &ls, rs.get(), &lt, rt.get());
		auto info = lt.get_info(); if(info.num_entries) { Thread<std::pair<std::vector<R>, size_t>> th([&](std::pair<std::vector<R>, size_t>& x) { left.take(x); }); DiskTable<R> in(info); in.read(&th, 2); th.close(); }
		{
			Thread<std::pair<std::vector<ER>, size_t>> th([&](std::pair<std::vector<ER>, size_t>& x) { out.take(x); });
			if(rs) rs->read(&th, nt); else { auto i = rt->get_info(); if(i.num_entries) { DiskTable<ER> in(i); in.read(&th, 2); } }
			th.close();
		}
		Quiet q; if(left.v.size() != L.size() || left.bad || out.bad) { fail("left-table", "stored left table has " + S(left.v.size()) + " entries, expected " + S(L.size())); return 0; }
		std::vector<uint64_t> ys; std::vector<size_t> at; std::set<size_t> seen;
		for(auto& e : left.v) { auto i = who.find(ident(e)); if(i == who.end() || !seen.insert(i->second).second) { fail("left-table", "an entry of the stored left table is not one that was put in"); return 0; } at.push_back(i->second); ys.push_back(L[i->second].y); }
		for(size_t i = 1; i < ys.size(); ++i) if(ys[i] < ys[i - 1]) { fail("left-table", "stored left table is not in order of y"); return 0; }
		auto want = ref::matches(ys); if(want.size() > 50) probe("wide1_matches", want.size());
		if(n != want.size() || out.v.size() != want.size()) { fail("matches", S(out.v.size()) + " entries (" + S(n) + " reported), the definition has " + S(want.size())); return 0; }
		std::map<std::pair<uint64_t, uint64_t>, size_t> idx; for(size_t i = 0; i < out.v.size(); ++i) { idx[{out.v[i].pos, out.v[i].off}] = i; if(i && t < 7 && out.v[i].y < out.v[i - 1].y) { fail("order", "result is not in order of y"); return 0; } }
		for(auto& m : want) {
			auto i = idx.find({m.first, m.second - m.first}); if(i == idx.end()) { fail("matches", "match of entries " + S(m.first) + " and " + S(m.second) + " is missing"); return 0; }
			const ER& e = out.v[i->second]; uint64_t y; ref::BitS meta; ref::fx(t, k, ys[m.first], L[at[m.first]].meta, L[at[m.second]].meta, y, meta);
			if(e.y != y) { fail("f", "wrong output value for entries " + S(m.first) + " and " + S(m.second)); return 0; }
			if(!meta_ok(e, meta)) { fail("meta", "wrong metadata for entries " + S(m.first) + " and " + S(m.second)); return 0; }
		}
		return 0;
	}, Limits{20000000, 60});
	if(!violated()) need_success(ex, "computing a table");
}
// matches at left positions around 2^32 and the largest one that fits
void matcher(const Plan& p) {
	Rng r(p.get("fseed")); const int k = p.get("k"); const uint64_t NB = (1ull << (k + 6)) / BC; const uint64_t g = r.below(NB - 2); std::vector<uint64_t> ys;
	int nl = r.range(1, 250), nr = r.range(1, 250); for(int i = 0; i < nl; ++i) ys.push_back(g * BC + r.below(BC)); for(int i = 0; i < nr; ++i) { uint64_t l = ys[r.below(nl)], m = r.below(64), e = l % BC, par = g % 2; ys.push_back((g + 1) * BC + ((e / 127 + m) % 119) * 127 + ((2 * m + par) * (2 * m + par) + e % 127) % 127); }
	std::sort(ys.begin(), ys.end()); const uint64_t top = 1ull << PMAX; uint64_t begin;
	switch(p.get("pmode")) { case 0: begin = top - 1 - r.below(nl + 2); break; case 1: begin = top + r.below(3); break; case 2: begin = (1ull << 32) - 1 - r.below(nl + 2); break; default: begin = r.next() >> (64 - PMAX); }
	auto want = ref::matches(ys); fs::mount(TA);
	Exit ex = exec(p, [&]() -> int {
		initialize(); FxMatcher<entry_2> F; std::vector<entry_2> a, b; for(int i = 0; i < nl + nr; ++i) { entry_2 e = {}; e.y = ys[i]; e.pos = i; (i < nl ? a : b).push_back(e); }
		std::vector<match_t<entry_2>> out; const int n = F.find_matches(begin, a, b, out); Quiet q;
		if(n != (int)want.size()) { violation("matches", S(n) + " matches found, the definition has " + S(want.size())); return 0; }
		std::multiset<std::pair<uint64_t, uint64_t>> w, h; for(auto& m : want) if(begin + m.first < top) w.insert({begin + m.first, m.second - m.first}); for(auto& m : out) h.insert({m.pos, m.off});
		if(w != h) { violation("positions", "matches of a left bucket at position " + S(begin) + " have wrong positions or offsets (or do not end at the largest position)"); return 0; }
		for(auto& m : out) if(m.left.pos != m.pos - begin || m.right.pos != m.pos - begin + m.off) { violation("positions", "a match names other entries than it holds"); return 0; }
		return 0;
	}, Limits{3000000, 30});
	if(!violated()) need_success(ex, "matching");
}
// all of table 1 (several blocks, so that the pool really works in parallel) into a sort that only records
struct Record {
	struct WriteCache { std::vector<entry_1> v; void add(const entry_1& e) { v.push_back(e); } };
	std::mutex m; std::vector<std::shared_ptr<WriteCache>> c; bool finished = false;
	std::shared_ptr<WriteCache> add_cache() { std::lock_guard<std::mutex> l(m); c.push_back(std::make_shared<WriteCache>()); return c.back(); }
	void finish() { finished = true; }
};
void table1(const Plan& p) {
	const int k = p.get("k1"); Rng r(p.get("fseed")); ref::Id id; for(auto& c : id) c = (uint8_t)r.next(); std::vector<uint64_t> smp; for(int i = 0; i < 200; ++i) smp.push_back(r.below(1ull << k)); smp.push_back(0); smp.push_back((1ull << k) - 1);
	const bool two = p.prop == "C03"; const uint64_t N = 1ull << k; fs::mount(TA);
	Exit ex = exec(p, [&]() -> int {
		std::vector<uint64_t> y1;
		for(int i = 0; i < (two ? 2 : 1); ++i) {
			Record s; const int nt = p.get(i ? "r_b" : "r"); compute_f1(id.data(), k, nt, &s);
			Quiet q; std::vector<uint64_t> y(N, ~0ull); uint64_t n = 0, out = 0, twice = 0; for(auto& c : s.c) for(auto& e : c->v) { ++n; if(e.x >= N) ++out; else { if(y[e.x] != ~0ull) ++twice; y[e.x] = e.y; } }
			if(two) { if(i && (y != y1)) { violation("table1-differs", "table 1 at k " + S(k) + " differs between " + S(p.get("r")) + " and " + S(nt) + " threads"); return 0; } y1 = y; y1.swap(y); continue; }
			if(n != N || out || twice) { violation("table1", "table 1 at k " + S(k) + " with " + S(nt) + " threads has " + S(n) + " entries (" + S(twice) + " twice, " + S(out) + " out of range), expected " + S(N)); return 0; }
			for(uint64_t x : smp) if(y[x] != ref::f1(k, id, x)) { violation("f1", "F1(" + S(x) + ") is wrong at k " + S(k)); return 0; }
			if(!s.finished) { violation("table1", "the sort of table 1 was not finished"); return 0; }
		}
		return 0;
	}, Limits{20000000, 60});
	if(!violated()) need_success(ex, "computing table 1");
}
void run(const Plan& p) {
	if(p.get("kind") == 1) { matcher(p); return; }
	if(p.get("kind") == 2) { table1(p); return; }
	switch(p.get("t")) {
	case 2: table<entry_1, entry_2, tmp_entry_1, DiskSort1, DiskSort2>(p, 2); break;
	case 3: table<entry_2, entry_3, tmp_entry_x, DiskSort2, DiskSort3>(p, 3); break;
	case 4: table<entry_3, entry_4, tmp_entry_x, DiskSort3, DiskSort4>(p, 4); break;
	case 5: table<entry_4, entry_5, tmp_entry_x, DiskSort4, DiskSort5>(p, 5); break;
	case 6: table<entry_5, entry_6, tmp_entry_x, DiskSort5, DiskSort6>(p, 6); break;
	default: table<entry_6, entry_7, tmp_entry_x, DiskSort6, DiskSort7>(p, 7);
	}
}
struct Reg { Reg() { World w; w.name = "wide1"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
