// Coding and decoding by several threads that share the memo of coding tables, which is empty
// at the start of every run: each sequence and each pair of positions has to come back.
#include "common.h"
#include "chia/chia.h"
#include "chia/encoding.hpp"
#include <thread>
using namespace w;
namespace {
const double RS[7] = {4.7, 2.75, 2.75, 2.7, 2.6, 2.45, 1.0};   // tables 1 to 6, C3 (the format's constants)
void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 1200); auto& q = p.p;
	q["th"] = r.chance(0.1) ? 1 : r.chance(0.85) ? r.range(2, 6) : r.range(7, 12); q["ops"] = r.log_uniform(1, 12); q["rs"] = r.chance(0.5) ? 1 : r.range(2, 7); q["r0"] = r.below(7); q["fseed"] = r.next() >> 8; q["lat"] = 0;
	q["len"] = r.below(4); q["dec"] = r.below(3); q["lp"] = r.log_uniform(1, 200); q["free"] = r.below(3); if(r.chance(0.25)) { q["r0"] = 6; q["rs"] = 1; }
}
std::vector<uint8_t> deltas(Rng& r, int t, int64_t mode) {
	const size_t most = t == 6 ? 9999 : 2047; const unsigned top = t == 6 ? 90 : 254; size_t n;
	switch(mode) { case 0: n = r.range(3, 40); break; case 1: n = r.log_uniform(1, most); break; case 2: n = most - r.below(3); break; default: n = r.range(1, 300); }
	std::vector<uint8_t> v(n); int m = r.below(6); double mean = RS[t]; unsigned one = r.below(top + 1);
	for(auto& d : v) { unsigned x = 0;
		switch(m) { case 0: case 1: x = (unsigned)(-log(1 - r.unit()) * mean); break; case 2: x = r.below(top + 1); break; case 3: x = one; break; case 4: x = r.chance(0.97) ? r.below(3) : top - r.below(3); break; default: x = r.log_uniform(1, top + 1) - 1; }
		d = std::min(x, top); }
	return v;
}
struct Done { int t; std::vector<uint8_t> in, enc; };
void run(const Plan& p) {
	int th = p.get("th"), ops = p.get("ops"); std::vector<std::vector<Done>> done(th); std::string bad, cls;
	Exit e = exec(p, [&]() -> int {
		auto fail = [&](const std::string& c, const std::string& m) { Quiet q; if(cls.empty()) { cls = c; bad = m; } };
		auto work = [&](int w) {
			Rng r(p.get("fseed") + w * 77);
			auto decode = [&](const Done& d) { auto v = Encoding::ANSDecodeDeltas(d.enc.data(), d.enc.size(), (int)d.in.size(), RS[d.t]); Quiet q; if(v != d.in) fail("deltas", S(d.in.size()) + " deltas of table " + S(d.t + 1) + " decode to other values"); };
			for(int i = 0; i < ops; ++i) {
				Done d; { Quiet q; d.t = (p.get("r0") + r.below(p.get("rs"))) % 7; d.in = deltas(r, d.t, p.get("len")); d.enc.resize(d.in.size() * 8 + 64); }
				size_t n = Encoding::ANSEncodeDeltas(d.in, RS[d.t], d.enc.data());
				if(n > d.in.size() * 8) { fail("encode", "coding " + S(d.in.size()) + " deltas of table " + S(d.t + 1) + " gave an error or too long a result"); return; }
				if(!n) { Quiet q; probe("not_compressible"); continue; }       // stored as they are
				{ Quiet q; d.enc.resize(n); }
				if(p.get("dec") == 1 || (p.get("dec") == 2 && r.chance(0.5))) decode(d);
				{ Quiet q; done[w].push_back(d); }
				if(w == 0 && p.get("free") == 1) Encoding::ANSFree(RS[6]);      // as phase 4 does while its workers are still coding
			}
			if(w == 0 && p.get("free")) Encoding::ANSFree(RS[6]);
			for(auto& d : done[w]) decode(d);
			for(int i = 0; i < p.get("lp"); ++i) {
				uint64_t x, y; { Quiet q; int b = r.chance(0.7) ? r.range(16, 40) : r.range(1, 63); uint64_t M = (1ull << b) - 1; auto val = [&]() -> uint64_t { double u = r.unit(); return u < 0.15 ? M - r.below(std::min<uint64_t>(M, 4)) : u < 0.3 ? r.below(4) & M : u < 0.4 ? ((1ull << r.below(b)) - r.below(2)) & M : r.next() & M; }; x = val(); y = val(); if(x == y) y = x ^ 1; }
				ref::u128 lp = Encoding::SquareToLinePoint(x, y); auto s = Encoding::LinePointToSquare(lp); Quiet q; uint64_t a = std::max(x, y), b = std::min(x, y);
				if(s.first != a || s.second != b) fail("line-point", "the line point of " + S(x) + " and " + S(y) + " decodes to " + S(s.first) + " and " + S(s.second));
				if(lp != (ref::u128)a * (a - 1) / 2 + b) fail("line-point", "the line point of " + S(x) + " and " + S(y) + " is not the one the format defines");
			}
		};
		std::vector<std::thread> v; for(int w = 1; w < th; ++w) v.emplace_back(work, w);
		work(0); for(auto& t : v) t.join();
		Quiet q; uint64_t n = 0;
		if(cls.empty()) for(auto& l : done) for(auto& d : l) { ++n; std::vector<uint8_t> o; if(cls.empty() && (!ref::decode_deltas(d.enc.data(), d.enc.size(), RS[d.t], d.in.size(), o) || o != d.in)) { cls = "reader"; bad = S(d.in.size()) + " deltas of table " + S(d.t + 1) + " read differently by an independent reader"; } }
		probe("sequences", n);
		if(!cls.empty()) violation(cls, bad);
		return 0;
	}, Limits{30000000, 60});
	if(!violated()) need_success(e, "coding");
}
void init() { for(double R : RS) { std::vector<uint8_t> o; uint8_t b[8] = {1, 2, 3, 4, 5, 6, 7, 1}; ref::decode_deltas(b, 8, R, 10, o); } }   // builds the reader's tables once
struct Reg { Reg() { World w; w.name = "codec"; w.gen = gen; w.run = run; w.init = init; add_world(w); } } reg;
}
