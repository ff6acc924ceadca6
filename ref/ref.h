// Independent reference: an in-memory plotter written from the definition of the
// construction, and a reader for plot files. Shares no code with /repo.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <array>
#include <functional>

namespace ref {
typedef unsigned __int128 u128;

struct Plot {
	int k = 0;
	std::array<uint8_t, 32> id{};
	std::vector<u128> P[7];                                   // P[1..6]: sorted line points
	std::vector<std::pair<uint64_t, uint64_t>> T7;            // (f7, index into P[6]) sorted
};
typedef std::array<uint8_t, 32> Id;
Id pool_id(int n);
std::string hex(const uint8_t* d, size_t n);
const Plot& get(int k, const Id& id, const std::string& cache_dir);   // memoised
// generic: tables given explicitly (tests of phases 2-4 on synthetic tables)
struct Tables { int k; std::vector<uint64_t> x; std::vector<std::pair<uint64_t, uint64_t>> t[8]; std::vector<uint64_t> f7; };  // t[2..7] = (L,R) positions in table t-1
struct Kept { std::vector<char> used[8]; };
Plot build(const Tables& T, Kept* kept = nullptr);

// ---- the definition itself, one step at a time (any k)
struct BitS { std::vector<uint8_t> b; size_t n = 0; void put(uint64_t v, int bits) { for(int i = bits - 1; i >= 0; --i) bit((v >> i) & 1); } void bit(int x) { if(n % 8 == 0) b.push_back(0); if(x) b[n / 8] |= 0x80 >> (n % 8); ++n; } void cat(const BitS& o) { for(size_t i = 0; i < o.n; ++i) bit((o.b[i / 8] >> (7 - i % 8)) & 1); } };
bool decode_deltas(const uint8_t* p, size_t n, double R, size_t maxn, std::vector<uint8_t>& out);
uint64_t f1(int k, const Id& id, uint64_t x);
std::vector<std::pair<uint32_t, uint32_t>> matches(const std::vector<uint64_t>& ys);      // ys sorted; pairs of indices
void fx(int t, int k, uint64_t yl, const BitS& ml, const BitS& mr, uint64_t& y, BitS& meta);
int meta_len(int t);                                                                       // metadata of table t, in multiples of k bits

struct Parsed {
	Id id{}; int k = 0; std::vector<uint8_t> memo; std::string fmt; uint64_t ptr[11] = {}; uint64_t header_size = 0;
	std::vector<u128> P[7]; std::vector<uint64_t> P7; std::vector<uint64_t> c1, c2, f7; uint64_t end = 0; bool last_c3_empty = false;
};
typedef std::function<std::vector<uint8_t>(uint64_t off, uint64_t len)> Reader;
// Returns "" or what is malformed. n7 = number of table-7 entries if known (0 = take it from the file).
std::string parse(const Reader& rd, uint64_t size, Parsed& out, uint64_t n7 = 0);
// structure only needs the header; tables start at out.ptr[]
std::string parse_tables(const Reader& rd, uint64_t size, Parsed& out, uint64_t n7);
extern uint64_t c2_interval;   // C1 entries per C2 entry
std::string layout_phase4(const Parsed& o, uint64_t n, uint64_t end);   // table pointers for n entries
std::string parse_phase4(const Reader& rd, uint64_t size, Parsed& out, uint64_t n7);
std::string parse_P(const Reader& rd, int k, int t, uint64_t begin, uint64_t end, std::vector<u128>& out);
std::string compare(const Parsed& f, const Plot& r);
uint64_t canonical_hash(const Reader& rd, uint64_t size, const Parsed& p);     // bytes with P7 order inside equal f7 normalised
}
