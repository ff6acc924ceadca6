#include "ref.h"
#include "../stubs/blake3.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <queue>
#include <unistd.h>

namespace ref {
std::string hex(const uint8_t* d, size_t n) { static const char* x = "0123456789abcdef"; std::string s; for(size_t i = 0; i < n; ++i) { s += x[d[i] >> 4]; s += x[d[i] & 15]; } return s; }
Id pool_id(int n) { Id id; uint8_t in[8] = {'v', 'i', 'd', 0, (uint8_t)n, (uint8_t)(n >> 8), 0, 1}; blake3_hasher h; blake3_hasher_init(&h); blake3_hasher_update(&h, in, 8); blake3_hasher_finalize(&h, id.data(), 32); return id; }

// ---------------------------------------------------------------- ChaCha8 keystream
static inline uint32_t rotl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void chacha8_block(const uint8_t key[32], uint64_t ctr, uint8_t out[64]) {
	uint32_t in[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
	memcpy(in + 4, key, 32); in[12] = (uint32_t)ctr; in[13] = (uint32_t)(ctr >> 32); in[14] = in[15] = 0;
	uint32_t x[16]; memcpy(x, in, 64);
	auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7); };
	for(int i = 0; i < 4; ++i) { q(0,4,8,12); q(1,5,9,13); q(2,6,10,14); q(3,7,11,15); q(0,5,10,15); q(1,6,11,12); q(2,7,8,13); q(3,4,9,14); }
	for(int i = 0; i < 16; ++i) x[i] += in[i];
	memcpy(out, x, 64);
}
// ---------------------------------------------------------------- bit strings, most significant bit first
static uint64_t getbits(const uint8_t* p, uint64_t off, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) { uint64_t o = off + i; v = v << 1 | ((p[o / 8] >> (7 - o % 8)) & 1); } return v; }
static u128 getbits128(const uint8_t* p, uint64_t off, int n) { u128 v = 0; for(int i = 0; i < n; ++i) { uint64_t o = off + i; v = v << 1 | ((p[o / 8] >> (7 - o % 8)) & 1); } return v; }

static const uint64_t kB = 119, kC = 127, kBC = kB * kC;

int meta_len(int t) { static const int n[8] = {0, 1, 2, 4, 4, 3, 2, 0}; return n[t]; }
uint64_t f1(int k, const Id& id, uint64_t x) {
	uint8_t key[32]; key[0] = 1; memcpy(key + 1, id.data(), 31);
	uint8_t ks[128]; const uint64_t bit = x * k; chacha8_block(key, bit / 512, ks); chacha8_block(key, bit / 512 + 1, ks + 64);
	return getbits(ks, bit % 512, k) << 6 | x >> (k - 6);
}
std::vector<std::pair<uint32_t, uint32_t>> matches(const std::vector<uint64_t>& ys) {
	std::vector<std::pair<uint32_t, uint32_t>> out; size_t n = ys.size(); std::vector<std::vector<uint32_t>> at(kBC);
	for(size_t l0 = 0; l0 < n;) {
		uint64_t g = ys[l0] / kBC; size_t l1 = l0; while(l1 < n && ys[l1] / kBC == g) ++l1;
		size_t r1 = l1; while(r1 < n && ys[r1] / kBC == g + 1) ++r1;
		if(r1 > l1) {
			for(size_t r = l1; r < r1; ++r) at[ys[r] % kBC].push_back(r);
			for(size_t l = l0; l < l1; ++l) {
				uint64_t i = ys[l] % kBC;
				for(uint64_t m = 0; m < 64; ++m) {
					uint64_t b = (i / kC + m) % kB, c = ((2 * m + g % 2) * (2 * m + g % 2) + i % kC) % kC;
					for(uint32_t r : at[b * kC + c]) out.push_back({(uint32_t)l, r});
				}
			}
			for(size_t r = l1; r < r1; ++r) at[ys[r] % kBC].clear();
		}
		l0 = l1;
	}
	return out;
}
void fx(int t, int k, uint64_t yl, const BitS& ml, const BitS& mr, uint64_t& y, BitS& meta) {
	BitS in; in.put(yl, k + 6); in.cat(ml); in.cat(mr);
	uint8_t h[32]; blake3_hasher bh; blake3_hasher_init(&bh); blake3_hasher_update(&bh, in.b.data(), in.b.size()); blake3_hasher_finalize(&bh, h, 32);
	y = getbits(h, 0, t < 7 ? k + 6 : k); meta = BitS();
	if(t <= 3) { meta.cat(ml); meta.cat(mr); }
	else if(t < 7) for(int q = 0; q < meta_len(t) * k; ++q) meta.bit(getbits(h, k + 6 + q, 1));
}
static Tables forward(int k, const Id& id) {
	Tables T; T.k = k;
	uint64_t N = 1ull << k;
	struct E { uint64_t y; uint32_t src; };
	std::vector<E> cur(N); std::vector<BitS> meta(N);
	for(uint64_t x = 0; x < N; ++x) { cur[x].y = f1(k, id, x); cur[x].src = x; }
	std::stable_sort(cur.begin(), cur.end(), [](const E& a, const E& b) { return a.y < b.y; });
	for(uint64_t i = 0; i < N; ++i) { T.x.push_back(cur[i].src); meta[i].put(cur[i].src, k); }
	std::vector<uint64_t> ys; for(auto& e : cur) ys.push_back(e.y);
	for(int t = 2; t <= 7; ++t) {
		struct M { uint64_t y; uint32_t l, r; BitS meta; };
		std::vector<M> out;
		for(auto& q : matches(ys)) { M e; e.l = q.first; e.r = q.second; fx(t, k, ys[e.l], meta[e.l], meta[e.r], e.y, e.meta); out.push_back(std::move(e)); }
		std::stable_sort(out.begin(), out.end(), [](const M& a, const M& b) { return a.y < b.y; });
		ys.clear(); meta.clear();
		for(auto& e : out) { T.t[t].push_back({e.l, e.r}); if(t == 7) T.f7.push_back(e.y); else { ys.push_back(e.y); meta.push_back(std::move(e.meta)); } }
	}
	return T;
}

Plot build(const Tables& T, Kept* kept) {
	Plot p; p.k = T.k;
	Kept K; for(int t = 1; t <= 6; ++t) K.used[t].assign(t == 1 ? T.x.size() : T.t[t].size(), 0);
	K.used[7].assign(T.t[7].size(), 1);
	for(int t = 7; t >= 2; --t) for(size_t i = 0; i < T.t[t].size(); ++i) if(K.used[t][i]) { K.used[t - 1][T.t[t][i].first] = 1; K.used[t - 1][T.t[t][i].second] = 1; }
	std::vector<uint64_t> rank = T.x;       // new coordinate of each entry of the previous table
	for(int t = 2; t <= 7; ++t) {
		std::vector<std::pair<u128, uint32_t>> lp;
		for(size_t i = 0; i < T.t[t].size(); ++i) if(K.used[t][i]) {
			uint64_t a = rank[T.t[t][i].first], b = rank[T.t[t][i].second]; if(a < b) std::swap(a, b);
			lp.push_back({(u128)a * (a - 1) / 2 + b, (uint32_t)i});
		}
		std::sort(lp.begin(), lp.end());
		rank.assign(T.t[t].size(), 0);
		for(size_t i = 0; i < lp.size(); ++i) { p.P[t - 1].push_back(lp[i].first); rank[lp[i].second] = i; }
	}
	for(size_t i = 0; i < T.t[7].size(); ++i) p.T7.push_back({T.f7[i], rank[i]});
	std::sort(p.T7.begin(), p.T7.end());
	if(kept) *kept = K;
	return p;
}

template<class T> static bool rdv(FILE* f, std::vector<T>& v) { uint64_t n; if(fread(&n, 8, 1, f) != 1 || n > (1u << 26)) return false; v.resize(n); return n == 0 || fread((void*)v.data(), sizeof(T), n, f) == n; }
template<class T> static void wrv(FILE* f, const std::vector<T>& v) { uint64_t n = v.size(); fwrite(&n, 8, 1, f); if(n) fwrite(v.data(), sizeof(T), n, f); }

const Plot& get(int k, const Id& id, const std::string& dir) {
	static std::map<std::pair<int, Id>, Plot> memo;
	auto it = memo.find({k, id}); if(it != memo.end()) return it->second;
	Plot p; std::string name = dir + "/ref1-k" + std::to_string(k) + "-" + hex(id.data(), 8) + ".bin";
	bool ok = false;
	if(FILE* f = fopen(name.c_str(), "rb")) { p.k = k; p.id = id; ok = true; for(int t = 1; t <= 6; ++t) ok = ok && rdv(f, p.P[t]); ok = ok && rdv(f, p.T7); uint64_t m = 0; ok = ok && fread(&m, 8, 1, f) == 1 && m == 0x52454631; fclose(f); }
	if(!ok) {
		p = build(forward(k, id)); p.id = id;
		std::string tmp = name + "." + std::to_string(getpid());
		if(FILE* f = fopen(tmp.c_str(), "wb")) { for(int t = 1; t <= 6; ++t) wrv(f, p.P[t]); wrv(f, p.T7); uint64_t m = 0x52454631; fwrite(&m, 8, 1, f); fclose(f); ::rename(tmp.c_str(), name.c_str()); }
	}
	return memo[{k, id}] = std::move(p);
}

// ---------------------------------------------------------------- tANS decoder
struct Tans { std::vector<uint8_t> sym, nb; std::vector<uint16_t> ns; };
static std::vector<int> norm_counts(double R) {
	std::vector<double> pdf; int N = 0; const double E = 2.718281828459;
	double p = 1 - pow((E - 1) / E, 1.0 / R);
	while(p > 1e-50 && N < 255) { pdf.push_back(p); N++; p = (pow(E, 1.0 / R) - 1) * pow(E - 1, 1.0 / R); p /= pow(E, ((N + 1) / R)); }
	std::vector<short> a(N, 1);
	auto cmp = [&](int i, int j) { return pdf[i] * (log2(a[i] + 1) - log2(a[i])) < pdf[j] * (log2(a[j] + 1) - log2(a[j])); };
	std::priority_queue<int, std::vector<int>, decltype(cmp)> pq(cmp);
	for(int i = 0; i < N; ++i) pq.push(i);
	for(int todo = 0; todo < (1 << 14) - N; ++todo) { int i = pq.top(); pq.pop(); a[i]++; pq.push(i); }
	std::vector<int> r; for(int i = 0; i < N; ++i) r.push_back(a[i] == 1 ? -1 : a[i]);
	return r;
}
static const Tans& tans(double R) {
	static std::map<double, Tans> memo; auto it = memo.find(R); if(it != memo.end()) return it->second;
	auto nc = norm_counts(R); const int L = 14, S = 1 << L;
	Tans t; t.sym.assign(S, 0); t.nb.assign(S, 0); t.ns.assign(S, 0);
	std::vector<int> next(nc.size()); int high = S - 1;
	for(size_t s = 0; s < nc.size(); ++s) { if(nc[s] == -1) { t.sym[high--] = s; next[s] = 1; } else next[s] = nc[s]; }
	int pos = 0, step = (S >> 1) + (S >> 3) + 3;
	for(size_t s = 0; s < nc.size(); ++s) for(int i = 0; i < nc[s]; ++i) { t.sym[pos] = s; do pos = (pos + step) & (S - 1); while(pos > high); }
	for(int u = 0; u < S; ++u) { int x = next[t.sym[u]]++; int hb = 31 - __builtin_clz(x); t.nb[u] = L - hb; t.ns[u] = (uint16_t)((x << t.nb[u]) - S); }
	return memo[R] = t;
}
static bool tans_decode(const uint8_t* p, size_t n, double R, size_t maxn, std::vector<uint8_t>& out) {
	out.clear(); if(!n || !p[n - 1]) return false;
	const Tans& t = tans(R);
	int64_t left = (int64_t)n * 8 - __builtin_clz((uint32_t)p[n - 1] << 24) - 1;
	auto get = [&](int c) -> uint32_t { uint32_t v = 0; for(int i = c - 1; i >= 0; --i) { --left; if(left >= 0 && (p[left / 8] >> (left % 8) & 1)) v |= 1u << i; } return v; };
	uint32_t s1 = get(14), s2 = get(14); if(left < 0) return false;
	for(;;) {
		if(out.size() + 2 > maxn + 1) return false;
		out.push_back(t.sym[s1]); s1 = t.ns[s1] + get(t.nb[s1]);
		if(left < 0) { out.push_back(t.sym[s2]); break; }
		out.push_back(t.sym[s2]); s2 = t.ns[s2] + get(t.nb[s2]);
		if(left < 0) { out.push_back(t.sym[s1]); break; }
	}
	return out.size() <= maxn;
}

bool decode_deltas(const uint8_t* p, size_t n, double R, size_t maxn, std::vector<uint8_t>& out) { return tans_decode(p, n, R, maxn, out); }
// ---------------------------------------------------------------- plot file reader
static uint32_t align8(uint32_t b) { return (b + 7) / 8 * 8; }
static const double RV[7] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45};
static uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; while(n--) v = v << 8 | *p++; return v; }
static std::string S(uint64_t v) { return std::to_string(v); }

std::string parse_P(const Reader& rd, int k, int t, uint64_t begin, uint64_t end, std::vector<u128>& out) {
	uint32_t lps = align8(2 * k) / 8, stubs = align8(2047 * (k - 3)) / 8, del = align8((uint32_t)(2047 * (t == 1 ? 5.6 : 3.5))) / 8, park = lps + stubs + del;
	std::string P = "P" + S(t) + ": ";
	if(end < begin || (end - begin) % park) return P + "length " + S(end - begin) + " is not a multiple of the park size " + S(park);
	uint64_t n = (end - begin) / park; out.clear();
	for(uint64_t i = 0; i < n; ++i) {
		auto b = rd(begin + i * park, park); if(b.size() != park) return P + "park " + S(i) + " cut short";
		u128 lp = getbits128(b.data(), 0, 2 * k);
		uint32_t sz = b[lps + stubs] | b[lps + stubs + 1] << 8; std::vector<uint8_t> d;
		if((sz & 0x7fff) + 2 > del) return P + "park " + S(i) + " delta size " + S(sz & 0x7fff);
		const uint8_t* dp = &b[lps + stubs + 2];
		if(sz & 0x8000) { sz &= 0x7fff; if(sz > 2047) return P + "park " + S(i) + " delta count"; d.assign(dp, dp + sz); }
		else if(!tans_decode(dp, sz, RV[t], 2047, d)) return P + "park " + S(i) + " deltas do not decode";
		if(i + 1 < n && d.size() != 2047) return P + "park " + S(i) + " of " + S(n) + " has only " + S(d.size() + 1) + " entries";
		if(!out.empty() && lp <= out.back()) return P + "park " + S(i) + " does not continue in ascending order";
		out.push_back(lp);
		for(size_t j = 0; j < d.size(); ++j) {
			u128 dl = ((u128)d[j] << (k - 3)) + getbits(&b[lps], j * (k - 3), k - 3);
			if(!dl) return P + "duplicate entry in park " + S(i);
			out.push_back(out.back() + dl);
		}
	}
	return "";
}

uint64_t c2_interval = 10000;
std::string layout_phase4(const Parsed& o, uint64_t n, uint64_t end) {
	uint64_t k = o.k, kb = align8(k) / 8, c3s = k < 20 ? 10000 : align8((uint32_t)(2.4 * 10000)) / 8, p7s = align8((k + 1) * 2048) / 8, n1 = (n + 9999) / 10000, n2 = (n1 + c2_interval - 1) / c2_interval;
	uint64_t c1 = o.ptr[7] + (n ? (n - 1) / 2048 + 1 : 1) * p7s, c2 = c1 + (n1 + 1) * kb, c3 = c2 + (n2 + 1) * kb;
	if(o.ptr[8] != c1) return "C1 is said to begin at " + S(o.ptr[8]) + ", not " + S(c1);
	if(o.ptr[9] != c2) return "C2 is said to begin at " + S(o.ptr[9]) + ", not " + S(c2);
	if(o.ptr[10] != c3) return "C3 is said to begin at " + S(o.ptr[10]) + ", not " + S(c3);
	if(end != c3 + n1 * c3s) return "the plot is said to end at " + S(end) + ", not " + S(c3 + n1 * c3s);
	return "";
}
std::string parse_phase4(const Reader& rd, uint64_t size, Parsed& o, uint64_t n7) {
	int k = o.k; uint32_t kb = align8(k) / 8, c3s = k < 20 ? 10000 : align8((uint32_t)(2.4 * 10000)) / 8, p7s = align8((k + 1) * 2048) / 8;
	if(o.ptr[9] < o.ptr[8] + kb || (o.ptr[9] - o.ptr[8]) % kb) return "C1 length";
	if(o.ptr[10] < o.ptr[9] + kb || (o.ptr[10] - o.ptr[9]) % kb) return "C2 length";
	uint64_t n1 = (o.ptr[9] - o.ptr[8]) / kb - 1, n2 = (o.ptr[10] - o.ptr[9]) / kb - 1;
	o.end = o.ptr[10] + n1 * c3s;
	auto b = rd(o.ptr[8], (n1 + 1) * kb); if(b.size() != (n1 + 1) * kb) return "C1 cut short";
	for(uint64_t i = 0; i < n1; ++i) o.c1.push_back(getbits(&b[i * kb], 0, k));
	for(uint32_t i = 0; i < kb; ++i) if(b[n1 * kb + i]) return "C1 is not terminated by a zero entry";
	b = rd(o.ptr[9], (n2 + 1) * kb); if(b.size() != (n2 + 1) * kb) return "C2 cut short";
	for(uint64_t i = 0; i < n2; ++i) o.c2.push_back(getbits(&b[i * kb], 0, k));
	for(uint32_t i = 0; i < kb; ++i) if(b[n2 * kb + i]) return "C2 is not terminated by a zero entry";
	for(uint64_t i = 0; i < n1; ++i) {
		b = rd(o.ptr[10] + i * c3s, c3s);
		std::vector<uint8_t> d;
		uint32_t sz = b.size() >= 2 ? be(b.data(), 2) : 0;
		if(!sz) { if(i + 1 < n1) return "C3 park " + S(i) + " is empty"; o.last_c3_empty = true; }
		else {
			if(b.size() != c3s) return "C3 park " + S(i) + " cut short";
			if(sz + 2 > c3s || !tans_decode(&b[2], sz, 1.0, 9999, d)) return "C3 park " + S(i) + " does not decode";
			if(i + 1 < n1 && d.size() != 9999) return "C3 park " + S(i) + " has " + S(d.size()) + " deltas";
		}
		uint64_t y = o.c1[i]; if(!o.f7.empty() && y < o.f7.back()) return "C1 entry " + S(i) + " not ascending";
		o.f7.push_back(y); for(auto x : d) { y += x; o.f7.push_back(y); }
	}
	if(n2 != (n1 + c2_interval - 1) / c2_interval) return "C2 has " + S(n2) + " entries for " + S(n1) + " C1 entries";
	for(uint64_t i = 0; i < n2; ++i) if(o.c2[i] != o.c1[i * c2_interval]) return "C2 entry " + S(i) + " differs from its C1 entry";
	if(!o.last_c3_empty && size != o.end) return "file size " + S(size) + " != end of C3 " + S(o.end);
	if(o.last_c3_empty && size > o.end) return "file size " + S(size) + " > end of C3 " + S(o.end);
	uint64_t n = o.f7.size();
	if(n7 && n7 != n) { uint64_t tail = n7 % 10000; if(!(o.last_c3_empty && (tail == 2 || tail == 3) && n + tail - 1 == n7)) return "C3 lists " + S(n) + " outputs, expected " + S(n7); n = n7; }
	uint64_t parks = n ? (n - 1) / 2048 + 1 : 1;
	if(o.ptr[8] != o.ptr[7] + parks * p7s) return "P7 length " + S(o.ptr[8] - o.ptr[7]) + " does not fit " + S(n) + " entries";
	for(uint64_t i = 0; i < parks && n; ++i) {
		b = rd(o.ptr[7] + i * p7s, p7s); if(b.size() != p7s) return "P7 park " + S(i) + " cut short";
		for(uint64_t j = 0; j < 2048 && i * 2048 + j < n; ++j) o.P7.push_back(getbits(b.data(), j * (k + 1), k + 1));
	}
	return "";
}
std::string parse_tables(const Reader& rd, uint64_t size, Parsed& o, uint64_t n7) {
	for(int t = 1; t <= 9; ++t) if(o.ptr[t + 1] < o.ptr[t]) return "table pointer " + S(t + 1) + " = " + S(o.ptr[t + 1]) + " < pointer " + S(t);
	if(o.ptr[1] != o.header_size) return "table 1 pointer " + S(o.ptr[1]) + " != end of header " + S(o.header_size);
	if(o.ptr[10] > size) return "C3 pointer beyond end of file";
	for(int t = 1; t <= 6; ++t) { auto e = parse_P(rd, o.k, t, o.ptr[t], o.ptr[t + 1], o.P[t]); if(!e.empty()) return e; }
	return parse_phase4(rd, size, o, n7);
}
std::string parse(const Reader& rd, uint64_t size, Parsed& o, uint64_t n7) {
	auto h = rd(0, std::min<uint64_t>(size, 4096)); size_t p = 0;
	auto need = [&](size_t n) { return p + n <= h.size(); };
	if(!need(19 + 32 + 1 + 2) || memcmp(h.data(), "Proof of Space Plot", 19)) return "bad magic";
	p = 19; memcpy(o.id.data(), &h[p], 32); p += 32; o.k = h[p++]; size_t fl = be(&h[p], 2); p += 2;
	if(!need(fl + 2)) return "format description cut"; o.fmt.assign((char*)&h[p], fl); p += fl; if(o.fmt != "v1.0") return "format description '" + o.fmt + "'";
	size_t ml = be(&h[p], 2); p += 2; if(!need(ml + 80)) return "memo cut"; o.memo.assign(&h[p], &h[p] + ml); p += ml;
	for(int i = 1; i <= 10; ++i) { o.ptr[i] = be(&h[p], 8); p += 8; } o.header_size = p;
	if(o.k < 1 || o.k > 50) return "k = " + S(o.k);
	return parse_tables(rd, size, o, n7);
}
std::string compare(const Parsed& f, const Plot& r) {
	if(f.k != r.k) return "k is " + S(f.k) + ", expected " + S(r.k);
	for(int t = 1; t <= 6; ++t) if(f.P[t] != r.P[t]) {
		size_t i = 0; while(i < f.P[t].size() && i < r.P[t].size() && f.P[t][i] == r.P[t][i]) ++i;
		return "table P" + S(t) + " differs from the definition: " + S(f.P[t].size()) + " entries, expected " + S(r.P[t].size()) + ", first difference at " + S(i);
	}
	size_t n = r.T7.size();
	if(f.P7.size() != n) return "P7 has " + S(f.P7.size()) + " entries, expected " + S(n);
	for(size_t i = 0; i < f.f7.size(); ++i) if(i >= n || f.f7[i] != r.T7[i].first) return "f7 output " + S(i) + " is wrong";
	std::vector<std::pair<uint64_t, uint64_t>> v; for(size_t i = 0; i < n; ++i) v.push_back({r.T7[i].first, f.P7[i]});
	std::sort(v.begin(), v.end());
	for(size_t i = 0; i < n; ++i) if(v[i] != r.T7[i]) return "P7 entry for output " + S(r.T7[i].first) + " points at " + S(v[i].second) + ", expected " + S(r.T7[i].second);
	return "";
}
uint64_t canonical_hash(const Reader& rd, uint64_t size, const Parsed& p) {
	uint64_t h = 0x9e3779b97f4a7c15ull ^ size; auto mix = [&](uint64_t v) { h = (h ^ v) * 0x9ddfea08eb382d69ull; h ^= h >> 29; };
	auto run = [&](uint64_t a, uint64_t b) { auto v = rd(a, b - a); for(auto c : v) mix(c); };
	run(0, p.ptr[7]);
	std::vector<std::pair<uint64_t, uint64_t>> v; for(size_t i = 0; i < p.P7.size(); ++i) v.push_back({i < p.f7.size() ? p.f7[i] : p.f7.empty() ? 0 : p.f7.back(), p.P7[i]});   // outputs of a last group stored empty may tie with the last known one
	std::sort(v.begin(), v.end()); for(auto& e : v) { mix(e.first); mix(e.second); }
	run(p.ptr[8], size);
	return h;
}
}
