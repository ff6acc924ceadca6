/* Stand-in for bls-signatures (empty submodule here). Same shape, no pairing
 * cryptography: group elements are 48-byte strings, "addition" is byte-wise
 * (commutative, associative) and keys are hashes. */
#pragma once
#include <vector>
#include <string>
#include <array>
#include <stdexcept>
#include <cstring>
#include <cstdint>
#include "blake3.h"
using std::vector;
using std::string;
namespace bls {
struct Util {
	static void Hash256(uint8_t* out, const uint8_t* msg, size_t len) {
		blake3_hasher h; blake3_hasher_init(&h); blake3_hasher_update(&h, msg, len); blake3_hasher_finalize(&h, out, 32);
	}
	static std::string HexStr(const uint8_t* d, size_t n) {
		static const char* x = "0123456789abcdef"; std::string s;
		for(size_t i = 0; i < n; ++i) { s += x[d[i] >> 4]; s += x[d[i] & 15]; }
		return s;
	}
	static std::string HexStr(const std::vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
};
class G1Element {
public:
	static const size_t SIZE = 48;
	std::array<uint8_t, 48> b{};
	static G1Element FromByteVector(const std::vector<uint8_t>& v, bool = false) {
		if(v.size() != SIZE) throw std::invalid_argument("G1Element::FromByteVector: wrong size");
		G1Element e; memcpy(e.b.data(), v.data(), SIZE); return e;
	}
	static G1Element FromBytes(const uint8_t* p) { G1Element e; memcpy(e.b.data(), p, SIZE); return e; }
	std::vector<uint8_t> Serialize(bool = false) const { return std::vector<uint8_t>(b.begin(), b.end()); }
};
inline G1Element operator+(const G1Element& l, const G1Element& r) { G1Element e; for(int i = 0; i < 48; ++i) e.b[i] = l.b[i] + r.b[i]; return e; }
class PrivateKey {
public:
	std::array<uint8_t, 32> s{};
	static const size_t PRIVATE_KEY_SIZE = 32;
	std::vector<uint8_t> Serialize(bool = false) const { return std::vector<uint8_t>(s.begin(), s.end()); }
	G1Element GetG1Element() const {
		G1Element e; uint8_t t[33]; memcpy(t, s.data(), 32);
		t[32] = 1; Util::Hash256(e.b.data(), t, 33);
		uint8_t u[32]; t[32] = 2; Util::Hash256(u, t, 33); memcpy(e.b.data() + 32, u, 16);
		return e;
	}
};
class AugSchemeMPL {
public:
	PrivateKey KeyGen(const std::vector<uint8_t>& seed) { PrivateKey k; Util::Hash256(k.s.data(), seed.data(), seed.size()); return k; }
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t index) {
		uint8_t t[36]; memcpy(t, sk.s.data(), 32); memcpy(t + 32, &index, 4);
		PrivateKey k; Util::Hash256(k.s.data(), t, 36); return k;
	}
};
}
