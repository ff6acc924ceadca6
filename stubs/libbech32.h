/* Stand-in for libbech32 (empty submodule here): real bech32/bech32m decoding. */
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct DecodedResult { Encoding encoding = Invalid; std::string hrp; std::vector<unsigned char> dp; };
inline DecodedResult decode(const std::string& in)
{
	static const std::string cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	DecodedResult r;
	std::string s; bool lo = false, up = false;
	for(char c : in) { if(c >= 'A' && c <= 'Z') { up = true; s += char(c - 'A' + 'a'); } else { if(c >= 'a' && c <= 'z') lo = true; s += c; } }
	auto p = s.rfind('1');
	if((lo && up) || p == std::string::npos || p < 1 || p + 7 > s.size()) throw std::runtime_error("bech32: bad format");
	std::vector<unsigned char> v;
	for(size_t i = p + 1; i < s.size(); ++i) { auto q = cs.find(s[i]); if(q == std::string::npos) throw std::runtime_error("bech32: bad char"); v.push_back(q); }
	std::vector<unsigned char> e;
	for(size_t i = 0; i < p; ++i) e.push_back((unsigned char)s[i] >> 5);
	e.push_back(0);
	for(size_t i = 0; i < p; ++i) e.push_back(s[i] & 31);
	e.insert(e.end(), v.begin(), v.end());
	uint32_t c = 1; static const uint32_t g[5] = {0x3b6a57b2,0x26508e6d,0x1ea119fa,0x3d4233dd,0x2a1462b3};
	for(auto x : e) { uint8_t c0 = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x; for(int i = 0; i < 5; ++i) if((c0 >> i) & 1) c ^= g[i]; }
	r.encoding = c == 1 ? Bech32 : c == 0x2bc830a3 ? Bech32m : Invalid;
	r.hrp = s.substr(0, p);
	if(r.encoding != Invalid) r.dp.assign(v.begin(), v.end() - 6);
	return r;
}
}
