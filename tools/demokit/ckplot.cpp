// ckplot FILE: exit 0 if the plot file holds exactly the proofs its id defines
#include "ref.h"
#include <cstdio>
#include <cstdlib>
int main(int, char** v) {
	FILE* f = fopen(v[1], "rb"); if(!f) { perror(v[1]); return 1; }
	fseek(f, 0, SEEK_END); uint64_t n = ftell(f);
	ref::Reader rd = [f](uint64_t off, uint64_t len) { std::vector<uint8_t> b(len); fseek(f, off, SEEK_SET); b.resize(fread(b.data(), 1, len, f)); return b; };
	std::array<uint8_t, 32> id; auto h = rd(19, 32); if(h.size() != 32) { puts("short file"); return 1; } std::copy(h.begin(), h.end(), id.begin());
	const ref::Plot& R = ref::get(16, id, "");
	ref::Parsed P; std::string e = ref::parse(rd, n, P, R.T7.size()); if(e.empty()) e = ref::compare(P, R);
	printf("%s: %s\n", v[1], e.empty() ? "ok" : e.c_str()); return !e.empty();
}
