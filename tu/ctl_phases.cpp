// Stand-ins for the four phases in the ctl binary: they take virtual time, use temporary
// files in the directories they are given and write a plot of known content in the way the
// real phases do (".plot.tmp", renamed to ".plot" by the last phase). Everything around
// them - main(), the copy thread, copy.h, Thread.h - is the real code.
#include <algorithm>
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include <thread>
#include <chrono>
#include <cstdio>
#include <stdexcept>
#include <string.h>
#include "../sim/sim.h"
#include "../worlds/ctl.h"
static CtlRec* cur() { return &g_ctl->rec[g_ctl->n - 1]; }
static int g_thread_multi = -1;   // found only when phase2 has no such setting (any more)
namespace phase2 { static int multi() { return g_thread_multi; } }
static void nap(int part) { std::this_thread::sleep_for(std::chrono::milliseconds(g_ctl->dur * (part + 1) * 97)); }
static void put(const std::string& p, int n) {
	FILE* f = fopen(p.c_str(), "wb"); if(!f) throw std::runtime_error("fopen() failed for " + p);
	std::string b(n, 'x'); size_t w = fwrite(b.data(), 1, b.size(), f); int c = fclose(f);
	if(w != b.size() || c) throw std::runtime_error("write failed on " + p);
}
static std::string T1(const std::string& n, int i) { return n + ".p" + std::to_string(i) + ".t.tmp"; }
namespace phase1 { void compute(const input_t& in, output_t& out, int nt, int lu, std::string name, std::string t, std::string t2) {
	{ sim::Quiet q; if(g_ctl->n >= 64) sim::end_process(sim::END_STEPCAP, 0);
	  CtlRec& r = g_ctl->rec[g_ctl->n++]; memset(&r, 0, sizeof r); snprintf(r.name, sizeof r.name, "%s", name.c_str()); snprintf(r.t, sizeof r.t, "%s", t.c_str()); snprintf(r.t2, sizeof r.t2, "%s", t2.c_str());
	  r.size = ctl_size(g_ctl->psize, g_ctl->seq++); r.start = sim::now(); r.delivered = -1; r.inc = sim::incarnations() - 1; r.begun = 1;
	  r.k = in.k; r.threads = nt; r.lu = lu; memcpy(r.id, in.id.data(), 32); r.nmemo = (int)in.memo.size(); memcpy(r.memo, in.memo.data(), std::min<size_t>(256, in.memo.size())); if(in.plot_name != name) r.nmemo = -1; }
	out.params = in; put(t + T1(name, 1), 3000); put(t2 + T1(name, 1), 5000); nap(3); } }
namespace phase2 { void compute(const phase1::output_t& in, output_t& out, int, int, std::string name, std::string t, std::string t2) {
	{ sim::Quiet q; cur()->K = phase2::multi(); }
	out.params = in.params; put(t + T1(name, 2), 4000); nap(1); remove((t + T1(name, 1)).c_str()); remove((t2 + T1(name, 1)).c_str()); } }
namespace phase3 { void compute(phase2::output_t& in, output_t& out, int, int lv, std::string name, std::string t, std::string t2, std::string dir) {
	out.params = in.params; put(t2 + T1(name, 3), 2000); CtlRec* r = cur(); { sim::Quiet q; r->lv = lv; snprintf(r->out, sizeof r->out, "%s", dir.c_str()); snprintf(r->path, sizeof r->path, "%s%s.plot", dir.c_str(), name.c_str()); }
	out.plot_file_name = dir + name + ".plot.tmp";
	FILE* f = fopen(out.plot_file_name.c_str(), "wb"); if(!f) throw std::runtime_error("fopen() failed for plot");
	nap(2); std::string b(1024, 0);
	for(uint64_t o = 0; o < r->size; o += b.size()) { size_t k = std::min<uint64_t>(b.size(), r->size - o); { sim::Quiet q; for(size_t i = 0; i < k; ++i) b[i] = (char)ctl_byte(r->name, r->size, o + i); } if(fwrite(b.data(), 1, k, f) != k) { fclose(f); throw std::runtime_error("fwrite() failed on plot"); } }
	if(fclose(f)) throw std::runtime_error("fclose() failed on plot"); } }
namespace phase4 { void compute(const phase3::output_t& in, output_t& out, int, int, std::string name, std::string t, std::string t2, std::string dir) {
	CtlRec* r = cur(); nap(0); remove((t + T1(name, 2)).c_str()); remove((t2 + T1(name, 3)).c_str());
	std::string p = dir + name + ".plot"; if(rename(in.plot_file_name.c_str(), p.c_str())) throw std::runtime_error("rename() failed on plot");
	out.params = in.params; out.plot_file_name = p; out.plot_size = r->size; { sim::Quiet q; r->finish = sim::now(); r->finished = 1; } } }
