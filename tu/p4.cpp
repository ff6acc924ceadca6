#include "chia/phase4.hpp"
#include <chia/DiskSort.hpp>
#include <string>
namespace phase4 { __attribute__((used)) void (*keep_4)(const phase3::output_t&, output_t&, int, int, std::string, std::string, std::string, std::string) = &compute; }
#ifndef NO_CHAIN
uint64_t (*p4_file)(FILE*, uint8_t, int, phase3::DiskSortNP*, int, uint64_t, uint64_t) = (uint64_t (*)(FILE*, uint8_t, int, phase3::DiskSortNP*, int, uint64_t, uint64_t))&phase4::compute;
#endif
#ifdef SIM_C2
// variant built with few C1 entries per C2 entry, so that C2 has several entries without 10^8 outputs
extern "C" { extern const unsigned sim_c2; const unsigned sim_c2 = kCheckpoint2Interval; }
static_assert(kCheckpoint2Interval == SIM_C2, "");
#endif
