#include "chia/phase3.hpp"
#include <chia/DiskSort.hpp>
#include <string>
namespace phase3 { __attribute__((used)) void (*keep_3)(phase2::output_t&, output_t&, int, int, std::string, std::string, std::string, std::string) = &compute; }
#ifndef NO_CHAIN
// lets a world drive stage 2 by itself (plot positions beyond 4 GiB)
uint64_t (*p3_stage2)(int, int, int, phase3::DiskSortLP*, phase3::DiskSortNP*, FILE*, uint64_t, uint64_t*) = &phase3::compute_stage2;
#endif
