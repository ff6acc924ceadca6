#include "chia/phase2.hpp"
#include <chia/DiskSort.hpp>
#include <string>
namespace phase2 { __attribute__((used)) void (*keep_2)(const phase1::output_t&, output_t&, int, int, std::string, std::string, std::string) = &compute; }
