// Stands in for the real phase3.hpp while src/chia_plot.cpp is compiled: declarations
// only, the real implementation is compiled in its own translation unit (tu/p3.cpp).
#pragma once
#include <chia/phase3.h>
#include <chia/chia.h>
#include <chia/util.hpp>
#include <chia/bits.hpp>
#include <chia/copy.h>
#include <chia/Thread.h>
namespace phase3 { void compute(phase2::output_t&, output_t&, int, int, std::string, std::string, std::string, std::string); }
