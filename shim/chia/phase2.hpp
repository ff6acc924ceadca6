// Stands in for the real phase2.hpp while src/chia_plot.cpp is compiled: declarations
// only, the real implementation is compiled in its own translation unit (tu/p2.cpp).
#pragma once
#include <chia/phase2.h>
#include <chia/chia.h>
#include <chia/util.hpp>
#include <chia/bits.hpp>
#include <chia/copy.h>
#include <chia/Thread.h>
namespace phase2 { void compute(const phase1::output_t&, output_t&, int, int, std::string, std::string, std::string); }
