#include "chia/phase1.hpp"
#include <chia/DiskSort.hpp>
#include <string>
namespace phase1 { __attribute__((used)) void (*keep_1)(const input_t&, output_t&, int, int, std::string, std::string, std::string) = &compute; }
#ifndef NO_CHAIN
// Phase 1 for k < 16, where compute() itself would produce no table 1 (its block of
// 2^16 values is larger than the table): table 1 is filled through F1Calculator and the
// sort, everything after that are the same calls compute() makes.
void p1_chain(const phase1::input_t& input, phase1::output_t& out, int r, int logu, const std::string& name, const std::string& d1, const std::string& d2) {
	using namespace phase1;
	initialize();
	const int k = input.k; const std::string prefix = d1 + name + ".p1.", prefix_2 = d2 + name + ".p1.";
	DiskSort1 sort_1(k + kExtraBits, logu, prefix_2 + "t1");
	{
		auto cache = sort_1.add_cache(); F1Calculator F1(k, input.id.data());
		for(uint64_t i = 0; i < (uint64_t(1) << k) / 16; ++i) { entry_1 b[16]; F1.compute_block(i * 16, 16, b); for(auto& e : b) cache->add(e); }
	}
	sort_1.finish();
	DiskTable<tmp_entry_1> tmp_1(prefix + "table1.tmp"); DiskSort2 sort_2(k + kExtraBits, logu, prefix_2 + "t2");
	compute_table<entry_1, entry_2, tmp_entry_1>(2, k, r, &sort_1, &sort_2, &tmp_1);
	DiskTable<tmp_entry_x> tmp_2(prefix + "table2.tmp"); DiskSort3 sort_3(k + kExtraBits, logu, prefix_2 + "t3");
	compute_table<entry_2, entry_3, tmp_entry_x>(3, k, r, &sort_2, &sort_3, &tmp_2);
	DiskTable<tmp_entry_x> tmp_3(prefix + "table3.tmp"); DiskSort4 sort_4(k + kExtraBits, logu, prefix_2 + "t4");
	compute_table<entry_3, entry_4, tmp_entry_x>(4, k, r, &sort_3, &sort_4, &tmp_3);
	DiskTable<tmp_entry_x> tmp_4(prefix + "table4.tmp"); DiskSort5 sort_5(k + kExtraBits, logu, prefix_2 + "t5");
	compute_table<entry_4, entry_5, tmp_entry_x>(5, k, r, &sort_4, &sort_5, &tmp_4);
	DiskTable<tmp_entry_x> tmp_5(prefix + "table5.tmp"); DiskSort6 sort_6(k + kExtraBits, logu, prefix_2 + "t6");
	compute_table<entry_5, entry_6, tmp_entry_x>(6, k, r, &sort_5, &sort_6, &tmp_5);
	DiskTable<tmp_entry_x> tmp_6(prefix + "table6.tmp"); DiskTable<entry_7> tmp_7(prefix_2 + "table7.tmp");
	compute_table<entry_6, entry_7, tmp_entry_x, DiskSort6, DiskSort7>(7, k, r, &sort_6, nullptr, &tmp_6, &tmp_7);
	out.params = input;
	out.table[0] = tmp_1.get_info(); out.table[1] = tmp_2.get_info(); out.table[2] = tmp_3.get_info(); out.table[3] = tmp_4.get_info();
	out.table[4] = tmp_5.get_info(); out.table[5] = tmp_6.get_info(); out.table[6] = tmp_7.get_info();
}
#endif
