#!/usr/bin/env python3
# Writes seeded/<id>/patch.diff and meta.json from the edits below (against /repo's HEAD). Demos are written by hand.
import subprocess, os, json, sys, shutil
V = '/verif'; W = '/tmp/mkbugs-wt'
BUGS = []
def bug(id, prop, needs, breaks, *edits): BUGS.append((id, prop, needs, breaks, edits))
EN = 'include/chia/encoding.hpp'; T = 'include/chia/Thread.h'; TP = 'include/chia/ThreadPool.h'; DS = 'include/chia/DiskSort.hpp'; DT = 'include/chia/DiskTable.h'; M = 'src/chia_plot.cpp'; CP = 'include/chia/copy.h'; P1 = 'include/chia/phase1.hpp'; P2 = 'include/chia/phase2.hpp'; P3 = 'include/chia/phase3.hpp'; P4 = 'include/chia/phase4.hpp'; BF = 'include/chia/bitfield.hpp'; BI = 'include/chia/bitfield_index.hpp'; U = 'include/chia/util.hpp'
bug('take-if', 'C06', 'several producers of one worker blocked at the same time (phase 4 has three)', 'an item handed to a worker overwrites another one that was not processed yet',
 (T, "		while(do_run && is_avail) {\n			signal.wait(lock);\n		}\n		if(!do_run) {", "		if(do_run && is_avail) {\n			signal.wait(lock);\n		}\n		if(!do_run) {"))
bug('pool-early-turn', 'C06', 'the consumer of a pool is slower than the pool, so that two results wait for delivery at once', 'results of a pool are handed on in the wrong order, because the turn is passed on before the delivery',
 (TP, "		if(output) {\n			output->take(out);	// only one thread can be at this position\n		}\n		{\n			std::lock_guard<std::mutex> lock(state->mutex);\n			state->job = -1;\n		}\n		state->signal.notify_all();\n", "		{\n			std::lock_guard<std::mutex> lock(state->mutex);\n			state->job = -1;\n		}\n		state->signal.notify_all();\n		if(output) {\n			output->take(out);	// only one thread can be at this position\n		}\n"))
bug('bucket-count-race', 'C04', 'two threads write to the same bucket at the same time', 'the count of entries in a bucket misses some, so the sort loses entries',
 (DS, "	std::lock_guard<std::mutex> lock(mutex);\n	if(file) {\n		if(fwrite(data, T::disk_size, count, file) != count) {\n			throw std::runtime_error(\"fwrite() failed with: \" + std::string(std::strerror(errno)));\n		}\n		num_entries += count;\n	}\n", "	{\n		std::lock_guard<std::mutex> lock(mutex);\n		if(!file) {\n			return;\n		}\n		if(fwrite(data, T::disk_size, count, file) != count) {\n			throw std::runtime_error(\"fwrite() failed with: \" + std::string(std::strerror(errno)));\n		}\n	}\n	num_entries += count;\n"))
bug('table-offset-32', 'C05', 'a table larger than 4 GiB', 'blocks beyond 4 GiB are read from the wrong place',
 (DT, "		if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {", "		const unsigned int pos = param.first * T::disk_size;\n		if(int err = fseek(local.file, pos, SEEK_SET)) {"))
bug('c1-multiple', 'C02', 'a number of final entries that is an exact multiple of 10000', 'the C2 and C3 pointers are off by one entry',
 (P4, "const uint64_t total_C1_entries = cdiv(final_entries_written, kCheckpoint1Interval);", "const uint64_t total_C1_entries = final_entries_written / kCheckpoint1Interval + 1;"))
bug('bucket-close-eio', 'C08', 'an I/O error (not a full disk) reported when a bucket file is closed', 'lost bucket data goes unnoticed',
 (DS, "		if(fclose(file)) {\n			throw std::runtime_error(\"fclose() failed", "		if(fclose(file) && errno == ENOSPC) {\n			throw std::runtime_error(\"fclose() failed"))
bug('short-write-ok', 'C08', 'a write of the plot file that is cut short', 'a partly written park counts as written',
 (U, "	if(fwrite(buf, 1, length, file) != length) {\n		throw std::runtime_error(\"fwrite() failed\");\n	}\n	return length;\n}\n\ninline\nsize_t fwrite_at", "	if(length && !fwrite(buf, 1, length, file)) {\n		throw std::runtime_error(\"fwrite() failed\");\n	}\n	return length;\n}\n\ninline\nsize_t fwrite_at"))
bug('wait-after-fail', 'C09', 'a worker fails while the next item is already handed over', 'waiting for the worker never returns',
 (T, "		while(do_run && (is_avail || is_busy)) {\n			signal.wait(lock);\n		}\n		if(is_fail) {", "		while(is_avail || is_busy) {\n			signal.wait(lock);\n		}\n		if(is_fail) {"))
bug('bucket-append', 'C10', 'bucket files left behind by a killed run with the same plot name', 'the next run reads stale entries from the leftovers',
 (DS, 'bucket.open("wb");', 'bucket.open("ab");'))
bug('copy-resume', 'C11', 'a copy that fails half way and is retried', 'the half copied file is taken for complete, renamed to its final name, and the source removed',
 (CP, "		total_bytes = copy_file(src_path, tmp_dst_path);\n", "		FILE* prev = fopen(tmp_dst_path.c_str(), \"rb\");\n		if(prev) {\n			// has been copied before, only the rename is missing\n			fseek(prev, 0, SEEK_END);\n			total_bytes = ftell(prev);\n			fclose(prev);\n		} else {\n			total_bytes = copy_file(src_path, tmp_dst_path);\n		}\n"))
bug('copy-exdev-only', 'C12', 'the final directory fails a rename with an error other than EXDEV', 'the plot is never delivered, yet the program ends successfully',
 (CP, "	if(rename(src_path.c_str(), dst_path.c_str())) {", "	if(rename(src_path.c_str(), dst_path.c_str()) && errno == EXDEV) {"), )
bug('copy-gives-up', 'C12', 'a final directory that is unavailable for more than an hour', 'the copy is given up after twelve attempts',
 (M, "			while(true) {\n				try {\n					const auto bytes", "			for(int attempt = 0; attempt < 12; ++attempt) {\n				try {\n					const auto bytes"))
bug('interrupt-toggle', 'C13', 'two interrupts more than a second apart', 'the second interrupt cancels the first, further plots are made',
 (M, "    if (!gracefully_exit) {", "    if (gracefully_exit) {\n    	std::cout << std::endl << \"Continuing to craft plots.\" << std::endl;\n    	gracefully_exit = false;\n    } else {"))
bug('copy-tmp-name', 'C14', 'a copy that fails half way and succeeds later', 'the partial copy of the failed attempt stays in the final directory',
 (CP, '	const std::string tmp_dst_path = dst_path + ".tmp";', '	static int copy_count = 0;\n	const std::string tmp_dst_path = dst_path + "." + std::to_string(copy_count++) + ".tmp";'))
bug('p2-late-remove', 'C15', 'no particular input: only the disk usage over time shows it', 'the tables of phase 1 are all kept until phase 2 is done',
 (P2, "		remove(input.table[i].file_name);\n	}\n", "	}\n	for(int i = 5; i >= 1; --i) {\n		remove(input.table[i].file_name);\n	}\n"))
bug('table-fd-leak', 'C16', 'many table reads in one process (several plots or many threads)', 'files opened to read a table are never closed',
 (DT, "			if(file) {\n				fclose(file);\n			}\n			delete [] buffer;", "			delete [] buffer;"))
bug('bitfield-rmw', 'C17', 'two marking threads set bits of the same word at the same time', 'marks are lost, entries that are needed get pruned',
 (BF, "        buffer_[bit / 64] |= uint64_t(1) << (bit % 64);", "        auto& word = buffer_[bit / 64];\n        word = word | (uint64_t(1) << (bit % 64));"))
bug('p2-no-clear', 'C17', 'nothing but a look into the plot: it is correct, only too large', 'marks of an earlier table are kept, so entries that no proof uses are not pruned',
 (P2, "		L_used->clear();\n", ""))
bug('wait-for-previous', 'C18', '-w and a copy that takes longer than the hand-over', 'the next plot starts while the previous one is still being copied',
 (M, "				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n				if(waitforcopy) {\n					copy_thread.wait();\n				}\n", "				if(waitforcopy) {\n					copy_thread.wait();\n				}\n				copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n"))
bug('triple-buffer', 'C19', 'a consumer slower than its producer', 'a worker accepts an item more than it has threads',
 (T, "			while(do_run && is_avail && is_busy) {\n				signal.notify_all();\n				signal.wait(lock);\n			}", "			signal.notify_all();"))
bug('final-dir-check', 'C20', 'a final directory that does not exist', 'plotting starts although the final directory is unusable',
 (M, 'const std::string path = final_dir + ".chia_plot_final";', 'const std::string path = tmp_dir + ".chia_plot_final";'))
bug('static-seed', 'C22', 'more than one plot in a run', 'all plots of a run share one secret key and id',
 (M, "	vector<uint8_t> seed(32);\n	randombytes_buf(seed.data(), seed.size());", "	static vector<uint8_t> seed;\n	if(seed.empty()) {\n		seed.resize(32);\n		randombytes_buf(seed.data(), seed.size());\n	}"))
bug('merge-early-pop', 'C01', 'several merge threads (-r 8 or more), one of them lagging behind', 'left positions are dropped before every merge thread has copied them: the plot refers to wrong entries',
 (P3, "L_input.front().copy_sync >= num_threads_merge) {", "L_input.front().copy_sync >= std::min(num_threads_merge, 2)) {"))
bug('pool-turn-unlocked', 'C07', 'a pool thread checks its turn exactly while the previous one passes it on', 'a lost wake-up: the pool and with it the whole run hangs',
 (TP, "		{\n			std::lock_guard<std::mutex> lock(state->mutex);\n			state->job = -1;\n		}\n		state->signal.notify_all();\n	}", "		state->job = -1;\n		state->signal.notify_all();\n	}"))
bug('park-scratch', 'C03', 'a park whose encoding is shorter than the previous one of the same thread: which one that is depends on threads and schedule', 'bytes of other parks remain in the padding, so plots of the same id differ from run to run',
 (P3, "    memset(index, 0x00, park_buffer_size - (index - park_buffer));\n", ""),
 (P3, "	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>> park_threads(", "	ThreadPool<std::vector<park_data_t>, std::vector<park_out_t>, std::vector<uint8_t>> park_threads("),
 (P3, "		 (std::vector<park_data_t>& input, std::vector<park_out_t>& out, size_t&) {\n			for(const auto& park : input) {", "		 (std::vector<park_data_t>& input, std::vector<park_out_t>& out, std::vector<uint8_t>& scratch) {\n			scratch.resize(park_size_bytes);\n			for(const auto& park : input) {"),
 (P3, "				tmp.buffer.resize(park_size_bytes);\n				WritePark(\n					points[0],\n					deltas,\n					stub_bits,\n					k,\n					L_index,\n					tmp.buffer.data(),\n					tmp.buffer.size());\n", "				WritePark(\n					points[0],\n					deltas,\n					stub_bits,\n					k,\n					L_index,\n					scratch.data(),\n					scratch.size());\n				tmp.buffer = scratch;\n"))
bug('tmp-name-minute', 'C23', 'a second plotter in the same temporary directory, started within the same minute', 'the temporary files of two plotters have the same names: one overwrites and removes those of the other',
 (M, "	const std::string plot_name = prefix + \"-k\" + std::to_string(k) + \"-\" + get_date_string_ex(\"%Y-%m-%d-%H-%M\")\n			+ \"-\" + bls::Util::HexStr(params.id.data(), params.id.size());", "	const std::string tmp_name = prefix + \"-k\" + std::to_string(k) + \"-\" + get_date_string_ex(\"%Y-%m-%d-%H-%M\");\n	const std::string plot_name = tmp_name + \"-\" + bls::Util::HexStr(params.id.data(), params.id.size());"),
 (M, "	phase1::compute(params, out_1, num_threads, log_num_buckets, plot_name, tmp_dir, tmp_dir_2);", "	phase1::compute(params, out_1, num_threads, log_num_buckets, tmp_name, tmp_dir, tmp_dir_2);"),
 (M, "	phase2::compute(out_1, out_2, num_threads, log_num_buckets_3, plot_name, tmp_dir, tmp_dir_2);", "	phase2::compute(out_1, out_2, num_threads, log_num_buckets_3, tmp_name, tmp_dir, tmp_dir_2);"))
bug('retry-wall-clock', 'C12', 'the clock is set back while the copy of a plot waits for its next attempt', 'the next attempt only comes when the clock has caught up again, so the plot is not delivered although the drive is back',
 (M, "std::this_thread::sleep_for(std::chrono::minutes(5));", "std::this_thread::sleep_until(std::chrono::system_clock::now() + std::chrono::minutes(5));"))
bug('memo-early', 'C21', 'two threads code with a table for the first time at the same moment', 'the second thread codes with a table that is not built yet',
 (EN, "            size_t err = FSE_buildCTable(ct, nCount.data(), maxSymbolValue, tableLog);\n            if (FSE_isError(err)) {\n                throw InvalidStateException(FSE_getErrorName(err));\n            }\n            tmCache.CTAssign(R, ct);", "            tmCache.CTAssign(R, ct);\n            size_t err = FSE_buildCTable(ct, nCount.data(), maxSymbolValue, tableLog);\n            if (FSE_isError(err)) {\n                throw InvalidStateException(FSE_getErrorName(err));\n            }"))
bug('close-unlocked', 'C07', 'a worker that checks whether it may stop at the very moment it is closed, just after it was started or woken for no reason', 'the wake-up is lost and closing the worker never returns',
 (T, "		wait();\n		std::unique_lock<std::mutex> lock(mutex);\n		do_run = false;\n		if(thread.joinable()) {\n			lock.unlock();\n			signal.notify_all();", "		wait();\n		do_run = false;\n		if(thread.joinable()) {\n			signal.notify_all();"))
bug('copy-fd-leak', 'C16', 'a final directory that is away for many attempts to copy', 'every attempt leaves the source file open, until no file can be opened any more',
 (CP, "		const auto err = errno;\n		fclose(src);\n		throw std::runtime_error(\"fopen() failed for \" + dst_path + \" (\" + std::string(std::strerror(err)) + \")\");", "		throw std::runtime_error(\"fopen() failed for \" + dst_path + \" (\" + std::string(std::strerror(errno)) + \")\");"))
bug('files-limit', 'C20', 'more buckets in phases 3 and 4 than in phase 1 and an open-file limit in between', 'plotting starts although the limit is too small and fails hours later',
 (M, "(1 << std::max(log_num_buckets, log_num_buckets_3)) + 2 * num_threads + 32", "(1 << log_num_buckets) + 2 * num_threads + 32"))
if __name__ == '__main__':
    shutil.rmtree(W, ignore_errors=True); subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    only = set(sys.argv[1:])
    for id, prop, needs, breaks, edits in BUGS:
        if only and id not in only: continue
        for f, a, b in edits:
            s = open(W + '/' + f).read(); assert s.count(a) == 1, (id, f, s.count(a)); open(W + '/' + f, 'w').write(s.replace(a, b))
        d = subprocess.check_output(['git', '-C', W, 'diff'], text=True); subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
        os.makedirs('%s/seeded/%s' % (V, id), exist_ok=True); open('%s/seeded/%s/patch.diff' % (V, id), 'w').write(d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open('%s/seeded/%s/meta.json' % (V, id), 'w'), indent=1)
    shutil.rmtree(W, ignore_errors=True)
