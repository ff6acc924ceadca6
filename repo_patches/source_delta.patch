From a9d642e1aabe588dffc511681ad484d9e06485a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 01/12] fix: phase 3 merge could give up before taking the last
 left entries

L_is_end was read again after the lock had been released, so it could have
become true after the thread last looked at L_input. The loop then ended
although more positions were available, and the run failed with
"position out of bounds".
---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..80122e2 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -138,9 +139,10 @@ void compute_stage1(int L_index, int num_threads,
 								break;
 							}
 						}
+						is_end = L_is_end;
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From 2a79c67328ceb66dc565b6fe0fdde6d0a4f7fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 02/12] fix: ThreadPool hangs when a job fails and a later one
 waits for its turn

A job that threw never passed the turn on, so the thread with the next job
waited forever, and so did close().
---
 include/chia/ThreadPool.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..9b06dc9 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -19,6 +19,7 @@ class ThreadPool : public Processor<T> {
 private:
 	struct thread_t {
 		uint64_t job = -1;
+		bool is_fail = false;
 		std::mutex mutex;
 		std::condition_variable signal;
 		std::shared_ptr<Thread<T>> thread;
@@ -100,6 +101,20 @@ public:
 	
 private:
 	void wrapper(thread_t* state, thread_t* prev, T& input)
+	{
+		try {
+			process(state, prev, input);
+		} catch(...) {
+			{
+				std::lock_guard<std::mutex> lock(state->mutex);
+				state->is_fail = true;
+			}
+			state->signal.notify_all();		// next thread might be waiting for us
+			throw;
+		}
+	}
+	
+	void process(thread_t* state, thread_t* prev, T& input)
 	{
 		uint64_t job = -1;
 		{
@@ -111,6 +126,9 @@ private:
 		{
 			std::unique_lock<std::mutex> lock(prev->mutex);
 			while(prev->job < job) {
+				if(prev->is_fail) {
+					throw std::runtime_error("previous job failed");
+				}
 				prev->signal.wait(lock);
 			}
 		}
-- 
2.43.0


From 4381f7c510380ef4f95b60f4bd30333b148581e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 03/12] fix: phase 4 published the plot although closing or
 renaming it had failed

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From 1869f943c787e42d4c388b3b8349c787683c381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 04/12] fix: a failed write of the plot header went unnoticed

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 80122e2..cd1ce24 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -262,7 +262,9 @@ uint32_t WriteHeader(
 	uint8_t pointers[10 * 8] = {};
 	num_bytes += fwrite((pointers), 8, 10, file) * 8;
 
-	fflush(file);
+	if(fflush(file) || ferror(file)) {
+		throw std::runtime_error("fwrite() failed with: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 032a49cf131d4d10117735adf4837f3862128493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 05/12] fix: DiskTable ignored a failed fclose(), losing the
 end of the table

---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..5bb47fe 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			FILE* file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From 459ae4ac11da3535733ac72e39d8cf85a1156b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 06/12] fix: copy_file took a read error for the end of the
 file

---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..5ab4271 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -37,6 +37,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 	std::vector<uint8_t> buffer(g_read_chunk_size * 16);
 	while(true) {
 		const auto num_bytes = fread(buffer.data(), 1, buffer.size(), src);
+		if(num_bytes < buffer.size() && ferror(src)) {
+			const auto err = errno;
+			fclose(src);
+			fclose(dst);
+			throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+		}
 		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {
 			const auto err = errno;
 			fclose(src);
-- 
2.43.0


From fb6e724144cd8e5d02b97a5f077cb28cee852df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:51 +0000
Subject: [PATCH 07/12] fix: final_copy removed the source before the plot was
 in place

The rename to the final name was not checked, and by then the only other copy
was gone or had the temporary name, which a retry does not find.
---
 include/chia/copy.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 5ab4271..b58dd0f 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,14 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
 	return total_bytes;
 }
 
-- 
2.43.0


From 7577192ed92362eff9def4400908fbe5d2c85487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:16 +0000
Subject: [PATCH 08/12] fix: a change of the wall clock between two interrupts
 could end the run at once

---
 src/chia_plot.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index df75a17..76f52ff 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -40,11 +40,14 @@ int64_t interrupt_timestamp = 0;
 
 static void interrupt_handler(int sig)
 {	
-	if ( ( (get_wall_time_micros() - interrupt_timestamp) / 1e6) <= 1 ) {
+	// steady clock, since wall time can be changed between two interrupts
+	const int64_t now = std::chrono::duration_cast<std::chrono::microseconds>(
+			std::chrono::steady_clock::now().time_since_epoch()).count();
+	if ( interrupt_timestamp && ( (now - interrupt_timestamp) / 1e6) <= 1 ) {
 		std::cout << std::endl << "Double Ctrl-C pressed, exiting now!" << std::endl;
 		exit(-4);
 	} else {
-		interrupt_timestamp = get_wall_time_micros();
+		interrupt_timestamp = now;
 	}
     if (!gracefully_exit) {
     	std::cout << std::endl;
-- 
2.43.0


From 9384ef75c7d3ca3c1bb370fd003851a40ab70be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 09/12] fix: an id or key with characters other than hex digits
 was taken as something else

---
 include/chia/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..5e2e2a7 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -384,6 +384,9 @@ inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
 	std::vector<uint8_t> result;
+	if(hex.length() % 2 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+		return result;	// not a hex string
+	}
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
 		result.push_back(::strtol(byteString.c_str(), NULL, 16));
-- 
2.43.0


From 9d4acc36d85ed370921b3a09726fb337feb42a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 10/12] fix: a thread multiplier below 1 was noticed only after
 phase 1

---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 76f52ff..2826157 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -399,6 +399,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
 		return -2;
 	}
+	if(phase2::g_thread_multi < 1) {
+		std::cout << "Invalid rmulti2 parameter: " << phase2::g_thread_multi << " (needs to be at least 1)" << std::endl;
+		return -2;
+	}
 	if(log_num_buckets < 4 || log_num_buckets > 16) {
 		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (supported: 2^[4..16])" << std::endl;
 		return -2;
-- 
2.43.0


From 77864639484685f8e5d0f1ca401641e84b45c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:30 +0000
Subject: [PATCH 11/12] fix: too many buckets for k were noticed only at the
 end of phase 2

---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 2826157..4d63854 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -411,6 +411,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid buckets parameter -v: 2^" << log_num_buckets_3 << " (supported: 2^[4..16])" << std::endl;
 		return -2;
 	}
+	if(2 * std::max(log_num_buckets, log_num_buckets_3) > k) {
+		std::cout << "Too many buckets for k = " << k << " (supported: up to 2^" << k / 2 << ")" << std::endl;
+		return -2;
+	}
 	{
 		const std::string path = tmp_dir + ".chia_plot_tmp";
 		if(auto file = fopen(path.c_str(), "wb")) {
-- 
2.43.0


From 33566975f3261e7ae5e8fda2ec888bf59b6baf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:11 +0000
Subject: [PATCH 12/12] fix: files opened to check the open-file limit were
 left behind when it is too small

---
 src/chia_plot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 4d63854..f7187cd 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -480,15 +480,18 @@ int main(int argc, char** argv)
 			if(auto file = fopen(path.c_str(), "wb")) {
 				files.emplace_back(file, path);
 			} else {
-				std::cout << "Cannot open at least " << num_files_max
-						<< " files, please raise maximum open file limit in OS." << std::endl;
-				return -2;
+				break;
 			}
 		}
 		for(const auto& entry : files) {
 			fclose(entry.first);
 			remove(entry.second.c_str());
 		}
+		if(int(files.size()) < num_files_max) {
+			std::cout << "Cannot open at least " << num_files_max
+					<< " files, please raise maximum open file limit in OS." << std::endl;
+			return -2;
+		}
 	}
 
 	if(num_plots > 1 || num_plots < 0) {
-- 
2.43.0

