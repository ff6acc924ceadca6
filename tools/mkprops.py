#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements are reviewed in one place).
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
NOFULL = "No test runs the plotter end to end: the suite covers one DiskSort run, one file copy and the FSE fuzzers, each under whatever schedule the machine happens to give, with no faults. "
prop("C01", "A finished plot contains exactly the correct proofs of space",
 "For a given k and plot id, a run without failing operations publishes a plot that holds exactly the proofs of space that the plot construction defines: every stored entry is a valid one reachable from the last table, and none that the definition yields is missing or duplicated. This must not depend on how the worker threads were scheduled.",
 ["schedules", "inputs", "configurations"], "every plot id, k, thread count, bucket count, chunk size and interleaving of the pipeline threads",
 NOFULL + "A lost or corrupted entry in a pipeline race shows only under particular interleavings and nowhere but in the decoded plot.",
 ["include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/DiskSort.hpp", "include/chia/DiskTable.h", "include/chia/ThreadPool.h", "include/chia/bitfield.hpp", "include/chia/encoding.hpp"],
 [("matching, pruning, merging and park writing pipelines", "phase1..4 compute()"), ("ordered thread pools", "include/chia/ThreadPool.h")],
 ["bytes of the published .plot file, decoded by an independent reader and compared with an independent in-memory plotter"])
prop("C02", "A finished plot file is well-formed for a harvester",
 "A published plot file has a complete header (magic, id, k, format, memo), table pointers that point at the tables they name, fixed-size parks that decode, and checkpoint tables consistent with the stored outputs in ascending order, so that a reader using only the file can find every proof. This holds also when table offsets exceed 4 GiB and for any number of entries (only a last checkpoint group of at most two deltas is stored empty, as the original format has it).",
 ["schedules", "inputs", "configurations"], "every id, k, entry count, start offset of the tables (beyond 32 bits included) and interleaving of the writer threads",
 NOFULL + "File offsets of real plots (100 GiB) are never reached by any test.",
 ["include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/encoding.hpp", "include/chia/util.hpp"],
 [("header, pointer, park and checkpoint writers", "phase3::WriteHeader/WritePark/compute_stage2, phase4::compute"), ("positioned writes", "util.hpp fwrite_at")],
 ["bytes of the plot file after the run"])
prop("C03", "The plot does not depend on resources or on the schedule",
 "Two runs with the same k, id and keys produce the same plot whatever the number of threads, buckets, buffer sizes, choice of directories or thread schedule; only the order of entries with the same final output value may differ.",
 ["schedules", "configurations"], "every pair of configurations (threads, -u, -v, -K, chunk sizes, directories, direct output) and schedules",
 NOFULL + "It relates two whole executions.",
 ["include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/DiskSort.hpp", "src/chia_plot.cpp"],
 [("order-restoring pipelines", "include/chia/ThreadPool.h"), ("position remapping", "phase2.hpp, phase3.hpp")],
 ["published plot bytes of two runs, entries with equal output value put in canonical order"])
prop("C04", "External sort returns every entry once, in key order, with right offsets",
 "Without failing operations, whatever entries are added, from however many threads, the external sort completes and hands them out exactly once each, bit for bit unchanged, in ascending key order, and tells each consumer block the true position of its first entry. This holds over the full value range of every stored field and for empty, skewed and oversized buckets.",
 ["schedules", "inputs", "configurations"], "every multiset of entries, entry type, key width, bucket count, buffer size, number of adding/reading threads and interleaving",
 "The existing test sorts one evenly spread data set with one small entry type, under one uncontrolled schedule, and does not check offsets or fields outside the key.",
 ["include/chia/DiskSort.h", "include/chia/DiskSort.hpp", "include/chia/phase1.h", "include/chia/phase2.h", "include/chia/phase3.h", "include/chia/buffer.h"],
 [("bucket files with per-bucket locks, write caches flushed on finish", "include/chia/DiskSort.hpp"), ("packed on-disk entries", "phase1.h/phase2.h/phase3.h")],
 ["blocks delivered to the consumer of a sort"])
prop("C05", "A table file reads back exactly what was written, in order",
 "Without failing operations, entries written to a temporary table come back unchanged, in order, exactly once, with the position of each block stated correctly, for any number of parallel readers and any block size. Tables larger than 4 GiB are no exception.",
 ["schedules", "inputs", "configurations"], "every table length, entry type, reader count, block size and interleaving; files beyond 32-bit offsets",
 "No test covers table files; sizes beyond 4 GiB are out of reach of a unit test.",
 ["include/chia/DiskTable.h", "include/chia/buffer.h", "include/chia/phase1.h"],
 [("positioned parallel block reads, ordered output", "include/chia/DiskTable.h read/read_block")],
 ["blocks delivered to the consumer of a table read", "bytes of the table file"])
prop("C06", "Pipeline stages process every item once, in order, before close returns",
 "Every item handed to a worker or worker pool is processed exactly once; a pool hands results on in the order the items were submitted although they are computed in parallel; waiting returns only after all submitted work, including its delivery downstream, has finished. A failing item is reported to the caller and never silently dropped.",
 ["schedules", "inputs", "fault_sequences"], "every pipeline shape, pool size, item count, processing time, producer count, spurious wake-up and interleaving; an exception in any one item",
 "The tests use the pools only inside one sort run under one uncontrolled schedule.",
 ["include/chia/Thread.h", "include/chia/ThreadPool.h"],
 [("mutex/condition hand-over", "include/chia/Thread.h take/wait/close/loop"), ("job tickets", "include/chia/ThreadPool.h wrapper")],
 ["calls made to the processing functions and to the downstream consumer"])
prop("C07", "Plotting always finishes when nothing fails",
 "Without faults and with enough disk space, a run for any supported number of threads and buckets terminates with exit status 0 and its plot in place: no schedule leads to a deadlock, an endless wait or a spurious failure.",
 ["schedules", "configurations"], "every fair schedule, including spurious wake-ups and arbitrary stalls of single threads",
 NOFULL + "Deadlocks and lost wake-ups need specific interleavings.",
 ["include/chia/Thread.h", "include/chia/ThreadPool.h", "include/chia/phase3.hpp", "include/chia/DiskSort.hpp", "src/chia_plot.cpp"],
 [("wait/notify protocols", "Thread.h, ThreadPool.h"), ("two-sided merge with shared buffers", "phase3.hpp compute_stage1")],
 ["exit status, wait graph when no thread can run, published files"])
prop("C08", "A failed disk operation never yields a bad plot or a success status",
 "If any file operation on a temporary, stage or final directory fails or is cut short (I/O error, full disk, lost data reported at close), the run never leaves a wrong or incomplete file under the final .plot name and never reports success without having delivered every requested plot.",
 ["fault_sequences", "schedules"], "every failing operation, error code, position and persistence of the fault, under every schedule",
 "No test injects an I/O error.",
 ["include/chia/DiskSort.hpp", "include/chia/DiskTable.h", "include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/util.hpp", "include/chia/copy.h", "src/chia_plot.cpp"],
 [("checked stdio calls that throw", "util.hpp fwrite_ex/fwrite_at/fseek_set, DiskSort.hpp, DiskTable.h"), ("publish by rename at the end", "phase4.hpp compute")],
 ["files named *.plot and exit status after the run"])
prop("C09", "A failure ends the run promptly instead of hanging it",
 "When an I/O operation, a thread creation or a memory allocation fails during plotting, the process ends with a failure status within a bounded number of further steps; it never hangs waiting for work that will not come.",
 ["fault_sequences", "schedules"], "every failing call in every phase and every schedule around it",
 "No test injects failures; hangs depend on which threads wait at the moment of the failure.",
 ["include/chia/Thread.h", "include/chia/ThreadPool.h", "include/chia/phase3.hpp", "include/chia/DiskSort.hpp"],
 [("exception capture and rethrow", "Thread.h loop/wait, ThreadPool.h wrapper")],
 ["end of the process: exit status, or the wait graph when all threads block"])
prop("C10", "A crash at any instant leaves no incomplete .plot file",
 "If the process is killed at any instant (the machine itself staying up), every file with the final .plot name, in any directory, is complete and correct, and a plot that was complete before stays available. Leftover temporary files do not prevent or corrupt a later run of the same command.",
 ["crash_points", "schedules", "histories"], "every crash point between two effects on the disk, in every phase and during the copy, followed by a restart",
 "No test kills the program.",
 ["include/chia/phase4.hpp", "include/chia/phase3.hpp", "include/chia/copy.h", "src/chia_plot.cpp"],
 [(".plot.tmp while in progress, rename when complete", "phase3.hpp/phase4.hpp compute"), ("copy to .tmp, then rename", "copy.h final_copy")],
 ["durable file state at the crash point; result of the following run"])
prop("C11", "Moving a plot to its final directory never loses or damages it",
 "At every instant of the move of a finished plot to another directory, also across crashes and failing operations, a complete copy of the plot exists; the source is removed only when the complete plot is in place, and a file under the final name is always complete.",
 ["crash_points", "fault_sequences", "schedules"], "every failing or partially executed file operation of the move, every crash point, same and different file systems",
 "The existing test copies one small file successfully.",
 ["include/chia/copy.h", "src/chia_plot.cpp"],
 [("copy to temporary name, rename, remove source", "copy.h final_copy/copy_file"), ("retry loop", "chia_plot.cpp copy thread")],
 ["file system state after every single operation"])
prop("C12", "A failed copy is retried until the plot is delivered",
 "If the final directory is temporarily unavailable, full or failing, the next plot is made meanwhile and the copy is retried; once the directory works again, every finished plot arrives there within about an hour and the process ends successfully.",
 ["fault_sequences", "histories", "schedules"], "every outage pattern of the final directory that ends",
 "The retry interval is minutes and needs an injected outage.",
 ["src/chia_plot.cpp", "include/chia/copy.h"],
 [("retry loop with pause", "chia_plot.cpp copy thread"), ("wait for the copy thread at the end", "Thread.h close")],
 ["simulated time of delivery after the outage, exit status, files in the final directory"])
prop("C13", "Exactly the requested number of plots; interrupts stop cleanly",
 "A run makes exactly the requested number of plots. With more than one plot requested, a first interrupt (SIGINT or SIGTERM) lets the current plot be finished and delivered before a successful exit without starting another, and a second interrupt within a second ends the process at once with a failure status; a clock that is set forward or back meanwhile changes none of this.",
 ["histories", "schedules", "fault_sequences"], "every count (also unlimited), every arrival time and sequence of SIGINT/SIGTERM, every jump of the wall clock",
 "No test runs the program or sends signals.",
 ["src/chia_plot.cpp"],
 [("signal handler and flag checked per plot", "chia_plot.cpp interrupt_handler/main")],
 ["number of plots delivered, exit status, time from signal to exit"])
prop("C14", "A run leaves nothing behind but its plots and touches nothing else",
 "After a successful run the given directories contain the requested plots and otherwise exactly the files that were there before, unchanged; nothing is ever created or removed outside these directories.",
 ["schedules", "configurations", "histories"], "every option combination, pre-existing files and schedule",
 "No test runs the program; leftovers depend on every phase cleaning up after itself.",
 ["include/chia/DiskSort.hpp", "include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "src/chia_plot.cpp"],
 [("bucket files removed when read, tables removed when consumed", "DiskSort.hpp, phase2.hpp, phase3.hpp")],
 ["directory listing and contents after exit; every path ever opened"])
prop("C15", "Temporary space stays within the documented share per directory",
 "Peak use of the two temporary directories stays within the documented proportions of the plot size (220 GiB and 110 GiB, together under 256 GiB, for k32, that is 55, 27.5 and 64 bytes per table entry), because every intermediate file is deleted as soon as it has been consumed, in whatever order the threads run.",
 ["schedules", "configurations"], "every schedule, thread and bucket count",
 NOFULL + "Space is released by code paths no test observes.",
 ["include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/DiskSort.hpp"],
 [("delete-after-read", "DiskSort.hpp read_bucket, phase2.hpp/phase3.hpp remove()")],
 ["bytes in use per directory after every operation"])
prop("C16", "A run that passes the start-up check never exceeds the open-file limit",
 "Once the program has checked at start-up that it can open enough files, plotting never needs more open files than that, for any number of threads and buckets; every file opened is closed again, so that this stays true for any number of plots in one run.",
 ["configurations", "schedules", "histories"], "every thread/bucket configuration, plot count and schedule",
 "No test runs the program, let alone with a tight limit or many threads.",
 ["src/chia_plot.cpp", "include/chia/DiskSort.hpp", "include/chia/DiskTable.h"],
 [("start-up open test and rlimit", "chia_plot.cpp main"), ("files closed by owners", "DiskSort.hpp, DiskTable.h")],
 ["number of simultaneously open files, EMFILE never hit after start-up"])
prop("C17", "Pruning keeps exactly the entries that a final proof uses",
 "Without failing operations the second phase completes and keeps an entry if and only if some surviving entry of the next table refers to it, and rewrites every reference so that it denotes the same entry in the pruned table, without ever changing the order of entries. This holds at any table position, also close to the largest representable one.",
 ["schedules", "inputs", "configurations"], "every table content and size, reference distance, thread count, block size and interleaving of the marking threads",
 "No test checks phase 2 results; real table sizes (2^32 entries) are out of reach.",
 ["include/chia/phase2.hpp", "include/chia/bitfield.hpp", "include/chia/bitfield_index.hpp"],
 [("concurrent atomic bitfield", "bitfield.hpp set"), ("rank index", "bitfield_index.hpp lookup"), ("ordered numbering", "phase2.hpp compute_table")],
 ["tables and sorts produced by phase 2"])
prop("C18", "Directory options put files where the user asked",
 "Temporary data goes only to the two temporary directories, swapped for every plot if alternation is requested; the plot is written in the stage directory (default: first temporary directory) or straight to the final directory if direct output is requested, and ends up in the final directory. With wait-for-copy, the next plot starts only after the previous one has been delivered.",
 ["configurations", "schedules", "histories"], "every combination of -t -2 -d -s -w -G -D -n and the schedule of plotting and copying",
 "No test runs the program.",
 ["src/chia_plot.cpp", "include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp"],
 [("directory selection and copy hand-over", "chia_plot.cpp main")],
 ["directory of every file created, order of file events"])
prop("C19", "Work in flight between pipeline stages is bounded",
 "A fast producer is held back by a slow consumer: the number of items accepted by a worker or pool and not yet processed never exceeds its number of threads, and the data an external sort reads ahead of its consumer is a bounded number of buckets, whatever the relative speeds.",
 ["schedules", "configurations"], "every producer/consumer speed ratio, pool size and schedule",
 "Needs a stalled consumer under a chosen schedule and a count of outstanding items.",
 ["include/chia/Thread.h", "include/chia/ThreadPool.h"],
 [("no triple buffering", "Thread.h take"), ("wait before hand-over", "ThreadPool.h take")],
 ["items submitted minus items processed at every instant"])
prop("C20", "Unusable parameters are refused before plotting, usable ones are obeyed",
 "Out-of-range k, thread and bucket numbers, keys, ids and contract addresses of wrong form, contradictory options, missing or unwritable directories and an open-file limit too small for the buckets are refused with a failure status before any plotting starts. Usable parameters are accepted, and the number of threads and buckets used are the ones given (buckets rounded to a power of two).",
 ["inputs", "configurations", "fault_sequences"], "every argument vector, state of the directories and open-file limit",
 "No test runs the program; refusal depends on the state of directories and limits at start-up.",
 ["src/chia_plot.cpp"], [("checks in main", "src/chia_plot.cpp main")], ["exit status, whether plotting was started, parameters the phases run with"])
prop("C21", "Line-point and entropy coding are lossless, also when many threads code at once",
 "Encoding two different positions or a sequence of deltas and decoding it again, with the program's own decoder or any conforming one, gives the original values, however many threads encode and decode at the same time with the coding tables they share, whichever of them comes first.",
 ["schedules", "inputs"], "every schedule of threads that share the coding tables, every pair below 2^k and every sequence of deltas the code can represent",
 "The FSE fuzzers sample the compressor from one thread with tables of their own; nothing tests the shared memo or the line points.",
 ["include/chia/encoding.hpp", "lib/FSE/lib"], [("line point bijection, tANS coder, memo of coding tables", "encoding.hpp Encoding, TMemoCache")], ["decoded values"])
prop("C22", "Every plot is bound to the given keys and to a fresh secret of its own",
 "The memo of every plot holds the pool key or contract puzzle hash and the farmer key given plus the plot's own secret key; plot id and file name follow from exactly these by the chia key scheme. No two plots of one or several runs share a secret key or an id.",
 ["histories", "configurations", "inputs"], "every key pair or contract address, number of plots, -Z and port option, and repetition of the run",
 "No test runs the program; uniqueness is a statement about whole histories of plots.",
 ["src/chia_plot.cpp", "include/chia/util.hpp"],
 [("key derivation and id hash", "chia_plot.cpp create_plot"), ("random seed from the operating system", "chia_plot.cpp create_plot, randombytes_buf")],
 ["id, memo and name of every plot made"])
prop("C23", "Plotters sharing directories do not disturb one another",
 "Several plotters may use the same temporary, stage and final directories at the same time for different plots (different id or k): at whatever point one of them is, another that starts, plots, copies or finishes never changes, replaces or removes any of its temporary files, unfinished plots or plots, and still delivers its own.",
 ["histories", "schedules", "configurations"], "every progress state of one plotter, every pair of ids (however similar) and directory options of the two, every schedule",
 "No test runs the program, let alone twice; only file names that hold the whole identity of a plot keep them apart.",
 ["src/chia_plot.cpp", "include/chia/phase1.hpp", "include/chia/phase2.hpp", "include/chia/phase3.hpp", "include/chia/phase4.hpp", "include/chia/copy.h", "include/chia/DiskSort.hpp"],
 [("plot name in every temporary file name", "chia_plot.cpp create_plot, phase1..4 compute"), ("copy under a name of its own", "copy.h final_copy")],
 ["contents of all directories before and after the run of the other plotter"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
for p in P: assert len(p["title"]) <= 80, p["title"]
