import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
X="src/x86/linux/init.c";A="src/arm/linux/init.c";R="src/riscv/linux/init.c"
INITS=[X,A,R]
p("C01","Concurrent initialization: detection runs once and every caller agrees",
 "However many threads call initialize, at whatever moments, the machine is examined by exactly one detection pass per process, every caller gets the same return value, and no caller returns before that pass has finished. A thread that has been told true sees the complete description: every count, table, element and pointer it reads already has its final value. No caller blocks forever and later calls add no work.",
 ["schedules","configurations"],"for all interleavings of any number of initialize calls and queries, on every architecture and machine shape, whether detection succeeds or fails",
 "The suite calls initialize from a single thread, once, on the host machine; no test runs two callers, so no interleaving around the once-guard, the commit block or the final flag is ever exercised.",
 ["src/init.c","src/api.c"]+INITS,
 [("one-time guard around the per-platform detection routine","src/init.c: cpuinfo_initialize"),("publish-then-flag order with a full barrier","commit block at the end of each *_linux_init")],
 [("cpuinfo_is_initialized","set last, after all tables are committed","src/api.c")],
 ["return values of cpuinfo_initialize","all getters right after a true return","number of detection passes seen at the file/CPUID seam"])
p("C02","The published description never changes and its pointers stay valid",
 "Once initialize has returned true, every query returns the same counts, the same pointers and the same contents for the rest of the process, in every thread. Nothing that happens later changes them: repeated initialize calls, deinitialize, any mix of queries, thread migration, CPU hotplug or changed files.",
 ["histories","schedules"],"for all later histories of API calls from any threads, interleaved with any environment changes",
 "Tests read each getter once or twice in one thread right after initialize; none compares contents across a history with deinitialize, re-initialize, hotplug or other threads.",
 ["src/init.c","src/api.c","src/cache.c"]+INITS,
 [("tables are written only by detection; getters are read-only","src/api.c"),("deinitialize is a no-op","src/init.c: cpuinfo_deinitialize")],
 None,["all getters, deep comparison","writes to library memory after publication"])
p("C03","After initialization queries are self-contained: no I/O, allocation or blocking",
 "After a successful initialize no query, repeated initialize or deinitialize opens, reads or writes any file, allocates or frees memory, takes a lock it could block on, prints, or re-executes hardware probes. The only system interaction ever made is asking which CPU the calling thread is on, and only by the current-processor, current-core and current-microarchitecture queries, at most once per query.",
 ["histories","configurations"],"for all sequences of public queries with any in-range, out-of-range or repeated arguments on every architecture and machine shape",
 "Tests look only at returned values; system calls and allocations made by a query are invisible to them.",
 ["src/api.c","src/init.c","include/cpuinfo.h"],
 [("getters index pre-built tables","src/api.c"),("getcpu system call only in the current-* queries","src/api.c: cpuinfo_get_current_*")],
 None,["system-call and allocator seams during queries"])
p("C04","Failed initialization is clean, final, and queries refuse to answer",
 "If detection cannot complete, initialize returns false to every caller from then on, without repeating detection, and the attempt leaves no allocated memory and no open file behind. In that state, and before any initialize call, every count, table, element and current-processor query terminates the process with a diagnostic naming the query instead of returning a value. Detection itself never crashes or terminates the process, whichever system call or allocation failed.",
 ["fault_sequences","schedules"],"for every subset of system calls, file reads and allocations that fails during detection, on every architecture and machine shape, and for any number of callers",
 "Tests never see a failing allocation, open or read; the failure and cleanup paths of the three detection routines have no coverage at all.",
 ["src/init.c","src/api.c"]+INITS+["src/linux/processors.c"],
 [("goto cleanup ladder freeing every partial table","each *_linux_init"),("initialized check plus fatal log in every getter","src/api.c")],
 None,["return values","heap and descriptor ledgers after failure","process termination from queries"])
p("C05","Detection only reads, closes every file once, and keeps no scratch memory",
 "During detection the library opens only files below /proc and /sys, read-only, and creates or modifies nothing. Every file it opened is closed exactly once by the time initialize returns and is never used after being closed, and every allocation is either released exactly once or reachable from the published description. This holds on success and failure alike, whatever errors the calls return.",
 ["fault_sequences","inputs"],"for all file contents, read fragmentations and failure points on every architecture",
 "Tests do not count descriptors or allocations and run only the error-free path of the host.",
 ["src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c","src/linux/processors.c"]+INITS,
 [("single exit with close in each file reader","src/linux/*.c cleanup labels"),("ownership transfer by nulling locals before cleanup","commit block of each *_linux_init")],
 None,["open/read/close seam","allocator ledger"])
p("C06","No file content or failure makes detection touch memory it does not own",
 "Whatever bytes the kernel files contain - truncated, garbled, huge, inconsistent with one another, or changing between reads - and whatever calls fail, detection never reads or writes outside the objects it owns, never uses released memory, and never divides by zero or otherwise traps. It ends by returning true or false, and after true every query argument, in or out of range, is answered without touching foreign memory.",
 ["inputs","fault_sequences"],"for all byte contents and interdependent combinations of the files read, all read sizes, all failure points, all CPU numbering and machine sizes",
 "Mock tests replay a fixed set of captured phones and PCs without sanitizers; no test supplies malformed or inconsistent files.",
 ["src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c","src/linux/processors.c","src/x86/linux/cpuinfo.c","src/arm/linux/cpuinfo.c","src/arm/linux/clusters.c","src/arm/linux/chipset.c","src/arm/linux/hwcap.c"]+INITS,
 [("index checks against the processor limit in every parser","src/*/linux/cpuinfo.c, src/linux/processors.c"),("bounded buffers","src/linux/*.c")],
 None,["red-zoned heap, stack and globals during simulated runs"])
p("C07","The result does not depend on how file data is split into reads",
 "For fixed file contents, initialize returns the same value and publishes an identical description however the kernel splits the data over reads: one byte at a time, in full buffers, or in any uneven chunks. The same holds for files that are longer than any internal buffer, as long as every line or list entry is of a length Linux produces.",
 ["inputs","schedules"],"for all file contents of Linux form and all partitions of them into non-empty reads, on every architecture",
 "Tests and mocks deliver each file in full reads only; the carry-over logic at buffer boundaries is reached at one fixed split per file.",
 ["src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c"],
 [("partial line/entry moved to the front of the buffer before the next read","src/linux/multiline.c, src/linux/cpulist.c"),("accumulating read loop","src/linux/smallfile.c")],
 None,["return value and full description, differential against unfragmented reads"])
p("C08","On x86 Linux the tables describe the machine's actual topology and caches",
 "On an x86 machine whose kernel files and CPUID agree with its hardware, initialize succeeds and reports exactly the logical processors that are present and online, each once, under its Linux number and APIC ID. Two processors share a core, a package, a cluster or a cache of some level in the tables if and only if they share it in the hardware (a cluster being the processors of a package that share its last-level cache), the threads of a core have distinct SMT numbers, and every cache has the geometry the hardware reports. This holds for any socket, core and thread counts, sparse or permuted CPU and APIC numbering, offline CPUs, and CPU lists and files of any length.",
 ["configurations","inputs"],"for all self-consistent x86 machines of Intel or AMD kind, up to the kernel's CPU limit",
 "Two captured x86 phones (mock) and the host are all the suite sees; multi-socket, offline CPUs, sparse numbering, long lists and large machines are never run.",
 ["src/x86/linux/init.c","src/x86/linux/cpuinfo.c","src/x86/topology.c","src/x86/cache/init.c","src/x86/cache/deterministic.c","src/linux/processors.c","src/linux/cpulist.c"],
 [("APIC-ID bit masks derived from CPUID topology leaves","src/x86/topology.c"),("sort by APIC ID then group by masked IDs","src/x86/linux/init.c")],
 None,["all getters against the simulated hardware"],
 "xgetbv executes a raw instruction; a guarded hook in src/x86/cpuid.h routes it to the simulator")
p("C09","On ARM Linux the tables describe the machine's actual processors and clusters",
 "On an ARM machine whose kernel files agree with its hardware, initialize succeeds and reports exactly the processors that are possible and present, each once, with one core per processor, and each online core with its own MIDR-derived vendor and microarchitecture. Online processors share a cluster in the tables if and only if they share one in the hardware, per-core caches belong to exactly one core, and the microarchitecture list counts every core type once with its number of processors and cores. This holds for any Linux numbering order of the clusters, sparse numbering and offline CPUs.",
 ["configurations","inputs"],"for all self-consistent 32- and 64-bit ARM machines with up to the supported number of core types and clusters",
 "The mock suite replays captured Android phones, all with contiguous numbering, every CPU online and clusters in a few fixed shapes; plain Linux detection from topology files is not run at all.",
 ["src/arm/linux/init.c","src/arm/linux/clusters.c","src/arm/linux/midr.c","src/arm/linux/cpuinfo.c","src/arm/uarch.c","src/arm/cache.c"],
 [("cluster lists from sysfs, then heuristics","src/arm/linux/init.c, src/arm/linux/clusters.c"),("sort by core strength and cluster leader","src/arm/linux/init.c")],
 None,["all getters against the simulated hardware"])
p("C10","On RISC-V Linux the tables describe the machine's actual topology",
 "On a RISC-V machine whose kernel files agree with its hardware, initialize succeeds and reports exactly the present processors, each once under its Linux number. Two processors share a core, cluster or package in the tables if and only if the kernel lists them together, and each core, cluster and package covers exactly its members. This holds for any numbering of hardware threads, interleaved clusters, sparse numbering, and whichever order an unstable sort leaves equal elements in.",
 ["configurations","inputs"],"for all self-consistent RISC-V machines, SMT or not, with any CPU numbering",
 "The RISC-V build is only compiled by the suite, never run, and has no mocks.",
 ["src/riscv/linux/init.c","src/riscv/linux/riscv-hw.c","src/riscv/uarch.c","src/linux/processors.c"],
 [("leader election from the three CPU lists, then a single pass over the sorted array","src/riscv/linux/init.c")],
 None,["all getters against the simulated hardware"])
p("C11","Whatever was detected, the published tables are mutually consistent",
 "Whenever initialize returns true, at least one processor is reported and all tables agree: every pointer in an element points to an element of the right table, each processor belongs to exactly one core, core to exactly one cluster and cluster to exactly one package, and every start/count range stays inside its table and covers exactly the elements that point back. Cache ranges, microarchitecture totals and the largest-cache value agree with the processors, and Linux CPU numbers are unique. This holds even when kernel files are missing, wrong or contradictory.",
 ["inputs","fault_sequences","configurations"],"for all file contents, however inconsistent, all CPU numberings and all failing calls that still let initialize succeed",
 "Tests check a few back-pointers on the host and on captured devices, whose files are complete and consistent.",
 INITS+["src/cache.c","src/api.c"],
 [("single counting pass then filling pass over the same sorted array","each *_linux_init")],
 None,["all getters, cross-table invariant check"])
p("C12","Same machine, same answer: the result ignores incidental process state",
 "Two processes on the same unchanged machine publish identical descriptions, whatever CPU the initializing thread happens to run on or moves between, whatever garbage heap and stack memory holds, whatever address anything is loaded at, whatever errno holds, whichever order the C library's sort leaves equal elements in, and whichever number of files descriptors or threads the process already has.",
 ["schedules","configurations"],"for all placements and migrations of the initializing thread on a machine with identical cores, all memory garbage and sort tie-breaking, on every architecture",
 "Each test process starts from fresh zeroed memory with one C library on one host and never compares two differently-placed runs.",
 INITS+["src/x86/topology.c","src/x86/init.c","src/arm/linux/chipset.c","src/riscv/linux/riscv-hw.c"],
 [("zero-initialised tables and explicit initialisation of locals","each *_linux_init"),("APIC IDs taken from the kernel file, not the executing CPU","src/x86/linux/cpuinfo.c")],
 None,["return value and full description, differential between runs"],
 "xgetbv hook as in C08")
p("C13","Current-processor queries are right while threads migrate",
 "Each current-processor, current-core and current-microarchitecture query names an element for the CPU the calling thread was on at some moment during that call, never one for a CPU seen by an earlier call or another thread. If the kernel cannot say, the processor and core queries return a null pointer, the microarchitecture query returns 0 and its with-default variant the caller's default (0 where the machine has a single microarchitecture); for a CPU that was not detected, processor and core queries return a null pointer and the microarchitecture queries 0 or the caller's default. Any microarchitecture index returned is valid and belongs to that processor.",
 ["schedules","fault_sequences"],"for all migrations between and inside queries, any number of threads, sparse CPU numbers, CPUs added after detection, and failures of the underlying system call",
 "Tests call each query once on the host and can only check that the answer is in range, because they do not know where the thread ran.",
 ["src/api.c"]+INITS,
 [("getcpu system call and CPU-number-indexed maps with range check","src/api.c: cpuinfo_get_current_*")],
 [("cpuinfo_linux_cpu_max","length of the CPU-number maps","src/api.c")],["current-* queries against the simulated scheduler's migration history"])
p("C14","A source that cannot be read is treated as absent, never as partial truth",
 "If opening or reading some kernel files fails during detection, initialize either returns false or publishes exactly the description it would publish on a machine where each of the failing files reads either completely or not at all. The same holds when the hardware-capability or per-CPU hardware queries fail, and failing allocations make initialize return false or count as such a query having failed. A transient failure thus never produces a description with processors missing, misplaced or invented relative to those outcomes.",
 ["fault_sequences"],"for every sequence of open, read, allocation and system-call failures at any point of detection, on every architecture and consistent machine",
 "No test injects a failure; mocks provide complete sets of files.",
 ["src/linux/processors.c","src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c","src/arm/linux/hwcap.c"]+INITS,
 [("boolean results of every reader checked by detection","each *_linux_init")],
 None,["return value and description, differential against runs with the failed files complete or absent"])
p("C15","CPU hotplug during detection yields an old or new view of each CPU, no mixture",
 "If CPUs are brought online, taken offline, added or removed while detection runs, initialize returns false or a consistent description in which every reported processor really was present at some moment of the run and every processor that stayed online throughout is reported. Processors that stayed online throughout keep their true grouping into cores and clusters relative to one another.",
 ["schedules","fault_sequences"],"for every placement of hotplug events between and inside the file operations of detection, on every architecture and consistent machine",
 "Hotplug needs root and real hardware and cannot be placed between two reads; no test attempts it.",
 ["src/linux/processors.c"]+INITS,
 [("present/possible lists re-read and combined by flags","src/linux/processors.c"),("limits computed once and applied to all later parsing","each *_linux_init")],
 None,["description against the history of simulated CPU states"])
p("C16","Every diagnostic is one whole line delivered by one write, or nothing",
 "Each log call emits exactly its severity prefix, its formatted text of any length and one newline, through a single write to the stream of its severity, so messages from concurrent threads never interleave, repeat or lose characters. If memory for a long message is unavailable the message is dropped whole, and write failures have no other effect. Messages below the configured level emit nothing, a fatal message always terminates the process after being emitted, and logging never leaks memory.",
 ["schedules","fault_sequences","inputs"],"for all message lengths, concurrent callers, failing or short writes and failing allocations, in both the library's logger and the bundled logging library",
 "The logging tests print short messages from one thread and check only that formatting works; lengths around the internal buffer, failures and concurrency are untested.",
 ["src/log.c","src/cpuinfo/log.h","deps/clog/src/clog.c","deps/clog/include/clog.h"],
 [("stack buffer with heap fallback and a single write","src/log.c: cpuinfo_vlog_*, deps/clog/src/clog.c: clog_vlog_*")],
 None,["write, allocation and abort seams"])
p("C17","Detection always terminates after a bounded number of operations",
 "Initialize returns after a number of file operations, system calls and allocations bounded by a small linear function of the kernel's CPU count and the size of the files, however reads are split, whatever the files contain and whatever fails. No file is polled, waited on or retried without limit, and no single loop runs for longer than that bound.",
 ["inputs","fault_sequences","schedules"],"for all finite file contents including huge numbers and reversed or overlapping ranges, all persistent and transient failures",
 "A hang shows in tests only if the host's own files provoke it.",
 ["src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c","src/linux/processors.c"]+INITS,
 [("read loops end at zero-length reads and errors","src/linux/*.c"),("ranges clamped to the processor limit","src/linux/processors.c")],
 None,["operation counter at the seams and a step budget on library code"])
p("C18","Vendor and microarchitecture follow from CPUID, MIDR or hwprobe values",
 "For every identification value a processor can report, the decoded vendor and microarchitecture are the ones its maker documents for that value.",
 ["inputs"],"for all CPUID signatures, MIDR values and RISC-V vendor/architecture ids",
 "Tests cover the signatures of the captured devices only.",
 ["src/x86/uarch.c","src/x86/vendor.c","src/arm/uarch.c","src/riscv/uarch.c"],
 [("decode switch statements","src/*/uarch.c")],None,["cpuinfo_get_uarch, cpuinfo_get_core"])
p("C19","Instruction-set flags follow from CPUID, hwcap bits and cpuinfo features",
 "For every combination of feature bits, each instruction-set query answers true exactly when the documented bits (and operating-system support bits) are set.",
 ["inputs"],"for all feature-bit combinations and known core erratum lists",
 "Tests cover the combinations of captured devices only.",
 ["src/x86/isa.c","src/arm/linux/aarch64-isa.c","src/arm/linux/aarch32-isa.c","src/riscv/linux/riscv-isa.c"],
 [("bit tests","src/*/isa.c")],None,["cpuinfo_has_*"])
p("C20","Chipset names decoded from ARM platform strings are right and well-formed",
 "For every platform string a vendor uses, the decoded chipset is the documented one, and formatting a decoded chipset gives a terminated name that fits its field.",
 ["inputs"],"for all hardware strings and chipset values",
 "Unit tests list a few hundred strings, not all prefixes and suffixes.",
 ["src/arm/linux/chipset.c","src/arm/android/properties.c"],
 [("string matchers","src/arm/linux/chipset.c")],None,["cpuinfo_get_package()->name"])
p("C21","Cache descriptors decode to the documented cache and TLB geometry",
 "For every CPUID cache descriptor or leaf-4 value, and every ARM core type and chipset, the decoded cache sizes, associativities, line sizes and set counts are the documented ones and size equals sets times ways times line size times partitions.",
 ["inputs"],"for all descriptor bytes, leaf values, core types and chipsets",
 "Tests cover the geometry of captured devices only.",
 ["src/x86/cache/descriptor.c","src/x86/cache/deterministic.c","src/arm/cache.c"],
 [("descriptor table","src/x86/cache/descriptor.c")],None,["cpuinfo_get_l1i_cache and siblings"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import re
for q in P:
    n=len(re.findall(r'[.](?= |$)',q['statement'])); assert n<=3,(q['id'],n)
print(len(P))
