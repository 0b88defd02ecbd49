# What run.py builds and runs per property, and what goes into MANIFEST.json (gen_manifest.py).
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fsanitize=address"]
FLAVOURS = {
    "asan": {"cxx": ASAN, "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "ld": ["-fsanitize=address"]},
    "asan0": {"cxx": ["-O0", "-g0", "-fsanitize=address"], "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "ld": ["-fsanitize=address"]},
    "ubsan": {"cxx": ASAN + ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"], "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "ld": ["-fsanitize=address,undefined"]},
    "ubsan0": {"cxx": ["-O0", "-g0", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"], "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "ld": ["-fsanitize=undefined"]},
    "plain": {"cxx": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "ld": []},
    # compiled with tsan instrumentation, linked with our own runtime (mc/sched.cpp)
    "sched": {"cxx": ["-O1", "-g", "-U_FORTIFY_SOURCE", "-fsanitize=thread"], "cxx_plain": ["-O1", "-g", "-U_FORTIFY_SOURCE"], "plain": ["sched.cpp", "simfs.cpp"], "ld": ["-rdynamic"], "libs": ["-ldl"]},
}
CHECKS = {}
def check(id, src, technique, note, bounds, variants=None, **kw):
    CHECKS[id] = dict(src=src, technique=technique, level_note=note, bounds=bounds, variants=variants or [{"name": "std"}], **kw)

check("C06", ["checks/c06_token.cpp"],
      "exhaustive enumeration of operation sequences on the real class against a reference state machine",
      "Complete for all histories up to the depth bound over two sources and four tokens; trusts the harness's reference machine.",
      {"quick": "all sequences of 7 operations (12 operation kinds) over 2 sources, up to 4 tokens", "thorough": "all sequences of 8 operations"})
SCHED = ["mc/sched.cpp", "mc/simfs.cpp"]
def sched_check(id, src, prop, *a, **kw):
    check(id, [src] + SCHED, *a, variants=[{"name": "sched", "flavour": "sched"}], defs=["ASIOEXT_STANDALONE"] + (["PROP=%d" % prop] if prop else []), **kw)
_sn = " Scheduling points: mutex operations, condition waits, thread start/exit, system calls (coarse runs: without uncontended mutexes); preemption bounded, so a bug needing more preemptions is missed. Sequentially consistent memory plus a happens-before race detector on every schedule."
sched_check("C01", "checks/c01_async.cpp", 0,
      "systematic enumeration of thread schedules (preemption bounded) and system call answers on the real service under a controlled scheduler, with a happens-before race detector",
      "Complete for the listed programs within the preemption/fault bound." + _sn,
      {"quick": "6 program families (12 buffer sequences of 0-80 buffers in 3 containers that go away, throwing handlers; single operations on 6 executor kinds, two operations, two contexts, chains in handlers, two initiating threads), 1-2 pool threads, 4 operation kinds, offsets below and above 4 GiB, 5 answers; <=2 preemptions or faults", "thorough": "<=3"})
sched_check("C02", "checks/c02_cancel.cpp", 2,
      "systematic enumeration of thread schedules (preemption bounded) and cancel positions on the real service under a controlled scheduler",
      "Complete for the listed programs within the preemption bound; an access begins when the pool thread enters the read/write system call." + _sn,
      {"quick": "all programs of <=4 steps (start/cancel on 2 files, <=3 starts, <=2 cancels), 1-2 pool threads, every access succeeding, failing or transferring nothing, cancelling in a handler; <=2 preemptions (coarse, 3 for the handler programs) or 1-2 with every mutex operation", "thorough": "<=5 steps, all 4 operation kinds, <=3 preemptions (2 with every mutex operation)"})
sched_check("C03", "checks/c02_cancel.cpp", 3,
      "systematic enumeration of thread schedules (preemption bounded) and close/destroy/assign/reopen programs on the real service under a controlled scheduler",
      "Complete for the listed programs within the preemption bound; an access begins when the pool thread enters the read/write system call." + _sn,
      {"quick": "6 ways to close x 5 ways to open another file with the same descriptor (one of them by another thread as soon as it is free), <=2 operations, 1-2 pool threads; <=2 preemptions (1 with every mutex operation)", "thorough": "all 4 operation kinds, <=3 preemptions (2 with every mutex operation)"})
sched_check("C04", "checks/c04_move.cpp", 0,
      "exhaustive enumeration of operation sequences over several file objects on the real service (pool threads advanced by explicit steps of the sequence) against a reference model of ownership",
      "Complete for all sequences up to the depth; every sequence is followed by a fixed epilogue using, cancelling, closing, reopening and destroying every object. Pool threads only run at explicit steps: interleavings are C01-C03's and C05's business.",
      {"quick": "all sequences of 6 steps (12 kinds of steps over 3 files and 2 contexts; 5 for a plain executor type), 8 with state pruning", "thorough": "7 steps (6 for the plain executor type), 9 with pruning"})
sched_check("C05", "checks/c05_shutdown.cpp", 0,
      "systematic enumeration of thread schedules (preemption bounded) of context shutdown and concurrent file lifetimes on the real service under a controlled scheduler, with a happens-before race detector and use-after-free detection",
      "Complete for the listed programs within the preemption bound. The context of the handlers' executor outlives the file's context (destroying it first is the program's error)." + _sn,
      {"quick": "shutdown: 1-2 pool threads, 1-2 operations, 1-2 files owned by a variable, a handler, both handlers or a queued function, 4 executor kinds, 0-2 handlers run before or a thread running the context, cancel/close before; <=2 preemptions (1 with every mutex operation). Concurrent: all pairs (<=2 preemptions) and triples (1) of 6 thread programs on one context", "thorough": "one preemption more everywhere"})
check("C13", ["checks/c13_linear.cpp"],
      "exhaustive enumeration of operation sequences (with allocation failures) on the real buffer against a byte-vector model, under AddressSanitizer",
      "Complete for all histories up to the depth over the listed positions, lengths and maximum sizes; trusts ASan and the harness's model.",
      {"quick": "3 operations unpruned, 8 with state pruning, all positions, lengths {0,1,2,3,4,SIZE_MAX}, maximum sizes {0,1,3,4,7,unlimited}, <=1 allocation failure; 2 operations on buffers of 127..4096 bytes", "thorough": "3 operations unpruned, 12 pruned"})
check("C14", ["checks/c14_copymove.cpp"],
      "exhaustive enumeration of copy/move/assign histories of the real buffer for all allocator trait combinations, with a ledger allocator and failing allocations",
      "Complete for all histories up to the depth over three buffers; trusts the ledger allocator and ASan.",
      {"quick": "3 operations over 3 buffers unpruned, 5 with state pruning, 8 trait combinations + always-equal ones, equal and unequal allocators, <=1 allocation failure", "thorough": "4 operations unpruned, 6 pruned"})
check("C15", ["checks/c15_dynbuf.cpp"],
      "exhaustive enumeration of dynamic-buffer operation sequences and stream chunkings on the real adaptor against a reference model",
      "Complete up to the depth over the listed arguments; operations the dynamic buffer requirements forbid (commit without a fresh prepare, mixing both versions) are not generated.",
      {"quick": "2 operations unpruned, 5 with state pruning, arguments {0,1,2,4,room,room+1,size±1,SIZE_MAX and near}, 3 initial sizes x 6 x 3 maxima; all chunkings of <=6 bytes; 2 operations with sizes of 127..70000 bytes; with and without support for the first version of the requirements", "thorough": "3 operations unpruned, 8 pruned"},
      variants=[{"name": "std"}, {"name": "v2only", "defs": ["ASIOEXT_STANDALONE", "ASIO_NO_DYNAMIC_BUFFER_V1"], "noboost": True}])
check("C07", ["checks/c07_handle.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of system-call answers and buffer layouts under the real handle types, on simulated files bound to the kernel by replay",
      "Complete for the listed layouts, offsets and answer sequences; trusts the simulated files, which every run compares with the kernel on all fault-free cases.",
      {"quick": "4 operations x 3 handle types x 85 layouts (and 63..70 buffers) x 6 offsets x all answers (<=2 interruptions, 6 errors, every short count) x throwing/error-code x stale error; closes with 4 answers; buffers of 64 KiB..2^62 bytes and runs of up to 1000 interruptions; with and without vectored positioned system calls", "thorough": "same, kernel conformance for pairs of operations"},
      variants=[{"name": "std"}, {"name": "nopvec", "defs": ["ASIOEXT_STANDALONE", "__MACH__"], "noboost": True}])
check("C08", ["checks/c08_whole.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of system-call answers (short, interrupted and failing calls, files changing size) under the real whole-file functions, on simulated files",
      "Complete for the listed contents, containers and buffer layouts; success is only accepted with a content the file had at some point during the call. The simulated files are compared with the kernel by C07 and, for fault-free runs, here.",
      {"quick": "5 container types x contents of 0-3 bytes x all answers (<=1 interruption, one size change before any call, every short count), 19 buffer layouts (also 66 buffers) x all answers for fixed reads and writes over 4 old contents, by name and by handle, throwing and error-code forms; contents of 255..131073 bytes with one disturbed call or 120 interruptions, sparse files of 2^31..2^63-1 bytes into containers limited to 64 KiB", "thorough": "contents of 0-5 bytes, <=2 interruptions"})
check("C09", ["checks/c09_owner.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of ownership histories with failing closes on the real owning handles against a reference model, on simulated files",
      "Complete for all histories up to the depth over two owning handles; every history ends with the destruction of all objects and a ledger of every descriptor's closes. The simulated files are compared with the kernel by C07.",
      {"quick": "4 operations unpruned, 6 with state pruning over 2 owning handles, every close succeeding or failing (<=2 failures)", "thorough": "5 operations unpruned, 8 pruned; additionally 4/8 over 3 owning handles"},
      variants=[{"name": "std"}, {"name": "three", "defs": ["ASIOEXT_STANDALONE", "SLOTS=3"], "tiers": ["thorough"]}])
check("C10", ["checks/c10_open.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of open flag combinations x initial path states x permissions x umasks through the real open functions against the documented behaviour, on simulated files bound to the kernel by replay",
      "Complete for all flag combinations and the listed path states; the simulated answers are compared with the kernel (as an unprivileged caller would see them) on scratch files.",
      {"quick": "all combinations of the open flags x path states x permissions x umasks, 3 ways to open, <=2 failing opens, 1, 2 or 121 interruptions", "thorough": "same"})
check("C11", ["checks/c11_meta.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of operation sequences and arguments on the real handle types against a reference file, on simulated files bound to the kernel by replay",
      "Complete for all sequences up to the depth over the listed offsets and sizes, and all permission values; the simulated files are compared with the kernel.",
      {"quick": "3 operations unpruned, 6 with state pruning, 3 handle types; 24 current permissions x 4096 requested x 4 modes; boundary times, set with futimens and (in microseconds) with futimes; file attributes (code for BSD and macOS with stand-ins for fchflags and st_flags): 512 sets x 40 current ones x 5 operations x 3 handle types x a failing call, opening with attributes", "thorough": "4 operations unpruned, 8 pruned"},
      variants=[{"name": "std"}, {"name": "futimes", "defs": ["ASIOEXT_STANDALONE", "ASIOEXT_DISABLE_FUTIMENS"], "noboost": True},
                {"name": "attrs", "src": ["checks/c11_attrs.cpp"], "noboost": True}])
check("C12", ["checks/c12_chrono.cpp"],
      "exhaustive enumeration of input values (all 8/16-bit values, all boundary values of wider types) for the real conversion templates against 128-bit arithmetic",
      "Complete for 8- and 16-bit representations of the listed type combinations; for 32/64-bit ones all values around every power of two and every limit quotient. Trusts __int128 arithmetic and UBSan.",
      {"quick": "576 cast type combinations, 20 split/compose type triples", "thorough": "same"},
      variants=[{"name": "ubsan", "flavour": "ubsan0"}])
check("C16", ["checks/c16_unique_handler.cpp"],
      "exhaustive enumeration of wrapper histories with re-entrant, throwing and allocating handlers on the real unique_handler",
      "Complete up to the depth over two wrappers, 7 kinds of handler behaviour on invocation and 3 on destruction, at most one injected exception; a handler move out of the wrapper is assumed not to throw (asio handler requirement).",
      {"quick": "2 operations over 2 wrappers unpruned, 4 with state pruning, <=1 throwing allocation or move", "thorough": "3 unpruned, 5 pruned"})
check("C17", ["checks/c17_compose.cpp"],
      "exhaustive enumeration of wrapper nestings and completion paths on the real templates, with executors that count outstanding work",
      "Complete for all nestings up to the depth and all completion paths up to 3 implementation steps; values are strings and integers.",
      {"quick": "nesting depth 2 of 6 wrapper kinds over 4 handler kinds, all completion paths", "thorough": "additionally depth 3"},
      variants=[{"name": "plain", "flavour": "asan0", "defs": ["ASIOEXT_STANDALONE", "PART=0"]}, {"name": "both", "flavour": "asan0", "defs": ["ASIOEXT_STANDALONE", "PART=1"]},
                {"name": "deep", "flavour": "asan0", "defs": ["ASIOEXT_STANDALONE", "PART=2"], "tiers": ["thorough"]}])
check("C21", ["checks/c21_url.cpp"],
      "exhaustive enumeration of input strings through the real parser, compared with an independent reference splitter, under AddressSanitizer",
      "Complete for all strings up to the stated lengths; acceptance is only demanded for a conservative grammar, refusal only for inputs RFC 3986 and the header comments rule out.",
      {"quick": "all strings of <=5 letters over a 12-letter alphabet (also behind 4 prefixes), <=8 over a:/?#@, IP literals <=5 behind 5 prefixes, all ports 0..129999 in 4 widths, all 256 byte values at every position of 11 templates, pairs of 43 bytes at every pair of positions; components of 46 lengths up to 131073 bytes, alone and with a second long one, in 32 forms",
       "thorough": "one letter more everywhere"})
for _p, _t, _b, _n in (
    ("18", "exhaustive enumeration of server replies and request arguments against the real client and an independent encoder", "all 256x256 reply bytes (version x status/method, address type x length), all argument lengths 0..259, 3 commands, 9 ports, all byte values at every address position, buffers limited to 0..299 bytes with replies of 0..262 bytes", "Complete over the listed reply bytes and argument lengths; zero-length method lists, user names and passwords may be sent or refused."),
    ("19", "exhaustive enumeration of server replies and request arguments against the real client and an independent encoder", "all 256x256 version/status bytes, every value of every other reply byte, host lengths 0..299, 10 user id lengths, 9 ports, all byte values at every address position, buffers limited to 0..39 bytes", "Complete over the listed reply bytes and argument lengths."),
    ("20", "exhaustive enumeration of stream chunkings and stream faults under the real client", "14 programs (8 single operations, 2 conversations, 3 rejections, refused arguments), a failure at every stream call, all chunkings with state pruning, all with up to 3 short transfers unpruned; two clients at once (9 x 9 operations, <=2 short transfers or switches between their handlers)", "Complete for the listed programs; state pruning identifies executions with the same stream positions.")):
    check("C" + _p, ["checks/socks.cpp"], _t, _n, {"quick": _b, "thorough": _b.replace("up to 3", "up to 4")}, defs=["ASIOEXT_STANDALONE", "PROP=" + _p])
check("C22", ["checks/c22_connect.cpp"],
      "exhaustive enumeration of resolver answers and connection attempt outcomes under the real connect functions, resolver and connection system calls replaced",
      "Complete for the listed endpoint lists and outcomes. asio's resolver and reactor run unmodified; its resolver thread is not scheduled (it only waits).",
      {"quick": "5 resolver answers, 0-3 endpoints of 4 kinds (v4, v6, repeated, all-zero) x 8 outcomes per attempt, 5-65 endpoints x 4 winning positions, socket open before or not, a second call on the same socket (1st <= 1, 2nd <= 2 endpoints), throwing, error-code, callback (2 executors, 2 socket types) and future forms", "thorough": "flags and unknown families for all lists, second call after every first call"},
      variants=[{"name": "std", "libs": ["-ldl"]}])
check("C23", ["checks/c23_buffered.cpp"],
      "exhaustive enumeration of operation sequences and stream answers on the real buffered_stream against a reference queue, under AddressSanitizer",
      "Complete for all histories up to the depth over a scripted stream; handlers run at explicit steps.",
      {"quick": "4 operations unpruned, 8 with state pruning (10 kinds: put, flush, async_flush, stream answer, run handlers, fill, async_fill, close/reopen, consume, chained flush), every short count, 2 errors, limited and unlimited buffers; 3 operations with 1..140000 bytes at a time", "thorough": "5 unpruned, 10 pruned, 5 large"})
check("C24", ["checks/c24_overloads.cpp", "mc/simfs.cpp"],
      "exhaustive enumeration of operations x arguments x system-call answers, each run in all overload forms on identical simulated worlds and compared",
      "Complete for the listed operations, arguments and up to two misbehaving system calls; asynchronous operations, connect() and SOCKS are C01's, C22's and C18-C20's business.",
      {"quick": "19 operations x 3 handle types x 4 object states, reset/open/cancel/assign/constructors/duplicate/read_file/write_file/standard streams/url_view/prepare; call 0-7 fails (7 errors), is short or empty, a second failure for interrupted calls and whole-file functions; clean, stale, throwing and (for names) C string form", "thorough": "call 0-11, second failure everywhere"},
      variants=[{"name": "standalone"}, {"name": "boost_paths", "defs": ["MC_BOOST_PATHS"], "libs": ["-lboost_filesystem"]}])
check("C25", ["checks/c25_tokens.cpp"],
      "exhaustive enumeration of operations x completion tokens x answers, each sequence also run with plain callbacks on an identical world and compared, under AddressSanitizer",
      "Complete for the listed operations, tokens and answers. Pool and resolver threads are real and joined or waited for, not scheduled (their interleavings are C01-C05's business).",
      {"quick": "sequences of <=2 operations (4 file operations, flush/fill, 6 SOCKS exchanges, connect) x 14 tokens (+ deferred for connect) x 4-6 answers; context destroyed with one outstanding; 6 events on the file between creating and awaiting", "thorough": "also sequences of 3 operations (the first and last successful, the first with 4 tokens)"},
      variants=[{"name": "files", "src": ["checks/c25_tokens.cpp", "mc/simfs.cpp"], "defs": ["PART=0"], "flavour": "asan0"}, {"name": "connect", "defs": ["PART=1"], "libs": ["-ldl"], "flavour": "asan0"},
                {"name": "streams", "defs": ["PART=2"], "flavour": "asan0"}, {"name": "socks", "defs": ["PART=3"], "flavour": "asan0"}])
check("C26", ["checks/c26_oom.cpp"],
      "exhaustive enumeration of the failing allocation in every operation x object state x completion token on the real code, with allocation, handle and handler ledgers, under AddressSanitizer",
      "Complete for the listed operations: every allocation made by the calling thread (and in io_context::run()) fails once. Allocations of pool and resolver threads don't fail (asio would terminate), neither do those of noexcept functions (the program would).",
      {"quick": "6 file constructors, move assignment (2 contexts, open/closed/pending/moved-from), 4 file operations x 4 tokens, whole-file functions, flush/fill, 6 SOCKS exchanges, connect (4 outcomes), cancellation sources, handlers; 1 failure", "thorough": "2 failures in different calls"},
      variants=[{"name": "std", "src": ["checks/c26_oom.cpp", "mc/simfs.cpp"], "defs": ["PART=0"], "flavour": "asan0"}, {"name": "connect", "defs": ["PART=1"], "libs": ["-ldl"], "flavour": "asan0"}])
check("C27", ["checks/c27_flags.cpp", "checks/c27_unit.cpp"],
      "exhaustive enumeration of all pairs of flag values and of error values through the real operators and error categories",
      "Complete for every pair of declared flag values; error values outside -512..511 only at the extremes of int and around powers of two.",
      {"quick": "5 flag enumerations (2^3 to 2^12 values, all pairs, 7 operators), all named values, 2 error categories x 1048 values x 3 ways to raise, codes made by two translation units and two threads", "thorough": "same"})

# The library compiled on its own instead of header-only.
LIB = {"C21", "C24", "C27"}
for _id in LIB:
    _c = CHECKS[_id]; _v = _c["variants"][0]
    _c["variants"].insert(1, dict(_v, name=_v["name"] + "-lib", lib=True, **({} if _id == "C27" else {"noboost": True, "tiers": ["quick", "thorough"]})))
    _c["bounds"]["quick"] += "; header-only and compiled as a library"

# The other flavour of the library: the same harnesses built with Boost.Asio.
BOOST_QUICK = {"C01", "C08", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C27"} # those with code of their own for each
for _id, _c in CHECKS.items():
    _new = []
    for _v in _c["variants"]:
        if "tiers" in _v or "noboost" in _v: continue
        _b = dict(_v, name=_v["name"] + "-boost", boost=True)
        if _id not in BOOST_QUICK: _b["tiers"] = ["thorough"]
        _new.append(_b)
    _c["variants"] = _c["variants"] + _new
    _q = _c["bounds"]["quick"]
    if _id in BOOST_QUICK: _c["bounds"]["quick"] = _q + "; with Asio and with Boost.Asio"
    else: _c["bounds"]["thorough"] += "; with Asio and (bounds of the quick tier) with Boost.Asio"
