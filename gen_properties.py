#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/asioext/"
p("C01","Async file operations complete exactly once, on their executor, with the true result",
 "Every asynchronous read or write started on an open file calls its completion handler exactly once, never from inside the initiating call, and only on the handler's associated executor (by default the context of the file). The error and byte count passed to the handler are those of the one read or write that was performed on the file with the given buffers and offset. Running that executor's context does not return for lack of work while such an operation is outstanding.",
 ["schedules","programs","fault_sequences"],
 "All interleavings (up to a preemption bound) of the initiating thread(s), the service's pool threads and the thread running the context, for all four operation kinds, one or two pool threads, one or two operations, and every answer (full, short, error, end of file) of the underlying system call.",
 "The unit tests run one schedule, one pool thread and only successful full transfers.",
 [I+"thread_pool_file_service.hpp",I+"impl/thread_pool_file_service.hpp",I+"impl/thread_pool_file_service.cpp",I+"basic_file.hpp",I+"compose.hpp",I+"detail/bound_handler.hpp",I+"work.hpp"],
 [("operation runs on the pool, its result is posted to the handler's executor",I+"impl/thread_pool_file_service.hpp thread_pool_fs_op/thread_pool_fs_init"),("work guard held by the composed operation",I+"compose.hpp, "+I+"work.hpp")],
 observe=["completion handler invocations","system calls issued on the file"])
p("C02","Cancelling a file aborts exactly the earlier operations that had not started",
 "An operation that was started before a call to cancel() and whose file access has not begun when that call returns completes with operation_aborted and zero bytes, and never accesses the file. Operations started after the call, operations on other files, and operations that already accessed the file are unaffected and report their real result. (A file access begins when a pool thread enters the read or write system call.)",
 ["schedules","histories"],
 "All interleavings up to a preemption bound of programs that start up to three operations on one or two files and cancel at any position between them, with one or two pool threads.",
 "One unit test pins one schedule in which the pool thread itself cancels; all others never cancel.",
 [I+"impl/thread_pool_file_service.hpp",I+"impl/thread_pool_file_service.cpp",I+"cancellation_token.hpp",I+"impl/cancellation_token.cpp",I+"basic_file.hpp"],
 [("token snapshot taken at initiation, tested on the pool thread before the access",I+"impl/thread_pool_file_service.hpp thread_pool_fs_op"),("cancel replaces the source's state",I+"impl/cancellation_token.cpp")],
 observe=["handler results","system calls issued on the file"])
p("C03","Each opened handle is closed once and pending operations never hit another file",
 "When a file object is closed, destroyed or assigned over, its operating-system handle is closed exactly once, and operations of it that have not begun their file access complete with an error without accessing any file. In particular they never read or write a different file that has since been opened, even if the operating system reuses the same handle value. (A file access begins when a pool thread enters the read or write system call.)",
 ["schedules","histories"],
 "All interleavings up to a preemption bound of programs that start up to two operations, then close / destroy / assign over the file and open another one that gets the same handle number.",
 "No test closes a file with an operation pending, and handle reuse needs a particular schedule.",
 [I+"impl/thread_pool_file_service.cpp",I+"impl/thread_pool_file_service.hpp",I+"io_object_holder.hpp",I+"basic_file.hpp",I+"impl/file_handle_posix.cpp"],
 [("closing invalidates the cancellation tokens handed to pending operations",I+"impl/thread_pool_file_service.cpp close/close_for_destruction"),("the handle is cleared when closed or moved",I+"impl/file_handle_posix.cpp")],
 observe=["open/close/read/write system calls"])
p("C04","Moving a file transfers the handle and leaves both objects fully usable",
 "After move construction or move assignment the destination owns the source's handle, and operations pending on the source are cancelled by the destination and by nothing else. Whatever the destination held before is closed exactly once and its pending operations are aborted. The source is left closed, and both objects can afterwards be opened, used for synchronous and asynchronous I/O, cancelled, moved again and destroyed with the same results as freshly constructed files.",
 ["histories","schedules"],
 "Every sequence up to a depth bound of open, close, move-construct, move-assign, self-use, cancel, start-read and destroy over up to three file objects on one or two contexts, against a reference model.",
 "The tests never move a file object.",
 [I+"io_object_holder.hpp",I+"impl/thread_pool_file_service.cpp",I+"basic_file.hpp",I+"cancellation_token.hpp"],
 [("service move_construct/move_assign",I+"impl/thread_pool_file_service.cpp"),("holder move operations",I+"io_object_holder.hpp")],
 observe=["is_open/native_handle","handler results","system calls"])
p("C05","A context can be shut down at any time and files live concurrently on it",
 "Destroying an execution context with asynchronous file operations in any state of progress terminates, closes the handle of every file that is still open exactly once, invokes no further handler and destroys every stored handler exactly once. Independent files of one context may be constructed, used, moved and destroyed concurrently from several threads without data races, lost or leaked handles, or deadlock.",
 ["schedules","crash_points"],
 "All interleavings up to a preemption bound of a context shutdown against pool threads with up to two pending operations, and of two threads creating, opening, moving and destroying files on one context; a happens-before race detector watches every memory access of each explored schedule.",
 "Needs shutdown at every progress point and truly concurrent object lifetimes; the tests do neither.",
 [I+"impl/thread_pool_file_service.cpp",I+"thread_pool_file_service.hpp",I+"detail/service_base.hpp",I+"io_object_holder.hpp"],
 [("implementation list under a mutex",I+"impl/thread_pool_file_service.cpp construct/move_construct/move_assign/destroy"),("shutdown closes implementations and stops the pool",I+"impl/thread_pool_file_service.cpp shutdown_service")],
 state=[("impl_list_","doubly linked list of live file implementations",I+"thread_pool_file_service.hpp")])
p("C06","Cancellation sources cancel exactly the tokens their documented state says",
 "A token reports cancelled exactly if, after it was issued, its source (following the source through moves) was cancelled, destroyed explicitly or by its destructor, or assigned over, or if the source was in the destroyed or moved-from state when the token was issued. Only a reset, or moving a live source into it, brings a destroyed or moved-from source back; cancelling does not. A token's answer never returns from cancelled to not cancelled, and tokens may outlive the source.",
 ["histories"],
 "Every operation sequence up to a depth bound over two sources (issue, cancel, destroy, reset, move-construct, move-assign, end of lifetime) and up to four tokens, with all tokens checked after every step.",
 "No unit test exists for this class on its own; the property is about all histories.",
 [I+"cancellation_token.hpp",I+"impl/cancellation_token.cpp"],
 [("shared state replaced on cancel, dropped on destroy",I+"impl/cancellation_token.cpp")],
 observe=["cancelled()"])
p("C07","Low-level file reads and writes report exactly what the operating system did",
 "For every answer of the operating system, a handle's read or write transfers data between all of the given buffers (as far as one system call takes them), in order, and the given offset or current position, and returns the number of bytes the system transferred. Interrupted calls are retried, any other failure is reported unchanged with zero bytes, an end of file is reported as the end-of-file error only if some buffer was non-empty, and on success the error object is reset. Positioned operations never move or depend on the file position, and closing is attempted exactly once even if it fails.",
 ["fault_sequences","inputs"],
 "All buffer layouts (zero to three buffers, sizes 0..3, in every order), all operations, all sequences of system answers (interruption, errors, short and full counts) up to a depth bound.",
 "Tests only see the answers a healthy disk gives.",
 [I+"detail/impl/posix_file_ops.cpp",I+"impl/file_handle_posix.hpp",I+"impl/file_handle_posix.cpp",I+"impl/file_handle.cpp",I+"file_handle.hpp",I+"detail/buffer_sequence_adapter.hpp"],
 [("retry loops around the vectored system calls",I+"detail/impl/posix_file_ops.cpp readv/writev/preadv/pwritev"),("close not retried",I+"detail/impl/posix_file_ops.cpp close")],
 observe=["return value, error, buffer contents, system calls"])
p("C08","Whole-file reads and writes are complete or report an error",
 "Reading a whole file returns precisely the file's bytes whenever it reports success, for every pattern of short and interrupted reads, and reports an error otherwise. Writing a whole file leaves precisely the given bytes in the file whenever it reports success, replacing any previous content, and reports the failure otherwise. Reading into a fixed buffer fills it completely or fails, and no path leaves a handle open.",
 ["fault_sequences","inputs"],
 "All file sizes and destination sizes 0..N, all system-call answer sequences (short transfers, interruptions, errors at any call, file shrinking or growing between calls) up to a bound, for every overload of read_file and write_file.",
 "Tests read and write a handful of files without any fault.",
 [I+"impl/read_file.hpp",I+"read_file.hpp",I+"impl/write_file.hpp",I+"write_file.hpp",I+"is_raw_byte_container.hpp"],
 [("size taken from the handle, then a full read loop",I+"impl/read_file.hpp"),("create-or-replace then full write loop",I+"impl/write_file.hpp")],
 observe=["return value/exception, container, file content, open handles"])
p("C09","An owning file handle closes what it owns exactly once and nothing else",
 "For every sequence of construction, reset, release, move, swap, close, assignment and destruction, each handle given to an owning handle is closed exactly once, unless it was released, in which case it is never closed by it. A released, moved-from or closed object owns nothing and is reported as not open, and a handle obtained by duplication is independent of the original. This holds even when closing reports an error.",
 ["histories","fault_sequences"],
 "Every operation sequence up to a depth bound over two owning handles and three native handles, with every close either succeeding or failing.",
 "Ownership bugs need particular sequences, and failing closes never occur in tests.",
 [I+"unique_file_handle.hpp",I+"impl/unique_file_handle.cpp",I+"duplicate.hpp",I+"impl/duplicate.cpp"],
 [("release/reset/swap",I+"unique_file_handle.hpp, "+I+"impl/unique_file_handle.cpp")],
 observe=["close system calls","is_open/get"])
p("C10","Open flags select documented behaviour for every flag combination",
 "A flag combination naming more than one creation disposition, or asking to truncate an existing file without write access, is invalid: opening with it fails with an error and without touching the file system. For every combination of at least one access mode with exactly one valid creation disposition, and every initial state of the path, opening succeeds or fails as documented (must exist / must not exist / create / truncate), the resulting content is preserved or emptied accordingly, and the handle permits exactly the requested kinds of access; being interrupted by a signal makes no difference. Combinations lacking an access mode or a disposition may be refused or not, but never do anything that was not requested. New files get the requested permissions subject to the umask, and the handle is not inherited by executed programs.",
 ["inputs","configurations"],
 "All 2^n combinations of open flags crossed with the path being absent, an empty file, a non-empty file, a directory or lying in a missing directory, crossed with several permission values and umasks.",
 "Tests exercise a few combinations, mostly in isolation.",
 [I+"open_flags.hpp",I+"open_args.hpp",I+"impl/open_args.hpp",I+"impl/open.cpp",I+"open.hpp",I+"detail/impl/posix_file_ops.cpp",I+"impl/open_flags.cpp"],
 [("flag validation",I+"impl/open_flags.cpp"),("flag translation",I+"detail/impl/posix_file_ops.cpp parse_open_flags")],
 observe=["result and error of open","file system state"])
p("C11","File size, position and metadata operations agree with a reference file",
 "For every sequence of reads, writes, positioned reads and writes, seeks, truncations and size queries on one file through any of the handle types, the results, the position and the content equal those of a simple reference file. Permission changes replace, add or remove exactly the requested bits; changing access and modification times sets exactly the requested ones and leaves the omitted one untouched, and reading them back returns the value set for every representable time including those before 1970. On systems with file flags, attribute changes replace, add or remove exactly the requested attributes, adding and removing leave all other flags alone, and attributes given when opening are used for files that the call may have created only; on other systems attributes are ignored.",
 ["histories","inputs"],
 "Every operation sequence up to a depth bound over small offsets and sizes for the low-level, owning and asynchronous-capable handle types; all 4096 permission values in all modes against representative current permissions; boundary times.",
 "Tests check single operations at fixed values.",
 [I+"file_handle.hpp",I+"impl/file_handle_posix.cpp",I+"detail/impl/posix_file_ops.cpp",I+"file_perms.hpp",I+"unique_file_handle.hpp",I+"basic_file.hpp",I+"chrono.hpp",I+"detail/impl/chrono.hpp"],
 [("thin mapping onto system calls",I+"detail/impl/posix_file_ops.cpp"),("permission option handling",I+"detail/impl/posix_file_ops.cpp permissions"),("time conversion",I+"detail/impl/chrono.hpp")],
 observe=["results, kernel-visible state"])
p("C12","Time conversions are exact or refused",
 "Combining a two-part time into a single duration, splitting a duration into two parts and converting between durations either yield the mathematically exact (rounded only as documented for the coarser unit) value or report failure. They never overflow silently and never refuse a representable value; splitting yields a non-negative second part smaller than one unit of the first, and composing a split value gives the value back. (Two-part times are normalised, with integer representations able to hold the second part's range.) A file time made from a time_t is exactly that second, and converting a file time to time_t gives that second back, or one of the two seconds around it.",
 ["inputs"],
 "Every value pair of 8-bit representations and all boundary pairs of 16-, 32- and 64-bit representations, for several period ratios and signedness combinations, against arbitrary-precision arithmetic.",
 "Tests check a dozen values; overflow and negative values need boundary inputs.",
 [I+"detail/chrono.hpp",I+"detail/impl/chrono.hpp",I+"chrono.hpp",I+"impl/chrono.cpp"],
 [("range checks before arithmetic",I+"detail/impl/chrono.hpp")],
 observe=["return value and outputs"])
p("C13","A byte buffer holds exactly the bytes its operations put there",
 "For every sequence of append, insert, erase, resize, reserve and clear on a byte buffer, the size and the content equal those of a plain byte sequence subjected to the same operations, apart from the bytes newly exposed by growing, which are unspecified. Operations never access memory outside the buffer's storage or the given source range, the capacity is never smaller than the size, reserving never changes the content, the storage does not move while the result fits the capacity, and an append, insert, resize or reserve beyond the maximum size throws a length error and changes nothing. (Source ranges lie outside the buffer itself.)",
 ["histories","inputs"],
 "All operation sequences up to a depth bound with all small positions and lengths and several maximum sizes, under the address sanitizer, with an allocator that poisons memory and may fail at any call.",
 "Tests run a few fixed sequences with fixed positions.",
 [I+"linear_buffer.hpp",I+"impl/linear_buffer.hpp"],
 [("growth and memmove logic",I+"impl/linear_buffer.hpp")],
 state=[("size_/capacity_/max_size_","buffer geometry",I+"linear_buffer.hpp")],
 observe=["size/capacity/data"])
p("C14","Copying and moving byte buffers preserves content, limits and allocators",
 "A copy-constructed buffer holds the same bytes and maximum size in separate storage; copy assignment copies the bytes, keeps the target's own maximum size and throws a length error changing nothing if they do not fit; a move transfers content and maximum size and leaves the source empty and without memory but usable. Each block of memory is returned exactly once, to an allocator equal to the one it came from and with its original size, and allocators propagate on copy, move and assignment as their traits demand. Assigning a buffer to itself leaves it unchanged, and if an allocation fails the operands keep their content and nothing leaks.",
 ["histories","configurations"],
 "All sequences up to a depth bound of copy/move construction and assignment, self-assignment, append and destruction over three buffers, for every combination of the allocator propagation traits, equal and unequal allocators, with every allocation succeeding or failing.",
 "Tests use only the default allocator and single moves.",
 [I+"linear_buffer.hpp",I+"impl/linear_buffer.hpp"],
 [("copy and move operations",I+"impl/linear_buffer.hpp")],
 observe=["allocator ledger, contents"])
p("C15","The dynamic buffer adaptor obeys the dynamic buffer contract",
 "Used as an asio dynamic buffer of either version, the adaptor's readable region is always exactly the bytes committed and not yet consumed, its size and capacity never exceed its maximum, and prepared space is writable and kept separate from the readable bytes. Requests beyond the maximum throw a length error and change nothing, views are clamped to the readable bytes for every position and length, and generic stream reads and writes through it transfer exactly the intended bytes. (The underlying buffer is not larger than the adaptor's maximum when a version 1 adaptor is created.)",
 ["histories","inputs"],
 "All sequences up to a depth bound of prepare, commit, consume, grow, shrink and view operations with small and extreme arguments, for several maximum sizes, against a reference model; reads and writes through an in-memory stream with all chunkings.",
 "Tests run short fixed sequences and no extreme arguments.",
 [I+"linear_buffer.hpp",I+"impl/linear_buffer.hpp"],
 [("DynamicBuffer_v1 and _v2 members",I+"linear_buffer.hpp dynamic_linear_buffer")],
 observe=["size/capacity/max_size/data"])
p("C16","A type-erased handler runs at most once and its memory is freed first",
 "A wrapped handler is invoked exactly once if completed and never if it is reset, replaced or its wrapper destroyed, it is destroyed exactly once in either case, and completing an empty wrapper throws the bad-function-call error. Before the handler runs, its wrapper is empty (and may be refilled from inside the handler) and its storage has been returned, once, to the handler's associated allocator, which also provided it. If an allocation or moving a handler into the wrapper throws, nothing leaks, nothing is freed twice and the wrapper is left empty or with its previous handler.",
 ["histories","fault_sequences"],
 "All operation sequences up to a depth bound over two wrappers (assign, construct, complete, reset, move, destroy) with handlers that re-enter the wrapper, with every allocation and move possibly throwing.",
 "Three unit tests cover single happy paths.",
 [I+"unique_handler.hpp",I+"impl/unique_handler.cpp",I+"associated_allocator.hpp"],
 [("storage released before the upcall",I+"unique_handler.hpp do_complete/do_abort")],
 observe=["handler and allocator ledger"])
p("C17","Composed and bound handlers keep work alive and keep the handler's associations",
 "A bound handler invokes its handler once with exactly the bound values, and a composed operation forwards every intermediate completion to its implementation and the final result to the handler. The executors whose work they guard are kept from running out of work until after the handler has been invoked, and the guard is then released, also when the operation is abandoned. The associated executor, allocator and (until a composed operation is continued) continuation hint of the wrapper are those of the wrapped handler, through any nesting.",
 ["programs","histories"],
 "All nestings up to a depth bound of binding and composing over handlers with and without own executor and allocator, with up to two guarded executors and every completion path (direct, bound, moved, abandoned, throwing).",
 "One test checks type traits; none observes outstanding work around the upcall.",
 [I+"compose.hpp",I+"bind_handler.hpp",I+"detail/bound_handler.hpp",I+"work.hpp",I+"associated_allocator.hpp"],
 [("work reset after the upcall",I+"compose.hpp complete, "+I+"detail/bound_handler.hpp operator()"),("associated_* specialisations",I+"compose.hpp, "+I+"detail/bound_handler.hpp")],
 observe=["outstanding work counts, invocations"])
p("C18","SOCKS5 messages follow the protocol and every server verdict is reported",
 "The greeting, login and command requests sent to a SOCKS5 server are byte for byte those the protocol prescribes for the given methods, credentials, command, address or host name and port, and arguments the protocol cannot carry (too long, or an empty host name) are refused without sending anything; an empty method list, user name or password may be either sent as it is or refused. The operation reports success exactly if the server's reply is well formed and signals success; a wrong version byte, an unknown address type and each documented failure status is reported as its own error, any other status as some error. The chosen authentication method is passed on unchanged. If the caller limits the size of the buffer, a request that does not fit is refused and a reply that does not fit is reported as an error; no server reply makes an exception leave the event loop or keeps the handler from being called.",
 ["inputs"],
 "All 256 values of every meaningful reply byte in combination, request arguments at all boundary lengths (0, 1, 255, 256), all commands, both address families and extreme ports, against an independent encoder/decoder of RFC 1928/1929.",
 "No test of the SOCKS code exists.",
 [I+"socks/client.hpp",I+"socks/impl/client.hpp",I+"socks/detail/client.hpp",I+"socks/detail/impl/protocol.cpp",I+"socks/error.hpp",I+"socks/impl/socks_error.cpp"],
 [("request encoders",I+"socks/detail/impl/protocol.cpp"),("reply interpretation",I+"socks/detail/client.hpp v5_*_op")],
 observe=["bytes written to the stream, handler result"])
p("C19","SOCKS4a requests carry the target and port and only status 90 is success",
 "The request sent for a SOCKS4 command is byte for byte the one the protocol prescribes, with the given command, port, IPv4 address or (as SOCKS4a) host name, and user id; a non-IPv4 endpoint, an empty host name and strings containing a null character are refused without sending anything. The operation reports success exactly if the reply has version byte zero and status 90, and an error for every other reply.",
 ["inputs"],
 "All 256x256 version/status bytes, all commands, boundary ports, addresses, host and user-id lengths, against an independent encoder.",
 "No test of the SOCKS code exists.",
 [I+"socks/impl/client.hpp",I+"socks/detail/client.hpp",I+"socks/detail/impl/protocol.cpp"],
 [("request encoder",I+"socks/detail/impl/protocol.cpp"),("reply interpretation",I+"socks/detail/client.hpp v4_exec_op")],
 observe=["bytes written to the stream, handler result"])
p("C20","SOCKS exchanges are independent of stream chunking and never over-read",
 "However the stream splits the bytes in either direction, and wherever it fails or ends, a SOCKS operation calls its handler exactly once and not from inside the initiating call, sends each request once and only after the previous reply, and never consumes bytes beyond the server's reply, and exactly the reply on success, so that the first byte of the proxied connection is still in the stream after a successful command. A stream error at any point is passed to the handler, and on success the caller's buffer (empty when the operation starts) is left empty. The arguments need only be valid until the initiating call returns, and operations on different streams, running at the same time, do not affect each other.",
 ["fault_sequences","histories"],
 "All splittings of every request and reply into chunks, with an error or end of stream at every byte position, for all operations and address types.",
 "Chunking and faults are environment choices no test makes.",
 [I+"socks/detail/client.hpp",I+"socks/impl/client.hpp",I+"compose.hpp",I+"linear_buffer.hpp"],
 [("fixed-size reads followed by an address-type dependent rest",I+"socks/detail/client.hpp")],
 observe=["stream position, handler calls"])
p("C21","URL parsing accepts well-formed URLs only and splits them at the right places",
 "For every input string the parser terminates without reading outside the input and either reports an error or yields components that are disjoint, in order and reproduce the input when joined with their separators. Every URL of the plain forms scheme://[userinfo@]host[:port][/path][?query][#fragment], scheme:/path or /path is accepted. An accepted URL has a valid scheme if it has one, a non-empty host wherever a non-empty authority is present, a closed bracketed literal for IPv6-style hosts, a port in range equal to the decimal number in the text, and no space, control or non-ASCII character; user info, host, port, path, query and fragment are split at the delimiters RFC 3986 prescribes. A URL view constructed from a string reports the same components and the same error.",
 ["inputs"],
 "All strings up to a length bound over an alphabet containing every delimiter, a letter, a digit, a percent sign and an illegal character, for both URL and authority-only parsing, against an independently written reference splitter.",
 "A table of about twenty URLs is tested.",
 [I+"detail/url_parser.hpp",I+"detail/impl/url_parser.cpp",I+"url_view.hpp",I+"impl/url_view.cpp",I+"error.hpp"],
 [("hand written state machine",I+"detail/impl/url_parser.cpp")],
 observe=["url_view accessors and error"])
p("C22","Connecting by name tries the resolved endpoints in order until one succeeds",
 "Connecting by name, synchronously or asynchronously, tries the resolved endpoints in order, each at most once and on a freshly opened socket, and stops at the first that accepts, leaving the socket connected to it and (asynchronously) reporting that endpoint. If all fail the error of the last attempt is reported, if there is no endpoint not_found is reported, and if resolution fails its error is reported and no connection is attempted. The asynchronous handler is called exactly once with a default endpoint on failure.",
 ["fault_sequences"],
 "All resolver outcomes (error, zero to three endpoints of both families) crossed with all per-attempt outcomes (success, several errors).",
 "No test connects; failure sequences cannot be provoked on a real network.",
 [I+"connect.hpp",I+"impl/connect.cpp"],
 [("resolve then iterate",I+"impl/connect.cpp, "+I+"connect.hpp connect_op")],
 observe=["socket/connect system calls, handler result"])
p("C23","A buffered stream delivers written bytes once, in order, and survives failures",
 "The bytes a buffered stream passes to the next layer over its lifetime are a prefix of the bytes put into its write buffer, in order and without loss or duplication, for every pattern of short writes and failures, and a flush that reports success has delivered everything that was buffered when it began (or, after a failed flush, at least everything that one left behind). can_flush() tells truthfully whether a flush could deliver something, so that flushing while it does delivers everything to a working stream; closing discards what is buffered. Data buffered while a flush is in progress is kept for the next one, at most one flush runs at a time (a second is refused without effect), and a new flush is possible after any flush has ended. Filling appends exactly the bytes received to the read buffer and reports failures.",
 ["fault_sequences","histories"],
 "All sequences up to a depth bound of buffering, flush, async flush, fill and async fill over a stream with all chunkings and an error at any call.",
 "There is no test of this class.",
 [I+"experimental/buffered_stream.hpp",I+"linear_buffer.hpp"],
 [("double buffering with a pending flag",I+"experimental/buffered_stream.hpp lock_write_buffers/unlock_write_buffers")],
 observe=["bytes at the next layer, results"])
p("C24","Throwing and error-code overloads agree and success clears old errors",
 "For every operation offered both with an error-code argument and as a throwing variant, in the same situation the throwing variant throws exactly if the other reports an error, with that same error, and otherwise both have the same result and effect. On success an error object holding an earlier error is reset, and on failure no handle is leaked and no output is fabricated. Functions taking a file name do the same for a C string and for a path object.",
 ["inputs","fault_sequences"],
 "Every public file operation pair (opening, duplicating, standard streams, all handle types, whole-file functions) crossed with every single-call outcome of the operating system and an error object that is clean or holds a stale error.",
 "Tests use mostly fresh error objects and the success path.",
 [I+"impl/file_handle.cpp",I+"unique_file_handle.hpp",I+"basic_file.hpp",I+"impl/open.cpp",I+"impl/duplicate.cpp",I+"impl/standard_streams.cpp",I+"detail/impl/posix_file_ops.cpp",I+"detail/throw_error.hpp"],
 [("throw_error after the error-code variant",I+"detail/throw_error.hpp and callers")],
 observe=["error objects and exceptions"])
p("C25","Asynchronous operations deliver the same result through every completion token",
 "An asynchronous file read or write, connect by name, buffered stream flush or fill, or SOCKS exchange started with a future, a coroutine (use_awaitable), an adapted token (as_tuple, redirect_error), a bound executor or detached performs the same accesses and delivers the same error or value, exactly once, as when started with a plain callback; futures and coroutines throw exactly the error the callback would have been given. An operation that is created lazily (an awaitable, or a deferred connect) performs nothing before it is awaited or launched, and then uses the arguments (buffer sequences, names) it was given although they no longer exist; if its file was closed or destroyed in between it fails without accessing any file. When the context is destroyed first, a future is told (broken promise), and handlers and coroutine frames are destroyed without leaks.",
 ["programs","fault_sequences","histories"],
 "Every operation crossed with every completion token and every answer of the stream, file, resolver or socket below, in sequences of operations on one object with mixed tokens, plus destruction of the context and closing, reopening, moving or destroying the file at the points in between.",
 "Tests use callbacks and, for a few operations, one future on the success path.",
 [I+"impl/thread_pool_file_service.hpp",I+"async_result.hpp",I+"compose.hpp",I+"detail/bound_handler.hpp",I+"connect.hpp",I+"experimental/buffered_stream.hpp",I+"socks/impl/client.hpp",I+"socks/detail/client.hpp"],
 [("async_initiate with decayed copies of the arguments",I+"impl/thread_pool_file_service.hpp, "+I+"connect.hpp"),("composed operations re-posting themselves with the handler's executor and allocator",I+"compose.hpp")],
 observe=["what the token delivers","system calls and stream operations"])
p("C26","Running out of memory is reported and loses nothing",
 "When an allocation fails in a function that may throw, the function throws std::bad_alloc (in a later stage of an asynchronous operation io_context::run() does, or the operation's future is told). No handle, memory or handler is leaked. If an asynchronous operation (file, buffered stream, SOCKS, connect) could not be started, its handler is destroyed without being called, nothing is read, written, sent or resolved, and no work remains outstanding. All objects involved remain usable: files and contexts after a failed construction, both files after a failed move assignment (every handle is owned by exactly one of them), a buffered stream with all its buffered data, cancellation sources with the state of their tokens unchanged, and the operation succeeds when repeated.",
 ["fault_sequences","programs"],
 "Every operation that may throw, with each single one of its allocations failing in turn, in several object states and with several completion tokens; every object is exercised and destroyed afterwards.",
 "No test lets an allocation fail outside unique_handler and linear_buffer.",
 [I+"basic_file.hpp",I+"io_object_holder.hpp",I+"impl/thread_pool_file_service.cpp",I+"impl/thread_pool_file_service.hpp",I+"impl/read_file.hpp",I+"impl/cancellation_token.cpp",I+"experimental/buffered_stream.hpp",I+"socks/detail/client.hpp",I+"connect.hpp",I+"unique_handler.hpp",I+"compose.hpp"],
 [("allocate first, change state afterwards","move_assign, cancellation_token_source::cancel/reset"),("guards that undo a start that failed",I+"experimental/buffered_stream.hpp")],
 observe=["exceptions","handles, allocations and handlers alive","later operations"])
p("C27","Flag enumerations are sets and every error code names one condition",
 "For every flag enumeration (open flags, permissions, attributes and their options) the operators &, |, ^, ~ and their assigning forms compute exactly the intersection, union, symmetric difference and complement of the two sets of flags, for every pair of values, and the assigning forms return their left operand. The named flags are distinct bits, the named permissions have their POSIX values, and the named combinations are the unions their documentation says. Every enumerator of the library's error enumerations converts to an error code that equals that enumerator and no other one, belongs to a category different from all others, is an error unless it is 'none', and has a message that no other value of its category has, no matter which translation unit or thread made it. Every integer value has a non-empty message. Raising an error code throws an exception carrying it, and raising success throws nothing.",
 ["inputs"],
 "All pairs of values of every flag enumeration (up to 4096 x 4096), all error values from -512 to 511 and the extreme integers, in both categories.",
 "No test covers the operators, and the error tests check two messages.",
 [I+"detail/enum.hpp",I+"open_flags.hpp",I+"file_perms.hpp",I+"file_attrs.hpp",I+"error.hpp",I+"impl/error.cpp",I+"socks/error.hpp",I+"socks/impl/socks_error.cpp",I+"error_code.hpp",I+"detail/throw_error.hpp",I+"detail/impl/throw_error.cpp"],
 [("bitmask operators",I+"detail/enum.hpp ASIOEXT_ENUM_CLASS_BITMASK_OPS"),("error categories",I+"impl/error.cpp, "+I+"socks/impl/socks_error.cpp")],
 observe=["operator results","error_code comparisons and messages"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
