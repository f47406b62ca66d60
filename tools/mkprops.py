#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Locks taken inside a library call are released before it returns",
  "Every mutex, reader/writer lock, spinlock, event-loop lock and I/O-layer lock that a library function takes is released exactly once on every path out of that function, including error and early-return paths, and is never released when it is not held. Only the documented lock/unlock style functions (and the few internal hand-over functions built from them) may return with a different set of locks than they were entered with.",
  ["inputs", "schedules", "fault_sequences"], "every path through every function of every library, including allocation, parse, network and database error paths",
  "A leaked lock only shows when another thread later needs it after the rare error path ran; tests drive the success paths and a handful of errors.",
  ["thread", "io", "log", "sql", "tls", "net", "base/mem/m_mem.c"],
  [("lock/unlock pairing", "all callers of M_thread_mutex_lock/M_thread_rwlock_lock/M_event_lock/M_io_lock/M_io_layer_acquire"), ("hand-over of the group lock", "sql/m_sql_stmt.c M_sql_stmt_groupinsert_prepare / M_sql_stmt_execute")])
p("C02", "No two library locks are ever taken in opposite orders",
  "Over all library code there is a fixed order between the kinds of locks the library owns: no call path takes a lock of kind A while holding kind B if another call path takes B while holding A, no path re-takes a non-recursive lock it already holds, and no lock is held while the library waits for another thread (apart from the one a condition wait releases). Hence threads using the library concurrently cannot deadlock on its internal locks.",
  ["schedules"], "all interleavings of any number of threads calling any library functions",
  "A deadlock needs two threads interleaved at particular points; tests run few threads and few interleavings.",
  ["io/m_event.c", "io/m_io.c", "sql/m_sql_connpool.c", "log/m_log.c", "log/m_async_writer.c", "thread/m_threadpool.c", "net/smtp"],
  [("lock acquisition sites", "every M_thread_mutex_lock / M_thread_rwlock_lock call and the call graph between them")])
p("C03", "Shared state is only touched while holding the lock that protects it",
  "Every field of the thread pool, the SQL connection pool, the logger, the asynchronous log writer, the event loop, the TLS contexts, the DNS cache and the SMTP/HTTP network objects, and every global, that is protected by a lock is read or written only while that lock is held (or before the object is visible to, or after it is withdrawn from, other threads).",
  ["schedules"], "all interleavings of threads using the same object",
  "Races need a particular interleaving to be visible; the tests are mostly single threaded.",
  ["thread/m_threadpool.c", "sql/m_sql_connpool.c", "log/m_log.c", "log/m_async_writer.c", "io/m_event.c", "tls/m_tls_clientctx.c", "tls/m_tls_serverctx.c", "io/net/m_dns.c", "net/smtp"],
  [("object locks", "the lock member of each of these structures")])
p("C04", "No lock of the library is held while an application callback runs",
  "Whenever the library runs a function the application supplied, it holds none of its own locks, so that function may freely call back into the object that runs it: event, timer and queued-task callbacks of the event loop (which may add, remove or destroy the I/O objects and timers of that loop), tasks and completion callbacks of thread pools and pipelines, the write/stop callbacks of the asynchronous writer, DNS lookups, the HTTP and SMTP clients, SQL transactions, reports and table-data helpers, thread-local destructors and library clean-up handlers. Exempt by design are the logger's prefix, filter and expiry callbacks, I/O and SQL trace callbacks, and callbacks that container and parser functions run on behalf of their own caller.",
  ["schedules", "histories"], "every callback invocation site and every path to it", "Tests use a few simple callbacks, which seldom re-enter the library.",
  ["io/m_event.c", "io/net/m_dns.c", "thread/m_threadpool.c", "thread/m_thread_pipeline.c", "log/m_async_writer.c", "net", "sql"], [("unlock around delivery", "io/m_event.c M_event_deliver, io/m_event_timer.c, io/m_event_queue.c"), ("pipeline and pool", "pipeline_thread_cb, pipeline_finish_task, M_threadpool_thread"), ("writer", "log/m_async_writer.c writer thread")])
p("C05", "Memory acquired during a call is released or handed over on every path",
  "Every heap object a library function acquires (directly or through a constructor, duplicate, read or parse function) is, on every path out of the function, released, returned to the caller, or stored in an object that outlives the call. In particular error paths and early returns do not leak.",
  ["inputs", "fault_sequences"], "every path of every function", "Leaks on error paths need the precise failing input or fault; tests reach few error paths and do not run under a leak checker.",
  ["base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("release on each exit", "done:/early-return clean-up code in each function")])
p("C06", "Released memory is never used again or released twice",
  "After a heap object has been released, on no path of any library function is it dereferenced, passed to a function that dereferences it, or released a second time, and no member of an object that stays in use is left referring to it.",
  ["inputs", "histories", "fault_sequences"], "every path of every function", "Use-after-release on rare error paths does not crash reliably and is seldom reached by tests.",
  ["base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("release followed by reset or return", "destroy/cancel/free call sites")])
p("C07", "Destroying an object releases everything the object owns",
  "Each destroy/free/cancel function of the library releases every heap member the object owns: each pointer member filled in with memory owned by the object is released (or handed over) when the object is destroyed, whatever state the object is in.",
  ["histories"], "every object type and every state an object can be in when destroyed", "Tests destroy objects in a few states and do not count leaked bytes.",
  ["base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("destructors", "M_*_destroy / M_*_free / M_*_cancel functions")])
p("C08", "Newly created objects never expose uninitialised memory",
  "Every structure the library allocates has each of its members given a defined value before any of them can be read: constructors either zero the whole allocation or assign every member on every path. No local variable is read before it has been assigned on every path leading to the read.",
  ["inputs", "histories"], "every allocation site, every local variable and every path", "Uninitialised memory often happens to be zero in tests.",
  ["base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("zeroing allocation", "M_malloc_zero / M_mem_set in constructors")])
p("C09", "NULL handles are tolerated by the public API",
  "Passing NULL for a pointer argument of a public function that accepts it today (all destroy functions and nearly all query and modify functions do) never crashes: the function returns its failure/neutral result without dereferencing the pointer.",
  ["inputs"], "every public function and every pointer parameter that the tree accepts as NULL, in every combination of other arguments", "Tests pass NULL to a small subset of the several thousand function/parameter pairs.",
  ["include/mstdlib", "base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("argument guards", "the leading NULL checks of each public function")])
p("C10", "Heap memory is wiped before being returned to the system",
  "All heap memory used by the library is obtained from and returned through the library's own allocator, and the allocator overwrites every block with a write the compiler may not remove before the system free, on every path, including when a block is moved by a reallocation. Secrets such as passwords and keys therefore do not persist in freed memory.",
  ["inputs", "histories"], "every allocation, reallocation and release in every library", "Freed memory cannot portably be inspected by a test.",
  ["base/mem/m_mem.c"], [("wipe before free", "base/mem/m_mem.c M_free / M_realloc"), ("secure clear", "base/mem/m_mem.c M_mem_secure_clear")])
p("C11", "System descriptors are closed on every path and not leaked to children",
  "Every file descriptor, socket, directory handle, FILE handle and epoll/poll descriptor the library opens is, on every path, closed exactly once or stored in an object that closes it; a failure after opening does not leak it. Descriptors are created close-on-exec (except those made to be inherited and files whose caller asks for it), and data sent through the library's sockets and I/O pipes never raises SIGPIPE in the application.",
  ["inputs", "fault_sequences"], "every path after every open", "Failures after a successful open are hard to provoke and leaked descriptors are not counted by tests.",
  ["io", "base/fs", "thread/m_popen.c", "log"], [("close on failure", "error paths after socket/open/pipe/epoll_create"), ("close-on-exec", "io/m_io_posix_common.c, io/net/m_io_net.c")])
p("C12", "Only async-signal-safe functions run between fork and exec",
  "When the library starts a child process, the code the child executes between fork and exec (or exit) calls nothing but functions that are safe after fork in a multi-threaded process: no allocation, no locks, no stdio, and the child never returns into the parent's code.",
  ["schedules"], "every thread state the parent can be in at fork", "A deadlock in the child needs another thread to hold the allocator lock at the moment of fork.",
  ["io/m_io_process.c", "thread/m_popen.c"], [("child branch", "io/m_io_process.c, thread/m_popen.c")])
p("C13", "Text conversion and comparison do not depend on the process locale",
  "Parsing, formatting, case conversion, character classification and comparison give the same result whatever locale the application has set: the library does not call locale-dependent C library functions to do them.",
  ["configurations"], "every locale setting and every input", "Tests run in the C locale.",
  ["base/data/m_chr.c", "base/data/m_str.c", "base/data/m_str_num.c", "base/data/m_str_fmt.c"], [("own implementations", "M_chr_*, M_str_*, M_snprintf")])
p("C14", "Library calls do not go through non-thread-safe C library functions",
  "No library function relies on C library functions that return or modify hidden static state (for example strtok, localtime, gmtime, strerror, readdir on shared handles, getpwnam, gethostbyname, rand, setenv), nor changes process-wide state such as signal dispositions, umask, working directory or locale behind the application's back, except where that is the documented purpose of the function.",
  ["schedules", "configurations"], "every call site in every library", "Interference needs concurrent callers.",
  ["base", "io", "log", "thread", "sql", "net"], [("reentrant variants", "*_r functions")])
p("C15", "TLS connections are verified before being reported connected",
  "A TLS client connection is only reported as connected after the handshake completed and, unless the application explicitly lowered the verification level, after both the certificate chain and the host name were checked; any failing check produces an error event and never a connected event. A freshly created client context verifies fully and a freshly created context excludes obsolete protocol versions.",
  ["inputs", "histories"], "every server certificate, every handshake outcome and every path to the connected event", "Tests use a few self-made certificates.",
  ["tls/m_tls.c", "tls/m_tls_clientctx.c", "tls/m_tls_ctx_common.c", "tls/m_tls_hostvalidate.c"], [("verification before CONNECTED", "tls/m_tls.c M_tls_state_connecting"), ("default verify level", "tls/m_tls_clientctx.c")])
p("C16", "Pooled SQL connections and transactions are always finished and returned",
  "Every database connection taken from the pool by a library function is given back on every path, and every transaction the library begins internally is committed or rolled back on every path. A connection that failed is never handed out again, and a finished transaction or connection is not touched afterwards.",
  ["histories", "fault_sequences"], "every sequence of failing and succeeding statements, commits and rollbacks", "Tests use one SQLite file without injected failures.",
  ["sql/m_sql_connpool.c", "sql/m_sql_trans.c", "sql/m_sql_stmt.c", "sql/m_sql_table.c"], [("acquire/release", "M_sql_connpool_acquire_conn / M_sql_connpool_release_conn"), ("finish transaction", "M_sql_trans_commit / M_sql_trans_rollback")])
p("C17", "Names and values of enumerations map one-to-one",
  "Every conversion from an enumerated value to a name yields a distinct non-empty name for each value it supports, and the converse conversion maps exactly those names back to the same values. This holds for HTTP methods, status codes, error codes, codecs, SQL types, TLS protocols and the other enumerations the library can print and parse. Translations of operating-system, TLS and database error codes and native constants to library enumerators give the documented enumerator for each code.",
  ["inputs"], "every enumerator of every such enumeration", "Tests check a few sample values per table.",
  ["formats", "text", "sql", "tls", "io", "net", "log"], [("conversion tables/switches", "*_to_str / *_from_str / *_errcode functions")])
p("C18", "Character set, codec and checksum tables are correct",
  "Every single-byte character set the library supports maps each byte to the code point the published standard assigns to it and back, the base-16/32/64 alphabets encode and decode each other, the UTF-8 case and classification tables are sorted and agree with each other, and the checksum and other look-up tables hold exactly the values their definitions give.",
  ["inputs"], "every table entry", "Tests convert a handful of strings per character set.",
  ["text/textcodec", "base/bincodec", "base/utf8", "formats/xml/m_xml_entities.c", "base/math"], [("tables", "text/textcodec/m_textcodec_*.c, base/utf8/m_utf8_tables.c, base/bincodec/*.c")])
p("C19", "Data written into a structured document is always escaped",
  "Every writer that places application data into a structured text (JSON, XML, CSV, SQL literals/identifiers, HTTP headers, URL query, e-mail headers) passes the data through that format's escaping or validation before it reaches the output, on every path, so data can never change the structure of the document.",
  ["inputs"], "every data value and every path from a value to the output buffer", "Tests write a few well-behaved values.",
  ["formats/json/m_json_writer.c", "formats/xml/m_xml_writer.c", "formats/csv/m_csv.c", "sql/m_sql_report.c", "formats/http"], [("escape calls", "M_json_write*, M_xml_write*, M_csv_output_*")])
p("C20", "Parsing untrusted input cannot exhaust the stack",
  "Every reader of documents and messages that may come from outside the program (JSON, XML, INI, CSV, HTTP, e-mail, URL, time zone data, settings) uses a bounded amount of stack whatever the nesting, the number of parts and the size of its input: calls that follow the input (per nested element, per part, per comment, per chunk) are either absent or stop at an explicit constant depth limit that fits the stack, the tree readers refuse input nested deeper than such a limit, and no library function allocates stack memory in proportion to its input (variable length arrays, alloca). Expressions the application itself supplies (regular expressions, XPath, JSONPath, patterns) are not covered.",
  ["inputs"], "every input, of any nesting depth and size", "Tests use shallow inputs.",
  ["formats/json/m_json_reader.c", "formats/xml/m_xml_reader.c", "formats/ini", "formats/csv", "formats/http", "formats/email", "text", "base/time"], [("depth limits", "M_json_read_object, M_xml_read, M_time_tz_olson_parse_tzfile"), ("iteration over parts", "M_http_simple_read, M_email_simple_read, M_ini_reader*, M_csv_parse*")])
p("C21", "Operating-system and storage failures are reported, not dropped",
  "When a system call, or a lower-layer library call of the file system, I/O, SQL, log or network code (opening, storing, sending, flushing, starting a statement, beginning or committing a transaction), fails inside a library function that itself returns a result, that result is a failure: the failing value is not discarded, not overwritten by a later success and not turned into success on any path - for every error code the function does not explicitly treat as harmless or retry, and for functions whose result does not travel through memory.",
  ["inputs"], "every failing call and every path from it to the return", "Tests have no disk that fills up at the wrong moment, no failing commit.",
  ["base/fs", "io", "sql", "log", "net", "formats"], [("file copy, move, write", "M_fs_copy, M_fs_move, M_fs_file_write, M_fs_file_sync"), ("transactions", "M_sql_trans_process, M_sql_stmt_execute"), ("documents to files", "M_*_write_file"), ("I/O", "M_io_posix_*, M_io_net_*")])
p("C22", "Success implies the outputs were produced",
  "Whenever a public function with output parameters reports success, every mandatory output parameter has been given a value by that call; and pointer outputs that may be examined on failure have been reset.",
  ["inputs"], "every path of every function with output parameters", "Callers in tests pre-initialise their variables.",
  ["base", "formats", "io", "net", "sql", "text", "thread", "tls"], [("output assignment", "stores through pointer parameters")])
p("C23", "Comparison functions are consistent orderings",
  "Every comparison function the library uses for sorting or searching is reflexive and antisymmetric over all combinations of its inputs, including NULL or missing operands: comparing a with b gives the opposite sign of comparing b with a, and equal operands compare equal.",
  ["inputs"], "every pair of operands", "Tests sort a few arrays.",
  ["base/sort", "base/data", "formats", "sql", "io"], [("comparison callbacks", "*_compar* functions")])
p("C24", "Every pluggable back end implements the complete interface",
  "Every I/O layer, SQL driver, log module, event back end, thread model, database profile and hashtable/list instantiation that the library registers provides every operation its interface requires, each with the function that implements it, required callbacks are never left null, and operations the framework treats as optional are never called without being present.",
  ["configurations"], "every registered back end and every optional operation", "Back ends need hardware or servers that tests do not have.",
  ["io", "sql", "log", "base"], [("callback registration", "M_io_callbacks_reg_*, M_sql_driver_t tables, M_event_impl_cbs")])
p("C25", "Formatted output always matches its arguments",
  "Every use of the library's own formatting functions has a format that is fixed in the program, not taken from data, and whose conversions match the number and the types of the arguments passed.",
  ["inputs"], "every formatted-output call in every library", "Most are error messages that tests never trigger.",
  ["base/data/m_str_fmt.c", "all M_snprintf/M_bprintf/M_asprintf/M_printf/M_log_printf callers"], [("format strings", "callers of M_vsnprintf-based functions")])
p("C26", "Writes never pass the end of a buffer",
  "No library function writes (or lets a called function write) beyond the size of a local, embedded or freshly allocated buffer: lengths passed with a buffer never exceed its size, terminators are written inside the allocation, and constant and range-checked indexes lie within the array they index.",
  ["inputs"], "every write to a buffer of statically or symbolically known size", "An off-by-one is invisible without the boundary input and a memory checker.",
  ["base", "formats", "io", "log", "net", "sql", "text", "thread", "tls"], [("size arguments", "M_snprintf/M_str_cpy/M_mem_copy calls and array accesses")])

# ---- properties static analysis does not decide here -------------------------------------------
p("C50", "Serialised documents parse back to the same value",
  "Whatever JSON, XML, INI, CSV, URL, e-mail, HTTP or settings document an application builds, writing it and reading it back yields an equal document.",
  ["inputs"], "all documents", "infinite value space", ["formats"], [("reader/writer pairs", "formats/*")])
p("C51", "Date and time conversion is correct for every zone and instant",
  "Converting between absolute and broken-down time in any time zone follows the zone's rules, is monotonic outside transitions and inverse to itself.",
  ["inputs"], "all instants and zones", "sampled dates only", ["base/time"], [("conversion", "base/time")])
p("C52", "Container operations preserve order, content and counts",
  "Lists, queues, caches and hashtables hold exactly the elements inserted and not removed, in their documented order, whatever the sequence of operations.",
  ["histories"], "all operation sequences", "sampled sequences", ["base/list", "base/hash", "base/cache", "base/data/m_queue.c"], [("containers", "base")])
p("C53", "Every queued task, event and timer is delivered exactly once and in order",
  "Each task given to a thread pool runs exactly once, each I/O event reaches its object's callbacks in layer order, and timers fire no earlier than requested and once per interval.",
  ["schedules", "histories"], "all schedules", "few schedules", ["thread/m_threadpool.c", "io/m_event.c", "io/m_event_timer.c"], [("queues", "thread, io")])
p("C54", "Decimal, rounding and number conversion arithmetic is exact",
  "Decimal arithmetic and number parsing/formatting give the mathematically correct result or report overflow/truncation for all operands.",
  ["inputs"], "all operands", "sampled", ["base/math", "base/data/m_str_num.c"], [("arithmetic", "base/math")])
p("C55", "Regular expressions match exactly their language",
  "A compiled expression matches exactly the strings its POSIX/PCRE-like semantics describe and reports the right capture offsets.",
  ["inputs"], "all patterns and subjects", "sampled", ["text/re"], [("TRE automaton", "text/re/mtre")])
p("C56", "Streaming parsers give the same result for every fragmentation",
  "Feeding HTTP, e-mail, XML or chunked data in any fragmentation gives the same callbacks/results as feeding it at once.",
  ["inputs", "histories"], "all splits", "few splits", ["formats/http", "formats/email"], [("reader state machines", "formats")])
p("C57", "Data sent through an I/O stack arrives unchanged and in order",
  "Bytes written to any stack of layers (TLS, bandwidth shaping, buffering, tracing, proxy protocol) arrive at the peer unchanged, in order, within the configured rates.",
  ["schedules", "histories"], "all schedules and fragmentations", "few", ["io", "tls"], [("layers", "io")])
p("C58", "Log messages are written once, in order, and survive rotation",
  "Every message logged before shutdown is written exactly once to every module in order, across rotation and module suspension, except those dropped by documented limits.",
  ["schedules", "crash_points"], "all schedules", "few", ["log"], [("async writer", "log/m_async_writer.c")])
p("C59", "Queued e-mail is neither lost nor duplicated",
  "Every message accepted by the SMTP queue is delivered or reported failed exactly once, with retries and load balancing as configured.",
  ["histories", "fault_sequences"], "all endpoint failures", "emulated server", ["net/smtp"], [("queue", "net/smtp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
