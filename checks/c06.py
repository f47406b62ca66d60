"""C06: released memory is neither used nor released again."""
from memrules import Rule, src
from ctx import KNOWN
EXPLANATION = "Path-sensitive typestate analysis over heap objects: every function is interpreted abstractly with the summaries of its callees, which state for each of their paths what they release. After an object has been released on a path, a load or store through any pointer to it, passing it to a function that dereferences or releases it, or releasing it again is reported, unless the pointer was assigned again. Pointers loaded from memory are followed by their access path (parameter, member, global), so a release in a callee or in an earlier branch is seen where the object is used later. At every return, a member of an object that stays in use and still holds the address of memory released in the function is reported as well: the next function that uses or destroys the object would use or release it again."
ASSUMPTIONS = ["elements of arrays addressed with different unknown indices are distinct", "container nodes are told apart by the expression that yields them", "objects released by another thread are not seen (the locking checks cover those)", "a callback whose code is not in the library does not release the arguments it is given"]
# confirmed correct, with the reason the analysis cannot see
ALLOW = {
    ("base/data/m_getopt.c", "M_getopt_destroy"): (None, "each turn of the loop takes the next option from the list"),
    ("io/m_io_process.c", "M_io_process_search_command"): (None, "the path is formed anew for each directory"),
    ("net/smtp/m_net_smtp_session.c", "session_tcp_advance"): (None, "the member is cleared by the callback the destruction runs"),
    ("net/smtp/m_net_smtp_session.c", "session_proc_advance"): (None, "the timer member is cleared when the timer is removed"),
    ("sql/m_sql_stmt.c", "M_sql_stmt_execute"): (None, "a transaction that was rolled back is started again before its next use"),
    ("sql/m_sql_stmt_bind.c", "M_sql_stmt_bind_clear"): (None, "rows of an array, each visited once"),
    ("sql/m_sql_stmt_bind.c", "M_sql_stmt_bind_clear_row"): (None, "rows of an array, each visited once"),
    ("text/re/mtre/regcomp.c", "tre_make_trans"): (None, "different elements of the transition table"),
    ("text/re/mtre/tre-mem.c", "tre_mem_destroy"): (None, "each turn of the loop takes the next block"),
}
# members left referring to released memory, confirmed to be unreachable afterwards
LAYER = "the framework drops the layer whose handle this callback releases"
DANGLING = {
    ("base/data/m_buf.c", "M_buf_bjoin_buf"): (None, "the caller gives up the array of buffers"),
    ("base/data/m_buf.c", "M_buf_sjoin_buf"): (None, "the caller gives up the array of buffers"),
    ("base/hash/m_hashtable.c", "M_hashtable_destroy_entry"): (None, "the entry is released or overwritten by every caller"),
    ("io/m_event.c", "M_event_destroy_loop"): (None, "only called while the event object is destroyed"),
    ("io/m_event_trigger.c", "M_io_event_destroy_cb"): (None, LAYER), ("io/m_io_buffer.c", "M_io_buffer_destroy_cb"): (None, LAYER), ("io/m_io_bwshaping.c", "M_io_bwshaping_destroy_cb"): (None, LAYER),
    ("io/m_io_hid_linux.c", "M_io_hid_destroy_cb"): (None, LAYER), ("io/m_io_loopback.c", "M_io_loopback_destroy_cb"): (None, LAYER), ("io/m_io_osevent_pipe.c", "M_io_osevent_destroy_cb"): (None, LAYER),
    ("io/m_io_pipe_posix.c", "M_io_pipe_destroy_cb"): (None, LAYER), ("io/m_io_serial_posix.c", "M_io_serial_destroy_cb"): (None, LAYER), ("io/m_io_trace.c", "M_io_trace_destroy_cb"): (None, LAYER),
    ("io/net/m_dns.c", "M_io_dns_destroy_cb"): (None, LAYER), ("io/net/m_io_net.c", "M_io_net_destroy_cb"): (None, LAYER), ("io/net/m_io_netdns.c", "M_io_netdns_destroy_cb"): (None, LAYER), ("tls/m_tls.c", "M_io_tls_destroy_cb"): (None, LAYER),
    ("io/m_io_bwshaping.c", "M_io_bwshaping_slots_destroy"): (None, "the slots are created anew or dropped by every caller"),
    ("io/net/m_io_net.c", "M_io_net_listen_bind_int"): (None, "a handle that failed to listen is destroyed without using its socket"),
    ("net/smtp/m_net_smtp_endpoint.c", "M_net_smtp_endpoint_dispatch_msg"): (None, "the arguments are given up by the caller"),
    ("net/smtp/m_net_smtp_session.c", "M_net_smtp_session_dispatch_msg"): (None, "the arguments are given up by the caller"),
    ("net/smtp/m_net_smtp_session.c", "M_net_smtp_session_clean"): (None, "the domain is only used while there is a message, whose pointer is cleared"),
    ("net/smtp/m_net_smtp_session.c", "session_tcp_advance"): (None, "the domain is only used while there is a message, whose pointer is cleared"),
    ("net/smtp/m_net_smtp_session.c", "M_net_smtp_session_destroy_int"): (None, "only called while the session is destroyed"),
    ("sql/m_sql_stmt_bind.c", "M_sql_stmt_bind_clear_row"): (None, "the row is taken out of the array"),
    ("sql/mysql/mstdlib_sql_mysql.c", "mysql_cb_fetch"): (None, "the columns are bound again on every fetch"),
    ("sql/postgresql/mstdlib_sql_postgresql.c", "pgsql_cb_destroy"): (None, "the driver is unloaded afterwards"),
    ("thread/m_threadpool.c", "M_threadpool_queue_finish"): (None, "only called while the pool is destroyed"),
}
def run(c):
    nr = sum(f["acq"][2] for f in c.fns)
    c.need(nr, 2200, "places where a function releases an object")
    c.obl(sum(f["obl"] for f in c.fns))
    for f in c.fns:
        if f["acq"][2] > 6: c.sample("%s %s: %d releases, %d dereferences and transfers checked on %d steps" % (f["file"], f["name"], f["acq"][2], f["obl"], f["steps"]))
    ru = Rule(c, ALLOW)
    for r in c.reports("uaf", "doublefree"):
        if ru.allowed(r): continue
        if r["msg"].startswith("merge"): continue     # a value that stands for several after paths were joined: judged on the paths before
        c.find("%s:%s:%s" % (r["kind"], r["fn"], src(r)), "released memory is not used or released again", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    rd = Rule(c, DANGLING)
    for r in c.reports("dangling"):
        if rd.allowed(r): continue
        fs = [c.fns[i] for i in c.byname.get(r["fn"], [])]
        if r["fn"] not in KNOWN and any(f["static"] and not f["addr"] for f in fs): continue   # a helper made since: judged in the functions that call it
        c.find("dangling:%s:%s" % (r["fn"], r["key"].split("|")[-1]), "no member of an object that stays in use refers to released memory", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    t = [f["name"] for f in c.fns if f["trunc"] and f["acq"][2]]
    c.need(60 - len(t), 1, "spare path budgets"); c.cov["releasing functions explored only up to the path budget"] = ", ".join(sorted(t)) or "none"
    c.cov["confirmed exceptions in use"] = len(ru.used) + len(rd.used)
