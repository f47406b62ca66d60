"""C11: descriptors are closed or handed over on every path, are not inherited by children, and do not raise SIGPIPE."""
from memrules import Rule, src
from ctx import KNOWN
from droprules import judge
EXPLANATION = "Ownership analysis of descriptors, directory handles and FILE handles: every function is interpreted abstractly with its callees' summaries and each descriptor it obtains must, at every return, be closed, returned or held by memory that outlives the call. Every call creating a descriptor is checked to ask for close-on-exec: the flag is in every value the flags argument may take, or every path from the successful creation sets FD_CLOEXEC (through the functions that do so) before the function returns. Every socket send carries MSG_NOSIGNAL, and every write to a pipe of the I/O layer is dominated by blocking SIGPIPE and post-dominated by restoring it."
ASSUMPTIONS = ["one configuration (Linux) is analysed", "a descriptor held by an object is closed by that object's destructor, which C07's rule decides", "the caller of M_fs_file_open asks for an inheritable descriptor with M_FS_FILE_MODE_NOCLOSEEXEC"]
ALLOW = {}
# writes that need no protection, confirmed: files, standard streams, and event descriptors that are never closed at the other end
WRITES = {"M_popen_write": "documented to behave like write(2)", "M_str_fmt_flush_buffers": "a stream the caller gave", "M_str_fmt_add_bytes": "a stream the caller gave", "M_fs_file_write_sys": "a file", "M_io_osevent_trigger": "both ends belong to the object"}
CHILD = {"M_popen"}   # clears the flag in the forked child only, on the ends meant for the program it executes
NOCLOSEEXEC = "set 64"   # M_FS_FILE_MODE_NOCLOSEEXEC
# functions that close the descriptors objects hold: the member holding it
CLOSERS = {"M_io_pipe_destroy_cb": ("handle",), "M_io_pipe_close_handle": ("handle",), "M_event_impl_epoll_data_free": ("epoll_fd",), "M_fs_file_close_sys": ("fd",), "M_fs_file_close": ("fd",), "M_io_serial_destroy_cb": ("fd",), "M_io_serial_destroy_handle": ("fd",), "M_io_serial_close_handle": ("fd",), "M_io_hid_destroy_cb": ("handle",), "hid_linux_destroy_handle": ("handle",), "M_popen_closefd": ("stdin_fd", "stdout_fd", "stderr_fd"), "M_io_net_handle_close": ("data|net.sock",)}
def run(c):
    nr = sum(f["acq"][1] for f in c.fns); c.need(nr, 10, "places where a descriptor or handle is obtained"); c.obl(nr)
    ru = Rule(c, ALLOW)
    for r in c.reports("resleak"):
        if ru.allowed(r): continue
        c.find("resleak:%s:%s" % (r["fn"], src(r)), "a descriptor obtained is closed or handed over on every path", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    for r in c.reports("uaf", "doublefree"):
        if "()" in r["msg"] and src(r) in ("open", "socket", "accept4", "accept", "pipe2", "epoll_create1", "opendir", "fopen"): c.find("reuse:%s:%s" % (r["fn"], src(r)), "a descriptor is closed once", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    n = ns = 0
    for s in c.d["fdsites"]:
        f = c.fns[s["f"]]; c.obl()
        if s["c"].startswith("send"):
            ns += 1
            if s["how"] != "flag": c.find("sigpipe:%s:%s" % (c.oname(s["f"]), s["c"]), "sending on a socket never raises SIGPIPE", f["file"], s["l"], f["name"], "%s() is called without MSG_NOSIGNAL" % s["c"])
            continue
        n += 1; c.sample("%s:%d %s(): %s() %s" % (f["file"], s["l"], f["name"], s["c"], {"flag": "carries the close-on-exec flag", "set": "is followed by setting FD_CLOEXEC on every path", "returned": "is judged in the callers", "none": "leaves the flag out when the caller asks for it"}[s["how"]]))
        if s["how"] in ("flag", "set", "returned"): continue
        if f["file"].startswith("base/fs/") and s["lacking"] and set(s["lacking"]) == {NOCLOSEEXEC}: continue
        c.find("cloexec:%s:%s" % (c.oname(s["f"]), s["c"]), "descriptors the library keeps are not inherited by child processes", f["file"], s["l"], f["name"], "the descriptor %s() yields is not close-on-exec on every path" % s["c"])
    c.need(n, 9, "calls creating a descriptor"); c.need(ns, 1, "socket sends")
    for k in c.d["inherits"]:
        f = c.fns[k["f"]]; o = c.oname(k["f"]); c.obl()
        if o in CHILD: continue
        want = None if k["idx"] not in (0, 1) else 1 << k["idx"]     # M_IO_PIPE_INHERIT_READ, M_IO_PIPE_INHERIT_WRITE
        if o != "M_io_pipe_create" or (f["name"] == o and want is not None and want not in k["when"]): c.find("inherit:%s:%s" % (o, k["idx"]), "only the end of a pipe its caller asks to be inherited is", f["file"], k["l"], f["name"], "close-on-exec is cleared without the caller's flag asking for it")
    n = 0
    for w in c.d["pipewrites"]:
        f = c.fns[w["f"]]; o = c.oname(w["f"]); c.obl()
        if w["blocked"] and w["restored"]: n += 1; continue
        if o in WRITES: continue
        if f["name"] not in KNOWN and f["name"] != o and any("sigmask" in (c.fns[t]["name"] if isinstance(t, int) else "") or k2.get("c") == "pthread_sigmask" for t in c.reach([c.owner(w["f"])], False) for k2 in c.bycaller[t]): n += 1; continue   # a helper made since, called where the signal is blocked
        c.find("sigpipe:%s" % o, "writing to a pipe of the I/O layer never raises SIGPIPE", f["file"], w["l"], f["name"], "write() with SIGPIPE %s" % ("not blocked" if not w["blocked"] else "not restored on every path"))
    c.need(n, 1, "protected pipe writes")
    n = judge(c, lambda f, m: m.split("->")[-1] in CLOSERS.get(f, ()))
    c.need(n, 20, "descriptors closed with the object holding them")
    for q in c.d["sigseq"]:
        f = c.fns[q["f"]]; o = c.oname(q["f"])
        if o in ("M_thread_pthread_sigmask", "M_thread_coop_sigmask"): continue    # sets the mask its caller gives
        c.obl()
        if q["late"]: c.find("sigpipe:late:%s" % o, "SIGPIPE is consumed before it is unblocked", f["file"], q["l"], f["name"], "the signal is unblocked before it is consumed")
        if not q["named"] or not q["pending"]:
            if f["name"] not in KNOWN: continue     # a helper made since: its caller looks at what is pending
            if any(c.fns[t]["name"] not in KNOWN for k in c.bycaller[q["f"]] for t in c.targets(k)): continue
            c.find("sigpipe:seq:%s" % o, "SIGPIPE is consumed before it is unblocked", f["file"], q["l"], f["name"], "the signal mask changes without %s" % ("looking at what is pending" if not q["pending"] else "SIGPIPE being in it or consumed"))
    for i in c.byname.get("M_io_osevent_destroy_cb", []):
        rp = next((x["p"] for x in c.d["relpaths"] if x["f"] == i), {}); hs = any(c.fns[t]["name"] not in KNOWN for k in c.bycaller[i] for t in c.targets(k)); c.obl()
        have = [p for p in rp if p.startswith("arg0->handle->handles->")]
        if len(have) < 2 and not any("[]" in p for p in have) and not hs and not rp.get("?"): c.find("osevent", "descriptors are closed with the object holding them", c.fns[i]["file"], c.fns[i]["line"], c.fns[i]["name"], "not both ends of the event's pipe are closed")
