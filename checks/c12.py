"""C12: only async-signal-safe functions between fork and exec."""
EXPLANATION = "Effect rule: for every call of fork() (also through wrappers that return its result) the code the child executes is enumerated on the control-flow graph with the fork result taken to be 0, and transitively through the library functions called there. Every function outside the library it can call must be on the POSIX async-signal-safe list (plus confirmed additions), no library lock or allocation function may be reachable, and no path may leave the forking function by returning."
ASSUMPTIONS = ["the async-signal-safe list of POSIX.1-2017 2.4.3; execvp() of glibc >= 2.24 does not allocate", "branches on the fork result are decided with result 0; all other branches are taken both ways"]
SAFE = set("""_exit _Exit abort accept access alarm bind cfgetispeed cfsetispeed chdir chmod chown clock_gettime close connect creat dup dup2 dup3 execl execle execv execve execvp faccessat fchdir fchmod fchown fcntl fcntl64 fdatasync fexecve fstat fsync ftruncate
getegid geteuid getgid getgroups getpeername getpgrp getpid getppid getsockname getsockopt getuid kill link listen lseek lseek64 lstat memccpy memchr memcmp memcpy memmove memset mkdir mkfifo open open64 openat pause pipe pipe2 poll pthread_kill pthread_self
pthread_sigmask raise read readlink recv rename rmdir select send setgid setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember signal sigprocmask sleep socket socketpair stat stpcpy strcat strchr strcmp strcpy strcspn strlen
strncat strncmp strncpy strnlen strpbrk strrchr strspn strstr symlink sysconf_no tcsetattr tcgetattr time times umask uname unlink utime wait waitpid write __errno_location nanosleep getrlimit setrlimit closefrom close_range vhangup setresuid setresgid setreuid setregid seteuid setegid chroot sched_setaffinity prctl""".split())
def run(c):
    forks = c.d["forks"]; n = 0
    c.need(len([f for f in forks if not f["wrapper"]]), 2, "fork sites")
    for fk in forks:
        if fk["wrapper"]: continue
        F = c.fns[fk["f"]]
        def bad(file, line, fn, name, why, via):
            c.find("%s@%s" % (name, F["file"]), "async-signal-safe only between fork and exec", file, line, fn, "the child of the fork at %s:%s %s" % (F["file"], fk["l"], why % name), via)
        if fk["returns"]: c.find("return@%s" % F["file"], "the child never returns into the parent's code", F["file"], fk["l"], F["name"], "a path of the forked child returns from %s()" % F["name"])
        term = [t for k in fk["calls"] for t in k["t"] if t in ("_exit", "_Exit", "execv", "execve", "execvp", "abort")]
        c.obl()
        seen = set(); w = []
        for k in fk["calls"]:
            n += 1; c.obl(); c.sample("%s:%s child calls %s" % (F["file"], k["l"], ",".join(k["t"])))
            if not k["t"]: bad(F["file"], k["l"], F["name"], "(unresolved pointer)", "calls through an unresolved function %s", None)
            for t in k["t"]:
                if t not in SAFE and t not in c.byname and not t.startswith("llvm."): bad(F["file"], k["l"], F["name"], t, "calls %s(), which is not async-signal-safe", None)
            for i in k["i"]:
                if i not in seen: seen.add(i); w.append((i, ["%s:%s" % (F["file"], k["l"])]))
        while w:
            x, via = w.pop()
            for k in c.bycaller[x]:
                n += 1; c.obl()
                names = ([k["c"]] if "c" in k and "ci" not in k else []) + [t for t in k.get("t", []) if isinstance(t, str)]
                if "c" not in k and not k.get("t"): names.append("(unresolved pointer)")
                for t in names:
                    if t not in SAFE and not t.startswith("llvm."): bad(*c.at(k)[:2], c.fns[x]["name"], t, "reaches %s(), which is not async-signal-safe", via + ["%s:%s" % c.at(k)[:2]])
                for t in c.targets(k):
                    if t not in seen: seen.add(t); w.append((t, via + ["%s:%s" % c.at(k)[:2]]))
    c.need(n, 10, "calls executed by forked children")
