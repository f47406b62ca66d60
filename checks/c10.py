"""C10: heap only through the library allocator, which overwrites every block before releasing it."""
import json, os, subprocess, tempfile
import vlib
from vlib import Broken, R, LLVM, B
EXPLANATION = "Two static rules. (1) Who-may-call: C library functions that allocate, resize or release heap memory are called (or have their address taken) only in the allocator's file base/mem/m_mem.c; the only exception is the release of backtrace_symbols()' result. (2) On the allocator's optimised LLVM IR (clang -O2 with inlining, so helpers and loops are normalised): with scalar-evolution expressions, every malloc() records exactly the requested size in the header it hands out behind, no code rewrites the header of an existing block, and every path to free() overwrites a range of at least the recorded size from the header of that very block, with a volatile access / barrier / explicit_bzero keeping the overwrite alive."
ASSUMPTIONS = ["the header at (user pointer - K) is only written by the allocator", "a volatile access to the block (the code base's idiom) stops the compiler from dropping the preceding memset; confirmed on the optimised output of clang 18", "memory handled by third-party libraries' own allocators is out of scope"]
RAW = set("malloc calloc realloc reallocarray free cfree memalign posix_memalign aligned_alloc valloc pvalloc strdup strndup wcsdup asprintf vasprintf __asprintf_chk __vasprintf_chk getline getdelim open_memstream realpath canonicalize_file_name get_current_dir_name tempnam scandir sbrk brk __strdup __strndup".split())
ALLOCFILE = "base/mem/m_mem.c"
ALLOW = {("free", "backtrace/m_backtrace_unx.c"): "releases the array backtrace_symbols() returned"}
def run(c):
    n = 0; inside = 0
    def one(name, file, line, fn, how):
        nonlocal inside
        if name not in RAW: return
        if file == ALLOCFILE: inside += 1; return
        if (name, file) in ALLOW: c.sample("%s:%s %s %s: confirmed, %s" % (file, line, how, name, ALLOW[name, file])); return
        c.find("%s@%s" % (name, file), "the C heap is only used by the allocator", file, line, fn, "%s %s() outside the library's allocator; the block is not wiped when released" % (how, name))
    for k in c.calls:
        file, line, fn = c.fns[k["f"]]["file"], k["l"], c.fns[k["f"]]["name"]
        for a in k.get("a", []):
            if isinstance(a, str) and a.startswith("f:"): n += 1; one(a[2:], file, line, fn, "passes the address of")
        if "ci" in k: continue
        if "c" in k: n += 1; one(k["c"], file, line, fn, "calls")
        for t in k.get("t", []):
            if isinstance(t, str): n += 1; one(t, file, line, fn, "calls through a pointer")
    def walk(v):
        if isinstance(v, list):
            for x in v: yield from walk(x)
        elif isinstance(v, str) and v.startswith("f:"): yield v[2:]
    for g in c.d["globals"]:
        for t in walk(g.get("init")): n += 1; one(t, g["file"], g["line"], g["name"], "table entry")
    c.obl(n); c.need(inside, 2, "C heap calls inside the allocator")
    bd, tus = vlib.compile_db()
    tu = [t for t in tus if t["file"] == ALLOCFILE]
    if not tu: raise Broken("%s is gone" % ALLOCFILE)
    with tempfile.TemporaryDirectory(dir=B) as tmp:
        bc = os.path.join(tmp, "m.bc"); out = os.path.join(tmp, "m.json")
        p = subprocess.run([LLVM + "/bin/clang", "-w", "-O2", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-mllvm", "-inline-threshold=5000", "-c", "-emit-llvm"] + [f.replace("@B@", bd).replace("@R@", R) for f in tu[0]["flags"]] + ["-o", bc, os.path.join(R, ALLOCFILE)], capture_output=True, text=True)
        if p.returncode: raise Broken("%s does not compile: %s" % (ALLOCFILE, p.stderr[:500]))
        p = subprocess.run([vlib.ensure_engine(), "--wipe", bc, "-o", out], capture_output=True, text=True)
        if p.returncode: raise Broken("wipe analysis failed: " + p.stderr[:500])
        d = json.load(open(out))
    c.need(len(d["frees"]), 1, "releases of a block to the C heap (after inlining)"); c.need(len(d["mallocs"]), 1, "allocations of a block from the C heap (after inlining)")
    for kind, rule in (("frees", "every block is overwritten before free()"), ("mallocs", "every block records its exact size"), ("headers", "the recorded size never changes")):
        for x in d[kind]:
            c.obl(); c.sample("%s: %s() line %s: %s" % (kind, x["fn"], x["line"], x["why"] or "ok"))
            if x["why"]: c.find("%s:%s" % (kind, x["why"]), rule, ALLOCFILE, x["line"], x["fn"], x["why"])
