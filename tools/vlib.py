"""Shared driver: compile /repo to LLVM IR, run the analyser, load its facts."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
B = os.path.join(V, "build")

# compiler diagnostics that are rule inputs (C08, C25); everything else is off
WARN = ["-Wno-everything", "-Wformat", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized", "-Wvarargs", "-Wreturn-type", "-Wreturn-stack-address", "-fno-diagnostics-color"]

class Broken(Exception):
    """the analysis itself is broken (vanished anchor, source that does not compile, ...): neither pass nor violation"""

def build_hash(repo):
    """hash of everything that decides which files are compiled and with which flags"""
    h = hashlib.sha256(); fs = []
    for root, ds, ns in os.walk(repo):
        rel = os.path.relpath(root, repo)
        ds[:] = sorted(d for d in ds if d not in (".git", "_build", "test", "doc"))
        for n in sorted(ns):
            if n == "CMakeLists.txt" or n.endswith(".cmake") or n in ("config.h.cmake", "m_config.h"): fs.append(os.path.join(root, n))
    for f in sorted(fs):
        h.update(os.path.relpath(f, repo).encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def ensure_engine():
    exe = os.path.join(B, "mstana"); src = os.path.join(V, "engine")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if not os.path.exists(exe) or os.path.getmtime(exe) < newest:
        os.makedirs(B, exist_ok=True)
        p = subprocess.run(["bash", os.path.join(src, "build.sh")], capture_output=True, text=True)
        if p.returncode: raise Broken("the analyser does not build: " + p.stderr[-2000:])
    return exe

def compile_db():
    """(build dir holding config.h, list of translation units)"""
    fz = json.load(open(os.path.join(V, "frozen/tus.json")))
    if build_hash(R) == fz["hash"]: return os.path.join(V, "frozen/cfg"), fz["tus"]
    d = os.path.join(B, "cfg")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    p = subprocess.run(["cmake", "-S", R, "-B", d, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DMSTDLIB_BUILD_TESTS=OFF", "-DCMAKE_BUILD_TYPE=RelWithDebInfo"], capture_output=True, text=True)
    if p.returncode or not os.path.exists(os.path.join(d, "compile_commands.json")): raise Broken("cmake configure failed: " + p.stderr[-1500:])
    o = os.path.join(B, "cfgfz")
    p = subprocess.run([sys.executable, os.path.join(V, "tools/freeze.py"), d, o], capture_output=True, text=True)
    if p.returncode: raise Broken("freeze failed: " + p.stderr[-1500:])
    return os.path.join(o, "cfg"), json.load(open(os.path.join(o, "tus.json")))["tus"]

def source_hash():
    h = hashlib.sha256()
    for root, ds, ns in os.walk(R):
        ds[:] = sorted(d for d in ds if d not in (".git", "_build", "test", "doc"))
        for n in sorted(ns):
            if n.endswith((".c", ".h", ".in", ".cmake", ".txt")):
                f = os.path.join(root, n); h.update(f.encode()); h.update(open(f, "rb").read())
    for d in ("engine", "frozen", "tools"):
        for n in sorted(os.listdir(os.path.join(V, d))):
            f = os.path.join(V, d, n)
            if os.path.isfile(f) and not n.endswith(".pyc") and n != "mkprops.py": h.update(open(f, "rb").read())
    return h.hexdigest()

def strip_comments(t):
    return re.sub(r'/\*.*?\*/|//[^\n]*', ' ', t, flags=re.S)

def public_names():
    s = set()
    inc = os.path.join(R, "include")
    for root, ds, ns in os.walk(inc):
        for n in ns:
            if n.endswith(".h"):
                t = strip_comments(open(os.path.join(root, n), errors="replace").read())
                for m in re.finditer(r'\bM_API\b[^;{]*?\b(M_\w+)\s*\(', t): s.add(m.group(1))
    return s

def facts():
    """analyse the current tree; returns the facts dictionary"""
    t0 = time.time(); exe = ensure_engine()
    key = source_hash(); cache = os.path.join(B, "facts-" + key[:24] + ".json")
    if os.path.exists(cache) and not os.environ.get("VERIF_NOCACHE"):
        try:
            d = json.load(open(cache)); d["_wall"] = time.time() - t0; return d
        except ValueError: pass
    bd, tus = compile_db()
    os.makedirs(B, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="ir-", dir=B)
    try:
        def one(ix):
            i, x = ix
            o = os.path.join(tmp, "%d.bc" % i)
            cmd = [LLVM + "/bin/clang"] + WARN + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fPIC", "-emit-llvm", "-c"] + [f.replace("@B@", bd).replace("@R@", R) for f in x["flags"]] + ["-o", o, os.path.join(R, x["file"])]
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=bd)
            return o, x["file"], p.returncode, p.stderr
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex: rs = list(ex.map(one, enumerate(tus)))
        bad = [r for r in rs if r[2]]
        if bad: raise Broken("%d translation units do not compile, first %s: %s" % (len(bad), bad[0][1], bad[0][3][:600]))
        diags = set()
        for o, f, rc, err in rs:
            for m in re.finditer(r'^(\S+?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]$', err, re.M):
                p = m.group(1); p = os.path.relpath(p, R) if p.startswith(R + "/") else p
                diags.add((p, int(m.group(2)), m.group(4), m.group(3)))
        n = os.cpu_count() or 4
        def grp(i):
            fs = [r[0] for r in rs[i::n]]
            if not fs: return None, 0, ""
            o = os.path.join(tmp, "g%d.bc" % i)
            p = subprocess.run([LLVM + "/bin/llvm-link", "-o", o] + fs, capture_output=True, text=True)
            return o, p.returncode, p.stderr
        with cf.ThreadPoolExecutor(n) as ex: gs = [g for g in ex.map(grp, range(n)) if g[0]]
        bad = [g for g in gs if g[1]]
        if bad: raise Broken("linking failed: " + bad[0][2][:600])
        pub = os.path.join(tmp, "pub.txt"); open(pub, "w").write("\n".join(sorted(public_names())) + "\n")
        out = os.path.join(tmp, "facts.json")
        env = dict(os.environ, MSTANA_REPO=R)
        p = subprocess.run([exe, "--public", pub, "--known", os.path.join(V, "frozen/fns.json"), "--facts", out, "-j", str(os.cpu_count() or 4)] + [g[0] for g in gs], capture_output=True, text=True, env=env)
        if os.environ.get("VERIF_KEEPBC"):
            os.makedirs(os.environ["VERIF_KEEPBC"], exist_ok=True)
            for q in [g[0] for g in gs] + [pub]: shutil.copy(q, os.environ["VERIF_KEEPBC"])
        if p.returncode: raise Broken("analyser failed (%d): %s" % (p.returncode, p.stderr[-1500:]))
        d = json.load(open(out)); d["tus"] = len(tus); d["diags"] = sorted(diags)
        for f in os.listdir(B):
            if f.startswith("facts-"): 
                try: os.unlink(os.path.join(B, f))
                except OSError: pass
        shutil.move(out, cache)
        json.dump(d, open(cache + ".tmp%d" % os.getpid(), "w")); os.replace(cache + ".tmp%d" % os.getpid(), cache)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d["_wall"] = time.time() - t0
    return d
