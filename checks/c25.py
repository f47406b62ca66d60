"""C25: formats are program constants and match their arguments."""
import re
EXPLANATION = "Every call of a formatting function (the library's M_*printf family, and every function that forwards a format parameter to one, found by a fixpoint over the call graph) is checked on the type-checked program: the format argument is a string constant of the program (or the caller's own format parameter), every conversion is one the library's formatter implements, and the number and machine types of the variadic arguments are those the formatter fetches. Cross-checked with clang's -Wformat diagnostics on all translation units (the C-type level check, including signed/unsigned length modifiers)."
ASSUMPTIONS = ["the formatter's conversion table in base/data/m_str_fmt.c is the one read and frozen here (d i o O u x X p P e E f F g G c s %, h hh l ll I64 z, * widths)"]
SEED = {"M_vfprintf": 1, "M_vmdprintf": 1, "M_vdprintf": 1, "M_vprintf": 0, "M_vsnprintf": 2, "M_vasprintf": 1, "M_vbprintf": 1, "M_log_vprintf": 3}
RX = re.compile(r"%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|I64|I|z|)([a-zA-Z%])", re.S)
def needs(fmt):
    """machine types of the arguments, or an error text"""
    out = []; i = 0
    while True:
        j = fmt.find("%", i)
        if j < 0: return out, None
        m = RX.match(fmt, j)
        if not m: return None, "conversion at %r is not understood by the formatter" % fmt[j:j + 6]
        fl, w, p, ln, cv = m.groups(); i = m.end()
        if cv == "%": continue
        if w == "*": out.append("i32")
        if p == "*": out.append("i32")
        if cv in "dioOuxX": out.append("i64" if ln in ("l", "ll", "I64", "z") else "i32")
        elif cv in "eEfFgG": out.append("d")
        elif cv == "c": out.append("i32")
        elif cv in "spP": out.append("p")
        else: return None, "the formatter does not implement %%%s%s" % (ln, cv)
        if cv in "eEfFgGcspP" and ln not in ("", "l"): return None, "length modifier %s on %%%s" % (ln, cv)
def run(c):
    fmtidx = {}
    for n, i in SEED.items():
        for x in c.byname.get(n, []): fmtidx[x] = i
    c.need(len(fmtidx), 8, "v-formatting functions")
    ch = True
    while ch:
        ch = False
        for k in c.calls:
            if "ci" not in k or k["ci"] not in fmtidx or k["f"] in fmtidx: continue
            a = k["a"]; i = fmtidx[k["ci"]]
            if i < len(a) and isinstance(a[i], str) and a[i].startswith("a:"): fmtidx[k["f"]] = int(a[i][2:]); ch = True
    c.cov["formatting functions"] = sorted(c.fns[x]["name"] for x in fmtidx)
    n = 0
    for k in c.calls:
        ts = [t for t in c.targets(k) if t in fmtidx]
        if not ts: continue
        i = fmtidx[ts[0]]; n += 1; c.obl(); file, line, fn = c.at(k)
        a = k["a"][i] if i < len(k["a"]) else None; callee = c.fns[ts[0]]["name"]
        if isinstance(a, str) and a.startswith("a:"):
            if fmtidx.get(k["f"]) == int(a[2:]): continue
        alts = a if isinstance(a, list) else [a]
        if not alts or not all(isinstance(z, str) and z[:2] in ("s:", "x:") for z in alts):
            c.find("nonconst:%s@%s" % (callee, file), "formats are program constants", file, line, fn, "the format passed to %s() is not a constant of the program" % callee); continue
        if "vt" not in k: continue
        for z in alts:
            fmt = z[2:] if z[0] == "s" else bytes.fromhex(z[2:]).decode("latin-1")
            want, err = needs(fmt)
            if err: c.find("conv:%s@%s" % (callee, file), "conversions are implemented", file, line, fn, "%s (format %r)" % (err, fmt)); continue
            if want != k["vt"]: c.find("args:%s:%s" % (file, fmt), "arguments match the conversions", file, line, fn, "format %r takes (%s) but is passed (%s)" % (fmt, ", ".join(want), ", ".join(k["vt"])))
            elif len(c.samples) < 8: c.sample("%s:%s %s(%r) <- %s" % (file, line, callee, fmt, k["vt"]))
    c.need(n, 400, "formatting calls")
    for p, l, w, m in c.d["diags"]:
        if w in ("format", "varargs", "format-extra-args", "format-insufficient-args", "format-invalid-specifier"): c.find("%s:%s:%s" % (w, p, m), "clang -W%s" % w, p, l, "", m)
