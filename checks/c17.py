"""C17: enumerations, their names and native codes convert correctly and one-to-one."""
import codecs, errno, json, os, re
from http import HTTPStatus
from vlib import Broken, V
EXPLANATION = "Every conversion function is evaluated by sparse conditional constant propagation for every enumerator of its parameter type (and every constant the function compares with, its neighbours, and for string parsers every literal it compares with); the resulting name/value relation is compared with the reference: the enumerator's own name, the HTTP registry, Python's codec aliases, errno meanings, or the confirmed table in frozen/maps.json; to/from functions are compared with each other. Constant conversion tables of the program are compared entry by entry."
ASSUMPTIONS = ["the confirmed texts and native error classes in frozen/maps.json were reviewed against the headers' documentation", "Python's http and codecs modules hold the registered names"]
NAMED = {"M_http_errcode_to_str": "", "M_json_errcode_to_str": "", "M_xml_errcode_to_str": "", "M_net_errcode_to_str": "", "M_event_type_string": "M_EVENT_TYPE_", "M_http_method_to_str": "M_HTTP_METHOD_"}
# several enumerators may share a name / have none
NONAME = {"M_HTTP_VERSION_UNKNOWN", "M_HTTP_METHOD_UNKNOWN", "M_TEXTCODEC_UNKNOWN", "M_TLS_PROTOCOL_INVALID", "M_TLS_PROTOCOL_DEFAULT", "M_LOG_SUCCESS"}
NOT_NAMES = {"line_end_to_str", "M_settings_determine_type_extension"}
REASON = {306: {"Switch Proxy", "(Unused)", "Unused"}, 413: {"Payload Too Large", "Content Too Large"}, 414: {"URI Too Long"}, 416: {"Range Not Satisfiable"}, 418: {"I'm a teapot"}, 422: {"Unprocessable Entity", "Unprocessable Content"}}
def s(r): return None if not r or r[0] is None else r[0][2:] if isinstance(r[0], str) and r[0].startswith("s:") else r[0]
def run(c):
    fz = json.load(open(os.path.join(V, "frozen/maps.json")))
    def bad(e, what, msg):
        f = c.fns[e["f"]]; c.find("%s:%s" % (f["name"], what), "conversion agrees with the reference", f["file"], f["line"], f["name"], msg)
    nf = np = 0; tostr = {}
    for e in c.d["enumstr"]:
        n = c.fns[e["f"]]["name"]; en = {v: k for k, v in e["enum"]}; P = [(v, r) for v, r in e["pairs"] if len(r) == 1 and r[0] != "?"]
        if len(P) < 2: continue
        nf += 1; tostr[n] = {v: s(r) for v, r in P}; d = s(e["default"]) if len(e["default"]) == 1 else None
        if n not in NOT_NAMES:
            seen = {}
            for v, r in P:
                t = s(r); k = en.get(v, str(v)); c.obl(); np += 1
                if k in NONAME: continue
                if not t: bad(e, k, "%s yields no name" % k)
                elif t == d and len(en) and len(P) > 2 and t.lower() in ("unknown", "generic", "unknown error"): bad(e, k, "%s yields the fallback name \"%s\"" % (k, t))
                elif t in seen: bad(e, k, "%s and %s both yield \"%s\"" % (seen[t], k, t))
                seen.setdefault(t, k)
            for k, v in e["enum"]:
                c.obl()
                if k not in NONAME and not any(v == x for x, _ in e["pairs"]): bad(e, k, "%s has no case" % k)
        if n in NAMED:
            for v, r in P:
                k = en.get(v)
                if k is None or k in NONAME: continue
                c.obl()
                if s(r) != k[len(NAMED[n]):]: bad(e, k, "%s yields \"%s\"" % (k, s(r)))
        if n == "M_http_code_to_reason":
            ok = {x.value: {x.phrase} for x in HTTPStatus}
            for v, r in P:
                c.obl(); w = REASON.get(v, set()) | ok.get(v, set())
                if w and s(r) not in w and s(r) != d: bad(e, v, "status %d yields \"%s\", registered as \"%s\"" % (v, s(r), sorted(w)[0]))
            for v, w in ok.items():
                if v < 418 or v in (422, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505):
                    c.obl()
                    if v not in dict(P): bad(e, v, "status %d (%s) has no reason phrase" % (v, sorted(w)[0]))
            c.need(len(P), 40, "HTTP status codes with a reason phrase")
        for k, want in fz["text"].get(n, {}).items():
            got = [s(r) for v, r in P if str(en.get(v, v)) == k]
            if not got: continue
            c.obl()
            if got[0] != want: bad(e, k, "%s yields \"%s\", confirmed \"%s\"" % (k, got[0], want))
    c.need(nf, 14, "value-to-name functions"); c.need(np, 250, "value/name pairs")
    ns = 0
    for e in c.d["strenum"]:
        n = c.fns[e["f"]]["name"]; dv = set(e["default"])
        inv = tostr.get(n.replace("_from_str", "_to_str"))
        if n.endswith("_from_str") and inv and len(dv) == 1:
            got = {}
            for lit, vals in e["pairs"]:
                v = [x for x in vals if x not in dv]
                if len(v) == 1: got[lit.lower()] = v[0]
            for v, t in inv.items():
                if v in dv or not t: continue
                c.obl(); ns += 1
                if got.get(t.lower()) != v: bad(e, t, "\"%s\" is the name of value %s but parses to %s" % (t, v, got.get(t.lower(), "nothing")))
    for e in c.d["strenum"]:
        n = c.fns[e["f"]]["name"]
        if n == "M_textcodec_codec_from_str":
            name = {v: k for q in c.d["enumstr"] if c.fns[q["f"]]["name"] == "M_textcodec_codec_to_str" for k, v in q["enum"]}
            for lit, vals in e["pairs"]:
                v = [x for x in vals if x not in e["default"]]
                if len(v) != 1: continue
                k = name.get(v[0], "?")[len("M_TEXTCODEC_"):]; c.obl(); ns += 1
                try: py = codecs.lookup(lit.replace("ibm-", "cp").replace("windows-874", "cp874")).name
                except LookupError: py = None
                m = re.search(r"iso[-_]?8859[-_]?(\d+)", lit)
                if m and m.group(1) and not k == "ISO8859_" + m.group(1): bad(e, lit, "\"%s\" selects %s" % (lit, k))
                mine = {"UTF8": "utf-8", "ASCII": "ascii", "PUNYCODE": "punycode", "QUOTED_PRINTABLE": "quopri"}.get(k) or (k.startswith("ISO8859_") and "iso8859-" + k[8:]) or (k.startswith("CP") and k.lower()) or None
                if py and mine and py != mine and not (lit in ("ibm-039", "ibm039") or (py == "cp037" and mine == "cp037")): bad(e, lit, "\"%s\" selects %s, the registered alias means %s" % (lit, k, py))
                m = re.fullmatch(r"(?:l|latin[-_ ]?)(\d+)", lit)
                if m and not k == "ISO8859_" + {"1": "1", "2": "2", "3": "3", "4": "4", "5": "9", "6": "10", "7": "13", "8": "14", "9": "15", "10": "16"}[m.group(1)]: bad(e, lit, "\"%s\" selects %s" % (lit, k))
                m = re.search(r"(?:cp|ibm-?|windows-)(\d+)$", lit)
                if m and m.group(1) not in ("819", "039") and k != "CP" + m.group(1).lstrip(): bad(e, lit, "\"%s\" selects %s" % (lit, k))
        if n == "M_http_method_from_str":
            name = {v: k for q in c.d["enumstr"] if c.fns[q["f"]]["name"] == "M_http_method_to_str" for k, v in q["enum"]}
            for lit, vals in e["pairs"]:
                for v in vals:
                    if v in e["default"]: continue
                    c.obl(); ns += 1
                    if name.get(v) != "M_HTTP_METHOD_" + lit.upper(): bad(e, lit, "\"%s\" parses to %s" % (lit, name.get(v, v)))
        if n == "sqlite_type_to_mtype":
            want = {"bigint": 4, "integer": 4, "int": 3, "smallint": 2, "tinyint": 1, "text": 5, "varchar(": 5, "blob": 6, "blob(": 6}
            for lit, vals in e["pairs"]:
                if lit in want and len(vals) == 1:
                    c.obl()
                    if vals[0] != want[lit]: bad(e, lit, "column type \"%s\" maps to data type %s" % (lit, vals[0]))
    c.need(ns, 150, "name-to-value pairs")
    ni = 0; seenf = set()
    for e in c.d["enumint"]:
        n = c.fns[e["f"]]["name"]; z = fz["int"].get(n)
        if not z or z["arg"] != e["arg"]: continue
        seenf.add(n); en = {v: k for k, v in e["enum"]}; got = {str(v): r for v, r in e["pairs"]}; dflt = e["default"]
        for v, want in z["map"].items():
            if "?" in want: continue
            r = got.get(v, dflt); c.obl(); ni += 1
            if "?" in r: continue
            if r != want: bad(e, v, "%s maps to %s, confirmed %s" % (en.get(int(v), v), r, want))
        for v, r in got.items():
            if v not in z["map"] and len(r) == 1 and r[0] != "?" and "?" not in z["default"]:
                c.obl()
                if r != z["default"]: bad(e, v, "%s maps to %s, confirmed the default %s" % (en.get(int(v), v), r, z["default"]))
    c.need(ni, 300, "value-to-value pairs"); c.cov["value conversion functions"] = sorted(seenf)
    # ---- constant tables
    nt = 0
    T = [g for g in c.d["globals"] if isinstance(g["init"], list) and g["init"] and isinstance(g["init"][0], list)]
    def tab(sel, want, what, ordered=False, enough=3):
        nonlocal nt
        for g in T:
            rows = [r for r in g["init"] if len(r) == 2]
            if len(rows) != len(g["init"]) or not sel(g, rows): continue
            nt += 1; dic = {}
            for a, b in rows: dic.setdefault(a, b)
            fn = g["fn"] or g["name"]
            def f(k, msg): c.find("%s:%s:%s" % (what, fn, k), "table entries hold the confirmed value", g["file"] or (c.fn(g["fn"], False) or {}).get("file"), g["line"] or (c.fn(g["fn"], False) or {}).get("line", 0), fn, msg)
            for k, v in want.items():
                c.obl()
                if dic.get(k) != v: f(k, "%s: %r maps to %r, confirmed %r" % (what, k, dic.get(k), v))
            for k, v in rows:
                c.obl()
                if isinstance(k, str) and k not in want: f(k, "%s: unexpected entry %r -> %r" % (what, k, v))
            strs = [k[2:] for k, _ in rows if isinstance(k, str)]
            for i, a in enumerate(strs):
                for b in strs[i + 1:]:
                    if ordered and b != a and b.startswith(a): f(b, "%s: \"%s\" is shadowed by the earlier, shorter \"%s\"" % (what, b, a))
            return True
    def keys(g, rows): return {r[0] for r in rows}
    S = lambda d: {"s:" + k: v for k, v in d.items()}
    iso = S({"SERIALIZABLE": 5, "SNAPSHOT": 4, "REPEATABLE READ": 3, "READ COMMITTED": 2, "READ UNCOMMITTED": 1})
    tab(lambda g, r: len(keys(g, r) & set(iso)) >= 3, iso, "SQL isolation level")
    tls = S({"tlsv1": 15, "tlsv1+": 15, "tlsv1.0": 1, "tlsv1.0+": 15, "tlsv1.1": 2, "tlsv1.1+": 14, "tlsv1.2": 4, "tlsv1.2+": 12, "tlsv1.3": 8, "tlsv1.3+": 8})
    tab(lambda g, r: len(keys(g, r) & set(tls)) >= 5, tls, "TLS protocol name")
    ver = S({"TLSv1": 1, "TLSv1.1": 2, "TLSv1.2": 4, "TLSv1.3": 8})
    tab(lambda g, r: len(keys(g, r) & set(ver)) >= 2, ver, "TLS version of a connection")
    pg = S({"HYT00": 106, "HYT01": 106, "00": 0, "08": 106, "23": 410, "40": 400, "53100": 400, "25P02": 400, "53": 106, "57P": 106})
    tab(lambda g, r: len(keys(g, r) & set(pg)) >= 7, pg, "PostgreSQL SQLSTATE", ordered=True)
    od = S({"08S01": 106, "08007": 106, "HYT00": 106, "HYT01": 106, "40000": 400, "40001": 400, "23000": 410, "40002": 410, "40003": 400, "40P01": 400, "25S03": 400})
    tab(lambda g, r: len(keys(g, r) & set(od)) >= 7, od, "ODBC SQLSTATE", ordered=True)
    db2 = S({"00": 0, "08": 106, "23": 410, "40": 400, "42505": 105})
    tab(lambda g, r: len(keys(g, r) & set(db2)) >= 4 and not keys(g, r) & {"s:HYT00"}, db2, "DB2 SQLSTATE", ordered=True)
    tab(lambda g, r: r[0] == [50, 1] and len(r) > 15, {b: i + 1 for i, b in enumerate([50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400])} | {b: 0o10001 + i for i, b in enumerate([57600, 115200, 230400, 460800, 500000, 576000, 921600, 1000000, 1152000, 1500000, 2000000, 2500000, 3000000, 3500000, 4000000])}, "serial baud rate")
    for g in T:
        if g["name"] == "M_io_process_exitcodes":
            nt += 1; want = {errno.EACCES: 126, errno.ENOENT: 127, errno.ENOEXEC: 128, errno.E2BIG: 129}
            for r in g["init"]:
                c.obl()
                if len(r) == 2 and want.get(r[0], r[1]) != r[1]: c.find("exitcode:%s" % r[0], "exec failure codes", g["file"], g["line"], g["name"], "errno %s is reported by exit code %s" % (r[0], r[1]))
            if len({r[1] for r in g["init"]}) != len(g["init"]): c.find("exitcode:dup", "exec failure codes are distinct", g["file"], g["line"], g["name"], "two errno values share an exit code")
    cls = S({"alpha": "s:a-zA-Z", "alnum": "s:a-zA-Z0-9", "word": "s:a-zA-Z0-9_", "space": "s: \t\r\n\x0b\x0c", "digit": "s:0-9", "cntrl": "s:\x01-\x1f\x7f", "print": "s: -~", "xdigit": "s:0-9a-fA-F", "lower": "s:a-z", "upper": "s:A-Z", "blank": "s: \t", "graph": "s:!-~", "punct": "s:!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"})
    def expand(x):
        x = x[2:] if x.startswith("s:") else x; o = set(); i = 0
        while i < len(x):
            if i + 2 < len(x) and x[i + 1] == "-": o |= {chr(k) for k in range(ord(x[i]), ord(x[i + 2]) + 1)}; i += 3
            else: o.add(x[i]); i += 1
        return o
    for g in T:
        rows = [r for r in g["init"] if len(r) == 2]
        if len({r[0] for r in rows if isinstance(r[0], str)} & set(cls)) >= 8:
            nt += 1
            for k, v in cls.items():
                got = dict((a, b) for a, b in rows if isinstance(a, str)).get(k); c.obl()
                if not isinstance(got, str) or expand(got) != expand(v): c.find("regex class:%s" % k, "POSIX character classes", g["file"], g["line"], g["name"], "[[:%s:]] covers %r" % (k[2:], got))
        mac = {"t": "\t", "n": "\n", "r": "\r", "f": "\f", "a": "\a", "e": "\x1b", "w": "[[:word:]]", "W": "[^[:word:]]", "s": "[[:space:]]", "S": "[^[:space:]]", "d": "[[:digit:]]", "D": "[^[:digit:]]"}
        if len(rows) > 8 and {ord(k) for k in mac} <= {r[0] for r in rows if isinstance(r[0], int)} | {0}:
            nt += 1
            for a, b in rows:
                if isinstance(a, int) and a > 0 and chr(a) in mac:
                    c.obl()
                    if b != "s:" + mac[chr(a)]: c.find("regex escape:%s" % chr(a), "regular expression escapes", g["file"], g["line"], g["name"], "\\%s expands to %r" % (chr(a), b))
    c.need(nt, 9, "conversion tables")
    # ---- dispatch of the binary codecs
    want = {"M_BINCODEC_BASE64": "base64", "M_BINCODEC_HEX": "hex", "M_BINCODEC_BASE32": "base32"}; nd = 0
    for k in c.d["enumcalls"]:
        f = c.fns[k["f"]]
        if k["type"] != "M_bincodec_codec_t" or not f["public"]: continue
        rows = {n: set(r) for n, v, r in k["rows"] if n in want}
        if len(rows) < 2: continue
        common = set.intersection(*rows.values())
        for n, r in rows.items():
            names = {c.fns[x]["name"] for x in r - common if isinstance(x, int)}; fam = {w for w in want.values() if any(re.search(r"(^|_)%s(_|$)" % w, y) for y in names)}
            c.obl(); nd += 1
            if fam and fam != {want[n]}: c.find("dispatch:%s:%s" % (f["name"], n), "one codec per enumerator", f["file"], f["line"], f["name"], "%s is handled by %s" % (n, ", ".join(sorted(names))))
    c.need(nd, 9, "codec dispatch entries")
