"""C18: character set, codec, checksum and classification tables hold their published values."""
import re, unicodedata
from vlib import Broken
EXPLANATION = "Every constant table of the type-checked program that defines a character set, an alphabet, an entity set, a checksum or a Unicode class is compared entry by entry with the value its published definition gives (Python codecs / unicodedata 15.0 / the generator polynomial / RFC 4648 alphabets); the tables are found through the code that uses them: the constant map handed to the code page converter on the path selected by each codec enumerator (sparse conditional constant propagation), the Unicode tables searched below each M_utf8_is*() function. The ASCII classification and case functions, the byte order and bit functions are evaluated by constant propagation for every 8-bit argument (power-of-two neighbourhoods for wider ones) and compared with their definitions."
ASSUMPTIONS = ["Python's codecs and unicodedata (Unicode 15.0) are right about the published character sets", "the search and hash functions that read the tables behave as specified (not part of this property)"]
CODEC = {"ASCII": "ascii", "CP037": "cp037", "CP500": "cp500", "CP874": "cp874", **{"CP125%d" % i: "cp125%d" % i for i in range(9)}, **{"ISO8859_%d" % i: "iso8859_%d" % i for i in list(range(1, 12)) + [13, 14, 15, 16]}}
# published sets disagree with Python's table: (codec, byte) -> confirmed code point(s)
ALT = {}
UCLASS = {"islower": {"Ll"}, "isupper": {"Lu"}, "isalpha": {"Ll", "Lu", "Lt", "Lm", "Lo", "Nl"}, "isalnum": {"Ll", "Lu", "Lt", "Lm", "Lo", "Nl", "Nd", "No"}, "isnum": {"Nd", "Nl", "No"},
          "iscntrl": {"Cc"}, "ispunct": {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"}}
def crc(poly, w, refl):
    t = []
    for i in range(256):
        if refl:
            v = i
            for _ in range(8): v = (v >> 1) ^ (poly if v & 1 else 0)
        else:
            v = i << (w - 8)
            for _ in range(8): v = ((v << 1) ^ (poly if v >> (w - 1) & 1 else 0)) & ((1 << w) - 1)
        t.append(v)
    return t
def run(c):
    G = {g["ir"]: g for g in c.d["globals"]}
    tabs = 0
    def bad(g, i, msg, what): c.find("%s@%s" % (what, g["file"] or "?"), "table entries hold the published value", g["file"], g["line"], g["name"], msg)
    # ---- single byte character sets, found through the codec dispatch
    def maps(root):
        out = set()
        for f in c.reach([root], indirect=False):
            for k in c.bycaller[f]:
                for a in k.get("a", []):
                    if isinstance(a, str) and a.startswith("g:") and a[2:] in G:
                        t = G[a[2:]]["init"]
                        if isinstance(t, list) and len(t) > 100 and all(isinstance(e, list) and len(e) == 3 for e in t): out.add(a[2:])
        return out
    nd = 0; used = set()
    for k in c.d["enumcalls"]:
        rows = {n[len("M_TEXTCODEC_"):]: set(r) for n, v, r in k["rows"] if n.startswith("M_TEXTCODEC_") and n[len("M_TEXTCODEC_"):] in CODEC}
        if len(rows) < 20: continue
        common = set.intersection(*rows.values()); fn = c.fns[k["f"]]
        for n, r in rows.items():
            ms = set()
            for x in r - common: ms |= maps(x)
            nd += 1; c.obl()
            if not ms: continue
            if len(ms) > 1: c.find("dispatch:%s:%s" % (fn["name"], n), "one character set per codec", fn["file"], fn["line"], fn["name"], "codec M_TEXTCODEC_%s reaches %d different tables" % (n, len(ms))); continue
            g = G[ms.pop()]; used.add(g["ir"]); py = CODEC[n]; tabs += 1
            seen = {}
            for i, e in enumerate(g["init"]):
                if not e[2]: break
                b, u = e[0] & 0xff, e[1]; c.obl(); first = b not in seen; seen.setdefault(b, u)
                if not first: continue   # later entries are best-fit fallbacks for the encoder
                try: want = ord(bytes([b]).decode(py))
                except UnicodeDecodeError: want = None
                want = ALT.get((py, b), want)
                if want is not None and u != want: c.find("cp:%s" % py, "table entries hold the published value", g["file"], g["line"], fn["name"], "character set %s (selected by %s): byte 0x%02x maps to U+%04X, the standard says U+%04X" % (py, fn["name"], b, u, want))
            for b in range(256):
                try: want = ord(bytes([b]).decode(py))
                except UnicodeDecodeError: continue
                c.obl()
                if b not in seen and (py, b) not in ALT: c.find("cp:%s" % py, "every assigned byte is in the table", g["file"], g["line"], fn["name"], "character set %s (selected by %s): byte 0x%02x (U+%04X) is missing" % (py, fn["name"], b, want))
            inv = {}
            for e in g["init"]:
                if not e[2]: break
                inv.setdefault(e[1], e[0] & 0xff)
            for b, u in seen.items():
                c.obl()
                if inv[u] != b and (py, b) not in ALT: c.find("cp:%s" % py, "encoding is the inverse of decoding", g["file"], g["line"], fn["name"], "character set %s: U+%04X decodes from 0x%02x but encodes to 0x%02x" % (py, u, b, inv[u]))
    c.need(nd, 40, "codec dispatch entries"); c.need(tabs, 40, "character set tables")
    for g in G.values():
        if g["ir"] not in used and "textcodec" in (g["file"] or "") and isinstance(g["init"], list) and len(g["init"]) > 100 and isinstance(g["init"][0], list): c.sample("table %s in %s is not selected by any codec" % (g["name"], g["file"]))
    # ---- Unicode classes and case maps
    nu = 0; bycat = {}; cased = {"title": [], "lowtoup": [], "uptolow": []}
    for x in range(0x110000):
        ch = chr(x); cat = unicodedata.category(ch); bycat.setdefault(cat, []).append(x)
        if cat[0] in "LNSM" and not 0x3400 <= x < 0xa000 and not 0xac00 <= x < 0xd7a4 and x < 0x20000:
            for kind, w in (("title", ch.title()), ("lowtoup", ch.upper()), ("uptolow", ch.lower())):
                if len(w) == 1 and w != ch: cased[kind].append((x, ord(w)))
    for g in G.values():
        m = re.match(r"M_utf8_table_([A-Z][a-z])$", g["name"])
        if m and isinstance(g["init"], list):
            cat = m.group(1); nu += 1; t = g["init"]; c.obl(len(t))
            if cat in ("Co", "Cs"): want = None
            else: want = bycat.get(cat, [])
            if t != sorted(set(t)): bad(g, 0, "the table of class %s is not strictly ascending, so searches in it miss entries" % cat, "sorted:" + cat)
            if cat == "Lo": st = set(t); want = [x for x in want if x in st or not (0x3400 <= x < 0xa000 or 0xac00 <= x < 0xd7a4 or x >= 0x17000)]
            if want is not None and t != want:
                d = sorted(set(t) ^ set(want))[:4]
                bad(g, 0, "Unicode class %s: %s" % (cat, ", ".join("U+%04X %s" % (x, "wrongly listed" if x in set(t) else "missing") for x in d)), "class:" + cat)
        m = re.match(r"M_utf8_table_(title|lowtoup|uptolow)$", g["name"])
        if m and isinstance(g["init"], list):
            kind = m.group(1); nu += 1; t = g["init"]; c.obl(len(t)); ks = [e[0] for e in t]
            if ks != sorted(set(ks)): bad(g, 0, "the %s map is not strictly ascending, so searches in it miss entries" % kind, "sorted:" + kind)
            f = {"title": str.title, "lowtoup": str.upper, "uptolow": str.lower}[kind]
            have = dict(map(tuple, t))
            for a, b in t:
                w = f(chr(a))
                if len(w) == 1 and ord(w) != b: bad(g, 0, "case map %s: U+%04X maps to U+%04X, the standard says U+%04X" % (kind, a, b, ord(w)), "case:" + kind); break
            for x, w in cased[kind]:
                if x not in have: bad(g, 0, "case map %s: U+%04X -> U+%04X is missing" % (kind, x, w), "case:" + kind); break
        m = re.match(r"M_utf8_table_(\w+)_len$", g["name"])
        if m:
            t = [q for q in G.values() if q["name"] == "M_utf8_table_" + m.group(1)]; c.obl()
            if t and isinstance(t[0]["init"], list) and isinstance(g["init"], int) and g["init"] != len(t[0]["init"]): bad(g, 0, "length of table %s is %d, it has %d entries" % (m.group(1), g["init"], len(t[0]["init"])), "len:" + m.group(1))
    c.cov["unicode tables"] = nu
    # which tables each classification searches
    def ucats(root):
        out = set()
        for f in c.reach([root], indirect=False):
            for k in c.bycaller[f]:
                for a in k.get("a", []):
                    m = isinstance(a, str) and re.match(r"g:M_utf8_table_([A-Z][a-z])$", a)
                    if m: out.add(m.group(1))
        return out
    for nm, want in UCLASS.items():
        for suf in ("_cp",):
            i = c.byname.get("M_utf8_%s%s" % (nm, suf))
            if not i: continue
            got = ucats(i[0]); c.obl()
            if got and got != want: f = c.fns[i[0]]; c.find("ucat:" + nm, "each classification searches exactly its Unicode classes", f["file"], f["line"], f["name"], "searches the classes %s, defined as %s" % (sorted(got), sorted(want)))
    # every search pairs a table with its own length
    for k in c.calls:
        a = k.get("a", [])
        for i in range(len(a) - 1):
            m = isinstance(a[i], str) and re.match(r"g:(M_utf8_table_\w+)$", a[i])
            if m and isinstance(a[i + 1], str) and a[i + 1].startswith("m:M_utf8_table_"):
                c.obl()
                if a[i + 1] != "m:" + m.group(1) + "_len": fl, ln, fnn = c.at(k); c.find("pair:%s@%s" % (m.group(1), fnn), "a table is searched with its own length", fl, ln, fnn, "searches %s with the length %s" % (m.group(1), a[i + 1][2:]))
    # ---- checksums, alphabets, entities, small tables
    small = 0
    for g in G.values():
        t = g["init"]; nm = g["name"]; fn = g["fn"]
        if not isinstance(t, list) or not t: continue
        def eq(want, what):
            nonlocal small
            small += 1; c.obl(len(want))
            if t != want:
                i = next((j for j in range(min(len(t), len(want))) if t[j] != want[j]), min(len(t), len(want)))
                bad(g, i, "%s: entry %d is %s, defined as %s" % (what, i, t[i] if i < len(t) else "missing", want[i] if i < len(want) else "absent"), what)
        ints = all(isinstance(x, int) for x in t)
        if ints and len(t) == 256 and fn and "crc8" in fn: eq(crc(0x07, 8, False), "CRC-8 table")
        elif ints and len(t) == 256 and fn and "crc16" in fn: eq(crc(0x1021, 16, False), "CRC-16 table")
        elif ints and len(t) == 256 and fn and "crc32" in fn: eq(crc(0xEDB88320, 32, True), "CRC-32 table")
        elif ints and len(t) == 256 and fn and "popcount" in fn: eq([bin(i).count("1") for i in range(256)], "bit count table")
        elif ints and len(t) == 256 and fn and "tolower" in fn: eq([i + 32 if 65 <= i <= 90 else i for i in range(256)], "lower case table")
        elif ints and len(t) in (33, 32) and t[:26] == list(range(65, 91)) or nm == "M_base32_charset": eq([ord(x) for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"] + [0] * (len(t) - 32), "base32 alphabet")
        elif ints and len(t) in (65, 64) and g["file"].endswith("base64.c") and not nm.startswith("dec"): eq([ord(x) for x in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"] + [0] * (len(t) - 64), "base64 alphabet")
        elif ints and len(t) == 256 and g["file"].endswith("base32.c"):
            a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"; eq([a.index(chr(i).upper()) if i < 128 and chr(i).upper() in a else (0 if i == 61 else 0xffffffff) for i in range(256)], "base32 reverse alphabet")
        elif ints and len(t) == 80 and g["file"].endswith("base64.c"):
            a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; w = [a.index(chr(i + 43)) if chr(i + 43) in a else 0xffffffff for i in range(80)]
            if t[61 - 43] in (0, 0xffffffff): w[61 - 43] = t[61 - 43]
            eq(w, "base64 reverse alphabet")
        elif all(isinstance(x, list) and len(x) == 3 for x in t) and "xml" in g["file"] and all(isinstance(x[0], int) for x in t):
            std = {34: "&quot;", 39: "&apos;", 38: "&amp;", 62: "&gt;", 60: "&lt;", 10: "&#10;", 13: "&#13;", 9: "&#9;"}; small += 1
            for ch, s, ln in t[:-1]:
                c.obl()
                if not isinstance(s, str) or not s.startswith("s:"): continue
                s = s[2:]; num = re.match(r"&#(?:x([0-9a-fA-F]+)|(\d+));$", s)
                okv = s == std.get(ch) or (num and (int(num.group(1), 16) if num.group(1) else int(num.group(2))) == ch)
                if not okv: bad(g, 0, "entity %s stands for character %d" % (s, ch), "entity:" + s)
                if isinstance(ln, int) and ln != len(s): bad(g, 0, "entity %s has recorded length %d" % (s, ln), "entitylen:" + s)
        elif all(isinstance(x, str) and x.startswith("s:") for x in t) and len(t) in (7, 12):
            from calendar import day_abbr, month_abbr
            v = [x[2:] for x in t]; D = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]; M = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
            if sum(a == b for a, b in zip(v, D)) >= 4 and len(v) == 7: small += 1; c.obl(7); (v != D) and bad(g, 0, "week day names are %s" % v, "days:" + (fn or nm))
            if sum(a == b for a, b in zip(v, M)) >= 6 and len(v) == 12: small += 1; c.obl(12); (v != M) and bad(g, 0, "month names are %s" % v, "months:" + (fn or nm))
        elif len(t) == 2 and all(isinstance(x, list) and len(x) == 12 and all(isinstance(y, int) for y in x) for x in t) and sum(t[0]) in range(355, 375): eq([[31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]], "days per month")
        elif g["file"].endswith("m_time_gm.c") and ints and len(t) == 7 and t[:3] == [4, 5, 6] or nm == "wdaymap": eq([4, 5, 6, 0, 1, 2, 3], "week day of the epoch")
    c.need(small, 15, "alphabets, checksums and other small tables")
    # time zone map: every zone name is an IANA name
    for g in G.values():
        t = g["init"]
        if isinstance(t, list) and len(t) > 300 and all(isinstance(x, list) and len(x) == 4 for x in t) and any(x[0] == "s:America/New_York" for x in t):
            names = [x[0][2:] for x in t if isinstance(x[0], str)]; c.obl(len(names))
            if len(set(names)) != len(names): d = [x for x in set(names) if names.count(x) > 1]; bad(g, 0, "zone %s is listed more than once" % d[0], "zones")
            mains = {}
            for x in t:
                if isinstance(x[1], str) and x[3]: mains.setdefault(x[1], []).append(x[0])
            wins = {x[1] for x in t if isinstance(x[1], str)}
            for w in sorted(wins):
                c.obl()
                if len(mains.get(w, [])) != 1: bad(g, 0, "Windows zone %s has %d main Olson zones" % (w[2:], len(mains.get(w, []))), "zonemain")
    # ---- functions of one byte / one word, evaluated by constant propagation
    u8 = lambda k: k & 0xff
    A = lambda s: (lambda k: int(0 <= k < 128 and chr(k) in s))
    import string as S
    BYTE = {"M_chr_isspace": A(" \t\n\r\f\v"), "M_chr_isblank": A(" \t"), "M_chr_iscntrl": lambda k: int(0 <= k < 32 or k == 127), "M_chr_isascii": lambda k: int(k >= 0), "M_chr_isgraph": lambda k: int(32 < k < 127),
        "M_chr_isprint": lambda k: int(32 <= k < 127 or 9 <= k <= 13), "M_chr_islower": A(S.ascii_lowercase), "M_chr_isupper": A(S.ascii_uppercase), "M_chr_isalpha": A(S.ascii_letters), "M_chr_isalphasp": A(S.ascii_letters + " "),
        "M_chr_isdigit": A(S.digits), "M_chr_isdec": A(S.digits + "."), "M_chr_isalnum": A(S.ascii_letters + S.digits), "M_chr_isalnumsp": A(S.ascii_letters + S.digits + " "), "M_chr_ispunct": A(S.punctuation), "M_chr_ishex": A(S.hexdigits),
        "M_chr_toupper": lambda k: ord(chr(k).upper()) if 0 <= k < 128 else k, "M_chr_tolower": lambda k: ord(chr(k).lower()) if 0 <= k < 128 else k,
        "M_chr_digit": lambda k: k - 48 if 48 <= k < 58 else -1, "M_chr_xdigit": lambda k: int(chr(k), 16) if 0 <= k < 128 and chr(k) in S.hexdigits else -1, "M_uint8_popcount": lambda k: bin(u8(k)).count("1"),
        "b64_isvalidchar": A(S.ascii_letters + S.digits + "+/="), "hex_isvalidchar": A(S.hexdigits)}
    def cpvalid(u): return int(0 <= u < 0x110000 and not 0xd800 <= u < 0xe000 and not 0xfdd0 <= u < 0xfdf0 and (u & 0xfffe) != 0xfffe)
    def swap(w): return lambda u: int.from_bytes(u.to_bytes(w // 8, "little"), "big")
    same = lambda u: u
    WORD = {"M_utf8_is_valid_cp": (32, cpvalid), "M_utf8_cp_width": (32, lambda u: 1 if u < 128 else 2 if u < 0x800 else 3 if u < 0x10000 else 4)}
    for w in (16, 32, 64):
        for p in ("swap", "hton", "ntoh"): WORD["M_%s%d" % (p, w)] = (w, swap(w))
        for p in ("htol", "ltoh"): WORD["M_%s%d" % (p, w)] = (w, same)
    for t, w in (("uint32", 32), ("uint64", 64), ("size_t", 64)):
        WORD["M_%s_is_power_of_two" % t] = (w, lambda u: int(u & (u - 1) == 0 and u != 0) if u else None)
        WORD["M_%s_round_down_to_power_of_two" % t] = (w, lambda u: 1 << (u.bit_length() - 1) if u else None)
        WORD["M_%s_round_up_to_power_of_two" % t] = (w, lambda u, w=w: (1 << (u - 1).bit_length()) & ((1 << w) - 1) if u else None)
        WORD["M_%s_log2" % t] = (w, lambda u: u.bit_length() - 1 if u else None)
    def uhan(u): return int(any(a <= u <= b for a, b in ((0x3400, 0x4dbf), (0x4e00, 0x9fff), (0xf900, 0xfa6d), (0xfa70, 0xfad9), (0x20000, 0x2a6df), (0x2a700, 0x2b739), (0x2b740, 0x2b81d), (0x2b820, 0x2cea1), (0x2ceb0, 0x2ebe0), (0x2f800, 0x2fa1d), (0x30000, 0x3134a))))
    nf = 0; dec = 0
    for k in c.d["enumint"]:
        f = c.fns[k["f"]]; nm = f["name"]
        if k["arg"] != 0: continue
        if k["byte"] and nm in BYTE: w, fnc = 8, BYTE[nm]
        elif nm in WORD: w, fnc = WORD[nm]
        else: continue
        nf += 1
        for v, rs in k["pairs"]:
            if len(rs) != 1 or rs[0] == "?": continue
            if k["byte"] and not -128 <= v < 128: continue
            x = v if w == 8 else v & ((1 << w) - 1); want = fnc(x)
            if want is None: continue
            rw = k["ret"]; got = rs[0]; dec += 1; c.obl()
            if rw == 1: got, want = got & 1, want & 1
            else: got, want = got & ((1 << rw) - 1), want & ((1 << rw) - 1)
            if got != want: c.find("fn:" + nm, "the function returns the defined value for every argument", f["file"], f["line"], nm, "returns %d for argument %d, defined as %d" % (got, x, want)); break
    c.cov["functions evaluated"] = nf; c.need(nf, 20, "classification, case, byte order and bit functions"); c.need(dec, 4000, "argument values decided")
