"""C13: no locale-dependent C library function."""
EXPLANATION = "Who-may-call rule over every call site, function-pointer target, address-of argument and function table of all libraries (type-checked LLVM IR, macros expanded, so the ctype macros show as __ctype_b_loc etc.): no locale-dependent C library function is used, except strerror/strerror_r whose text is not parsed or compared."
ASSUMPTIONS = ["functions of third-party libraries do not pass the locale on into the library's own text", "the deny list names every C library function whose result depends on LC_CTYPE, LC_COLLATE, LC_NUMERIC, LC_TIME or LC_MONETARY (POSIX.1-2017 chapter 7 and glibc manual)"]
CT = "isalnum isalpha isascii isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper _tolower _toupper __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc iswalnum iswalpha iswblank iswcntrl iswctype iswdigit iswgraph iswlower iswprint iswpunct iswspace iswupper iswxdigit towlower towupper towctrans wctrans wctype"
CMP = "strcasecmp strncasecmp stricmp strnicmp strcoll strxfrm wcscoll wcsxfrm wcscasecmp wcsncasecmp strcasestr strverscmp_no fnmatch glob regcomp regexec"
NUM = "strtod strtof strtold strtol strtoll strtoul strtoull strtoimax strtoumax strtoq strtouq atof atoi atol atoll __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull __isoc23_strtoimax __isoc23_strtoumax sscanf fscanf scanf vsscanf vfscanf vscanf __isoc99_sscanf __isoc99_fscanf __isoc99_scanf __isoc99_vsscanf __isoc23_sscanf __isoc23_fscanf __isoc23_scanf __isoc23_vsscanf wcstod wcstof wcstol wcstoul wcstoll wcstoull strfmon"
FMT = "printf fprintf sprintf snprintf vprintf vfprintf vsprintf vsnprintf dprintf vdprintf asprintf vasprintf __printf_chk __fprintf_chk __sprintf_chk __snprintf_chk __vprintf_chk __vfprintf_chk __vsprintf_chk __vsnprintf_chk __asprintf_chk __vasprintf_chk swprintf wprintf fwprintf vswprintf strfromd strfromf gcvt ecvt fcvt"
TIM = "strftime strptime wcsftime getdate asctime_no"
MB = "mblen mbtowc wctomb mbstowcs wcstombs mbrlen mbrtowc wcrtomb mbsrtowcs wcsrtombs mbsnrtowcs wcsnrtombs btowc wctob iconv_open_no fgetwc fputwc getwc putwc fgetws fputws"
LOC = "setlocale localeconv newlocale uselocale duplocale nl_langinfo"
DENY = {n: k for s, k in ((CT, "classifies or converts characters by the locale"), (CMP, "compares by the locale"), (NUM, "parses numbers by the locale"), (FMT, "formats numbers by the locale"), (TIM, "formats dates by the locale"), (MB, "converts text by the locale's charset"), (LOC, "reads or changes the locale")) for n in s.split() if not n.endswith("_no")}
def run(c):
    n = 0
    def one(name, file, line, fn, how):
        if name in DENY: c.find("%s@%s" % (name, file), "no locale-dependent C library function", file, line, fn, "%s %s(), which %s" % (how, name, DENY[name]))
    for k in c.calls:
        file, line, fn = c.fns[k["f"]]["file"], k["l"], c.fns[k["f"]]["name"]
        for a in k.get("a", []):
            if isinstance(a, str) and a.startswith("f:"): n += 1; one(a[2:], file, line, fn, "passes the address of")
        if "ci" in k: continue
        if "c" in k: n += 1; one(k["c"], file, line, fn, "calls")
        for t in k.get("t", []):
            if isinstance(t, str): n += 1; one(t, file, line, fn, "calls through a pointer")
    def walk(v):
        if isinstance(v, list):
            for x in v: yield from walk(x)
        elif isinstance(v, str) and v.startswith("f:"): yield v[2:]
    for g in c.d["globals"]:
        for t in walk(g.get("init")): n += 1; one(t, g["file"], g["line"], g["name"], "table entry")
    # stores of function addresses into objects
    for s in c.d.get("fnstores", []): n += 1; one(s["t"], c.fns[s["f"]]["file"], s["l"], c.fns[s["f"]]["name"], "takes the address of")
    c.obl(n); c.need(n, 1500, "external call sites and function addresses")
    # positive control: the calls are seen by their C names
    c.need(sum(1 for k in c.calls if k.get("c") in ("strlen", "strcmp", "memcmp", "strchr")), 4, "plain C string calls (positive control)")
