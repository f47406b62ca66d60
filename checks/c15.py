"""C15: a TLS connection is verified before it is reported connected."""
from ctx import KNOWN
EXPLANATION = "For every verification level and every outcome of the handshake, of the retrieval of the certificate, of the chain check (several failure codes) and of the host name check, the constants the handshake function can store are propagated with that outcome assumed, over every path the assumption does not exclude: neither the connected state nor the connected event may be reachable when a check that the level requires failed, nor when it is not made at all. The host name matcher is evaluated the same way for all 32 flag combinations and failing comparisons, the protocol mapping for all 15 protocol sets against the standard's version numbers, and the context constructors for the defaults they must store and the calls they must make on every path that returns a context."
ASSUMPTIONS = ["OpenSSL reports what it verified through SSL_connect, SSL_get_verify_result and SSL_get_peer_certificate", "the character comparison of a wildcard name is not decided", "a helper that the confirmed tree has and that was removed leaves its cases undecided"]
CONNECTED_STATE, CONNECTED_EVENT = 3, 0
VER = {1: 0x301, 2: 0x302, 4: 0x303, 8: 0x304}
def has(v, k): return v is None or k in v
def run(c):
    seen = {}
    for g in c.d["guards"]:
        k = g["sc"].split(":"); f = c.fns[g["f"]]; seen[k[0]] = seen.get(k[0], 0) + 1
        if not g["known"]: continue
        c.obl(1 + len(g["stores"]) + len(g["calls"])); fn = f["name"]
        def bad(rule, msg, line=None): c.find("tls:%s:%s" % (fn, ":".join(k[:2])), rule, f["file"], line or f["line"], fn, msg)
        ret0 = g["ret"] is not None and set(g["ret"]) <= {0}
        calls = lambda n: [x for x in g["calls"] if x[0] == n]
        if k[0] in ("connect", "accept"):
            why = {"handshake": "the handshake did not succeed", "nocert": "the peer sent no certificate", "chain": "the certificate chain was not verified", "host": "the host name does not match the certificate"}.get(k[1])
            if why:
                for n, v, l in g["stores"]:
                    if (n == "state" and has(v, CONNECTED_STATE)) or (n.startswith("arg") and has(v, CONNECTED_EVENT)): bad("no connected event without the checks the verification level requires", "%s() can reach the connected state at line %d although %s (verification level %s)" % (fn, l, why, k[2] if k[0] == "connect" else "any"), l); break
            elif k[1] == "ok" and k[2] in "23":
                for x in calls("M_tls_verify_host"):
                    fl = x[1][2] if len(x[1]) > 2 else None
                    if fl is not None and any(q == 0 or (q & 8) or not (q & 3) or ((q & 16) and k[2] == "3") for q in fl): bad("full verification compares the whole host name", "%s() checks the host name with flags %s at verification level %s" % (fn, fl, k[2]), x[2])
        elif k[0] in ("verify", "san", "cn", "match"):
            if not ret0: bad("a host name that matches nothing is refused", "%s() can accept a host name when %s (flags %s)" % (fn, {"nohost": "no host name is set", "nocert": "there is no certificate", "neither": "neither the alternative names nor the common name match", "nomatch": "no name of the certificate matches", "exact": "wildcards are not allowed and the names differ", "wild": "neither the name nor the wildcard matches", "empty": "a name is empty", "fuzzy": "no name matches"}[k[1]], k[2] if len(k) > 2 else "any"))
        elif k[0] == "proto":
            p = int(k[1])
            if p == 0:
                if not ret0: bad("only the protocol versions asked for are allowed", "%s() accepts an empty set of protocols" % fn)
                continue
            bits = [b for b in VER if p & b]; want = (VER[min(bits)], VER[max(bits)])
            for n, w in zip(("arg1", "arg2"), want):
                got = [v for m, v, l in g["stores"] if m == n]
                if not got: continue
                if any(v is None for v in got) or any(q != w for v in got for q in v): bad("only the protocol versions asked for are allowed", "%s() maps the protocol set %d to version %s instead of 0x%x" % (fn, p, got, w))
        elif k[0] == "init":
            if k[1] == "proto" and not ret0: bad("a new context has safe defaults", "%s() can return a context whose protocol versions were not set" % fn)
            if k[1] == "calls":
                for x in calls("M_tls_ctx_set_protocols"):
                    if x[1][1] is not None and any(q not in range(0, 16) for q in x[1][1]): bad("a new context has safe defaults", "%s() enables the protocol set %s" % (fn, x[1][1]), x[2])
                for x in calls("SSL_CTX_set_security_level"):
                    if x[1][1] is not None and any(q < 1 for q in x[1][1]): bad("a new context has safe defaults", "%s() sets the security level %s" % (fn, x[1][1]), x[2])
        elif k[0] == "setproto":
            if k[1] in ("bad", "must") and not ret0: bad("only the protocol versions asked for are allowed", "%s() can report success %s" % (fn, "for a set that has no versions" if k[1] == "bad" else "without having worked out the versions"))
            if k[1] == "calls":
                for cmd, what in ((123, "lowest"), (124, "highest")):
                    if not any(x[1][1] is None or cmd in x[1][1] for x in calls("SSL_CTX_ctrl")): bad("only the protocol versions asked for are allowed", "%s() does not set the %s version" % (fn, what))
        elif k[0] in ("client", "server"):
            if k[1] == "level" and not ret0: bad("a new context has safe defaults", "%s() can return a context that does not verify fully" % fn)
            if k[1] == "stores":
                for n, v, l in g["stores"]:
                    if n == "verify_level" and (v is None or set(v) != {3}): bad("a new context has safe defaults", "%s() stores verification level %s" % (fn, v), l)
            if k[1] == "init" and g["ret"] is not None and any(g["ret"]) or k[1] == "init" and g["ret"] is None: bad("a new context has safe defaults", "%s() can return a context that was not set up" % fn)
        elif k[0] == "srvverify":
            for x in calls("SSL_CTX_set_verify"):
                if x[1][1] is not None and any((q & 3) != 3 for q in x[1][1]): bad("a server that trusts certain clients asks every client", "%s() sets the verification mode %s" % (fn, x[1][1]), x[2])
                if len(x[1]) > 2 and x[1][2] != [0]: bad("a server that trusts certain clients asks every client", "%s() replaces the verification by a callback" % fn, x[2])
    c.need(seen.get("connect", 0), 38, "outcomes of the client handshake"); c.need(seen.get("accept", 0), 3, "outcomes of the server handshake")
    for a, b, w in (("client", 2, "client context constructor"), ("init", 2, "context set-up"), ("verify", 30, "host name check")): c.need(seen.get(a, 0), b, w)
    for k in ("connect:chain", "connect:host", "verify:neither", "proto"): c.sample("%s: decided for every case" % k)
