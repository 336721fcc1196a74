import common, ctypes, functools
from sess import *
C = Check("C09", "one evaluation = one request whose response (selected consoles, order, error code, session or not) was compared with an independent matcher; "
          "distinct = (command, pattern kind, shape of the answer, pattern constructs)")
exe = build_daemon("asan")
libc = ctypes.CDLL(None)

# ---- independent glob matcher (fnmatch with no flags)
def parse_glob(p):
    """list of ('c',ch) ('?',) ('*',) ('[',neg,set)"""
    r, i = [], 0
    while i < len(p):
        ch = p[i]
        if ch == "\\" and i + 1 < len(p):
            r.append(("c", p[i + 1])); i += 2; continue
        if ch == "*": r.append(("*",)); i += 1; continue
        if ch == "?": r.append(("?",)); i += 1; continue
        if ch == "[":
            j = i + 1
            neg = j < len(p) and p[j] in "!^"
            if neg: j += 1
            s, first, ok = set(), True, False
            while j < len(p):
                if p[j] == "]" and not first: ok = True; break
                first = False
                if p.startswith("[:", j):
                    e = p.find(":]", j)
                    cls = p[j + 2:e]
                    s |= {chr(c) for c in range(128) if {"digit": chr(c).isdigit(), "alpha": chr(c).isalpha(), "upper": chr(c).isupper(),
                        "lower": chr(c).islower(), "alnum": chr(c).isalnum(), "punct": chr(c) in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"}[cls]}
                    j = e + 2; continue
                if j + 2 < len(p) and p[j + 1] == "-" and p[j + 2] != "]":
                    s |= {chr(c) for c in range(ord(p[j]), ord(p[j + 2]) + 1)}; j += 3; continue
                s.add(p[j]); j += 1
            if ok:
                r.append(("[", neg, s)); i = j + 1; continue
        r.append(("c", ch)); i += 1
    return r
def glob_match(p, n):
    toks = parse_glob(p)
    @functools.lru_cache(None)
    def m(i, j):
        if i == len(toks): return j == len(n)
        t = toks[i]
        if t[0] == "*": return m(i + 1, j) or (j < len(n) and m(i, j + 1))
        if j >= len(n): return False
        if t[0] == "?": return m(i + 1, j + 1)
        if t[0] == "c": return n[j] == t[1] and m(i + 1, j + 1)
        return ((n[j] in t[2]) != t[1]) and m(i + 1, j + 1)
    return m(0, 0)
def regcomp_rc(p):
    buf = ctypes.create_string_buffer(512)
    rc = libc.regcomp(buf, p.encode(), 1 | 2)       # REG_EXTENDED | REG_ICASE
    if rc == 0: libc.regfree(buf)
    return rc

# ---- documented order: by name, trailing integers numerically
def tint(s):
    m = re.search(r"\d+$", s)
    return m.start() if m else -1
def cmp(a, b):
    ia, ib = tint(a), tint(b)
    i = j = 0
    while i < len(a):
        if i == ia and j == ib:
            return (int(a[ia:]) > int(b[ib:])) - (int(a[ia:]) < int(b[ib:]))
        if j < len(b) and a[i] == b[j]:
            i += 1; j += 1
        else: break
    x = ord(a[i]) if i < len(a) else 0
    y = ord(b[j]) if j < len(b) else 0
    return (x > y) - (x < y)

def gen_names(rng):
    al = rng.choice(["ab", "abAB", "abc-_.0", "nodeNODE", "aA.+[]*?", "xy z'\"", "01", "9ab"])
    names = set()
    n = rng.choice([1, 2, 5, 12, 30, 60])
    pre = ["".join(rng.choice(al) for _ in range(rng.randrange(1, 5))) for _ in range(3)]
    for _ in range(n * 3):
        if len(names) >= n: break
        x = rng.random()
        if x < .5: nm = rng.choice(pre) + str(rng.choice([rng.randrange(20), rng.randrange(200), rng.randrange(10**6), rng.randrange(10**12), 2**31 + rng.randrange(5), 2**32 + rng.randrange(3)]))
        elif x < .6: nm = rng.choice(pre) + "0" * rng.randrange(4) + str(rng.randrange(30))
        elif x < .7: nm = rng.choice(pre) + str(rng.randrange(20)) + rng.choice(["", "a", ".x", "-1"])
        else: nm = "".join(rng.choice(al) for _ in range(rng.randrange(1, 7)))
        nm = nm.strip()
        if nm and not any(nm.lower() == x.lower() for x in names): names.add(nm)
    l = list(names)
    rng.shuffle(l)
    return l
def gen_glob(rng, names):
    n = rng.choice(names)
    x = rng.random()
    if x < .2: return rng.choice(["*", "?*", "*?", "**"])
    if x < .35: return esc_glob(n)
    out = ""
    i = 0
    while i < len(n):
        y = rng.random()
        if y < .12: out += "*"; i += rng.randrange(0, 4)
        elif y < .25: out += "?"; i += 1
        elif y < .4:
            ch = n[i]
            k = rng.randrange(5)
            if not ch.isalnum(): out += "?"
            elif k == 0: out += "[%s]" % ch
            elif k == 1: out += "[!%s]" % ch
            elif k == 2: out += "[%s-%s]" % (min(ch, chr(ord(ch) - 1 if ch not in "aA0" else ord(ch))), ch)
            elif k == 3: out += "[[:%s:]]" % rng.choice(["digit", "alpha", "alnum", "upper", "lower"])
            else: out += "[x%sz]" % ch
            i += 1
        elif y < .45: out += rng.choice("abA0."); i += 1
        else: out += esc_glob(n[i]); i += 1
    return out or "*"
def esc_glob(s):
    return "".join("\\" + c if c in "*?[]\\" else c for c in s)
def gen_re(rng, names, depth=0):
    n = rng.choice(names)
    if rng.random() < .1: return rng.choice([".*", ".+", "^.*$", "(.*)", ".*.*"])
    out = ""
    i = 0
    while i < len(n):
        y = rng.random()
        ch = n[i]
        lit = ("\\" + ch) if not ch.isalnum() and ch not in " '\"_-" else ch
        if y < .1: out += "."; i += 1
        elif y < .2: out += ".*"; i += rng.randrange(0, 3)
        elif y < .3: out += lit + rng.choice("*+?"); i += 1
        elif y < .36: out += lit + rng.choice(["{1}", "{0,2}", "{1,3}", "{1,}"]); i += 1
        elif y < .45: out += "(%s|%s)" % (lit, rng.choice(["x", "ab", "0"])); i += 1
        elif y < .55 and ch.isalnum():
            out += rng.choice(["[%s]", "[^%s]", "[x%s]", "[[:alnum:]%s]"]) % ch; i += 1
        elif y < .6: out += "[0-9]" + rng.choice(["", "+", "*"]); i += 1
        else: out += lit.swapcase() if rng.random() < .2 else lit; i += 1
    if depth == 0 and rng.random() < .15: out = out + "|" + gen_re(rng, names, 1)
    return out or ".*"
def py_re(p):
    p = p.replace("[[:alnum:]", "[A-Za-z0-9")
    return re.compile(p, re.I | re.S)
BAD = ["(", "(a", "[", "[a", "a{2,1}", "a\\", "[z-a]", "[[:foo:]]", "((a)"]

def case(i, d, st):
    rng = random.Random(i)
    names = gen_names(rng)
    conf = "server port=0\n"
    for j, n in enumerate(names):
        q = "'" if '"' in n else '"'
        if q in n or "'" in n and '"' in n: n = names[j] = "q%d" % j; q = '"'
        conf += "console name=%s%s%s dev=\"unix:%s/s%d\"\n" % (q, n, q, d, j)
    D = Daemon(exe, conf, d, Hub())
    holders = []
    try:
        for _ in range(50):
            x = rng.random()
            if x < .08:             # malformed / empty requests
                c = D.client()
                g = rng.choice([b"HELLO TTY='x'\n", b"\n", b"HI USER='x'\n", b"HELLO USER=''\n", b"USER='x'\n"])
                if rng.random() < .5:
                    c.send(g)
                    l = c.line()
                    if l is None or not l.startswith(b"ERROR CODE=2 "):
                        raise Violation("greeting %r answered %r, expected bad-request" % (g, l))
                    st.seen("greeting %r" % g)
                else:
                    q = rng.choice([b"CONNECT\n", b"MONITOR\n", b"\n", b"FROB CONSOLE='x'\n", b"CONSOLE='*'\n", b"CONNECT OPTION=REGEX\n", b"CONNECT OPTION=BROADCAST\n", b"MONITOR CONSOLE=''\n", b"CONNECT CONSOLE\n"])
                    c.hello(); c.send(q)
                    l = c.line()
                    if l is None or not l.startswith(b"ERROR CODE="):
                        raise Violation("request %r answered %r, expected an error" % (q, l))
                    if not l.startswith(b"ERROR CODE=5 "):
                        raise Violation("request %r answered %r, expected no-matching-consoles" % (q, l))
                    st.seen("empty %r" % q)
                D.hub.wait(lambda: c.eof, 10)
                if not c.eof: raise Violation("connection stays open after a rejected request", soft=True)
                c.close(); continue
            rx = rng.random() < .5
            cmd = rng.choice(["QUERY", "QUERY", "MONITOR", "CONNECT", "BC"])
            k = rng.choice([0, 1, 1, 1, 2, 3, 6]) if cmd == "QUERY" else rng.choice([1, 1, 1, 2, 4])
            pats = []
            for _ in range(k):
                p = gen_re(rng, names) if rx else gen_glob(rng, names)
                p = p.replace('"', "?" if not rx else ".").replace("'", "?" if not rx else ".") if rng.random() < .3 else p
                if p: pats.append(p)
            if not pats and cmd != "QUERY": pats = ["*" if not rx else ".*"]
            if rx and rng.random() < .08: pats[rng.randrange(len(pats) + 1):0] = [rng.choice(BAD)]
            opts = (["REGEX"] if rx else []) + (["BROADCAST"] if cmd == "BC" else [])
            if cmd in ("CONNECT", "BC"): opts.append("JOIN")
            rng.shuffle(opts)
            if rx and any(regcomp_rc(p) for p in pats):
                exp = "bad"
            else:
                try:
                    if rx:
                        cs = [py_re(p) for p in pats] or [re.compile(".*")]
                        exp = {n for n in names if any(q.fullmatch(n) for q in cs)}
                    else:
                        exp = {n for n in names if any(glob_match(p, n) for p in (pats or ["*"]))}
                except re.error:
                    continue
            c = D.client()
            c.hello()
            kind, kv = c.request("CONNECT" if cmd == "BC" else cmd, pats, opts)
            what = "%s %s %r over %r" % (cmd, opts, pats, names if len(names) < 20 else len(names))
            got = [x.decode() for x in kv.get("CONSOLE", [])]
            code = kv.get("CODE", [b""])[0].decode()
            def order_ok(l):
                return all(cmp(a, b) <= 0 for a, b in zip(l, l[1:]))
            if exp == "bad":
                if kind != b"ERROR" or code != "3": raise Violation("%s: invalid expression answered %r" % (what, c.rsp))
                shape = "bad"
            elif not exp:
                if kind != b"ERROR" or code != "5": raise Violation("%s: nothing matches but answered %r" % (what, c.rsp))
                shape = "none"
            elif len(exp) > 1 and cmd in ("MONITOR", "CONNECT"):
                if kind != b"ERROR" or code != "6": raise Violation("%s: %d consoles match but answered %r" % (what, len(exp), c.rsp))
                D.hub.wait(lambda: c.eof, 10)
                lst = bytes(c.rx[c.pos:]).decode().split("\n")[:-1]
                if sorted(lst) != sorted(exp) or not order_ok(lst): raise Violation("%s: matches listed as %r, expected %r" % (what, lst, sorted(exp, key=functools.cmp_to_key(cmp))))
                shape = "many"
            else:
                if kind != b"OK": raise Violation("%s: answered %r, expected %d consoles" % (what, c.rsp, len(exp)))
                if sorted(got) != sorted(exp): raise Violation("%s: selected %r, expected %r" % (what, got, sorted(exp)))
                if not order_ok(got): raise Violation("%s: order %r, expected %r" % (what, got, sorted(exp, key=functools.cmp_to_key(cmp))))
                shape = "ok" if len(exp) < len(names) else "all"
                if cmd != "QUERY":
                    # a session: exactly these consoles are held by it
                    if cmd in ("CONNECT", "BC") and rng.random() < .4:
                        time.sleep(0)
                        q = D.client(); q.hello()
                        k2, kv2 = q.request("CONNECT", ["*"], ["BROADCAST"] if len(names) > 1 else [])
                        D.hub.wait(lambda: q.eof or k2 == b"OK", 10)
                        held = set(m.decode() for m in re.findall(rb"Console \[(.*?)\] open", bytes(q.rx[q.pos:])))
                        q.close()
                        if k2 == b"OK" or not exp <= held:
                            raise Violation("%s: admitted, but the consoles then in use are %r, expected at least %r" % (what, held, exp), soft=True)
            if shape in ("bad", "none", "many"):
                D.hub.wait(lambda: c.eof, 10)
                if not c.eof: raise Violation("%s: connection stays open after the error" % what, soft=True)
            feats = "".join(sorted({x for p in pats for x in re.findall(r"[\*\?\[\]!^\\|+{}().]|\[:", p)}))
            st.seen("%s %s %s pats=%d %s" % (cmd, "re" if rx else "glob", shape, min(len(pats), 3), feats))
            st.count("answers " + shape)
            st.sample(what + " -> " + str(c.rsp)[:100])
            c.close()
        D.check_alive()
    finally:
        D.kill()
C.run_cases(case, [C.rng("c").randrange(1 << 40) + j for j in range(0)] or [random.Random(repr((C.seed, j))).randrange(1 << 40) for j in range(C.q(260, 8000))])
C.finish(min_evals=2000)
