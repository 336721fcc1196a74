import common
from cunit import *
from walks import seeds
C = Check("C19", "one evaluation = one token of a lexed text compared with an independent lexer (kind, text, line), one value sent through the protocol and read back unchanged, "
          "or one oversized request checked for isolation; distinct = (token kind, construct around it) / (direction, field, characters)")
TOKS = "CONSOLE DEV EXECPATH GLOBAL log LogOpts NAME SERVER _x z9 zz".split()
LOW = sorted(TOKS, key=str.lower)
EOF, EOL, INT, STR, OFF = 0, 256, 257, 258, 259
AL = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DG = set(b"0123456789")
def model(b):
    """Laws of the lexer (lex.h)."""
    r, i, n, line, pend = [], 0, len(b), 0, True
    def at(k): return b[k] if k < n else 0
    while True:
        if pend: line += 1; pend = False
        while True:
            c = at(i)
            if c in b" \t\v\f" and c: i += 1; continue
            if c == 35:
                while at(i) and at(i) not in (10, 13): i += 1
                continue
            if c == 92:
                if at(i + 1) == 10: i += 2; line += 1; continue
                if at(i + 1) == 13: i += 3 if at(i + 2) == 10 else 2; line += 1; continue
            break
        if not c: r.append((EOF, line, b"")); return r
        if c in (10, 13):
            if c == 13 and at(i + 1) == 10: i += 1; c = 10
            i += 1; r.append((EOL, line, bytes([c]))); pend = True; continue
        if c in (34, 39):
            j = i + 1
            while at(j) and at(j) not in (c, 10, 13): j += 1
            if at(j) == c: r.append((STR, line, b[i + 1:j][:1023])); i = j + 1
            else: r.append((-1, line, b"")); i = j
            continue
        if c in AL or c == 95:
            j = i
            while at(j) in AL or at(j) in DG or at(j) == 95: j += 1
            w = b[i:j][:1023]
            k = [x.lower() for x in LOW]
            t = OFF + k.index(w.decode().lower()) if w.decode().lower() in k else STR
            r.append((t, line, w)); i = j; continue
        if c in DG or c in (43, 45) and at(i + 1) in DG:
            j = i + 1
            while at(j) in DG: j += 1
            r.append((INT, line, b[i:j][:1023])); i = j; continue
        r.append((c if c < 128 else c - 256, line, bytes([c]))); i += 1
def gen(rng):
    x = rng.random()
    if x < .1: return bytes(rng.choice([c for c in range(1, 255)]) for _ in range(rng.randrange(40)))
    if x < .13: return rng.choice([b"'%s'", b'"%s', b"%s", b"#%s\n", b"1%s"]) % (rng.choice([b"a", b"9", b" ", b"_"]) * rng.choice([1000, 1022, 1023, 1024, 1025, 3000, 131072]))
    if x < .2: return bytes(rng.randrange(1, 128) for _ in range(rng.randrange(300)))
    ps = [b" ", b"\t", b"\v\f", b"\n", b"\r", b"\r\n", b"\n\r", b"\\\n", b"\\\r", b"\\\r\n", b"\\", b"\\ ", b"#", b"# x\n", b"#\\\n", b"'", b'"', b"'a b'", b'"it\'s"', b"''", b'""', b"'\n'", b"a", b"A_9", b"console", b"Server", b"LOGOPTS", b"logopt", b"_X", b"z9", b"Z", b"name1", b"1", b"-5", b"+07", b"--1", b"-", b"+", b"-a", b"12ab", b"a-1", b"=", b",", b":", b"/", b"\xa2", b"'\xa7'", b".", b"{", b"\x01"]
    return b"".join(rng.choice(ps) for _ in range(rng.randrange(1, 30)))
exe = {}
def lexcase(a, d, st):
    variant, i = a
    rng = random.Random(i)
    texts = [gen(rng) for _ in range(C.q(1500, 6000))]
    with open(d + "/t", "wb") as f:
        for t in texts: f.write(struct.pack("<I", len(t)) + t)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99")
    p = subprocess.run([exe[variant], d + "/t"] + LOW, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    out = p.stdout.decode("latin-1")
    if p.returncode: raise Violation("lexer run ended with status %d: %s" % (p.returncode, san_summary(p.stderr.decode("latin-1")) + out[-300:]), key=san_key(p.stderr.decode("latin-1")))
    recs = out.split(".\n")
    if len(recs) != len(texts) + 1: raise Violation("lexer run incomplete")
    for t, rec in zip(texts, recs):
        exp = []
        for k, ln, x in model(t):
            exp.append("%d %d %s" % (k, ln, x.hex()) + (" " + LOW[k - OFF] if k >= OFF else ""))
        got = rec.split("\n")[:-1]
        if got != exp:
            j = first_diff(got, exp)
            raise Violation("lexing %r: token %d is %r, expected %r (token line text-hex)" % (t[:300], j, got[j:j + 2], exp[j:j + 2]))
        pv = None
        for g in exp:
            k = int(g.split()[0]); st.seen((pv, k if k >= 256 or k <= 0 else "chr", min(len(g), 30) // 6)); pv = min(k, OFF)
    st.sample("%r -> %d tokens" % (texts[3][:80], len(recs[3].split("\n")) - 1))
from sess import first_diff

PR = "".join(chr(c) for c in range(32, 127))
def weird(rng, n=12, ban=""):
    al = rng.choice([PR, PR, "a'\" \\", "[]{}()*?<>|&;$`#%", "ab \t"[:3], "="])
    s = "".join(rng.choice(al) for _ in range(rng.randrange(1, n)))
    s = "".join(c for c in s if c not in ban)
    return s if s.strip() else "x" + s + "y"
def globesc(s): return "".join("\\" + c if c in "*?[]\\!^-" else c for c in s)
def sesscase(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    names, conf, paths = [], "server port=0\n", []
    for j in range(rng.randrange(2, 7)):
        n = weird(rng, rng.choice([8, 30, 200]))
        if '"' in n and "'" in n: n = n.replace(rng.choice("'\""), "")
        if not n.strip() or n in names: n = "q%d" % j
        q = "'" if '"' in n else '"' if "'" in n else rng.choice("'\"")
        names.append(n); paths.append("%s/s%d" % (d, j))
        conf += "console name=%s%s%s dev=\"unix:%s\" log=\"%s/log%d\"\n" % (q, n, q, paths[-1], d, j)
    cons = [unix_console(hub, p) for p in paths]
    D = Daemon(exe["d"], conf, d, hub)
    try:
        hub.wait(lambda: all(c.up for c in cons), 10)
        k, kv = D.query()
        got = [x.decode("latin-1") for x in kv.get("CONSOLE", [])]
        # parse_rsp splits at quotes, and encoded quotes survive it
        if sorted(got) != sorted(names): raise Violation("query returned %r, configured %r" % (got, names))
        st.seen("list " + "".join(sorted(set(x for n in names for x in n if not x.isalnum()))))
        # the real client sees the same list
        p = subprocess.run([exe["c"], "-d", "127.0.0.1:%d" % D.port, "-q"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60, env=D.env)
        if p.returncode or sorted(p.stdout.decode("latin-1").split("\n")[:-1]) != sorted(names):
            raise Violation("conman -q printed %r (status %d, %r), configured %r" % (p.stdout, p.returncode, p.stderr[-500:], names))
        for _ in range(6):
            j = rng.randrange(len(names)); n = names[j]
            user, tty_ = weird(rng, rng.choice([6, 20, 300])), weird(rng, rng.choice([6, 20, 300]))
            rx = rng.random() < .3
            pat = re.sub(r"([][\\.*+?(){}|^$])", r"\\\1", n) if rx else globesc(n)
            reg = re.compile(re.escape(n), re.I)
            obs = D.client(); k, kv = obs.session("MONITOR", [globesc(n)])
            if k != b"OK": raise Violation("monitor of %r by pattern %r: %r" % (n, globesc(n), obs.rsp))
            c = D.client(); k, kv = c.session("CONNECT", [pat], ["REGEX"] if rx else [], user=user, tty=tty_)
            if rx and sum(1 for x in names if reg.fullmatch(x)) > 1: c.close(); obs.close(); continue
            if k != b"OK" or [x.decode("latin-1") for x in kv.get("CONSOLE", [])] != [n]: raise Violation("connect to %r by %r answered %r" % (n, pat, c.rsp))
            exp = ("\r\n<ConMan> Console [%s] joined by <%s@localhost> on %s at " % (n, user, tty_)).encode("latin-1")[:1000]
            hub.wait(lambda: exp in obs.data, 10)
            if exp not in obs.data: raise Violation("observer of %r saw %r when user %r on terminal %r joined" % (n, obs.data[-400:], user, tty_), soft=True)
            # busy notice carries the same values
            b = D.client(); k, kv = b.session("CONNECT", [globesc(n)])
            hub.wait(lambda: b.eof, 10)
            e2 = ("Console [%s] open R/W by <%s@localhost> on %s (idle " % (n, user, tty_)).encode("latin-1")[:1000]
            if k != b"ERROR" or e2 not in bytes(b.rx): raise Violation("busy notice for %r held by %r on %r: %r" % (n, user, tty_, bytes(b.rx)[-400:]))
            # and the real client prints them unchanged
            p = subprocess.run([exe["c"], "-d", "127.0.0.1:%d" % D.port, globesc(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60, env=D.env)
            out = p.stdout + p.stderr
            if p.returncode == 0 : raise Violation("client connecting to busy console %r exited 0: %r" % (n, out))
            cs = "".join(sorted(set(x for x in n + user + tty_ if not x.isalnum())))
            st.seen("session %s %d %d" % (cs, len(user) // 100, rx)); st.count("values sent through messages", 3)
            for x in (b, c, obs): x.close()
        # oversized requests: refused or truncated, nobody else affected
        obs = D.client(); obs.session("MONITOR", [globesc(names[0])])
        for _ in range(4):
            z = rng.choice(["token", "tokens", "user", "line", "nolf", "quote"])
            c = D.client()
            big = rng.choice([1023, 1024, 1025, 5000, 60000, 131071, 131072, 131073, 200000])
            if z in ("user", "line", "nolf", "quote"):
                v = b"x" * big
                c.send({"user": b"HELLO USER='" + v + b"'\n", "line": v + b"\n", "nolf": v, "quote": b"HELLO USER='" + v + b"\n"}[z])
                if z == "nolf": pass
            else:
                c.hello()
                v = b"CONSOLE='" + b"y" * big + b"'" if z == "token" else b" ".join(b"CONSOLE='n%d'" % k for k in range(big // 14))
                c.send(b"QUERY " + v + b"\n")
            if z != "nolf": hub.wait(lambda: c.eof or b"\n" in bytes(c.rx[c.pos:]), 20)
            else: hub.settle()
            ans = bytes(c.rx[c.pos:])
            if z in ("token", "tokens") and len(v) < 131000 and b"CONSOLE=" in ans: raise Violation("oversized request matched something: %r" % ans[:200])
            c.close()
            tag = ("probe%d" % rng.randrange(10**9)).encode()
            cons[0].conn.send(tag)
            hub.wait(lambda: tag in obs.data, 10)
            if tag not in obs.data: D.check_alive("after an oversized request"); raise Violation("another session stopped receiving output after a %s of %d bytes" % (z, big), soft=True)
            k, kv = D.query()
            if k != b"OK" or len(kv.get("CONSOLE", [])) != len(names): raise Violation("query after a %s of %d bytes: %r" % (z, big, k))
            st.seen("oversize %s %d -> %r" % (z, big, ans[:14]))
        D.check_alive()
    finally:
        D.kill()
exe["d"] = build_daemon("asan"); exe["c"] = build_client("asan")
for v, a in (("asan", True), ("plain", False)):
    exe[v] = build_harness("h_lex", MODS, v, asserts=False)
C.run_cases(lexcase, [(v, s) for v in ("asan", "plain") for s in seeds(C, v, C.q(12, 120))], label="lex")
C.run_cases(sesscase, seeds(C, "s", C.q(40, 600)), label="sessions")
C.finish(min_evals=50000)
