"""C31: the client's request is what its command line, files and environment say; results and failures are reported."""
import common
from vf import *
from cli import *
C = Check("C31", "one evaluation = one client run whose request, output, log and exit status were compared with its command line and the server's replies; "
          "distinct = (options, sources of patterns and of the destination, server behaviour)")
exe = build_client("asan")
dexe = build_daemon("asan")
JOB()
ME = pwd.getpwuid(os.getuid()).pw_name
SAFE = "abcdefgXYZ019._-+*?[]{}()^$|\\/~!@#%:;<>= \"'&"
RSP = {"badreq": 2, "badregex": 3, "auth": 4, "nomatch": 5, "toomany": 6, "busy": 7, "other": 42}

def pattern(rng, n=None):
    n = n or rng.choice([1, 1, 2, 5, 12, 40, 300 if rng.random() < .1 else 8])
    s = "".join(rng.choice(SAFE) for _ in range(n))
    return s.strip() or "n%d" % rng.randrange(100)

def message(rng):
    return "".join(rng.choice("Found no matching consoles 'x' \"y\" [z]<1>:%s%d\\,;!") for _ in range(rng.choice([1, 10, 60, 400]))).strip() or "oops"

def ok_line(rng, names, reset=False):
    kw = lambda w: rng.choice([w, w, w.lower()]) if rng.random() < .1 else w
    f = [b"CONSOLE=" + (b"'" + enc(n) + b"'") for n in names]
    if reset: f.insert(rng.randrange(len(f) + 1), b"OPTION=RESET")
    if rng.random() < .05: f.insert(rng.randrange(len(f) + 1), b"OPTION=FUTURE")
    if rng.random() < .05: f.insert(rng.randrange(len(f) + 1), b"COLOR=7")
    return kw("OK").encode() + b"".join(b" " + x for x in f) + rng.choice([b"\n", b"\n", b"\n", b" \n"])

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    addrs = [lhost(i, k) for k in (1, 2, 3)]
    ls = []
    l0 = listen(hub, addrs[0])
    ports = [l0.port, 7890]
    try:
        ls = [l0] + [listen(hub, a, p) for a in addrs for p in ports if (a, p) != (addrs[0], l0.port)]
    except OSError as e:
        raise Inconclusive("cannot listen: %s" % e)
    try: ls.append(listen(hub, "127.0.0.1", l0.port))
    except OSError: pass
    try:
        for r in range(10):
            sub = d + "/r%d" % r
            os.mkdir(sub)
            run(rng, sub, hub, addrs, ports, ls, st)
            for l in ls:
                for c in l.conns: c.close()
                l.conns.clear()
    finally:
        for l in ls: l.close()

def run(rng, d, hub, addrs, ports, ls, st):
    argv, env, E = [], {}, dict(cmd="CONNECT", host="127.0.0.1", port=7890, quiet=0, regex=0, force=0, join=0, bcast=0, fpats=[], apats=[], log=None, exit=None)
    tag = []
    # environment
    if rng.random() < .75:
        h, p = rng.choice(addrs + [""]), rng.choice(ports)
        form = rng.choice(["h", "hp", "hp", "h:", "h:x"])
        env["CONMAN_HOST"] = h + {"h": "", "hp": ":%d" % p, "h:": ":", "h:x": ":" + rng.choice(["0", "-1", "port"])}[form]
        if h: E["host"] = h
        if form == "hp": E["port"] = p
        tag.append("CONMAN_HOST " + form + (" empty" if not h else ""))
    if rng.random() < .3:
        v = rng.choice([str(rng.choice(ports)), str(rng.choice(ports)), "", "0", "-5", "conman"])
        env["CONMAN_PORT"] = v
        if v.isdigit() and int(v): E["port"] = int(v); tag.append("CONMAN_PORT")
        else: tag.append("CONMAN_PORT=" + v)
    if rng.random() < .2: env["CONMAN_ESCAPE"] = rng.choice(["%", "", "xyz"])
    for v in ("USER", "LOGNAME"):
        if rng.random() < .2: env[v] = rng.choice(["nobody", "daemon", ME, "", "no such"])
    # options
    usetty = rng.random() < .45
    seq = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
        seq.append(rng.choice("bfjmqqQrvdF" + "e" + "l" + ("hVL?" if rng.random() < .06 else "d")))
    files = []
    toks = []       # (option tokens, final?)
    for o in seq:
        arg = None
        if o == "b": E["bcast"] = 1
        elif o == "f": E["force"], E["join"] = 1, 0
        elif o == "j": E["force"], E["join"] = 0, 1
        elif o == "m": E["cmd"] = "MONITOR"
        elif o == "q": E["cmd"] = "QUERY"
        elif o == "Q": E["quiet"] = 1
        elif o == "r": E["regex"] = 1
        elif o == "e": arg = rng.choice(["%", "^", "ab", "~x"])
        elif o == "d":
            h, p = rng.choice(addrs + addrs + [""]), rng.choice(ports)
            form = rng.choice(["h", "hp", "hp", "hp", "h:"])
            arg = h + {"h": "", "hp": ":%d" % p, "h:": ":"}[form]
            if not arg: continue
            if h: E["host"] = h
            if form == "hp": E["port"] = p
            tag.append("-d " + form)
        elif o == "F":
            f = d + "/f%d" % len(files); files.append(f)
            if rng.random() < .04: arg = d + "/missing"; toks.append(["-F", arg]); E["exit"] = ("fail", "missing"); break
            lines = b""
            for _ in range(rng.choice([0, 1, 3, 10, 400])):
                k = rng.random()
                pre, post = rng.choice(["", "", " ", "\t ", "   "]), rng.choice(["", "", " ", "\t", " \r"])
                if k < .15: lines += (pre + "#" + pattern(rng) + post + "\n").encode()
                elif k < .25: lines += (pre + post + "\n").encode()
                else:
                    w = pattern(rng) if k < .95 else pattern(rng, 1000)
                    if w[0] == "#": w = "x" + w
                    lines += (pre + w + post + "\n").encode(); E["fpats"].append(w.encode())
            if lines.endswith(b"\n") and not lines[:-1].endswith(b"\n") and rng.random() < .3: lines = lines[:-1]
            open(f, "wb").write(lines)
            arg = f
        elif o == "l":
            E["log"] = arg = d + "/log%d" % rng.randrange(2)
            if rng.random() < .05: E["log"] = arg = d + "/nodir/log"
        elif o == "h": E["exit"] = E["exit"] or ("help",)
        elif o in "VL": toks.append(["-" + o]); E["exit"] = ("now", o); break
        elif o == "?": toks.append([rng.choice(["-x", "-Z", "-1", "-vx", "-d" if 0 else "-k"])]); E["exit"] = ("fail", "invalid option"); break
        if arg is None: toks.append(["-" + o])
        elif rng.random() < .4: toks.append(["-" + o + arg])
        else: toks.append(["-" + o, arg])
        tag.append(o)
    # clusters of flags
    out = []
    for t in toks:
        if out and rng.random() < .3 and len(out[-1]) == 1 and len(out[-1][0]) >= 2 and out[-1][0][1:].isalpha() and all(c in "bfhjmqQrv" for c in out[-1][0][1:]) and out[-1][0][1:].isalpha():
            out[-1] = ["-" + out[-1][0][1:] + t[0][1:]] + t[1:]
        else: out.append(t)
    pats = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < .97 else 200):
        ws = [pattern(rng) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        a = rng.choice(["", "", "", ","]) + rng.choice([",", ",,"]).join(ws) + rng.choice(["", "", "", ","])
        if a.startswith("-"): a = "x" + a; ws[0] = "x" + ws[0]
        pats.append([a]); E["apats"] += [w.encode() for w in ws]
    # options may come anywhere between the names
    items = [("p", p) for p in pats]
    pos = sorted(rng.randrange(len(items) + 1) if rng.random() < .3 else 0 for _ in out)
    for k, (t, q) in enumerate(zip(out, pos)): items.insert(q + k, ("o", t))
    stop = rng.random() < .1 and E["exit"] is None
    last = max([k for k, x in enumerate(items) if x[0] == "o"], default=-1)
    for k, (_, t) in enumerate(items):
        if stop and k == last + 1: argv.append("--")
        argv += t
    if stop and last + 1 < len(items):
        a = "-" + rng.choice("qmhx") + "z"; argv.append(a); E["apats"].append(a.encode())
    if E["cmd"] == "MONITOR": E["bcast"] = E["force"] = E["join"] = 0
    allp = E["fpats"] + E["apats"]
    opts = []
    if E["quiet"]: opts.append("QUIET")
    if E["regex"]: opts.append("REGEX")
    if E["cmd"] == "CONNECT": opts += [w for w, k in (("FORCE", "force"), ("JOIN", "join"), ("BROADCAST", "bcast")) if E[k]]
    if not E["exit"] or E["exit"][0] == "help":
        if E["exit"] or (E["cmd"] != "QUERY" and not allp): E["exit"] = ("help",)
    if not E["exit"] and E["log"] and "/nodir/" in E["log"]: E["exit"] = ("fail", "nodir")
    what = "conman %s %r" % (" ".join(map(repr, argv))[:300], {k: v for k, v in env.items()})
    pre = None
    if E["log"] and not E["exit"] and rng.random() < .4:
        pre = b"earlier\n"; open(E["log"], "wb").write(pre)
    # the destination
    dest = [l for l in ls if (l.addr, l.port) == (E["host"], E["port"])]
    close_at = rng.random() < .04
    c = Cli(exe, argv, d, hub, env=env, tty=usetty)
    try:
        if E["exit"]:
            rc = c.wait(20)
            if rc is None: raise Violation("%s: still running, should have ended (%s)" % (what, E["exit"]), soft=True)
            c.sane(what)
            if any(l.conns for l in ls): raise Violation("%s: connected to a server (%s)" % (what, E["exit"]))
            if E["exit"][0] in ("help", "now"):
                if rc != 0 or not c.out(): raise Violation("%s: %s: exit status %d, output %r" % (what, E["exit"], rc, c.out()[:100]))
                if c.err(): raise Violation("%s: %s with diagnostics %r" % (what, E["exit"], c.err()[:200]))
                if E["exit"][0] == "help" and ("%s:%d" % (E["host"], E["port"])).encode() not in c.out(): raise Violation("%s: help does not show %s:%d: %r" % (what, E["host"], E["port"], c.out()[:200]))
            elif rc == 0 or not c.err(): raise Violation("%s: %s: exit status %d, diagnostics %r" % (what, E["exit"], rc, c.err()[:100]))
            st.seen("exit %s tty=%d" % (E["exit"], usetty)); return
        if not dest:            # nobody listens at 127.0.0.1 for us: the attempt must fail or end, and name where it went
            if E["host"] != "127.0.0.1" : raise Inconclusive("no listener")
            rc = c.wait(5)
            if rc is None: return       # something unrelated listens there
            c.sane(what)
            if rc == 0 or not c.err(): raise Violation("%s: exit status %d without a server" % (what, rc))
            if b"Unable to connect" in c.err() and (":%d" % E["port"]).encode() not in c.err(): raise Violation("%s: diagnostics %r do not name port %d" % (what, c.err()[:200], E["port"]))
            st.seen("refused %s tty=%d" % (tag, usetty)); return
        if not hub.wait(lambda: dest[0].conns or c.exited(), 20) or not dest[0].conns:
            bad = [(l.addr, l.port) for l in ls if l.conns]
            raise Violation("%s: did not connect to %s:%d but %s; %r" % (what, E["host"], E["port"], bad, c.err()[:200]), soft=not bad)
        s = dest[0].conns[0]
        # greeting
        how = rng.random()
        early = how < .03
        stage = "greeting"
        def reply(kind):
            """Answer as told; returns what the client must then show or None for a success."""
            slow = rng.random() < .15
            def send(b):
                if not slow: s.send(b); return
                k = 0
                while k < len(b):
                    n = rng.choice([1, 2, 7, 500]); s.send(b[k:k + n]); k += n; hub.pump(.0005)
            if kind == "ok": send(ok_line(rng, [])); return None
            if kind == "close": s.flush(); s.close(); return b""
            if kind == "rst": s.close(rst=True); return b""
            if kind == "junk":
                send(rng.choice([b"\n", b"HELLO\n", b"okay then\n", b"O K\n", b"'OK'\n", b"\0\n", b"-\n", b"ERROR CODE=0 MESSAGE='no'\n", b"ERROR\n", b"CODE=5\n", b"x" * 5000 + b"\n"])); s.flush(); s.close(); return b""
            if kind == "part":
                send(rng.choice([b"E", b"HE", b"ERROR CODE", b"   "])); s.flush(); s.close(); return b""
            k = rng.choice(sorted(x for x in RSP if x != "auth" or stage != "greeting")); m = message(rng)
            extra = b"" if rng.random() < .5 else bytes(rng.randrange(32, 256) if rng.random() < .9 else 10 for _ in range(rng.choice([1, 80, 3000, 30000])))
            f = [b"CODE=%d" % RSP[k], b"MESSAGE='" + enc(m) + b"'"]
            if rng.random() < .1: f.reverse()
            if rng.random() < .05: f.insert(rng.randrange(3), b"MORE='stuff'")
            send(b"ERROR " + b" ".join(f) + b"\n" + extra); s.flush(); s.close()
            tag.append("error " + k)
            return b"ERROR: " + m.encode() + b".\n\n" + extra
        def failed(kind, exp):
            rc = c.wait(20)
            if rc is None: raise Violation("%s: %s at %s: the client does not end" % (what, kind, stage), soft=True)
            c.sane("%s: %s at %s" % (what, kind, stage))
            if rc == 0: raise Violation("%s: %s at %s: exit status 0" % (what, kind, stage))
            if not c.err().strip(): raise Violation("%s: %s at %s: exit status %d but no diagnostic" % (what, kind, stage, rc))
            if kind == "error" and not c.err().startswith(exp): raise Violation("%s: server error at %s shown as %r, expected %r" % (what, stage, c.err()[:300], exp[:300]))
            if c.out(): raise Violation("%s: %s at %s: output %r" % (what, kind, stage, c.out()[:200]))
            if E["log"] and kind == "error" and exp not in open(E["log"], "rb").read(): raise Violation("%s: server error missing from the log" % what)
            st.seen("%s at %s: %s %s tty=%d" % (kind, stage, E["cmd"], sorted(opts), usetty))
        if early:               # a server that does not even listen
            kind = rng.choice(["close", "rst", "okclose"])
            if kind == "okclose": s.send(b"OK\n"); s.flush(); s.close()
            else: s.close(rst=kind == "rst")
            failed("early " + kind, b""); return
        def line(mark):
            if not hub.wait(lambda: b"\n" in s.rx[mark:] or s.eof or c.exited(), 20) or b"\n" not in s.rx[mark:]: raise Violation("%s: no %s line: %r; %r" % (what, stage, bytes(s.rx), c.err()[:200]), soft=True)
            return bytes(s.rx[mark:s.rx.index(b"\n", mark) + 1])
        g = line(0)
        gc, go, gp, gk = parse_req(g)
        exp = dict(USER=ME.encode())
        if usetty: exp["TTY"] = c.tty[5:].encode()
        if gc != "HELLO" or go or gp or gk != exp: raise Violation("%s: greeting %r, expected %r" % (what, g, exp))
        kind = rng.choice(["error", "close", "rst", "junk", "part"]) if rng.random() < .08 else "ok"
        exp = reply(kind)
        if kind != "ok": failed(kind, exp); return
        stage = "request"
        rq = line(len(g))
        got = parse_req(rq)
        if got[:3] != (E["cmd"], sorted(opts), allp) or got[3]: raise Violation("%s: request %r, expected %r" % (what, rq[:600], (E["cmd"], sorted(opts), allp[:20])))
        if E["cmd"] == "QUERY" and not hub.wait(lambda: s.eof, 20): raise Violation("%s: the write half stays open after a query" % what, soft=True)
        if len(s.rx) != len(g) + len(rq): raise Violation("%s: sent more than its request: %r" % (what, bytes(s.rx[len(g) + len(rq):])[:100]))
        pool = ["error"] * 5 + ["close", "rst", "junk", "part"]
        kind = rng.choice(pool) if rng.random() < .35 else "ok"
        if kind != "ok": exp = reply(kind); failed(kind, exp); return
        names = []
        for _ in range(rng.choice([1, 1, 2, 5, 30, 500]) if E["cmd"] == "QUERY" or E["bcast"] else 1):
            nm = rng.choice(["n%d" % rng.randrange(1000), "a b", "it's", 'say "x"', pattern(rng), "x" * rng.randrange(900, 1024) if rng.random() < .2 else "y"])
            if E["cmd"] != "QUERY": nm = nm[:200].strip()
            names.append(nm)
        if E["cmd"] == "QUERY" and rng.random() < .05: names = []
        b = ok_line(rng, names, reset=rng.random() < .3)
        if len(b) > 131000: names = ["n"]; b = ok_line(rng, names)
        if E["cmd"] == "QUERY":
            k = 0
            if rng.random() < .2:
                while k < len(b) - 1: n = rng.choice([1, 10, 3000]); s.send(b[k:k + n]); k += n; hub.pump(.0005)
            s.send(b[k:]); s.flush()
            if rng.random() < .5: s.close()
            rc = c.wait(20)
            if rc is None: raise Violation("%s: the client does not end after the reply" % what, soft=True)
            c.sane(what)
            exp = "".join(n + "\n" for n in names).encode()
            out = c.out().replace(b"\r\n", b"\n") if usetty else c.out()
            if out != exp: raise Violation("%s: %d consoles: printed %r, expected %r (exit %d, %r)" % (what, len(names), out[:200], exp[:200], rc, c.err()[:200]))
            if rc != 0 or c.err(): raise Violation("%s: a successful query ends with %d, %r" % (what, rc, c.err()[:200]))
            text = exp
        else:
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 2000])))
            if usetty: data = data.replace(b"\n", b"")
            s.send(b + data); s.flush()
            if usetty and not hub.wait(lambda: data in c.m.rx or c.exited(), 20): raise Violation("%s: output not shown" % what, soft=True)
            if usetty or rng.random() < .5: s.close()
            rc = c.wait(20)
            if rc is None: raise Violation("%s: the client does not end although the server closed" % what, soft=True)
            c.sane(what)
            if usetty:
                if rc != 0 or c.err(): raise Violation("%s: a session ended by the server exits with %d, %r" % (what, rc, c.err()[:200]))
                if data not in c.out(): raise Violation("%s: session output %r lost: %r" % (what, data[:50], c.out()[:300]))
            elif rc == 0 or not c.err(): raise Violation("%s: a session without a terminal exits with %d, %r" % (what, rc, c.err()[:200]))
            text = data if usetty else None
        if E["log"] and text is not None:
            L = open(E["log"], "rb").read()
            m = re.fullmatch(re.escape(pre or b"") + rb"\r\n<ConMan> Log started at [^\r\n]*\.\r\n(.*)\r\n<ConMan> Log finished at [^\r\n]*\.\r\n", L, re.S)
            if not m or m.group(1) != text: raise Violation("%s: log holds %r, expected %r between its start and end notes" % (what, L[:300], text[:100]))
            if pre is None and os.stat(E["log"]).st_mode & 0o077: raise Violation("%s: log readable by others (%o)" % (what, os.stat(E["log"]).st_mode))
        st.seen("%s %s %s sources F%d A%d log=%d tty=%d" % (E["cmd"], sorted(opts), sorted(set(tag)), bool(E["fpats"]), bool(E["apats"]), bool(E["log"]), usetty))
        st.sample(what + " -> " + repr(rq[:150]))
    finally:
        c.close()

def fuzz(i, d, st):
    """Hostile servers: whatever they send, the client ends with a status and a diagnostic unless it was told OK."""
    rng = random.Random(i)
    hub = Hub()
    l = listen(hub, "127.0.0.1")
    frag = [b"OK", b"ERROR", b" ", b"=", b"CODE", b"MESSAGE", b"'", b'"', b"CONSOLE", b"OPTION", b"RESET", b"\n", b"\r", b"\0", b"5", b"-5", b"99999999999999999999", b"x" * 2000, b"\xff", b"\\", b"%s%n", b"CONSOLE='a' " * 300, b"\x80"]
    try:
        for r in range(12):
            q = rng.random() < .7
            c = Cli(exe, (["-q"] if q else []) + ["-d", "127.0.0.1:%d" % l.port, "x"], d, hub, tty=rng.random() < .5)
            def blob():
                if rng.random() < .3: return bytes(rng.randrange(256) for _ in range(rng.choice([1, 30, 2000])))
                if rng.random() < .2: return b"x" * rng.choice([131070, 131071, 131072, 131073, 200000]) + b"\n"
                return b"".join(rng.choice(frag) for _ in range(rng.randrange(1, 20)))
            try:
                if not hub.wait(lambda: l.conns, 20): raise Inconclusive("no connection")
                s = l.conns[-1]
                a = b"OK\n" if rng.random() < .7 else blob()
                b = blob()
                s.send(a + b if rng.random() < .5 else a)
                hub.wait(lambda: s.rx.count(b"\n") >= 2, .3)
                s.send(b); hub.wait(lambda: not s.tx or c.exited() or s.err, 10)
                hub.settle(.01, .1)
                s.close(rst=rng.random() < .1)
                rc = c.wait(20)
                if rc is None: raise Violation("after %r %r the client does not end" % (a[:200], b[:200]), soft=True)
                c.sane("server sent %r %r" % (a[:300], b[:300]))
                if rc and not c.err(): raise Violation("server sent %r %r: exit status %d without a diagnostic" % (a[:300], b[:300], rc))
                if not rc and b"OK" not in (a + b).upper().replace(b"\0", b"\n"): raise Violation("server sent %r %r: exit status 0" % (a[:300], b[:300]))
                st.seen("hostile rc=%d %s %d" % (rc, "query" if q else "connect", hash(c.err()[:40]) % 50))
            finally:
                c.close(); l.conns.clear()
    finally:
        l.close()

def daemon(i, d, st):
    """The client against the real daemon."""
    rng = random.Random(i)
    hub = Hub()
    names = rng.sample(["a", "b1", "b2", "c c", "d.d", "e-e", "f'f", 'g"g', "h[0]", "zz"], 6)
    conf = "server port=0\n" + "".join('console name=%s dev="test:" testopts="m:2000000000,n:2000000000"\n' % (("'%s'" % n) if "'" not in n else '"%s"' % n,) for n in names)
    D = Daemon(dexe, conf, d, hub)
    dest = ["-d", "127.0.0.1:%d" % D.port]
    def run(argv, tty=False):
        c = Cli(exe, dest + argv, d, hub, tty=tty)
        return c
    def esc(n): return "".join("\\" + ch if ch in "[*?\\" else ch for ch in n)
    try:
        for _ in range(6):
            k = rng.random()
            if k < .4:
                pick = rng.sample(names, rng.randrange(1, 4))
                all_ = rng.random() < .3
                argv = ["-q"] + ([] if all_ else [esc(n) for n in pick])
                c = run(argv); rc = c.wait(20); c.sane("query")
                exp = sorted(names if all_ else pick)
                if rc != 0 or sorted(c.out().decode().splitlines()) != exp: raise Violation("conman %r: %r (exit %r), expected %r" % (argv, c.out(), rc, exp), soft=rc is None)
                st.seen("daemon query %d all=%d" % (len(exp), all_))
            elif k < .55:
                argv = rng.choice([["-q"], ["-m"], []]) + ["nosuch%d" % rng.randrange(9)]
                c = run(argv); rc = c.wait(20); c.sane("no match")
                if not rc or b"ERROR: " not in c.err() or c.out(): raise Violation("conman %r: exit %r, %r %r" % (argv, rc, c.out(), c.err()), soft=rc is None)
                st.seen("daemon no match %s" % argv[0])
            elif k < .7:
                argv = rng.choice([["-m"], []]) + [esc(n) for n in names[:2]]
                c = run(argv); rc = c.wait(20); c.sane("too many")
                if not rc or b"ERROR: " not in c.err() or c.out() or any(n.encode() not in c.err() for n in names[:2]): raise Violation("conman %r: exit %r, %r %r" % (argv, rc, c.out(), c.err()), soft=rc is None)
                st.seen("daemon too many %s" % argv[0])
            else:
                n = rng.choice(names)
                a = run([esc(n)], tty=True)
                if not hub.wait(lambda: b"opened" in a.m.rx or a.exited(), 20) or a.exited(): raise Violation("cannot connect to %s: %r %r" % (n, a.out(), a.err()), soft=True)
                opt = rng.choice([None, "-f", "-j", "-m"])
                b = run(([opt] if opt else []) + [esc(n)], tty=bool(opt))
                if opt is None:
                    rc = b.wait(20); b.sane("busy")
                    if not rc or b"ERROR: " not in b.err() or n.encode() not in b.err() or ME.encode() not in b.err(): raise Violation("connecting to the busy %s: exit %r, %r %r" % (n, rc, b.out(), b.err()), soft=rc is None)
                else:
                    if not hub.wait(lambda: b"opened" in b.m.rx or b.exited(), 20) or b.exited(): raise Violation("conman %s %s: %r %r" % (opt, n, b.out(), b.err()), soft=True)
                    if opt == "-f" and not hub.wait(lambda: a.exited(), 20): raise Violation("conman -f %s: the previous writer stays" % n, soft=True)
                    b.m.send(b"&.")
                    rc = b.wait(20); b.sane("session")
                    if rc != 0: raise Violation("conman %s %s: exit %r after &." % (opt, n, rc), soft=rc is None)
                if opt != "-f" : a.m.send(b"&.")
                rc = a.wait(20); a.sane("session")
                if rc != 0: raise Violation("session of %s: exit %r" % (n, rc), soft=rc is None)
                st.seen("daemon session then %s" % opt)
                a.close(); b.close(); continue
            c.close()
    finally:
        D.kill()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(220, 6000))])
g = C.rng("f"); C.run_cases(fuzz, [g.randrange(1 << 40) for _ in range(C.q(60, 2000))], label="fuzz")
g = C.rng("d"); C.run_cases(daemon, [g.randrange(1 << 40) for _ in range(C.q(40, 600))], label="daemon")
C.finish(min_evals=800)
