"""C30: the interactive client relays the session transparently, honours its escapes and restores the terminal."""
import common
from vf import *
from cli import *
C = Check("C30", "one evaluation = one step of a session (keystrokes, escape, server output, end) whose effect on the server's input, the terminal, the log and the terminal settings was compared with the model; "
          "distinct = (step, session mode, escape character class, options)")
exe = build_client("asan")
dexe = build_daemon("asan")
JOB()
CMDS = b".?BDEFIJLMQRZ"
MSG = re.compile(rb"\r\n<ConMan> [^\r\n]*\.\r\n")
def esc_chars(rng):
    k = rng.random()
    if k < .25: return 0x26
    if k < .5: return rng.choice([c for c in range(0x20, 0x7f) if c not in CMDS])
    if k < .7: return rng.randrange(1, 0x20)
    if k < .95: return rng.randrange(0x80, 0x100)
    return rng.choice([0x7f, 0xff, 0x80, 0x0d, 0x0a])

def attrs(rng):
    def f(a):
        if rng.random() < .6:
            for x in (termios.ICRNL, termios.INLCR, termios.IGNCR, termios.ISTRIP, termios.INPCK, termios.IXON, termios.IXANY, termios.BRKINT, termios.IGNBRK, termios.IMAXBEL): a[0] = a[0] & ~x | rng.choice([0, x])
            for x in (termios.OPOST, termios.ONLCR): a[1] = a[1] & ~x | rng.choice([0, x])
            for x in (termios.ICANON, termios.ECHO, termios.ISIG, termios.IEXTEN, termios.ECHOE, termios.TOSTOP): a[3] = a[3] & ~x | rng.choice([0, x])
            if not a[3] & termios.ICANON: a[6][termios.VMIN], a[6][termios.VTIME] = rng.choice([1, 3]), rng.choice([0, 5])
        return a
    return f
def israw(a):
    return not (a[0] & (termios.BRKINT | termios.ICRNL | termios.IGNCR | termios.INLCR | termios.ISTRIP | termios.IXON | termios.PARMRK) or a[1] & termios.OPOST or a[3] & (termios.ICANON | termios.ISIG | termios.IEXTEN))

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    l = listen(hub, "127.0.0.1", rcvbuf=rng.choice([None, None, 4096]))
    esc = esc_chars(rng)
    mode = rng.choice(["CONNECT", "CONNECT", "CONNECT", "MONITOR"])
    bcast = mode == "CONNECT" and rng.random() < .25
    ncon = rng.choice([1, 2, 5]) if bcast else 1
    names = ["n%d" % k for k in range(ncon)] if rng.random() < .8 else ["it's", 'a "b"', "c d", "e", "f"][:ncon]
    reset = rng.random() < .5
    argv, env = ["-d", "127.0.0.1:%d" % l.port], {}
    eb = bytes([esc])
    if esc == 0x26 and rng.random() < .5: pass
    elif rng.random() < .6:
        argv += ["-e", os.fsdecode(eb + rng.choice([b"", b"zz"]))]
        if rng.random() < .3: env["CONMAN_ESCAPE"] = "%"
    else: env["CONMAN_ESCAPE"] = os.fsdecode(eb + rng.choice([b"", b"yy"]))
    if mode == "MONITOR": argv.append("-m")
    if bcast: argv.append("-b")
    if rng.random() < .2: argv.append("-Q")
    log = d + "/log" if rng.random() < .5 else None
    logfail = False
    if log:
        argv += ["-l", log]
        if rng.random() < .15: logfail = True; env["VF_FSIZE"] = "3000"
    cls = "default" if esc == 0x26 else "control" if esc < 0x20 or esc == 0x7f else "print" if esc < 0x7f else "0xff" if esc == 0xff else "high"
    c = Cli(exe, argv + names, d, hub, env=env, tty=True, attrs=attrs(rng))
    what = "conman %r" % (argv[2:],)
    try:
        if not hub.wait(lambda: l.conns or c.exited(), 20) or not l.conns: raise Violation("%s: no connection: %r" % (what, c.err()), soft=True)
        s = l.conns[0]
        def lines(n):
            if not hub.wait(lambda: s.rx.count(b"\n") >= n or c.exited(), 20) or c.exited(): raise Violation("%s: no request: %r" % (what, c.err()), soft=True)
        lines(1); s.send(b"OK\n"); lines(2)
        first = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 5, 800 if logfail else 3000])))
        if rng.random() < .5: pass
        s.send(b"OK" + (b" OPTION=RESET" if reset else b"") + b"".join(b" CONSOLE='" + enc(n) + b"'" for n in names) + b"\n" + first)
        s.paused = False
        base = len(s.rx)
        sent = bytearray()                  # what the server must have received
        got = bytearray()                   # everything the server sent
        cols = [0]                          # how much of the terminal output has been checked
        def fail(m, soft=False): raise Violation("%s (escape %r, %s%s): %s; stderr %r" % (what, eb, mode, " broadcast" if ncon > 1 else "", m, c.err()[-200:]), soft=soft)
        def live(w):
            c.sane(w)
            if c.exited(): fail("%s: ended with status %r" % (w, c.poll()))
        def server(w, data, exact=True):
            """Exactly these further bytes must reach the server."""
            sent.extend(data)
            hub.wait(lambda: len(s.rx) - base >= len(sent) or c.exited(), 10)
            if exact: hub.settle(.004, .1)
            live(w)
            r = bytes(s.rx[base:])
            if r != sent:
                k = first_diff(r, bytes(sent))
                fail("%s: server received %d bytes, expected %d; first difference at %d: %r, expected %r" % (w, len(r), len(sent), k, r[k:k + 30], bytes(sent[k:k + 30])), soft=len(r) < len(sent))
        def term(w, data):
            """Exactly these further bytes must appear on the terminal."""
            e = cols[0] + len(data)
            hub.wait(lambda: len(c.m.rx) >= e or c.exited(), 10)
            if bytes(c.m.rx[cols[0]:e]) != data or len(c.m.rx) > e:
                r = bytes(c.m.rx[cols[0]:]); k = first_diff(r, data)
                live(w)
                fail("%s: terminal shows %d bytes, expected %d; first difference at %d: %r, expected %r" % (w, len(r), len(data), k, r[k:k + 40], data[k:k + 40]), soft=len(r) < len(data))
            cols[0] = e
        def local(w, pat):
            """A local message matching pat must appear."""
            m = [None]
            def f():
                m[0] = re.match(pat, bytes(c.m.rx[cols[0]:]), re.S)
                return m[0]
            if not hub.wait(lambda: f() or c.exited(), 10) or not m[0]:
                live(w); fail("%s: terminal shows %r" % (w, bytes(c.m.rx[cols[0]:])[:300]), soft=len(c.m.rx) == cols[0])
            cols[0] += m[0].end()
            return m[0]
        def subj(): return re.escape(("[%s]" % names[0]).encode()) if ncon == 1 else b"%d consoles" % ncon
        def status(w, verb): return local(w, rb"\r\n<ConMan> [^\r\n]*" + subj() + rb"[^\r\n]*" + verb + rb"[^\r\n]*\.\r\n")
        quiet = echo = False
        dead = False
        status("start", b"opened")
        if not israw(c.settings()) or c.settings()[3] & termios.ECHO: fail("terminal not raw during the session: %r" % c.settings()[:4])
        def logged(w, final=False):
            if not log or logfail: return
            def ok():
                L = open(log, "rb").read()
                m = re.fullmatch(rb"\r\n<ConMan> Log started at [^\r\n]*\.\r\n(.*?)" + (rb"\r\n<ConMan> Log finished at [^\r\n]*\.\r\n" if final else b""), L, re.S)
                return m and m.group(1) == bytes(got)
            if not hub.wait(ok, 5): fail("%s: log of %d bytes differs from the %d bytes received" % (w, os.path.getsize(log), len(got)), soft=True)
        room = [2900 if logfail else 10 ** 9]
        def output(w, data, check=True):
            if logfail: room[0] -= len(data)
            s.send(data); got.extend(data)
            if check: term(w, data)
        def randout(n):
            k = rng.random()
            if k < .5: return bytes(rng.randrange(256) for _ in range(n))
            if k < .8: return bytes(rng.choice(b"\r\n\x03\x04\x1a\x11\x13\xff\x00&." + eb) for _ in range(n))
            return (bytes(range(256)) * (n // 256 + 1))[:n]
        if first:
            got.extend(first); room[0] -= len(first)
            if room[0] > 0: term("first", first)
        def plain(n):
            k = rng.random()
            t = bytes(rng.randrange(256) for _ in range(n)) if k < .5 else bytes(rng.choice(b"\r\n\x03\x04\x1a\x1c\x11\x13\x7f\xff\x00 abc") for _ in range(n)) if k < .8 else (bytes(range(256)) * (n // 256 + 1))[:n]
            return bytes(x for x in t if x != esc)
        def wire(t): return t.replace(b"\xff", b"\xff\xff") if mode == "CONNECT" else b""
        def unknown():
            return rng.choice([x for x in range(256) if x not in CMDS and x != esc])
        def rows():
            exp = {"?", ".", chr(esc), "I", "Q", "Z"} | ({"B", "D", "E"} if mode == "CONNECT" else {"F", "J"}) | ({"L"} if ncon == 1 else set())
            if mode == "CONNECT" and ncon == 1: exp.add("M")
            if mode == "CONNECT" and reset: exp.add("R")
            return exp
        end = None
        for step in range(rng.randrange(4, 24)):
            if room[0] <= 2000 and logfail: break
            op = rng.choice(["type", "type", "paste", "out", "out", "both", "escesc", "unknown", "send", "send", "mode", "mode", "echo", "help", "info", "suspend", "signal", "noop", "mix", "mix"] + (["flood", "block"] if rng.random() < .12 and not logfail else []))
            w = "step %d %s" % (step, op)
            if op == "type":
                for ch in plain(rng.choice([1, 3, 10])):
                    c.m.send(bytes([ch])); server(w, wire(bytes([ch])), exact=False)
            elif op == "paste": t = plain(rng.choice([5, 200, 1500])); c.m.send(t); server(w, wire(t))
            elif op == "out": output(w, randout(rng.choice([1, 20, 300, 1500 if logfail else 9000])))
            elif op == "both":
                t, o = plain(rng.choice([5, 500])), randout(rng.choice([5, 500, 1000 if logfail else 20000]))
                c.m.send(t); output(w, o); server(w, wire(t))
            elif op == "escesc":
                k = rng.choice([1, 1, 2, 5]); c.m.send(eb * (2 * k)); server(w, wire(eb) * k)
            elif op == "unknown":
                u = bytes([unknown()]); c.m.send(eb)
                if rng.random() < .5: hub.settle(.003, .05); server(w + " (escape alone)", b"")
                t = plain(rng.choice([0, 3])); c.m.send(u + t); server(w, wire(eb + u + t))
            elif op in ("send", "noop"):
                k = rng.choice(b"BDRL")
                ok = (mode == "CONNECT" and (k != 0x52 or reset)) if k != 0x4c else ncon == 1
                c.m.send(eb + bytes([k])); server(w + " " + chr(k), b"\xff" + bytes([k]) if ok else b"")
            elif op == "mode":
                k = rng.choice(b"FJMQ")
                x = b"\xff" + bytes([k])
                if k in b"FJ":
                    if mode == "MONITOR": mode2 = "CONNECT"
                    else: x, mode2 = b"", mode
                elif k == 0x4d:
                    if mode == "CONNECT" and ncon == 1: mode2 = "MONITOR"
                    else: x, mode2 = b"", mode
                else: mode2 = mode
                # keys typed around the switch obey the mode before and after it
                a, b = plain(rng.choice([0, 3])), plain(rng.choice([0, 3]))
                pre = wire(a); old = mode; mode = mode2
                c.m.send(a + eb + bytes([k]) + b); server(w + " " + chr(k), pre + x + wire(b))
            elif op == "echo":
                t = b"" if rng.random() < .3 else b"abc%d" % rng.randrange(100)
                if eb in t: t = b""
                c.m.send(eb + b"E" + t)
                if mode != "CONNECT": server(w, b""); echo2 = 0
                else:
                    if not hub.wait(lambda: bool(c.settings()[3] & termios.ECHO), 10): fail("%s: input not echoed" % w, soft=True)
                    server(w, wire(t))
                    hub.settle(.004, .05); cols[0] = len(c.m.rx)        # some of it may have been typed before the echo was on
                    if not c.settings()[3] & termios.ECHO: fail("%s: echo did not last" % w)
                    if rng.random() < .6 and 0x78 != esc: c.m.send(b"xxx"); server(w, wire(b"xxx")); term(w, b"xxx")
                    t2 = plain(rng.choice([0, 0, 3, 200]))
                    c.m.send(eb + b"E" + t2)
                    if not hub.wait(lambda: not c.settings()[3] & termios.ECHO, 10): fail("%s: input still echoed" % w, soft=True)
                    server(w, wire(t2))
                    if not israw(c.settings()): fail("%s: terminal not raw" % w)
                    hub.settle(.004, .05); cols[0] = len(c.m.rx)
            elif op == "help":
                c.m.send(eb + b"?"); server(w, b"")
                hub.wait(lambda: c.m.rx.count(b"\n", cols[0]) > len(rows()), 3); hub.settle(.01, .2)
                t = bytes(c.m.rx[cols[0]:]); cols[0] = len(c.m.rx)
                if 0x21 <= esc < 0x7f:
                    r = set(re.findall(rb"^\s*" + re.escape(eb) + rb"(\S)\s+-", t, re.M))
                    if r != {x.encode() for x in rows()}: fail("%s: offers %s, expected %s" % (w, sorted(r), sorted(rows())))
                elif t.count(b"\n") < len(rows()): fail("%s: only %r" % (w, t[:200]))
            elif op == "info":
                c.m.send(eb + b"I"); server(w, b"")
                m = local(w, rb"\r\n<ConMan> [^\r\n]*\.\r\n").group(0)
                if not re.search(subj(), m) or (ncon == 1 and (b"R/W" in m) != (mode == "CONNECT")): fail("%s: in %s mode shows %r" % (w, mode, m))
                if str(l.port).encode() not in m: fail("%s: %r does not name the server" % (w, m))
            elif op == "suspend":
                c.m.send(eb + b"Z"); server(w, b"\xffZ")
                if not hub.wait(lambda: c.state() == "T", 10): fail("%s: not suspended (state %s)" % (w, c.state()), soft=True)
                status_at = re.search(MSG, bytes(c.m.rx[cols[0]:]))
                hub.settle(.003, .05); cols[0] = len(c.m.rx)
                same(c, fail, w)
                o = randout(rng.choice([0, 50, 900])); s.send(o); got.extend(o); room[0] -= len(o) * logfail
                hub.settle(.003, .03)
                if len(c.m.rx) != cols[0]: fail("%s: output while suspended" % w)
                c.sig(signal.SIGCONT)
                server(w, b"\xffZ")
                if not israw(c.settings()): fail("%s: terminal not raw after it resumed" % w)
                local(w, rb"\r\n<ConMan> [^\r\n]*resumed[^\r\n]*\.\r\n"); term(w, o)
            elif op == "signal":
                for sg in rng.sample([signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGPIPE, signal.SIGCONT, signal.SIGWINCH, signal.SIGCHLD], 2): c.sig(sg)
                t = plain(4); c.m.send(t); server(w, wire(t)); output(w, randout(5))
            elif op == "flood":
                o = randout(rng.choice([70000, 300000])); c.m.paused = True
                s.send(o); got.extend(o); hub.settle(.02, .3)
                c.m.paused = False; term(w, o)
                if s.tx: fail("%s: server output stuck" % w, soft=True)
            elif op == "block":
                s.paused = True
                t = plain(rng.choice([3000, 60000])); c.m.send(t); hub.settle(.02, .3)
                o = randout(50); s.send(o); got.extend(o)
                s.paused = False; server(w, wire(t)); term(w, o)
            elif op == "mix":
                t, exp = b"", b""
                for _ in range(rng.choice([3, 10, 60])):
                    k = rng.random()
                    if k < .4: x = plain(rng.choice([1, 4])); t += x; exp += wire(x)
                    elif k < .55: t += eb + eb; exp += wire(eb)
                    elif k < .7: u = bytes([unknown()]); t += eb + u; exp += wire(eb + u)
                    elif k < .8: t += eb + b"B"; exp += b"\xffB" if mode == "CONNECT" else b""
                    elif k < .85: t += eb + b"Q"; exp += b"\xffQ"
                    elif k < .9: t += eb + b"L"; exp += b"\xffL" if ncon == 1 else b""
                    elif k < .95:
                        t += eb + b"M"
                        if mode == "CONNECT" and ncon == 1: mode = "MONITOR"; exp += b"\xffM"
                    else:
                        t += eb + b"J"
                        if mode == "MONITOR": mode = "CONNECT"; exp += b"\xffJ"
                while t:
                    n = rng.choice([1, 2, 7, 100]); c.m.send(t[:n]); t = t[n:]
                    if rng.random() < .3: hub.pump(.001)
                server(w, exp)
            live(w)
            logged(w)
            st.seen("%s %s bcast=%d escape %s log=%d" % (op, mode, ncon > 1, cls, bool(log)))
        # the end
        end = rng.choice(["close", "close", "closeout", "server", "server", "rst", "term", "termsusp", "hangup", "rstwrite"]) if not logfail else "logfail"
        w = "end " + end
        if end in ("close", "closeout"):
            t = plain(3); c.m.send(t + eb + b"."); server(w, wire(t))
            if not hub.wait(lambda: s.eof, 10): fail("%s: the session was not closed" % w, soft=True)
            hub.settle(.003, .05)
            m = re.search(rb"[^\r]*\r\n<ConMan> [^\r\n]*" + subj() + rb"[^\r\n]*\.\r\n", bytes(c.m.rx[cols[0]:]))
            if not m: fail("%s: nothing said about the close: %r" % (w, bytes(c.m.rx[cols[0]:])))
            cols[0] = len(c.m.rx)
            if end == "closeout": output(w, randout(rng.choice([10, 5000, 100000])))
            s.flush(); s.close(); exp = 0
        elif end == "server":
            o = randout(rng.choice([0, 10, 5000, 60000])); s.send(o); got.extend(o)
            s.flush(); s.close(); exp = 0
            if not hub.wait(lambda: len(c.m.rx) >= cols[0] + len(o), 10) or bytes(c.m.rx[cols[0]:cols[0] + len(o)]) != o: fail("%s: last output lost" % w, soft=True)
            cols[0] += len(o)
        elif end == "rst": s.close(rst=True); exp = None
        elif end == "rstwrite": c.m.send(plain(50) * 20); s.close(rst=True); exp = None
        elif end == "term": c.sig(signal.SIGTERM); exp = 0
        elif end == "termsusp":
            c.m.send(eb + b"Z"); server(w, b"\xffZ")
            if not hub.wait(lambda: c.state() == "T", 10): fail("%s: not suspended" % w, soft=True)
            same(c, fail, w)
            c.sig(signal.SIGTERM); c.sig(signal.SIGCONT); exp = 0
        elif end == "hangup":
            c.m.close(); exp = None
        else:
            s.send(randout(4000)); exp = None
        rc = c.wait(15)
        if rc is None: fail("%s: does not end" % w, soft=True)
        c.sane(w)
        if exp is not None and (rc != exp or c.err()): fail("%s: exit status %r" % (w, rc))
        if end in ("rst", "logfail") and (rc == 0 or not c.err().strip()): fail("%s: exit status %r without a diagnostic" % (w, rc))
        if end != "hangup": same(c, fail, w)
        if exp == 0: logged(w, final=True)
        if end == "logfail":
            L = open(log, "rb").read(); m = re.match(rb"\r\n<ConMan> Log started at [^\r\n]*\.\r\n", L)
            if not m or not (bytes(got) + b"").startswith(L[m.end():][:len(got)]): fail("%s: log damaged" % w)
        st.seen("%s %s bcast=%d escape %s log=%d" % (end, mode, ncon > 1, cls, bool(log)))
        st.sample("%s: %d bytes typed through, %d shown, ended by %s" % (what, len(sent), len(got), end))
    finally:
        c.close(); l.close()

def same(c, fail, w):
    a, b = c.settings(), c.orig
    if a[:6] != b[:6] or a[6] != b[6]: fail("%s: terminal settings not restored: %r, were %r" % (w, a[:6], b[:6]))

def first_diff(a, b):
    n = min(len(a), len(b))
    for k in range(n):
        if a[k] != b[k]: return k
    return n

def e2e(i, d, st):
    """Through the real daemon to a console and back."""
    rng = random.Random(i)
    hub = Hub()
    con = unix_console(hub, d + "/s", "c")
    oth = unix_console(hub, d + "/o", "o")
    D = Daemon(dexe, 'server port=0 resetcmd="echo %%N >> %s/reset"\nconsole name=c dev="unix:%s/s" log="%s/clog"\nconsole name=o dev="unix:%s/o"\n' % (d, d, d, d), d, hub)
    esc = rng.choice([c for c in range(1, 256) if c not in CMDS + b"lostkept"])
    eb = bytes([esc])
    bc = rng.random() < .3
    c = Cli(exe, ["-d", "127.0.0.1:%d" % D.port, "-e", os.fsdecode(eb), "-Q", "-l", d + "/slog"] + (["-b", "*"] if bc else ["c"]), d, hub)
    try:
        if not hub.wait(lambda: con.up and oth.up, 20): raise Inconclusive("consoles not up")
        if not hub.wait(lambda: b"opened" in c.m.rx or c.exited(), 20) or c.exited(): raise Violation("cannot open a session: %r" % c.err(), soft=True)
        mark = len(c.m.rx)
        for k in range(rng.randrange(2, 6)):
            t = bytes(rng.randrange(256) for _ in range(rng.choice([5, 300, 1500])))
            cons = [con, oth] if bc else [con]
            m = [len(x.conns[0].rx) for x in cons]
            c.m.send(t.replace(eb, eb + eb))
            if not hub.wait(lambda: all(len(x.conns[0].rx) >= y + len(t) for x, y in zip(cons, m)), 10): raise Violation("typed bytes do not reach the console", soft=True)
            for x, y in zip(cons, m):
                if bytes(x.conns[0].rx[y:]) != t: raise Violation("typed %r arrived at the console as %r" % (t[:50], bytes(x.conns[0].rx[y:])[:50]))
            o = bytes(rng.randrange(256) for _ in range(rng.choice([5, 300, 3000])))
            con.conns[0].send(o)
            if not bc:
                if not hub.wait(lambda: len(c.m.rx) >= mark + len(o), 10) or bytes(c.m.rx[mark:]) != o: raise Violation("console output %r shown as %r" % (o[:50], bytes(c.m.rx[mark:])[:60]), soft=True)
                mark += len(o)
            st.seen("through the daemon bcast=%d" % bc)
        if rng.random() < .5:
            c.m.send(eb + b"R")
            if not hub.wait(lambda: os.path.exists(d + "/reset") and open(d + "/reset").read().count("\n") == (2 if bc else 1), 10): raise Violation("reset escape had no effect", soft=True)
            st.seen("reset through the daemon")
        if not bc:
            hub.settle(.02, .2); mark = len(c.m.rx)
            c.m.send(eb + b"L")
            if not hub.wait(lambda: len(c.m.rx) > mark + 20, 10): raise Violation("replay escape had no effect", soft=True)
            hub.settle(.05, .5)
            c.m.send(eb + b"M" + b"lost" + eb + b"J" + b"kept"); k = len(con.conns[0].rx)
            if not hub.wait(lambda: con.conns[0].rx.endswith(b"kept"), 10) or b"lost" in con.conns[0].rx[k:]: raise Violation("monitor/join escapes: console got %r" % bytes(con.conns[0].rx[k:]), soft=True)
            st.seen("replay, monitor, join through the daemon")
        c.m.send(eb + b".")
        rc = c.wait(15); c.sane("e2e")
        if rc != 0: raise Violation("session through the daemon ends with %r %r" % (rc, c.err()), soft=rc is None)
        same(c, lambda m: (_ for _ in ()).throw(Violation(m)), "end")
        D.check_alive("e2e")
    finally:
        c.close(); D.kill()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(700, 20000))])
g = C.rng("e"); C.run_cases(e2e, [g.randrange(1 << 40) for _ in range(C.q(60, 1500))], label="e2e")
C.finish(min_evals=2000)
