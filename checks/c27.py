import common
from walks import *
C = Check("C27", "one evaluation = one comparison of every session's informational messages with the reference model after one operation; distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
W = dict(rw=6, ro=5, bc=5, busy=1, force=6, join=6, out=4, inp=2, toggle=6, force_esc=3, quiet=5, close=8, rst=3, suspend=2, drop=5, time=2)
C.run_cases(walk_case(exe, {"info", "order"}, W, 70, tag="walk ", maxcli=8), seeds(C, "walk", C.q(320, 9000)))

def down_case(i, d, st):
    """A session attached while its console is down is told so; the loss and the return of a connection are announced once."""
    rng = random.Random(i)
    n = rng.randrange(1, 4)
    kinds = [rng.choice(["unix", "unix", "telnet"]) for _ in range(n)]
    r = Rig(exe, d, kinds, [rng.random() < .5 for _ in kinds], seed=i & 0xffff)
    try:
        names = list(r.model.cons)
        for n_ in names:
            for _ in range(rng.randrange(0, 3)):
                r.connect(rng.choice(["MONITOR", "CONNECT"]), [n_], ["JOIN"] + (["QUIET"] if rng.random() < .3 else []))
        r.verify({"info", "order"}, "setup")
        for rnd in range(4):
            w = rng.choice(names)
            k = r.model.cons[w]
            l = r.con[w]
            # peer goes away completely
            l.hub.remove(l); l.sock.close()
            if k.kind == "unix": os.unlink(r.path[w])
            l.conn.close(rng.random() < .3)
            r.barrier()
            k.up, k.unreachable = False, True
            r.model.notify(k, "Console [%s] disconnected from %s" % (w, k.down_text))
            r.verify({"info", "order"}, "console %s went down" % w)
            st.seen("down %s readers=%d writers=%d" % (k.kind, len(k.readers), len(k.writers)))
            for _ in range(rng.randrange(1, 3)):
                mode = rng.choice(["MONITOR", "CONNECT", "BC"])
                opts = ["JOIN"] + (["QUIET"] if rng.random() < .25 else [])
                c, b, kd, _ = r.connect("MONITOR" if mode == "MONITOR" else "CONNECT", names if mode == "BC" else [w], opts + (["BROADCAST"] if mode == "BC" else []))
                r.verify({"info", "order"}, "%s of %s while it is down" % (mode, w))
                st.seen("attach %s while %s down quiet=%s" % (mode, k.kind, "QUIET" in opts))
            # back again
            old = list(l.conns)
            if k.kind == "unix":
                r.con[w] = unix_console(r.hub, r.path[w], w)
            else:
                r.con[w] = tcp_console(r.hub, w, cls=TelnetPeer, port=l.port)
            r.con[w].conns = []
            for _ in range(80):
                r.D.advance(60)
                if r.con[w].conns: break
            else: raise Foreign("not reconnected")
            r.barrier()
            r.con[w].conns = old + r.con[w].conns
            k.unreachable = False
            r.model.con_up(k)
            r.verify({"info", "order"}, "console %s came back" % w)
            st.seen("up %s readers=%d writers=%d" % (k.kind, len(k.readers), len(k.writers)))
    finally:
        r.end()
C.run_cases(down_case, seeds(C, "down", C.q(120, 3000)))

def long_case(i, d, st):
    """Names so long that a message does not fit its buffer: it is cut off but still a message line of its own."""
    rng = random.Random(i)
    hub = Hub()
    k = unix_console(hub, d + "/s", "k")
    D = Daemon(exe, 'server port=0\nconsole name=k dev="unix:%s/s" log="%s/log"\n' % (d, d), d, hub, shim=Shim(d))
    hub.wait(lambda: k.up, 10)
    def open_(cmd, user, tty, opts=""):
        c = Client(hub, D.port, "c")
        c.send(b"HELLO USER='%s' TTY='%s'\n%s %s CONSOLE='k'\n" % (user.encode(), tty.encode(), cmd.encode(), opts.encode()))
        if not hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, 10): raise Foreign("no reply")
        if b"\nOK" not in c.rx: raise Foreign("refused %r" % bytes(c.rx[:80]))
        return c
    try:
        m = open_("MONITOR", "mona", "t1")
        a = open_("CONNECT", "anna", "t2")
        hub.settle(.02, .3)
        ul, tl = rng.choice([(500, 400), (600, 600), (1000, 0), (900, 3), (1000, 1000), (950, 10), (2, 960), (2, 1000), (940 + rng.randrange(60), 1)])
        user, tty = "u" * ul, "y" * tl
        def check(what, watch, verb, act):
            pos = {n: len(c.rx) for n, c in watch.items()}
            r = act()
            hub.wait(lambda: all(verb.encode() in c.rx[pos[n]:] for n, c in watch.items()), 5)
            k.conn.send(b"#data#")
            hub.wait(lambda: all(b"#data#" in c.rx[pos[n]:] or c.eof for n, c in watch.items()), 10)
            D.check_alive(what)
            for n, c in watch.items():
                b = bytes(c.rx[pos[n]:]).replace(b"#data#", b"")
                if not c.eof and bytes(c.rx[pos[n]:])[-6:] != b"#data#": raise Violation("%s: %s got %r after the console's output" % (what, n, b[-60:]))
                pre = b"\r\n<ConMan> Console [k] " + verb.encode() + b" <" + user.encode() + b"@"
                q = b.find(pre[:60])
                if q < 0: raise Violation("%s: %s was not told: %r" % (what, n, b[:80]))
                e = b.find(b"\r\n", q + 2)
                line = b[q:e + 2] if e >= 0 else b[q:]
                if e < 0: raise Violation("%s (names of %d and %d): the message to %s is not ended: ...%r" % (what, ul, tl, n, line[-40:]), key="long message %s" % verb)
                if len(line) < 1000 and not re.fullmatch(re.escape(pre) + rb"[^>]*>( on y+)? at \d\d-\d\d \d\d:\d\d\.\r\n", line, re.S): raise Violation("%s: message to %s is %r" % (what, n, line[-80:]))
                if not line.startswith(pre) and not pre.startswith(line[:-2]): raise Violation("%s: message to %s is %r" % (what, n, line[:80]))
                if b[e + 2:] and not b[e + 2:].startswith(b"\r\n<ConMan> "): raise Violation("%s: %r follows the message to %s" % (what, b[e + 2:][:60], n))
                st.seen("long %s %d cut=%s" % (verb, len(line), len(line) > 1020)); st.count("long messages")
            return r
        b = check("join", dict(mona=m, anna=a), "joined by", lambda: open_("CONNECT", user, tty, "OPTION=JOIN"))
        pos = len(b.rx)
        def leave():
            b.close()
        check("leave", dict(mona=m, anna=a), "departed by", leave)
        b = check("steal", dict(mona=m, anna=a), "stolen by", lambda: open_("CONNECT", user, tty, "OPTION=FORCE"))
        # a newcomer is told who was there
        n = open_("CONNECT", "nora", "t3", rng.choice(["OPTION=JOIN", "OPTION=FORCE"]))
        k.conn.send(b"#end#")
        hub.wait(lambda: b"#end#" in n.rx, 10); D.check_alive("told")
        x = bytes(n.rx).split(b"\n", 2)[2]
        q = re.search(rb"\r\n<ConMan> Console \[k\] (joined with|stolen from) <u+", x)
        if not q: raise Violation("the newcomer was not told who was there: %r" % x[:80])
        if b"\r\n" not in x[q.end():]: raise Violation("the message to a newcomer is not ended: %r" % x[-60:], key="long message newcomer")
        st.seen("newcomer %s" % q[1].decode())
        # the refusal names the writer
        c = Client(hub, D.port, "c"); c.send(b"HELLO USER='z' TTY='z'\nCONNECT CONSOLE='k'\n")
        n.close(); 
        hub.wait(lambda: c.eof, 10)
        D.check_alive("refusal")
    finally:
        D.kill()
C.run_cases(long_case, seeds(C, "long", C.q(40, 800)))
C.finish(min_evals=2000)
