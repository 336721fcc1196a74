"""C01: hostile bytes from clients and console devices; the daemon must survive them under ASan+UBSan (sources' assertions on) and MSan."""
import common
from release import *
C = Check("C01", "one evaluation = after one burst of hostile input the instrumented daemon (ASan+UBSan with the sources' assertions, or MSan) has reported nothing, is alive and answers a well-formed query correctly; "
          "distinct = (input source, kind of burst, build)")
exe = {"asan": build_daemon("asan", asserts=True), "msan": build_daemon("msan")}
tool = build_harness("t_helper", [], "plain")
RE = ["(", ")", "[", "*", "**", "a**", "\\", "x\\", "[a", "[[:alpha:]]*", "[[:nope:]]", "x\\{2", "x\\{3,1\\}", "x\\{99999\\}", "\\(a\\)\\1", "\\9", "^", "$", "^*$", ".*" * 40, "(((((((((", "a|b", "[z-a]", "[]", "[]abc]", "[^]", "\x80\xff", "", "." * 900, "{", "}", "+", "?", "[[.a.]]", "[[=a=]]", "\\<c", "\\bx"]
PAT = ["*", "?", "[", "[a", "[!a]*", "[]-]", "\\", "a\\", "*" * 200, "?" * 300, "[a-z][a-z]*", "c*", "c0", "", " ", "\x01", "\xff", "c0\x00", "%s%n%d", "c[0-9]", "*[*", "[[:alpha:]]", "c0,c1", "&", "'", "\""]

def word(g):
    k = g.randrange(12)
    if k == 0: return bytes(g.randrange(256) for _ in range(g.choice([1, 3, 20, 200, 3000])))
    if k == 1: return b"%d" % g.choice([0, 1, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 63, 10 ** 40, 6])
    if k == 2: return b"'" + bytes(g.randrange(1, 256) for _ in range(g.choice([0, 1, 30, 1022, 1023, 1024, 1025, 5000]))) + g.choice([b"'", b"", b"\\'"])
    if k == 3: return b'"' + g.choice([b"\\", b"\\\\", b"\\n", b"\\\"", b"x"]) * g.choice([1, 2, 511, 512, 513, 2000]) + g.choice([b'"', b""])
    if k == 4: return g.choice(PAT + RE).encode("latin-1")
    if k == 5: return enc(g.choice(PAT + RE)) if hasattr(enc, "__call__") else b"x"
    if k == 6: return b"A" * g.choice([1, 63, 64, 65, 1022, 1023, 1024, 1025, 9000])
    return g.choice([b"HELLO", b"USER", b"TTY", b"CONNECT", b"MONITOR", b"QUERY", b"CONSOLE", b"OPTION", b"FORCE", b"JOIN", b"BROADCAST", b"QUIET", b"QUIETLY", b"REGEX", b"RESET", b"ERROR", b"OK", b"CODE", b"MESSAGE", b"=", b"=", b"=", b" ", b"\t", b"#", b"\\\n", b"\r", b"\0", b",", b"hello", b"execute"])
def q(v):
    return b"'" + v.replace(b"\\", b"\\\\").replace(b"'", b"\\'").replace(b"\n", b"\\012") + b"'"
def junk_line(g):
    return b"".join(word(g) + g.choice([b"", b" ", b"=", b""]) for _ in range(g.choice([1, 2, 5, 12, 60])))
def long_name(g):
    n = g.choice([0, 1, 20, 63, 64, 255, 256, 500, 900, 1000, 1023, 1024, 1025, 4000, 60000])
    return g.choice([lambda: b"u" * n, lambda: bytes(g.randrange(1, 256) for _ in range(n)), lambda: b"%s%n" * (n // 4), lambda: b"\xff" * n, lambda: b"'" * n, lambda: b"a b" * (n // 3)])()
def hello(g):
    if g.random() < .7: return b"HELLO USER=" + q(long_name(g) if g.random() < .5 else b"u") + b" TTY=" + q(long_name(g) if g.random() < .4 else b"t") + b"\n"
    return g.choice([b"HELLO\n", b"HELLO USER\n", b"HELLO USER=\n", b"HELLO USER=u USER='v' TTY= TTY='x'\n", b"HELLO HELLO HELLO\n", b"HELLO 'USER'='x'\n", b"HELLO USER=CONSOLE TTY=REGEX\n", b"HELLO " + junk_line(g) + b"\n", b"hello user='x' tty='y'\n", b"HELLO USER='x\n", b"HELLO USER='" + b"z" * 200000 + b"'\n"])
def req(g, names):
    cmd = g.choice([b"QUERY", b"QUERY", b"MONITOR", b"CONNECT", b"CONNECT"])
    o = b"".join(b" OPTION=" + g.choice([b"FORCE", b"JOIN", b"BROADCAST", b"QUIET", b"QUIETLY", b"REGEX", b"RESET", b"'x'", b"5", b"", b"FORCE FORCE", b"BROADCAST"]) for _ in range(g.choice([0, 0, 1, 1, 2, 6, 60])))
    def pat():
        k = g.randrange(6)
        if k < 2: return g.choice(names).encode()
        if k == 2: return g.choice(PAT).encode("latin-1")
        if k == 3: return g.choice(RE).encode("latin-1")
        if k == 4: return long_name(g)
        return b"*"
    c = b"".join(b" CONSOLE=" + (q(pat()) if g.random() < .9 else pat()) for _ in range(g.choice([0, 1, 1, 1, 2, 5, 100, 3000])))
    return cmd + (o + c if g.random() < .8 else c + o) + g.choice([b"\n", b"\n", b"\n", b" \n", b"\r\n", b"\n\n\n", b"", b"\0\n", b"\n" + junk_line(g) + b"\n"])
ESC = b"BDFJLMQRZ\xff"
def keys(g):
    k = g.randrange(10)
    if k < 4: return b"".join(b"\xff" + bytes([g.choice(ESC)]) for _ in range(g.choice([1, 2, 5, 40])))
    if k == 4: return b"\xff" * g.choice([1, 2, 3, 5000])
    if k == 5: return b"\xff" + bytes([g.randrange(256)])
    if k == 6: return bytes(g.choice(b"\xff\xffBDFJLMQRZabc\r\n\0") for _ in range(g.choice([10, 300, 20000])))
    if k == 7: return bytes(g.randrange(256) for _ in range(g.choice([1, 40, 3000])))
    if k == 8: return b"x" * g.choice([1, 8191, 8192, 16383, 16384, 16385, 70000])
    return g.choice([b"&.", b"\0" * 400, b"\r\n" * 3000, b"\xffL" * 300, b"\xffQ" * 501, b"\xffR" * 20, b"\xffB" * 50])
def telnet_bytes(g):
    k = g.randrange(9)
    if k == 0: return bytes(g.choice([255, 255, 250, 251, 252, 253, 254, 240, 241, 0, 1, 3, 24, 13, 10, 65]) for _ in range(g.choice([1, 20, 500, 30000])))
    if k == 1: return b"\xff" * g.choice([1, 2, 3, 8191, 8192, 8193, 16385])
    if k == 2: return b"\xff\xfa" + bytes(g.randrange(256) for _ in range(g.choice([0, 1, 400, 9000]))) + g.choice([b"", b"\xff\xf0", b"\xff"])
    if k == 3: return b"".join(b"\xff" + bytes([c, o]) for c in (251, 252, 253, 254) for o in g.sample(range(256), g.choice([1, 30, 256])))
    if k == 4: return b"\xff" + bytes([g.randrange(256)]) + bytes([g.randrange(256)])
    if k == 5: return b"".join(b"\xff" + bytes([g.randrange(240, 256)]) for _ in range(600))
    return dev_bytes(g)
def dev_bytes(g):
    k = g.randrange(8)
    if k == 0: return bytes(g.randrange(256) for _ in range(g.choice([1, 100, 9000])))
    if k == 1: return b"o" * g.choice([1, 1023, 1024, 1025, 4095, 4096, 4097, 8190, 8191, 8192, 16383, 16384, 16385, 60000])
    if k == 2: return g.choice([b"\r", b"\n", b"\r\n", b"\n\r", b"\0", b"\r\r\n", b"\r\0\n", b"\x7f", b"\x80", b"\xff", b"\x1b[2J"]) * g.choice([1, 2, 5, 3000, 9000])
    if k == 3: return bytes(g.choice(b"\r\n\0\x7f\x80\xff\x1bab") for _ in range(g.choice([1, 10, 900, 20000])))
    if k == 4: return b"%s%n%x" * g.choice([1, 400])
    if k == 5: return b"\r\n<ConMan> Console [c0] log at 2020-01-01 00:00:00 UTC.\r\n" * g.choice([1, 90])
    return b"line\r\n" * g.choice([1, 700, 2000])

def world(i, d, rng, kinds, variant):
    hub = Hub()
    conf = 'server port=0\nserver resetcmd="%s"\nserver timestamp=%s\n' % (rng.choice(["exit 0", "sleep 5", "exit 3", "kill -9 $$", "/nonexistent %N"]), rng.choice(["1m", "5m", "0"]))
    cons, names = {}, []
    for j, k in enumerate(kinds):
        n = "c%d" % j if rng.random() < .85 else rng.choice(["c%d-" % j + "n" * 60, "c%d" % j + " x", "c%d" % j + "[", "c%d" % j + "%s"]); names.append(n)
        log = rng.choice(["", ' log="%s/l%d"' % (d, j), ' log="%s/l%d" logopts="sanitize"' % (d, j), ' log="%s/l%d" logopts="timestamp"' % (d, j), ' log="%s/l%d" logopts="sanitize,timestamp"' % (d, j)])
        if k == "unix": cons[n] = unix_console(hub, d + "/s%d" % j, n); dev = "unix:%s/s%d" % (d, j)
        elif k == "telnet": cons[n] = tcp_console(hub, n); dev = "127.0.0.1:%d" % cons[n].port      # a raw stream: the peer sends whatever it likes
        else: dev = "%s %s %s" % (tool, d, rng.choice(["echo", "exit"]))
        conf += 'console name="%s" dev="%s"%s\n' % (n, dev, log)
    sh = Shim(d); sh["SEED"] = i & 0xffff; sh["NOW"] = sh["TARGET"] = 1700000000 * 1000000; sh["MODE"] = 1
    f = rng.choice([{}, {}, {"RSHORT": 1, "WSHORT": 900}, {"RSHORT": 11, "WSHORT": 300}, {"EINTR": 300}, {"THRDELAY": 3000}])
    for k, v in f.items(): sh[k] = v
    D = Daemon(exe[variant], conf, d, hub, shim=sh)
    hub.wait(lambda: all(c.up for c in cons.values()), 10)
    return hub, cons, names, sh, D

def probe(D, hub, names, st, what, quick=False):
    D.check_alive(what)
    end = time.monotonic() + 30
    while True:                                                   # earlier connections may still be waiting to be admitted: the daemon serves them in order
        c = Client(hub, D.port, "probe", ctimeout=3)
        c.send(b"HELLO USER='probe' TTY='t'\nQUERY CONSOLE='*'\n")
        hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof or not D.alive(), 20)
        l = bytes(c.rx).split(b"\n"); c.close()
        D.check_alive(what)
        if len(l) >= 3: break
        if time.monotonic() > end: raise Violation("%s: a well-formed request is not answered (got %r)" % (what, bytes(c.rx[:200])), soft=True)
    k, kv = parse_rsp(l[1])
    if not l[0].startswith(b"OK") or k != b"OK" or sorted(kv.get("CONSOLE", [])) != sorted(n.encode() for n in names):
        raise Violation("%s: a well-formed request was answered %r" % (what, l[:3]))
    st.seen(what)

def finish(D, st, variant):
    rc = D.stop()
    D.sync_san() if hasattr(D, "sync_san") else None
    t = D.san_text()
    if t and ("ERROR" in t or "runtime error" in t or "MemorySanitizer" in t): raise Violation("sanitizer report at exit: " + san_summary(t), key=san_key(t), san=t[:6000])
    if rc != 0: raise Violation("exit status %s at the end: %s" % (rc, D.log_text()[-400:]), soft=rc is None)

def hostile(i, d, st):
    """Everything at once: malformed protocol, sessions full of escapes, hostile devices, connects and disconnects."""
    rng = random.Random(i)
    variant = rng.choice(["asan", "asan", "asan", "msan"])
    kinds = rng.choice([["unix"], ["telnet"], ["unix", "telnet"], ["unix", "unix", "telnet", "process"], ["telnet", "telnet"], ["unix"] * 6])
    hub, cons, names, sh, D = world(i, d, rng, kinds, variant)
    live = []
    focus = rng.choice(["proto", "session", "device", "mixed"])
    try:
        for step in range(C.q(14, 30)):
            what = rng.choice([focus, focus, focus, "proto", "session", "device", "churn"]) if focus != "mixed" else rng.choice(["proto", "session", "device", "churn"])
            if what == "proto":
                for _ in range(rng.randrange(1, 10)):
                    try: c = Client(hub, D.port, "x", ctimeout=3)
                    except OSError: break
                    if rng.random() < .2: data = junk_line(rng) + rng.choice([b"\n", b""])
                    else:
                        data = hello(rng)
                        if rng.random() < .9: data += req(rng, names)
                        if rng.random() < .3: data += rng.choice([keys, req, junk_line])(rng) if False else keys(rng)
                    if rng.random() < .15: data = data[:rng.randrange(len(data) + 1)]
                    if rng.random() < .15:
                        b = bytearray(data)
                        for _ in range(rng.randrange(1, 6)):
                            if b: b[rng.randrange(len(b))] = rng.randrange(256)
                        data = bytes(b)
                    if rng.random() < .3:
                        p = rng.randrange(len(data) + 1); c.send(data[:p]); hub.pump(.001); c.send(data[p:])
                    else: c.send(data)
                    if rng.random() < .5: hub.wait(lambda: b"\n" in c.rx or c.eof, .3)
                    x = rng.random()
                    if x < .5: c.close(rst=rng.random() < .4)
                    elif x < .6:
                        try: c.sock.shutdown(rng.choice([socket.SHUT_WR, socket.SHUT_RD]))
                        except OSError: pass
                        live.append(c)
                    else: live.append(c)
            elif what == "session":
                for _ in range(rng.randrange(1, 5)):
                    try: c = Client(hub, D.port, "s", ctimeout=3)
                    except OSError: break
                    u = long_name(rng)[:3000] if rng.random() < .4 else b"user%d" % rng.randrange(9)
                    o = b" ".join(b"OPTION=" + x for x in rng.choice([[], [b"JOIN"], [b"FORCE"], [b"BROADCAST", b"FORCE"], [b"BROADCAST", b"JOIN"], [b"QUIETLY"], [b"JOIN", b"QUIETLY"]]))
                    n = b"*" if b"BROADCAST" in o else rng.choice(names).encode()
                    c.send(b"HELLO USER=" + q(u) + b" TTY=" + q(rng.choice([b"t", u])) + b"\n" + rng.choice([b"CONNECT ", b"CONNECT ", b"MONITOR "]) + o + b" CONSOLE=" + q(n) + b"\n")
                    live.append(c)
                    if rng.random() < .3: c.send(keys(rng))         # in the same flight as the request
                hub.settle(.002, .05)
                for c in rng.sample(live, min(len(live), 6)):
                    if c.eof: continue
                    for _ in range(rng.randrange(1, 6)): c.send(keys(rng))
                    if rng.random() < .15: c.paused = not c.paused
            elif what == "device":
                for n in rng.sample(list(cons), min(len(cons), rng.randrange(1, 4))) if cons else []:
                    c = cons[n]
                    if not c.up: continue
                    for _ in range(rng.randrange(1, 5)):
                        b = (telnet_bytes if c.port else dev_bytes)(rng) if hasattr(c, "port") else dev_bytes(rng)
                        for _ in range(1):
                            if rng.random() < .4:
                                p = rng.randrange(len(b) + 1); c.conn.send(b[:p]); hub.pump(.001); c.conn.send(b[p:])
                            else: c.conn.send(b)
                    x = rng.random()
                    if x < .12: c.conn.close()
                    elif x < .2: c.conn.close(rst=True)
                    elif x < .25:
                        try: c.conn.sock.shutdown(rng.choice([socket.SHUT_WR, socket.SHUT_RD, socket.SHUT_RDWR]))
                        except OSError: pass
            else:
                for c in list(live):
                    if rng.random() < .5: c.close(rst=rng.random() < .5); live.remove(c)
                if rng.random() < .3: D.sendsig(signal.SIGHUP)
                if rng.random() < .5:
                    hub.settle(.002, .05)
                    D.advance(rng.choice([.5, 16, 61, 70, 1900, 4000]), timeout=60) if variant == "asan" else D.advance(rng.choice([.5, 16, 61]))
            hub.settle(.003, .1)
            if len(live) > 30:
                for c in live[:15]: c.close()
                del live[:15]
            probe(D, hub, names, st, "%s %s %s" % (variant, what, "+".join(sorted(set(kinds)))))
        for c in live: c.close()
        hub.settle(.01, .2)
        probe(D, hub, names, st, "%s end" % variant)
        finish(D, st, variant)
        st.count("hostile bytes read by the daemon (calls)", sh["NREAD"])
        st.sample("%s %s focus=%s" % (variant, kinds, focus))
    finally:
        D.kill(); sh.close()
g = C.rng("h"); C.run_cases(hostile, [g.randrange(1 << 40) for _ in range(C.q(300, 6000))], timeout=300, label="hostile")
plain = build_daemon("plain")
def leak(i, d, st):
    """Identical rounds of hostile sessions must not make the heap grow."""
    def gen(g): return hello(g)[:60000] + (req(g, ["u0", "u1", "t0", "p0"]) if g.random() < .9 else junk_line(g)) + (keys(g) if g.random() < .5 else b"")
    rounds(plain, tool, i, d, st, C.q(12, 16), C.q(12, 24), 1, ops=["hostile"] * 6 + ["hostdev", "hostdev", "longname", "keys", "keys", "late", "partial", "reset"], gen=gen, gendev=lambda g: telnet_bytes(g)[:9000], extra_keys=lambda g: keys(g)[:20000])
g = C.rng("l"); C.run_cases(leak, [g.randrange(1 << 40) for _ in range(C.q(60, 900))], timeout=300, label="leak")
C.finish(min_evals=1500)
