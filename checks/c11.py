"""C11: what reaches a processed log is the documented transformation of the console's output, whatever its chunking."""
import common
from sess import *
C = Check("C11", "one evaluation = one byte-exact comparison of every console's log with the model of log processing after one operation "
          "(output in some split, clock step, notice, reconfigure); distinct = (options, operation, kind of text, split, newline state)")
exe = build_daemon("asan")
OPTS = ["", "sanitize", "timestamp", "sanitize,timestamp", "nosanitize,notimestamp", "Timestamp,lock", "nolock;Sanitize", "sanitize,nosanitize,timestamp", "sanitize,notimestamp,timestamp"]
def flags(o, base=(False, False)):
    s, t = base
    for x in re.split("[;, ]", o.lower()):
        if x in ("sanitize", "nosanitize"): s = x == "sanitize"
        if x in ("timestamp", "notimestamp"): t = x == "timestamp"
    return s, t
NL = [b"\r", b"\n", b"\r\n", b"\r\r\n", b"\r\0", b"\n\r", b"\0", b"\r\0\n", b"\n\0", b"\r\r", b"\n\n", b"\r\n\r\n"]
def text(rng):
    """(kind, bytes)"""
    k = rng.choice(["newlines", "mixed", "binary", "plain", "ctrl", "short", "burst-lines", "burst-ctrl", "burst-binary", "burst-nl", "burst-long"])
    n = rng.randrange(1, 60)
    if k == "newlines": return k, b"".join(rng.choice(NL) for _ in range(n))
    if k == "mixed": return k, b"".join(rng.choice(NL) if rng.random() < .4 else rng.choice([b"a", b"hello", b"\x1b[0m", b"\x80", b"\xff", b"\x7f", b"~", b"^", b"`", b"\x0d\x8a"]) for _ in range(n))
    if k == "binary": return k, rng.randbytes(n * 8)
    if k == "plain": return k, bytes(rng.randrange(32, 127) for _ in range(n * 4))
    if k == "ctrl": return k, bytes(rng.randrange(0, 32) | rng.choice([0, 128]) for _ in range(n))
    if k == "short": return k, rng.choice(NL + [b"x", b"\xff"])
    big = rng.choice([3000, 8190, 8191, 8192, 12000, 30000])
    if k == "burst-lines": return k, (b"%x" % rng.randrange(256) + rng.choice([b"\n", b"\r\n", b"\r"])) * (big // 4)
    if k == "burst-ctrl": return k, bytes([rng.choice([1, 27, 0x9f, 127])]) * big
    if k == "burst-nl": return k, b"\n" * big
    if k == "burst-long": return k, (b"y" * rng.randrange(60, 3000) + b"\r\n") * (1 + big // 3000)
    return k, rng.randbytes(big)

ZONES = ["UTC", "EST5EDT", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30"]
def case(i, d, st):
    rng = random.Random(i)
    n = rng.randrange(2, 6)
    names = ["c%d" % j for j in range(n)]
    gl = rng.choice(["", "", "sanitize", "timestamp", "sanitize,timestamp"])
    same = rng.random() < .4
    o0 = rng.choice(OPTS)
    lo = {m: (o0 if same else rng.choice(OPTS)) for m in names}
    tz = rng.choice(ZONES); os.environ["TZ"] = tz; time.tzset()
    r = Rig(exe, d, ["unix"] * n, [True] * n, seed=i & 0xffff, faults=rng.choice([{}, {}, {"RSHORT": 40}, {"RSHORT": 5000, "EINTR": 100}]),
            names=names, logopts=lo, extra_conf=('global logopts="%s"\n' % gl if gl else ""), env={"TZ": tz},
            start_time=rng.choice([rng.randrange(10**9, 2 * 10**9), 1699163995, 1678604395]))
    try:
        m = r.model
        m.stamp = lambda: time.strftime("%m-%d %H:%M", time.localtime(m.now()))
        for x in names:
            f = flags(lo[x], flags(gl))
            m.cons[x].proc = Proc(*f) if f != (False, False) else None
            m.cons[x].f = "%s%s" % ("S" if f[0] else "", "T" if f[1] else "")
        ver = lambda what: r.verify({"log", "loginfo"}, what)
        w = None
        for step in range(rng.randrange(6, 22)):
            op = rng.choice(["out"] * 7 + ["time", "join", "hup", "drop"])
            if op == "out":
                k, t = text(rng)
                for x in (names if same else [rng.choice(names)]):
                    c = m.cons[x]
                    sp = rng.choice(["whole", "bytes", "random", "two"])
                    if len(t) > 1500 and sp == "bytes": sp = "random"
                    if sp == "whole": cut = [t]
                    elif sp == "bytes" and len(t) < 130: cut = [t[j:j + 1] for j in range(len(t))]
                    else:
                        q = sorted(rng.randrange(1, len(t)) for _ in range(1 if sp == "two" else rng.randrange(1, 12))) if len(t) > 1 else []
                        cut = [t[a:b] for a, b in zip([0] + q, q + [len(t)]) if b > a]
                    step_t = rng.random() < .25 and len(cut) < 20
                    for p in cut:
                        m.console_out(c, p)
                        r.con[x].conn.send(p)
                        r.barrier()
                        if step_t:
                            r.D.advance(rng.choice([0, 1, 1, 3])); 
                            r.barrier()
                    st.seen("%s out %s %s%s tail=%s" % (c.f, k, sp, " clock" if step_t else "", bytes(c.proc.text[-2:]) if c.proc and k != "binary" and len(c.proc.text) and c.proc.text[-1] in b"\r\n\0" else ""))
                ver("output %s (%s)" % (k, sp))
                if same:
                    # the split is the only difference between these consoles
                    payload = lambda x: re.sub(rb"\r\n<ConMan> [^\r\n]*\r\n", b"", r.read_log(x))
                continue
            if op == "time":
                r.D.advance(rng.choice([1, 59, 60, 3599, 3600, 7200]))
                r.barrier()
            elif op == "join":
                x = rng.choice(names)
                if w is None:
                    w, busy, kind, _ = r.connect("CONNECT", [x])
                else:
                    r.close_client(w); w = None
            elif op == "hup":
                nl = [len(r.read_log(x)) for x in names]
                r.D.p.send_signal(signal.SIGHUP)
                r.hub.wait(lambda: all(len(r.read_log(x)) > a for x, a in zip(names, nl)), 10)
                r.barrier()
                for x in names:
                    c = m.cons[x]
                    b = r.read_log(x)
                    k = b[len(c.log):]
                    if not re.fullmatch(rb"\r\n<ConMan> Console \[%s\] log reopened at [^\r\n]*\.\r\n|\r\n<ConMan> Console \[%s\] log opened at [^\r\n]*\.\r\n" % (x.encode(), x.encode()), k):
                        raise Violation("reopening the log of %s wrote %r" % (x, k[:200]))
                    c.log += k
                    if c.proc: c.proc.init()
            elif op == "drop":
                x = rng.choice(names)
                a = len(r.con[x].conns)
                r.drop(x)
                r.D.advance(65)
                r.hub.wait(lambda: len(r.con[x].conns) > a, 5)
                r.barrier()
                if not r.con[x].up: raise Foreign("console did not reconnect")
                m.con_up(m.cons[x])
            ver(op)
            st.seen("%s %s" % (",".join(sorted({m.cons[x].f for x in names})), op))
        # no byte of a sanitised log is anything but printable text and CR-LF
        for x in names:
            if "S" in m.cons[x].f:
                b = r.read_log(x).replace(b"\r\n", b"")
                if re.search(rb"[^ -~]", b): raise Violation("sanitised log of %s contains %r" % (x, re.search(rb"[^ -~]+", b).group()[:20]))
            if m.cons[x].f == "T" or m.cons[x].f == "ST":
                st.count("timestamps seen", len(re.findall(rb"\n\d{4}-\d\d-\d\d \d\d:\d\d:\d\d ", r.read_log(x))))
        if "Overwrote" in r.D.log_text(): raise Violation("log data overwritten: " + [l for l in r.D.log_text().splitlines() if "Overwrote" in l][0])
        r.D.check_alive()
        st.sample("options %r, log of %s: %r" % (lo, names[0], r.read_log(names[0])[150:260]))
    finally:
        r.end()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(160, 9000))])(C.rng("log")))
C.finish(min_evals=1500)
