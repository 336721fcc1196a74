"""C10: telnet consoles are transparent and negotiate as the protocol says."""
import common
from walks import *
C = Check("C10", "one evaluation = one comparison of session output, log, what the terminal server decoded and the negotiation answers after one chunk of telnet stream, "
          "input burst or reconnect; distinct = (token kinds, split, connection number)")
exe = build_daemon("asan")
os.environ["TZ"] = "UTC"; time.tzset()
BIN, ECHO, SGA = 0, 1, 3
def tokens(rng, n):
    """[(kind, wire bytes, data bytes, answer or None)]"""
    r = []
    for _ in range(n):
        k = rng.choice(["data", "data", "data", "ff", "cmd", "do", "dont", "will", "wont", "sb", "do", "will", "crnul"])
        if k == "data":
            b = rbytes(rng, size(rng, 3000)); r.append((k, b.replace(b"\xff", b"\xff\xff"), b, None))
        elif k == "crnul": r.append((k, b"\r\0", b"\r\0", None))
        elif k == "ff":
            z = rng.randrange(1, 6); r.append((k, b"\xff\xff" * z, b"\xff" * z, None))
        elif k == "cmd":
            r.append((k, bytes([255, rng.choice([241, 242, 243, 244, 245, 246, 247, 248, 249])]), b"", None))
        elif k in ("do", "will", "dont", "wont"):
            o = rng.choice([BIN, ECHO, SGA, 0, 1, 2, 3, 5, 6, 24, 31, 32, 33, 34, 35, 39, 255, 254, 10, 13, rng.randrange(256)])
            c = dict(do=DO, will=WILL, dont=DONT, wont=WONT)[k]
            a = None
            if k == "do" and o not in (BIN, SGA): a = (WONT, o)
            if k == "will" and o not in (BIN, ECHO, SGA): a = (DONT, o)
            r.append((k, bytes([255, c, o]), b"", a))
        else:
            body = b"".join(rng.choice([b"\xff\xff", bytes([rng.randrange(0, 255)]), bytes([rng.choice([SE, SB, DO, WILL])])]) for _ in range(rng.randrange(0, 30)))
            r.append((k, b"\xff" + bytes([SB]) + body + b"\xff" + bytes([SE]), b"", None))
    return r
INIT = sorted([(DO, BIN), (DO, ECHO), (DO, SGA), (WILL, BIN), (WILL, SGA)])

def case(i, d, st):
    rng = random.Random(i)
    r = Rig(exe, d, ["telnet", rng.choice(["telnet", "unix"])], [True, True], seed=i & 0xffff,
            faults=rng.choice([{}, {}, {"RSHORT": 3}, {"RSHORT": 200, "WSHORT": 300}, {"EINTR": 200, "EAGAIN": 200}, {"WSHORT": 1}]))
    big = not any(r.shim[x] for x in ("WSHORT",))
    try:
        n = "c0"
        m = r.model; K = m.cons[n]
        ro, _, k, _ = r.connect("MONITOR", [n]); rw, _, k2, _ = r.connect("CONNECT", [n])
        if (k, k2) != (b"OK", b"OK"): raise Foreign("refused")
        answers = {0: []}
        CATS = {"payload", "info", "order", "log", "loginfo", "input", "break"}
        def conns(): return r.con[n].conns
        def check(what):
            r.verify(lambda c, o: True, what)
            for j, s in enumerate(conns()):
                exp = answers.get(j, [])
                def got(): return [(c, o) for c, o, _ in s.cmds if c != BRK]
                r.until(lambda: len(got()) >= len(exp) + 5, 3)
                g = got()
                if sorted(g[:5]) != INIT: raise Violation("%s: connection %d opened with %r" % (what, j, g[:5]))
                if g[5:] != exp: raise Violation("%s: connection %d answered %r, expected %r" % (what, j, g[5:][-8:], exp[-8:]))
                if j < len(conns()) - 1: continue
                st.count("negotiation answers checked", len(exp))
        check("start")
        for step in range(rng.randrange(5, 18)):
            op = rng.choice(["out"] * 6 + ["in"] * 3 + ["both", "drop", "brk"])
            cn = len(conns()) - 1
            S = conns()[-1]
            if op in ("out", "both", "drop"):
                tk = tokens(rng, rng.randrange(1, 9))
                if not big: tk = [t for t in tk if len(t[1]) < 300]
                wire = b"".join(t[1] for t in tk)
                part = b""
                if op == "drop" and rng.random() < .8:
                    # an unfinished command at the end of the connection
                    part = rng.choice([b"\xff", b"\xff\xfd", b"\xff\xfb", b"\xff\xfa", b"\xff\xfaab", b"\xff\xfaab\xff", b"\xff\xfe"])
                wire += part
                if len(wire) > 1 and rng.random() < .7:
                    q = range(1, len(wire)) if len(wire) < 60 and rng.random() < .4 else sorted(rng.sample(range(1, len(wire)), min(len(wire) - 1, rng.randrange(1, 9))))
                    cut = [wire[a:b] for a, b in zip([0] + list(q), list(q) + [len(wire)])]
                else: cut = [wire]
                if op == "both":
                    inp = rbytes(rng, size(rng, 300)); rw.send(inp.replace(b"\xff", b"\xff\xff")); m.client_in(rw.m, inp.replace(b"\xff", b"\xff\xff"))
                m.console_out(K, b"".join(t[2] for t in tk))
                answers[cn] += [t[3] for t in tk if t[3]]
                for c in cut:
                    S.send(c); r.barrier()
                kinds = ",".join(sorted({t[0] for t in tk}))
                st.seen("%s %s split=%s conn=%d" % (op, kinds, "1" if len(cut) == 1 else "all" if len(cut) == len(wire) else "some", min(cn, 2)))
                if op == "drop":
                    check("before the connection is lost")
                    a = len(conns())
                    r.drop(n, rng.random() < .3)
                    if rng.random() < .4:
                        q = rbytes(rng, 20)
                        r.send(rw, q.replace(b"\xff", b"\xff\xff"))
                    r.D.advance(1801)
                    r.hub.wait(lambda: len(conns()) > a, 5)
                    r.barrier()
                    if len(conns()) != a + 1: raise Foreign("%d connections after a drop" % len(conns()))
                    m.con_up(K); answers[a] = []
                    st.seen("reconnect after partial %r" % part)
            elif op == "in":
                b = rng.choice([rbytes(rng, size(rng, 2000 if big else 300)), b"\xff" * rng.randrange(1, 9), b"a\xff\xf4b", b"\xff\xff\xfd\x01", b"\r\n\r\0\n"])
                r.send(rw, b.replace(b"\xff", b"\xff\xff"), [1] * min(len(b), 30) if rng.random() < .3 else None)
                st.seen("in ff=%s %d" % (b"\xff" in b, len(b) > 200))
            elif op == "brk":
                b = b"xy"; r.send(rw, b + b"\xffB" + b + b"\xff\xff\xffB")
                st.seen("brk")
            check(op)
        r.D.check_alive()
        st.sample("%d connections; answers %r" % (len(conns()), answers[0][:6]))
    finally:
        r.end()
C.run_cases(case, seeds(C, "case", C.q(260, 9000)), label="case")

def exhaustive(i, d, st):
    """Every option code under each verb, each cut position of a fixed stream."""
    r = Rig(exe, d, ["telnet"], [False], seed=i)
    try:
        ro, _, _, _ = r.connect("MONITOR", ["c0"])
        S = r.con["c0"].conn
        exp, out = [], bytearray()
        for verb in (DO, DONT, WILL, WONT):
            for o in range(i, 256, 8):
                S.send(b"A" + bytes([255, verb, o]) + b"B"); out += b"AB"
                if verb == DO and o not in (BIN, SGA): exp.append((WONT, o))
                if verb == WILL and o not in (BIN, ECHO, SGA): exp.append((DONT, o))
                st.seen("verb %d option %d" % (verb, o))
            r.barrier()
        w = b"xx\xff\xffyy\xff\xfd\x18zz\xff\xfa\x18\x01\xff\xff\xf0q\xff\xf0ww\xff\xf1vv\xff\xfb\xffuu"
        dt = b"xx\xffyyzzwwvvuu"
        for a in range(len(w)):
            if a % 8 != i: continue
            for b in range(a, len(w)):
                S.send(w[:a]); r.barrier(); S.send(w[a:b]); r.barrier(); S.send(w[b:]); r.barrier()
                out += dt; exp += [(WONT, 24), (DONT, 255)]
                st.seen("cuts %d %d" % (a, b))
        g = lambda: [(c, o) for c, o, _ in S.cmds][5:]
        r.until(lambda: len(g()) >= len(exp) and len(ro.data) >= len(out), 5)
        if bytes(out) != ro.data: raise Violation("stream through commands arrived as %r" % ro.data[max(0, first_diff(ro.data, bytes(out)) - 20):][:60])
        if g() != exp: raise Violation("answers %r, expected %r" % (g()[:20], exp[:20]))
        r.D.check_alive()
    finally:
        r.end()
C.run_cases(exhaustive, range(8), label="ex")

def polite(i, d, st):
    """A peer with the standard option state machine and its own wishes: the exchange ends."""
    rng = random.Random(i)
    r = Rig(exe, d, ["telnet"], [False], seed=i & 0xffff)
    try:
        S = r.con["c0"].conn
        ok_us = {o for o in range(40) if rng.random() < .5}; ok_him = {o for o in range(40) if rng.random() < .5}
        us, him = set(), set()                  # options on at the peer / at the daemon, as the peer sees it
        pend_us, pend_him = set(), set()
        pos = 0
        for o in rng.sample(range(40), rng.randrange(0, 12)):
            if rng.random() < .5: S.send(bytes([255, WILL, o])); pend_us.add(o)
            else: S.send(bytes([255, DO, o])); pend_him.add(o)
        r.barrier(); n = 0
        for rounds in range(50):
            r.barrier(); r.hub.settle(.06, .5)
            new = S.cmds[pos:]; pos += len(new)
            if not new: break
            for c, o, _ in new:
                n += 1
                if c == DO:
                    if o in pend_us: pend_us.discard(o); us.add(o)
                    elif o in us: pass
                    elif o in ok_us: us.add(o); S.send(bytes([255, WILL, o]))
                    else: S.send(bytes([255, WONT, o]))
                elif c == WILL:
                    if o in pend_him: pend_him.discard(o); him.add(o)
                    elif o in him: pass
                    elif o in ok_him: him.add(o); S.send(bytes([255, DO, o]))
                    else: S.send(bytes([255, DONT, o]))
                elif c == DONT:
                    if o in pend_us: pend_us.discard(o)
                    elif o in us: us.discard(o); S.send(bytes([255, WONT, o]))
                elif c == WONT:
                    if o in pend_him: pend_him.discard(o)
                    elif o in him: him.discard(o); S.send(bytes([255, DONT, o]))
        else:
            raise Violation("negotiation with a conforming peer did not end: %d commands" % n)
        if n > 60: raise Violation("negotiation took %d commands" % n)
        st.seen("polite rounds=%d" % rounds); st.count("commands exchanged", n)
        S.send(b"done\xff\xff"); c, _, _, _ = r.connect("MONITOR", ["c0"]); r.output("c0", b"data")
        r.verify({"payload"}, "after negotiation")
        r.D.check_alive()
    finally:
        r.end()
C.run_cases(polite, seeds(C, "polite", C.q(60, 1500)), label="polite")
C.finish(min_evals=2000)
