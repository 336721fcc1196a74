"""C12: a replay shows exactly the latest log bytes."""
import common
from walks import *
C = Check("C12", "one evaluation = one byte-exact comparison of all sessions and logs with the reference model after an operation in a history that replays logs "
          "(at buffer and replay-length limits, across rotation, log failure, processing, suspension); distinct = (operation or (log size class, mode, log state), session modes)")
exe = build_daemon("asan")
os.environ["TZ"] = "UTC"; time.tzset()
CATS = {"payload", "info", "order", "log", "loginfo", "bcpayload"}
def cats(did, cat, obj):
    if isinstance(obj, MCli): return did.startswith(("replay", "esc")) or getattr(obj, "replayed", False)
    return did.startswith(("replay", "esc")) and bool(set(cat) & {"log", "loginfo", "input"})
W = dict(rw=5, ro=6, bc=2, join=3, force=1, out=20, inp=2, replay=22, esc=8, toggle=4, quiet=3, suspend=3, close=4, drop=2, time=1)
C.run_cases(walk_case(exe, cats, W, 60, tag="walk "), seeds(C, "walk", C.q(120, 4000)))

def case(i, d, st):
    rng = random.Random(i)
    kinds = [rng.choice(["unix", "telnet"]), "unix"]
    lo = rng.choice([None, None, "sanitize", "timestamp", "sanitize,timestamp"])
    names = ["c0", "c1"] if rng.random() < .8 else ["c" * rng.choice([100, 300]) + "0", "c1"]
    r = Rig(exe, d, kinds, [True, rng.random() < .5], seed=i & 0xffff, names=names, logopts=(lo + "," if lo else "") + "nolock",
            faults=rng.choice([{}, {}, {"RSHORT": 300}, {"EINTR": 200}] if not lo else [{}, {"RSHORT": 700}]), start_time=rng.randrange(1500000000, 1900000000))
    try:
        a, b = names
        m = r.model
        for k in m.cons.values():
            if lo: k.proc = Proc("sanitize" in lo, "timestamp" in lo)
        cl = []
        for mode, opts in rng.sample([("MONITOR", []), ("CONNECT", []), ("MONITOR", ["QUIET"]), ("CONNECT", ["JOIN"]), ("MONITOR", [])], rng.randrange(1, 4)):
            if mode == "CONNECT": opts = ["JOIN"]
            c, _, k, _ = r.connect(mode, [a], opts)
            if k != b"OK": raise Foreign("refused")
            cl.append(c)
        bc = None
        if rng.random() < .3:
            bc, _, k, _ = r.connect("CONNECT", names, ["BROADCAST", "JOIN"])
        other, _, k, _ = r.connect("MONITOR", [b], [])
        n = 0
        for step in range(rng.randrange(4, 12)):
            op = rng.choice(["out"] * 6 + ["hup", "rotate", "fail", "bc", "other", "multi", "susp"])
            K = m.cons[a]
            if op == "out":
                have = len(K.log) - K.since
                tgt = rng.choice([4095, 4096, 4097, BUF - 1, BUF, BUF + 1, BUF + 2, 2 * BUF + 2, 3 * BUF, 0, 0])
                z = tgt - have if tgt > have and not lo else rng.choice([1, 10, 100, 3000, 8191])
                while z > 0:
                    y = min(z, rng.choice([z, 8191, 4096, 5000]))
                    data = b"".join(b"<%07d>\r\n" % (n + j) for j in range(y // 11 + 1))[:y]; n += y // 11 + 1
                    r.output(a, data); z -= y
            elif op == "hup": r.hup()
            elif op == "rotate": r.rotate(a); r.hup()
            elif op == "fail":
                r.hup([a])
                if rng.random() < .5 and K.logged:
                    r.send(cl[0], b"\xffL"); r.verify(CATS, "replay while the log cannot be written")
                    st.seen("replay while log failed")
                for _ in range(rng.randrange(0, 4)):
                    r.output(a, rbytes(rng, rng.choice([1, 100, 5000]), 1))
                r.rotate(a); r.hup()
            elif op == "bc" and bc is not None:
                r.send(bc, b"\xffL"); r.verify(CATS, "replay by a broadcast session"); st.seen("bc")
            elif op == "other":
                r.output(b, rbytes(rng, rng.randrange(1, 6000), 1))
                r.send(other, b"\xffL"); r.verify(CATS, "replay of the other console"); st.seen("other logged=%s" % m.cons[b].logged)
            elif op == "susp":
                c = rng.choice(cl)
                r.send(c, b"\xffZ"); r.output(a, rbytes(rng, 50, 1)); r.send(c, b"\xffL"); r.output(a, rbytes(rng, 70, 1))
                r.send(c, b"\xffZ")
                st.seen("susp")
            have = len(K.log) - K.since
            cls = str(have) if have in (4095, 4096, 4097) or abs(have - BUF) < 3 else "<4096" if have < 4096 else "<buf" if have < BUF else ">%dbuf" % (have // BUF)
            for c in rng.sample(cl, rng.randrange(1, len(cl) + 1)):
                q = b"\xffL" * (rng.choice([1, 1, 1, 2]))
                if op == "multi" and lo is None:
                    # replay amid the session's own stream
                    r.send(c, b"ab" + q + b"cd" if m.mode(c.m) == "RW" else q)
                else: r.send(c, q)
                r.verify(CATS, "replay after %s, %d bytes logged" % (op, have))
                st.seen("%s %s %s opts=%s%s%s" % (op, m.mode(c.m), cls, lo, " quiet" if c.m.quiet else "", " x2" if len(q) > 2 else ""))
            r.output(a, b"live\r\n"); r.verify(CATS, "output after a replay")
        st.sample("%s" % (bytes(cl[0].m.out[-200:])))
    finally:
        r.end()
C.run_cases(case, seeds(C, "case", C.q(250, 8000)), label="case")
C.finish(min_evals=2000)
