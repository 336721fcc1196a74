import common
from walks import *
from flow import *
C = Check("C25", "one evaluation = one comparison of every session with the reference model after one operation while sessions are suspended or stalled; "
          "distinct = (operation, session modes incl. suspended on every console)")
exe = build_daemon("asan")
def cats(did, cat, obj):
    s = set(cat)
    if isinstance(obj, MCli):
        if getattr(obj, "ever_susp", False): return bool(s & {"payload", "order", "info", "closed", "notclosed", "bcpayload"})
        return bool(s & {"payload", "closed"}) and any_susp[0]
    return bool(s & {"log", "input"}) and any_susp[0]
any_susp = [False]
class W25(Walk):
    def check(self, did):
        any_susp[0] = any(c.m.susp for c in self.r.cl.values())
        Walk.check(self, did)
W = dict(rw=5, ro=5, bc=2, join=3, force=3, busy=3, out=20, inp=3, esc=4, toggle=3, quiet=1, replay=3, suspend=16, close=6, rst=4, drop=1, time=1)
def walk(i, d, st):
    rng = random.Random(i)
    kinds = list(LAYOUTS[rng.randrange(len(LAYOUTS))])
    r = Rig(exe, d, kinds, [rng.random() < .7 for _ in kinds], seed=i & 0xffff, faults=rng.choice([{}, {}, {"WSHORT": 300}, {"RSHORT": 500, "EAGAIN": 200}]))
    try:
        W25(r, rng, cats, st, W, maxcli=7, big=6000, admit=True, tag="walk ").run(60)
    finally:
        r.end()
C.run_cases(walk, seeds(C, "walk", C.q(200, 5000)))

def retain(i, d, st):
    """What a suspended session receives on resuming, for amounts around the daemon's buffer, and how it ends."""
    rng = random.Random(i)
    kind = rng.choice(["unix", "telnet"])
    r = Rig(exe, d, [kind, "unix"], [rng.random() < .5, False], seed=i & 0xffff, faults=rng.choice([{}, {"WSHORT": 900}]))
    CATS = {"payload", "order", "info", "closed", "notclosed", "log", "input"}
    try:
        a, b = list(r.model.cons)
        mode = rng.choice(["MONITOR", "CONNECT"])
        c, _, k, _ = r.connect(mode, [a], ["QUIET"] if rng.random() < .5 else [])
        if k != b"OK": raise Foreign("refused")
        obs, _, _, _ = r.connect("MONITOR", [a], [])
        r.output(a, numbered(0, 700))
        r.send(c, b"\xffZ")
        total = rng.choice([0, 1, 5000, BUF - 1, BUF, BUF + 1, BUF + 2, 2 * BUF, 2 * BUF + 1, rng.randrange(BUF, 5 * BUF), rng.randrange(1, BUF)])
        sent = 0
        while sent < total:
            n = min(total - sent, rng.choice([1, 10, 3000, 7000]))
            if total - sent > 500 and n < 10: n = 500
            r.output(a, numbered(1 << 20 | sent, n))
            sent += n
            r.verify(CATS, "while suspended, %d bytes pending" % sent)
        if rng.random() < .3:
            x, _, kx, _ = r.connect("CONNECT", [a], ["JOIN"])
        how = rng.choice(["resume", "resume", "resume", "close", "rst", "evict", "evict-resume"])
        st.seen("suspended %s %s pending=%s how=%s" % (mode, kind, "0" if not total else "<" if total < BUF else "=" if total == BUF else "+%d" % (total - BUF) if total <= BUF + 2 else ">", how))
        if how == "resume":
            r.send(c, b"\xffZ")
            r.verify(CATS, "after resuming with %d bytes pending" % total)
            r.output(a, b"more\r\n")
            r.verify(CATS, "output after resuming")
        elif how in ("close", "rst"):
            r.close_client(c, how == "rst")
            r.verify(CATS, "after a suspended session %s" % how)
            if mode == "CONNECT" and not any(k.writers for k in r.model.cons.values()):
                y, busy, ky, _ = r.connect("CONNECT", [a])
                if busy is None and ky != b"OK":
                    raise Violation("console still held by a suspended session that is gone: %r" % y.rsp)
        else:
            y, busy, ky, _ = r.connect("CONNECT", [a], ["FORCE"])
            if ky != b"OK": raise Violation("force refused against a suspended session: %r" % y.rsp)
            r.verify(CATS, "after evicting a suspended session")
            r.send(y, b"hello")
            if how == "evict-resume" and mode == "CONNECT":
                r.send(c, b"\xffZ")
                r.verify(CATS, "evicted session resumed")
            elif mode == "CONNECT":
                c.close(); r.model.client_gone(c.m); r.cl.pop(c.m.id); r.barrier()
            r.verify(CATS, "end")
        r.D.check_alive()
    finally:
        r.end()
C.run_cases(retain, seeds(C, "retain", C.q(240, 4000)))
C.run_cases(overload_reader(exe, only=("fast", "log")), seeds(C, "over", C.q(10, 100)))
C.finish(min_evals=1500)
