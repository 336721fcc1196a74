import common
from walks import *
from flow import *
C = Check("C05", "one evaluation = one comparison of everything each console received with the reference model after one operation, or one (writer, console) pair checked "
          "at the end of a flow; distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
W = dict(rw=5, ro=1, bc=5, join=4, force=2, out=3, inp=30, esc=6, toggle=2, quiet=1, replay=1, close=3, rst=1, drop=1, time=1, suspend=2, literal=6, delbrk=1, unknown=1)
C.run_cases(walk_case(exe, {"input"}, W, 60, log_p=.3, split=.5, tag="walk "), seeds(C, "walk", C.q(200, 6000)))

def down_case(i, d, st):
    """Input typed while a console connection is down is delivered once it is back, in order, once."""
    rng = random.Random(i)
    kinds = rng.choice([["unix"], ["unix", "unix"]])
    r = Rig(exe, d, kinds, [True] * len(kinds), seed=i & 0xffff, faults=FAULTS[rng.randrange(4)])
    try:
        names = list(r.model.cons)
        if len(names) > 1 and rng.random() < .6:
            c, _, k, _ = r.connect("CONNECT", names, ["BROADCAST"])
        else:
            c, _, k, _ = r.connect("CONNECT", [names[0]])
        for rnd in range(3):
            r.send(c, rbytes(rng, size(rng, 2000)).replace(b"\xff", b"\xff\xff"))
            r.verify({"input"}, "before")
            r.drop(names[0])
            tot = 0
            for _ in range(rng.randrange(0, 4)):
                b = rbytes(rng, size(rng, 2000)).replace(b"\xff", b"\xff\xff")
                r.send(c, b); tot += len(b)
            nacc = len(r.con[names[0]].conns)
            r.D.advance(120)
            if not r.hub.wait(lambda: len(r.con[names[0]].conns) > nacc, 10):
                raise Foreign("not reconnected")
            r.barrier()
            k = r.model.cons[names[0]]
            r.model.con_up(k)
            r.verify({"input"}, "after reconnecting, %d bytes typed meanwhile" % tot)
            st.seen("typed while down: %s %d" % (r.model.mode(c.m), min(tot, 3) if tot < 4 else len(str(tot)) + 2))
    finally:
        r.end()
C.run_cases(down_case, seeds(C, "down", C.q(60, 1500)))
C.run_cases(windowed(exe, "in", C.q(60000, 200000), only=("in",)), seeds(C, "win", C.q(120, 3000)))
C.run_cases(windowed(exe, "both", only=("in",)), seeds(C, "win2", C.q(60, 1500)))
C.run_cases(overload_console(exe), seeds(C, "over", C.q(16, 300)))
C.finish(min_evals=1500)
