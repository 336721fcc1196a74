import common
from walks import *
from flow import *
C = Check("C04", "one evaluation = one comparison of every console's log file with the reference model after one operation, or one log checked at the end of a flow; "
          "distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
W = dict(rw=3, ro=3, bc=2, join=2, force=2, out=30, inp=10, esc=4, toggle=2, quiet=1, replay=2, close=5, rst=3, drop=3, time=1, suspend=3, delbrk=1, literal=1)
C.run_cases(walk_case(exe, {"log"}, W, 60, log_p=.85, layouts=LAYOUTS[1:], tag="walk "), seeds(C, "walk", C.q(200, 6000)))

def logopts_case(i, d, st):
    """Consoles of one daemon share nothing: only logged ones get a log, each its own, whatever the clients do."""
    rng = random.Random(i)
    n = rng.randrange(2, 9)
    kinds = [rng.choice(["unix", "unix", "telnet"]) for _ in range(n)]
    logged = [rng.random() < .7 for _ in range(n)]
    r = Rig(exe, d, kinds, logged, seed=i & 0xffff, faults=FAULTS[rng.randrange(4)])
    try:
        names = list(r.model.cons)
        cs = []
        for _ in range(rng.randrange(0, 5)):
            c, b, k, kv = r.connect(rng.choice(["CONNECT", "MONITOR"]), [rng.choice(names)], ["JOIN"])
            cs.append(c)
        for _ in range(12):
            # several consoles talk at the same time
            who = rng.sample(names, rng.randrange(1, n + 1))
            for w in who:
                data = rbytes(rng, size(rng, 6000)).replace(b"\xff", b"x")
                r.model.console_out(r.model.cons[w], data)
                r.con[w].conn.send(data)
            r.barrier()
            if cs and rng.random() < .5:
                c = rng.choice(cs)
                if c.m.id in r.cl: r.send(c, rbytes(rng, 300).replace(b"\xff", b"y"))
            r.verify({"log"}, "after %s talked" % who)
            for w in who:
                st.seen("simultaneous %d logged=%s kind=%s" % (len(who), logged[names.index(w)], kinds[names.index(w)]))
        for w, lg in zip(names, logged):
            if not lg and os.path.exists(r.log_path(w)):
                raise Violation("unlogged console got a log")
    finally:
        r.end()
C.run_cases(logopts_case, seeds(C, "many", C.q(60, 1500)))
C.run_cases(windowed(exe, "both", C.q(60000, 200000), only=("log",)), seeds(C, "win", C.q(60, 1500)))
C.run_cases(overload_reader(exe, only=("log",)), seeds(C, "over", C.q(10, 150)))
C.finish(min_evals=1500)
