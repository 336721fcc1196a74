"""Session-engine checks: shared case runner."""
from sess import *

FAULTS = [{}, {"RSHORT": 5, "WSHORT": 7}, {"EINTR": 200, "EAGAIN": 200}, {"RSHORT": 60, "WSHORT": 300, "EINTR": 50}, {"WSHORT": 1}]
LAYOUTS = [["unix"], ["unix", "unix"], ["unix", "unix", "telnet"], ["telnet", "telnet"], ["unix", "telnet", "unix", "telnet"]]

def walk_case(exe, cats, weights, steps, layouts=LAYOUTS, log_p=.7, split=.3, big=4000, maxcli=7, admit=False, tag=""):
    def case(i, d, st):
        rng = random.Random(i)
        kinds = list(layouts[rng.randrange(len(layouts))])
        names = ["c%d" % j for j in range(len(kinds))]
        f = FAULTS[rng.randrange(len(FAULTS))] if rng.random() < .6 else {}
        bg = 600 if f.get("WSHORT") == 1 else big
        r = Rig(exe, d, kinds, [rng.random() < log_p for _ in kinds], seed=rng.randrange(1 << 30), faults=f, names=names,
                start_time=rng.randrange(1600000000, 1900000000), thrdelay=rng.choice([0, 0, 3000]))
        try:
            Walk(r, rng, cats, st, weights, maxcli=maxcli, split=split, big=bg, admit=admit, tag=tag).run(steps)
        finally:
            r.end()
    return case

def seeds(C, name, n):
    g = C.rng(name)
    return [g.randrange(1 << 40) for _ in range(n)]
