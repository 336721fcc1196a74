import common
from walks import *
C = Check("C06", "one evaluation = one comparison of what consoles and broadcast sessions received (or of the reset commands run) with the reference model after one operation; "
          "distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
INP = ("inp", "literal", "delbrk", "unknown", "esc", "quiet", "replay", "suspend")
def cats(did, cat, obj):
    s = set(cat)
    if "bcpayload" in s:
        return True
    w = did.split(":")
    if w[0] in INP and "RO" in w:           # a read-only session acted
        return bool(s & {"input", "break"})
    if w[0] in ("toggle",) and ("RW" in w or "RO" in w):
        return bool(s & {"input", "break"}) # what precedes/follows a mode change in the same burst
    return False
W = dict(rw=2, ro=8, bc=5, join=2, force=1, out=14, inp=14, esc=10, toggle=8, force_esc=1, replay=2, close=4, rst=1, suspend=1, literal=4, delbrk=8, unknown=4, drop=1)
C.run_cases(walk_case(exe, cats, W, 60, log_p=.3, split=.4, tag="walk ", layouts=LAYOUTS[1:]), seeds(C, "walk", C.q(240, 6000)))

def reset_case(i, d, st):
    """Reset requests act only for sessions that have write access at that moment."""
    rng = random.Random(i)
    kinds = rng.choice([["unix"], ["unix", "telnet"]])
    r = Rig(exe, d, kinds, [False] * len(kinds), seed=i & 0xffff, extra_conf='server resetcmd="echo %%N >> %s/resets"\n' % d)
    def ran():
        try: return sorted(open(d + "/resets").read().split())
        except FileNotFoundError: return []
    try:
        names = list(r.model.cons)
        exp = []
        sessions = []
        hooks = lambda m: exp.extend(k.name for k in m.cons_w)
        for step in range(14):
            if len(r.cl) < 4 or rng.random() < .2:
                mode = rng.choice(["MONITOR", "MONITOR", "CONNECT"])
                sel = [rng.choice(names)]
                opts = ["QUIET"]
                if mode == "CONNECT":
                    opts.append("JOIN")
                    if len(names) > 1 and rng.random() < .3: sel, opts = names, opts + ["BROADCAST"]
                r.connect(mode, sel, opts)
                continue
            c = rng.choice(list(r.cl.values()))
            m = r.model.mode(c.m)
            if m == "gone": continue
            x = rng.random()
            if x < .5: data = rng.choice([b"\xffR", b"abc\xffR", b"R\xffRR", b"\xffL\xffR"])
            elif x < .8: data = {"RW": b"\xffM\xffR", "RO": rng.choice([b"\xffR\xffJ", b"\xffJ\xffR\xffM\xffR"]), "BC": b"\xffM\xffR"}[m]
            else: data = b"\xffDR"
            r.send(c, data, hooks=hooks)
            end = time.monotonic() + 5
            while len(ran()) < len(exp) and time.monotonic() < end: r.hub.pump(0.005)
            time.sleep(0.004)
            got = ran()
            extra = list(got)
            for e in exp:
                if e in extra: extra.remove(e)
            if extra and m == "RO" or len(got) > len(exp):
                raise Violation("session %d (%s) sent %r and reset commands ran for %r, expected only %r" % (c.m.id, m, data, got, sorted(exp)))
            if len(got) < len(exp): raise Foreign("a reset was refused or did not run")
            st.seen("reset by %s %r" % (m, data))
            st.count("reset requests by read-only sessions", m == "RO")
            # let the command end so that the next one is not refused
            r.hub.wait(lambda: not kids(r.D.p.pid), 5)
            r.barrier()
    finally:
        r.end()
def kids(pid):
    try: return open("/proc/%d/task/%d/children" % (pid, pid)).read().split()
    except OSError: return []
C.run_cases(reset_case, seeds(C, "reset", C.q(80, 1500)))
C.finish(min_evals=1500)
