import common
from walks import *
C = Check("C08", "one evaluation = one comparison of all sessions, consoles and logs with the reference model after one burst containing escapes, "
          "or one burst replayed under another packet split; distinct = (operation, mode, split, session modes on every console)")
exe = build_daemon("asan")
ESC_OPS = ("esc", "toggle", "force_esc", "quiet", "replay", "suspend", "literal", "delbrk", "unknown")
def cats(did, cat, obj):
    s = set(cat)
    if did.split(":")[0] in ESC_OPS:
        return bool(s & {"payload", "info", "order", "input", "break", "closed", "notclosed", "bcpayload"})
    if isinstance(obj, MCli):
        if getattr(obj, "toggled_quiet", False) and "info" in s: return True
        if getattr(obj, "toggled_mode", False) and s & {"payload"}: return True
    return False
W = dict(rw=5, ro=5, bc=3, join=3, force=1, out=8, inp=3, esc=20, toggle=12, force_esc=4, quiet=4, replay=5, suspend=4, close=3, literal=5, delbrk=6, unknown=6, time=1)
C.run_cases(walk_case(exe, cats, W, 60, split=.6, tag="walk "), seeds(C, "walk", C.q(260, 7000)))

def mk_burst(rng, mode):
    parts = []
    m = mode
    for _ in range(rng.randrange(3, 14)):
        x = rng.randrange(11)
        if x < 3: parts.append(rbytes(rng, rng.randrange(1, 20), 1))
        elif x == 3: parts.append(b"\xff\xff")
        elif x == 4: parts.append(b"\xffD")
        elif x == 5: parts.append(b"\xffB")
        elif x == 6: parts.append(b"\xffQ")
        elif x == 7: parts.append(b"\xffL")
        elif x == 8: parts.append(b"\xff" + bytes([rng.choice(b"AXyz09 \x00\n?&\xfe\x80")]))
        elif x == 9:
            if m == "RW": parts.append(b"\xffM"); m = "RO"
            elif m == "RO": parts.append(rng.choice([b"\xffJ", b"\xffF"])); m = "RW"
            else: parts.append(rng.choice([b"\xffJ", b"\xffF", b"\xffM"]))
        else: parts.append(b"\xffZ" + rbytes(rng, 3, 1) + b"\xffZ")
    return b"".join(parts)

def split_case(i, d, st):
    """The same burst has the same effect under every packet split (each cut position tried on its own)."""
    rng = random.Random(i)
    kind = rng.choice(["unix", "telnet", "unix"])
    mode = rng.choice(["RO", "RW", "BC"])
    kinds = [kind] if mode != "BC" else [kind, "unix"]
    burst = mk_burst(rng, mode)
    pre = rbytes(rng, 300, 1)
    cuts = [None] + ([[k] for k in range(1, len(burst))] if len(burst) < 40 else [[k] for k in rng.sample(range(1, len(burst)), 39)])
    cuts.append([1] * (len(burst) - 1) if len(burst) < 150 else [1] * 120)
    r = Rig(exe, d, kinds, [rng.random() < .7] + [False] * (len(kinds) - 1), seed=i & 0xffff)
    try:
        names = list(r.model.cons)
        r.output(names[0], pre)
        for cut in cuts:
            if mode == "RO": c, _, k, _ = r.connect("MONITOR", [names[0]])
            elif mode == "RW": c, _, k, _ = r.connect("CONNECT", [names[0]])
            else: c, _, k, _ = r.connect("CONNECT", names, ["BROADCAST"])
            if k != b"OK": raise Foreign("refused")
            r.send(c, burst, cut)
            r.output(names[0], b"after\r\n")
            r.verify({"payload", "info", "order", "input", "break", "bcpayload", "closed", "notclosed"}, "burst %r split %r in %s" % (burst, cut if cut and len(cut) < 4 else "each byte", mode))
            st.seen("burst %s %s cut=%s esc=%d" % (mode, kind, "all" if cut and len(cut) > 3 else cut, burst.count(b"\xff")))
            r.close_client(c)
    finally:
        r.end()
C.run_cases(split_case, seeds(C, "split", C.q(120, 3000)))
C.finish(min_evals=2000)
