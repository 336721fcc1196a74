import common
from walks import *
C = Check("C07", "one evaluation = one admission decision and session-survival comparison with the reference model after one operation, or one concurrent race decided; "
          "distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
def cats(did, cat, obj):
    s = set(cat)
    if s & {"closed", "notclosed"}: return True
    if did.split(":")[0] in ("rw", "bc", "busy", "force", "join", "ro") and s & {"payload", "input", "bcpayload"}: return True
    if isinstance(obj, MCli) and "info" in s and did.split(":")[0] == "force" and obj.evicted: return True   # told who took over
    return False
W = dict(rw=10, ro=5, bc=8, busy=10, force=8, join=6, out=4, inp=6, toggle=6, force_esc=3, close=5, rst=2, suspend=2, quiet=1)
C.run_cases(walk_case(exe, cats, W, 60, log_p=.2, tag="walk ", admit=True, maxcli=9), seeds(C, "walk", C.q(240, 6000)))

def race_case(i, d, st):
    """Simultaneous requests for the same consoles, the threads serving them delayed at random."""
    rng = random.Random(i)
    nk = rng.randrange(1, 4)
    r = Rig(exe, d, ["unix"] * nk, [False] * nk, seed=i & 0xffff, thrdelay=rng.choice([0, 500, 3000, 10000]),
            faults=rng.choice([{}, {"EINTR": 100}]))
    try:
        names = list(r.model.cons)
        n = rng.randrange(2, 9)
        cs = []
        for j in range(n):
            c = r.new_client()
            c.hello(c.m.user, "t")
            cs.append(c)
        reqs = []
        force = rng.random() < .3
        for c in cs:
            sel = rng.sample(names, rng.randrange(1, nk + 1)) if rng.random() < .5 else [names[0]]
            opts = ["BROADCAST"] if len(sel) > 1 else []
            o = rng.choice(["", "", "FORCE"]) if force else ""
            if o: opts.append(o)
            c.sel, c.force_ = sel, bool(o)
            reqs.append((c, b"CONNECT " + b"".join(b"OPTION=" + x.encode() + b" " for x in opts) + b" ".join(b"CONSOLE=" + s.encode() for s in sel) + b"\n"))
        rng.shuffle(reqs)
        for c, q in reqs: c.send(q)
        for c in cs:
            c.rsp = c.line(20)
            if c.rsp is None: raise Foreign("no response")
        r.barrier(); r.barrier()
        for _ in range(40):
            r.hub.pump(0.002)
        ok = [c for c in cs if c.rsp.startswith(b"OK")]
        bad = [c for c in cs if not c.rsp.startswith(b"OK")]
        if not ok:
            raise Violation("all of %d simultaneous requests were refused" % n)
        for c in bad:
            if c.force_: raise Violation("a forcing request was refused as busy: %r" % c.rsp)
        # writers now: probe with each surviving session writing its own marker
        alive = [c for c in ok if not c.eof]
        for c in alive: c.send(b"<%s>" % c.m.user.encode())
        r.barrier()
        for n_ in names:
            rx = r.con_rx(n_)
            w = sorted(re.findall(rb"<(u\d+)>", rx))
            exp = sorted(c.m.user.encode() for c in alive if n_ in c.sel)
            if len(w) > 1:
                raise Violation("console %s has %d writers (%s) although nobody joined; responses %r" % (n_, len(w), w, [(c.m.user, c.rsp, c.eof) for c in cs]))
            if w != exp:
                raise Violation("console %s accepts input of %r, open sessions writing to it are %r" % (n_, w, exp))
        if not force:
            for c in ok:
                if c.eof: raise Violation("session %s admitted and then closed although nobody forced" % c.m.user)
            for c in bad:
                hold = [o for o in ok if set(o.sel) & set(c.sel)]
                if not hold: raise Violation("request for %s refused although no holder of these exists" % (c.sel,))
        else:
            for c in ok:
                if c.eof and not any(o.force_ and o is not c and set(o.sel) & set(c.sel) for o in ok):
                    raise Violation("session %s lost its console although no forcing request named it" % c.m.user)
        st.seen("race n=%d consoles=%d force=%s ok=%d alive=%d" % (n, nk, force, len(ok), len(alive)))
        st.count("simultaneous requests", n); st.count("admitted", len(ok)); st.count("refused", len(bad))
        r.D.check_alive()
    finally:
        r.end()
C.run_cases(race_case, seeds(C, "race", C.q(300, 8000)))
C.finish(min_evals=1500)
