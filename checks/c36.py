"""C36: IPMI consoles, over a stand-in for libipmiconsole whose BMCs are played by the check."""
import common
from ipmi import *
C = Check("C36", "one evaluation = one connection attempt whose credentials and virtual time were compared with the configuration and the retry schedule, one console definition whose acceptance was "
          "compared with the option grammar, or one transition/transfer after which bytes, notices, breaks and engine contexts were compared; distinct = (option kinds, outcome) or (state, event, delay)")
exe = build_daemon("asan", fake_ipmi=True)
os.environ["TZ"] = "UTC"; time.tzset()
WF = dict(authcap=1, intel20=2, supermicro20=4, sun20=8, opensesspriv=0x10, integritycheckvalue=0x20, nochecksumcheck=0x40, serialalertsdeferred=0x80, solpacketseq=0x100,
          solpayloadsize=0x1000000, solport=0x2000000, solstatus=0x4000000, solchannelsupport=0x8000000, none=0, default=0xffffffff)
WMASK = 0x0f0001ff
CIPHERS = {0, 1, 2, 3, 6, 7, 8, 11, 12, 15, 16, 17}
EPS = .1
class Bad(Exception): pass
def num(v):
    """C-style integer, or Bad."""
    m = re.fullmatch(r"([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", v)
    if not m: raise Bad("number")
    t = m.group(2)
    n = int(t, 16) if t[:2].lower() == "0x" else int(t, 8) if t[0] == "0" else int(t)
    return -n if m.group(1) == "-" else n
def key(v):
    if re.fullmatch(r"0[xX][0-9a-fA-F]*", v):
        h = v[2:]
        if len(h) > 40: raise Bad("long key")
        return bytes.fromhex(h + "0" * (len(h) & 1))
    if len(v) > 20: raise Bad("long key")
    return v.encode()
def apply(o, k, v):
    if k == "U":
        if len(v) > 16: raise Bad("long user")
        o["U"] = v.encode()
    elif k == "P": o["P"] = key(v).split(b"\0")[0]
    elif k == "K": o["K"] = key(v)
    elif k == "L":
        if v == "": o["L"] = -1
        else:
            n = {"user": 0, "op": 1, "operator": 1, "admin": 2, "administrator": 2}.get(v.lower())
            if n is None: n = num(v)
            if n not in (0, 1, 2): raise Bad("privilege")
            o["L"] = n
    elif k == "C":
        if v == "": o["C"] = -1
        else:
            n = num(v)
            if n not in CIPHERS: raise Bad("cipher")
            o["C"] = n
    else:
        f = 0xffffffff if v == "" else WF.get(v.lower())
        if f is None:
            f = num(v)
            if f & ~WMASK or f < 0: raise Bad("workaround")
        o["W"] = f if f in (0, 0xffffffff) or o["W"] == 0xffffffff else o["W"] | f
DEF = dict(U=None, P=None, K=None, L=-1, C=-1, W=0xffffffff)
def parse(o, s):
    o = dict(o)
    if s and s[1:2] != ":":
        f = [x for x in s.split(",") if x]
        for j, v in enumerate(f): apply(o, "UPK"[j] if j < 3 else "W", "" if v == "-" else v)
        return o
    for t in s.split(","):
        if not t: continue
        if t[1:2] != ":" or t[0].upper() not in "UPKLCW": raise Bad("tag")
        apply(o, t[0].upper(), t[2:])
    return o
def word(g, n, alpha="abcXYZ019_-.!@$:/+=;^~ "): return "".join(g.choice(alpha) for _ in range(n))
def genopt(g):
    """(tag, value); mostly valid"""
    k = g.choice("UUPPKKLCWWW")
    ok = g.random() < .93
    if k == "U": v = word(g, g.choice([0, 1, 5, 15, 16, 16] if ok else [17, 18, 40]))
    elif k in "PK":
        if g.random() < .5: v = g.choice(["0x", "0X"]) + word(g, g.choice([0, 1, 2, 3, 20, 38, 39, 40, 40] if ok else [41, 42, 60]), g.choice(["0123456789abcdefABCDEF", "0", "00001f"]))
        else: v = word(g, g.choice([0, 1, 7, 19, 20, 20] if ok else [21, 22, 41]))
        if g.random() < .1: v = g.choice(["0", "x", "0xg1", "0x12 ", "00x12", "0x1G"])
    elif k == "L": v = g.choice(["", "user", "op", "operator", "admin", "administrator", "USER", "Op", "ADMIN", "0", "1", "2", "0x1", "02"] if ok else ["3", "-1", "adm", "users", "2x", "4294967298", "-4294967295", "99999999999999999999", "1.0"])
    elif k == "C": v = g.choice(["", "0", "1", "2", "3", "6", "8", "11", "12", "17", "0x3", "010"] if ok else ["4", "-1", "5", "abc", "3 ", "4294967299", "18446744073709551619", "18", "9"])
    else: v = g.choice(list(WF) + ["", "1", "0x2000000", "0x10f", "SUN20", "SolPort", "0", "3"] if ok else ["0x200", "512", "bogus", "sun20 ", "4294967297", "-1", "0x10000", "1x", "-4294967295"])
    return k, v
def genopts(g):
    r = g.random()
    if r < .12:
        f = [g.choice(["-", word(g, g.choice([2, 5, 16]), "abcz019_")]) if j < 1 else "-" if g.random() < .3 else word(g, g.choice([1, 8, 20]), "abcz019_") if g.random() < .6 else "0x" + word(g, 2 * g.randrange(1, 20), "0123456789abcdef")
             for j in range(g.randrange(1, 4))]
        if len(f) == 3: f += [g.choice(["sun20", "solport", "-", "none", "4"]) for _ in range(g.randrange(0, 3))]
        return ",".join(f)
    t = [genopt(g) for _ in range(g.randrange(1, 6))]
    s = g.choice([",", ",", ",,"]).join((k if g.random() < .7 else k.lower()) + ":" + v for k, v in t)
    if g.random() < .05: s += g.choice([",X:1", ",foo", ",U", ",:", ",u;x"])
    return s if s else "U:"
def same(sub, o):
    for w, h in ((o["U"], sub.user), (o["P"], sub.pswd), (o["K"], sub.kg)):
        # an option given as an empty string asks for the IPMI default, as does one not given
        if (w or None) != (h or None): return False
    return (sub.priv, sub.cipher, sub.wf) == (o["L"], o["C"], o["W"]) and sub.kglen == len(o["K"] or b"")
def conf_case(i, d, st):
    g = random.Random(i); hub = Hub()
    e = Engine(hub, d + "/eng"); e.policy = lambda x: "ok"
    lines, glob, want, bad, hosts, nbad = ["server port=0"], dict(DEF), {}, [], set(), 0
    n = g.choice([1, 3, 5, 8, 12]) if g.random() < .95 else 140
    other = unix_console(hub, d + "/u", "u")
    for j in range(n):
        if g.random() < .35:
            s = genopts(g)
            lines.append("global ipmiopts='%s'" % s)
            try: glob = parse(glob, s)
            except Bad: nbad += 1; st.seen("global rejected")
        s = genopts(g) if g.random() < .75 and n < 100 else None
        h = g.choice(["h%d" % j, "h%d" % j, "BMC-%d.example.org" % j, "10.0.0.%d" % j, "[fe80::%d]" % j]) if g.random() < .95 else g.choice(["h0", "h1"])
        p = [g.choice(["dev='ipmi:%s'", "dev='IPMI:%s'", 'dev="ipmi:%s"']) % h, "name=c%d" % j]
        if s is not None: p.append("ipmiopts='%s'" % s)
        g.shuffle(p)
        lines.append("console " + " ".join(p))
        try:
            o = glob if s is None else parse(glob, s)
            if h in hosts: raise Bad("duplicate")
            want[h] = ("c%d" % j, o); hosts.add(h)
            st.seen("accepted %s" % ",".join(sorted(k + ("=" if v in (None, -1, 0xffffffff) else "") for k, v in o.items())))
        except Bad as x:
            bad.append("c%d" % j); nbad += 1; st.seen("rejected %s" % x)
    lines.append('console name=other dev="unix:%s/u"' % d)
    D = Daemon(exe, "\n".join(lines) + "\n", d, hub, env=dict(VF_IPMI=d + "/eng"))
    try:
        hub.wait(lambda: len(e.subs) >= len(want) and all(x.done for x in e.subs), 10)
        hub.settle(.02, .5)
        D.check_alive()
        k, kv = D.query()
        got = sorted(x.decode() for x in kv.get("CONSOLE", []))
        exp = sorted([w[0] for w in want.values()] + ["other"])
        if got != exp: raise Violation("consoles defined: %r, expected %r of\n%s" % (got, exp, "\n".join(lines)[:3000]))
        subs = {}
        for x in e.subs:
            if x.host in subs: raise Violation("two connections submitted to %s though the first is up" % x.host)
            subs[x.host] = x
        if set(subs) != set(want): raise Violation("connections submitted to %r, expected %r" % (sorted(subs), sorted(want)))
        for h, (nm, o) in want.items():
            if not same(subs[h], o): raise Violation("console %s at %s opened with %r, configured %r in\n%s" % (nm, h, (subs[h].opts(), subs[h].kglen), o, "\n".join(lines)[:3000]))
            st.count("consoles opened as configured")
        nerr = D.log_text().count("ERROR:")
        if nbad and not nerr: raise Violation("%d invalid option strings or consoles but no error in the log" % nbad)
        st.count("invalid definitions rejected", len(bad))
        # every one of them, and the other console, relays
        for nm in (g.sample(sorted(want), min(3, len(want)))):
            x = subs[nm]; c = D.client("r")
            if c.session("CONNECT", [want[nm][0]])[0] != b"OK": raise Violation("session refused: %r" % c.rsp)
            b = bytes(g.randrange(256) for _ in range(g.randrange(1, 3000))).replace(b"\xff", b"\xfe")
            c.send(b.replace(b"\xff", b"\xff\xff"))
            if not hub.wait(lambda: len(x.stream.rx) >= len(b), 10) or bytes(x.stream.rx) != b: raise Violation("the BMC %s received %r.. of %d bytes, sent %d" % (nm, bytes(x.stream.rx[:40]), len(x.stream.rx), len(b)))
            q = bytes(g.randrange(256) for _ in range(g.randrange(1, 3000)))
            x.stream.send(q)
            if not hub.wait(lambda: len(split_info(c.data)[0]) >= len(q), 10) or split_info(c.data)[0] != q: raise Violation("session on %s did not see what the BMC sent" % nm)
            st.count("relays both ways", 2)
            c.close()
        rc = D.stop()
        if rc != 0: raise Violation("exit status %r" % rc)
        end_check(e, D)
        st.sample("%d consoles, %d rejected" % (len(want), len(bad)))
    finally: D.kill()
def end_check(e, D):
    D.hub.settle(.02, .5)
    if D.san_text(): raise Violation("sanitizer: " + san_summary(D.san_text()), key=san_key(D.san_text()))
    if e.threads is None: return
    if not any(w[0] == "TEARDOWN" for w in e.events): raise Violation("the engine was not shut down at exit")
    live = [w[1] for w in e.events if w[0] == "CTX"]
    for w in e.events:
        if w[0] == "DESTROY": live.remove(w[1])
    if live: raise Violation("%d engine contexts still held at exit" % len(live))
# ------------------------------------------------------- retries and data ---
class Con:
    def __init__(s, j, o):
        s.name, s.host, s.o = "c%d" % j, "bmc%d" % j, o
        s.state, s.due, s.since, s.delay, s.sub = "down", 0, 0, 60, None
        s.mode = "ok"
        s.ups = s.downs = 0
        s.rx = bytearray(); s.held = b""; s.breaks = 0
        s.nsub = 0
def sim_case(i, d, st):
    g = random.Random(i); hub = Hub(); sh = Shim(d)
    e = Engine(hub, d + "/eng")
    sh["SEED"] = i & 0xffff; sh["NOW"] = sh["TARGET"] = g.randrange(1500000000, 1900000000) * 1000000; sh["MODE"] = 1
    cons = []; conf = "server port=0\n"
    for j in range(g.choice([1, 1, 2, 3])):
        s = "U:u%d,P:p%d" % (j, j)
        c = Con(j, parse(DEF, s)); cons.append(c); c.mode = g.choice(["ok", "ok", "err", "none"])
        conf += 'console name=%s dev="ipmi:%s" ipmiopts="%s" log="%s/log-%s"\n' % (c.name, c.host, s, d, c.name)
    byh = {c.host: c for c in cons}
    e.policy = lambda x: {"ok": "ok", "err": 5, "none": None}[byh[x.host].mode]
    D = Daemon(exe, conf, d, hub, shim=sh, start=False, env=dict(TZ="UTC", VF_IPMI=d + "/eng"))
    now = lambda: sh["NOW"] / 1e6
    start = now()
    for c in cons: c.due = start
    seen = [0]; clients = []
    def fail(c, t):
        c.state = "down"; c.due = t + c.delay; c.delay = min(2 * c.delay, 1800)
    def quiet():
        D.sync_idle(); hub.settle(.003, .2)
        hub.wait(lambda: all(x.done or x.failed or byh[x.host].mode == "none" or x.mode == "none" for x in e.subs if [setattr(x, "mode", getattr(x, "mode", byh[x.host].mode))] is not None), 10)
        D.sync_idle(); hub.settle(.003, .1); D.sync_idle()
    def collect(what):
        for _ in range(10):
            ev = e.events[seen[0]:]; seen[0] = len(e.events)
            prog = False
            for w in ev:
                if w[0] not in ("SUBMIT", "NOSUBMIT", "NOCTX"): continue
                prog = True
                h = bytes.fromhex(w[1 if w[0] == "NOCTX" else 2][1:]).decode(); t = int(w[-1]) / 1e6; c = byh[h]
                if c.state == "up": raise Violation("%s: a connection was submitted while one is up" % what)
                if c.state == "pending": raise Violation("%s: a connection was submitted while one is pending since %.1f s" % (what, t - c.since))
                if abs(t - c.due) > EPS: raise Violation("%s: attempt %+.2f s from its schedule (next delay %s, attempt %d)" % (what, t - c.due, c.delay, c.nsub))
                c.nsub += 1
                st.seen("attempt %s %s delay=%s" % (w[0], c.mode, c.delay))
                if w[0] == "NOCTX": fail(c, t); continue
                x = c.sub = e.by[int(w[1])]
                if not same(x, c.o): raise Violation("%s: attempt %d made with %r, configured %r" % (what, c.nsub, x.opts(), c.o))
                if x.failed: fail(c, t)
                elif c.mode == "err" : fail(c, t)
                elif c.mode == "none": c.state, c.since, c.due = "pending", t, t + 300
                elif c.nofd: c.nofd -= 1; fail(c, t)
                else:
                    c.state, c.since = "up", t
                    c.ups += 1
                    if not hub.wait(lambda: x.stream, 10): raise Violation("session not taken")
                    if not hub.wait(lambda: D.log_text().count("Console [%s] connected to" % c.name) >= c.ups, 10): raise Violation("%s: connection of %s never announced" % (what, c.name), soft=True)
                    b = b"<new%d>" % c.nsub
                    x.stream.send(b); c.rx += b
                    if c.held:
                        hub.wait(lambda: len(x.stream.rx) >= len(c.held), 10)
                        if bytes(x.stream.rx) != c.held: raise Violation("%s: new connection of %s received %r, expected %r" % (what, c.name, bytes(x.stream.rx), c.held))
                    c.inp = bytearray(c.held); c.held = b""; c.breaks = 0
            quiet()
            for c in cons:                     # an attempt never answered is given up
                if c.state == "pending" and now() >= c.due - EPS / 2: st.seen("attempt given up delay=%s" % c.delay); fail(c, c.due)
            if not prog: break
        for c in cons:
            if c.state == "down" and c.due < now() - EPS: raise Violation("%s: %s was not retried: due %.1f s ago (delay now %s s)" % (what, c.name, now() - c.due, c.delay))
    def advance(secs, what):
        end = now() + secs
        while True:
            nx = min([c.due for c in cons if c.state != "up"] + [c.since + 60 for c in cons if c.state == "up" and c.since + 60 > now() + .01] + [end])
            D.advance(max(0, min(nx, end) - now()) + (.003 if nx < end else 0))
            quiet(); uptime(); collect(what)
            if now() >= end - .001: break
    def uptime():
        for c in cons:
            if c.state == "up" and now() - c.since >= 60: c.delay = 60
    def verify(what):
        for k in clients:
            c = k.c; exp = bytes(c.rx[k.r0:])
            hub.wait(lambda: split_info(k.data)[0] == exp or k.eof, 5)
            if k.eof: raise Violation("%s: session on %s closed" % (what, c.name))
            p, m = split_info(k.data)
            if p != exp: raise Violation("%s: session on %s saw %r, expected %r" % (what, c.name, p[-60:], exp[-60:]))
            cnt = lambda: (sum(b"] connected to" in x for x in split_info(k.data)[1]), sum(b"] disconnected from" in x for x in split_info(k.data)[1]))
            hub.wait(lambda: cnt() == (c.ups - k.u0, c.downs - k.d0), 5)
            if cnt() != (c.ups - k.u0, c.downs - k.d0): raise Violation("%s: session on %s got %r up/down notices, expected %r" % (what, c.name, cnt(), (c.ups - k.u0, c.downs - k.d0)))
        for c in cons:
            if c.state == "up":
                x = c.sub
                hub.wait(lambda: len(x.stream.rx) >= len(c.inp) and x.breaks >= c.breaks, 5)
                if bytes(x.stream.rx) != bytes(c.inp): raise Violation("%s: BMC of %s received %d bytes, expected %d: %r / %r" % (what, c.name, len(x.stream.rx), len(c.inp), bytes(x.stream.rx[-40:]), bytes(c.inp[-40:])))
                if x.breaks != c.breaks: raise Violation("%s: BMC of %s received %d serial breaks, expected %d" % (what, c.name, x.breaks, c.breaks))
            up = [x for x in e.subs if x.host == c.host and x.stream and not x.stream.eof and not x.stream.closed]
            if len(up) != (c.state == "up"): raise Violation("%s: daemon holds %d sessions with %s, which is %s" % (what, len(up), c.host, c.state))
            st.count("states compared")
    for c in cons: c.nofd = 0; c.inp = bytearray()
    try:
        D.start(); quiet(); collect("start")
        for k, v in g.choice([{}, {}, {"RSHORT": 3, "WSHORT": 5}, {"EINTR": 200, "EAGAIN": 100}, {"RSHORT": 300}]).items(): sh[k] = v
        for step in range(g.randrange(10, 26)):
            c = g.choice(cons)
            op = g.choice(["adv"] * 4 + ["mode"] * 3 + ["drop"] * 3 + ["attach"] * 2 + ["type"] * 3 + ["out"] * 3 + ["brk", "quit", "fault", "hup"])
            what = "step %d %s %s" % (step, op, c.name)
            if op == "adv": advance(g.choice([.5, 1, 10, 31, 59, 59.9, 61, 121, 299, 301, 700, 1801, 4000, 9000]), what)
            elif op == "mode": c.mode = g.choice(["ok", "ok", "ok", "err", "none"])
            elif op == "fault" and len(cons) == 1:
                k = g.choice(["IPMI_CREATE", "IPMI_SUBMIT", "IPMI_FD"])
                if not any(sh[z] for z in ("IPMI_CREATE", "IPMI_SUBMIT", "IPMI_FD")):
                    sh[k] = n = g.randrange(1, 4)
                    if k == "IPMI_FD": c.nofd = n
            elif op == "drop" and c.state == "up":
                uptime()
                if g.random() < .6: c.mode = g.choice(["ok", "err", "none"])
                b = b"<last%d" % step
                c.sub.stream.send(b); c.rx += b
                quiet()
                c.sub.stream.close()
                c.downs += 1; c.state = "down"; c.due = now()
                if not hub.wait(lambda: D.log_text().count("Console [%s] disconnected from" % c.name) >= c.downs, 10): raise Violation("%s: loss of the session not noticed" % what, soft=True)
                quiet(); collect(what)
            elif op == "attach" and len(clients) < 6:
                rw = g.random() < .6
                was = c.state
                if was == "down": c.due = now()
                k = D.client("x"); k.c, k.rw = c, rw
                k.r0, k.u0, k.d0 = len(c.rx), c.ups, c.downs
                if k.session("CONNECT" if rw else "MONITOR", [c.name], ["JOIN"] if rw else [])[0] != b"OK": raise Violation("session refused: %r" % k.rsp)
                clients.append(k)
                hub.wait(lambda: sh["NTHREAD"] == sh["THRDONE"], 10)
                quiet(); collect(what)
                if was != "up":
                    if not hub.wait(lambda: any(b"is currently disconnected from <%s>" % c.host.encode() in x for x in split_info(k.data)[1]), 5): raise Violation("%s: not told that the console is down: %r" % (what, k.data))
                st.seen("attach while %s -> %s" % (was, c.state))
            elif op in ("type", "brk"):
                w = [k for k in clients if k.c is c and k.rw]
                if w:
                    k = g.choice(w)
                    if op == "brk":
                        k.send(b"\xffB"); c.breaks += c.state == "up"; st.seen("break while " + c.state)
                    else:
                        b = bytes(g.randrange(256) for _ in range(g.choice([1, 10, 300, 3000]) if c.state == "up" else 20))
                        k.send(b.replace(b"\xff", b"\xff\xff"))
                        if c.state == "up":
                            c.inp += b
                            hub.wait(lambda: len(c.sub.stream.rx) >= len(c.inp), 10)
                        else: c.held += b
                    quiet()
            elif op == "out" and c.state == "up":
                b = bytes(g.randrange(256) for _ in range(g.choice([1, 10, 500, 5000])))
                # nothing that looks like a notice
                b = b.replace(b"<", b"_")
                c.sub.stream.send(b); c.rx += b; quiet()
            elif op == "quit" and clients:
                clients.pop(g.randrange(len(clients))).close(); quiet()
            elif op == "hup": D.sendsig(signal.SIGHUP); quiet()
            D.check_alive(what)
            verify(what)
        if g.random() < .5:
            for c in cons: c.mode = "ok"; c.nofd = 0
            for z in ("IPMI_CREATE", "IPMI_SUBMIT", "IPMI_FD"): sh[z] = 0
            advance(2102, "recovery")
            for c in cons:
                if c.state != "up": raise Violation("%s never recovered" % c.name)
            verify("recovery"); st.seen("recovered")
        for c in cons:
            hub.wait(lambda: split_info(open(d + "/log-" + c.name, "rb").read())[0] == bytes(c.rx), 5)
            if split_info(open(d + "/log-" + c.name, "rb").read())[0] != bytes(c.rx): raise Violation("the log of %s does not hold what the BMC sent" % c.name)
        st.seen("stopped with %s" % ",".join(sorted(c.state for c in cons)))
        rc = D.stop()
        if rc != 0: raise Violation("exit status %r" % rc)
        end_check(e, D)
        st.sample("%d attempts, %d ups" % (sum(c.nsub for c in cons), sum(c.ups for c in cons)))
    finally: D.kill(); sh.close()
# ------------------------------------------------ engine threads at work ---
EXES = {"asan": exe, "tsan": build_daemon("tsan", fake_ipmi=True)}
def race_case(i, d, st):
    """Sessions come and go while engine threads complete, fail, lose and complete late; sanitizers watch, then all must work."""
    g = random.Random(i); hub = Hub(); sh = Shim(d); v = "tsan" if i & 1 else "asan"
    e = Engine(hub, d + "/eng")
    n = g.choice([1, 2, 4])
    conf = "server port=0\n" + "".join('console name=c%d dev="ipmi:bmc%d" log="%s/l%d"\n' % (j, j, d, j) for j in range(n))
    virt = g.random() < .5
    late = []
    def policy(x):
        r = g.random()
        if settled[0] or not virt or r < .6: return "ok"
        if r < .8: return 5
        late.append(x)
    settled = [0]
    e.policy = policy
    if virt: sh["NOW"] = sh["TARGET"] = 1700000000 * 1000000; sh["MODE"] = 1
    sh["IPMI_CBDELAY"] = g.choice([0, 0, 200, 2000, 10000])
    D = Daemon(EXES[v], conf, d, hub, shim=sh, env=dict(VF_IPMI=d + "/eng"))
    cl = []; flaps = 0
    try:
        end = time.monotonic() + C.q(4, 20)
        while time.monotonic() < end:
            D.check_alive()
            for x in e.subs[-8:]:
                if x.stream and not x.stream.closed and g.random() < .5: x.stream.send(b"x" * g.randrange(1, 3000)); x.stream.close(); flaps += 1
            if len(cl) < 6:
                try:
                    c = Client(hub, D.port, "r", ctimeout=3)
                    c.send(b"HELLO USER='u' TTY='t'\n%s CONSOLE='c%d'\n" % (g.choice([b"CONNECT OPTION=JOIN", b"CONNECT OPTION=FORCE", b"MONITOR"]), g.randrange(n))); cl.append(c)
                except OSError: pass
            if cl and g.random() < .7: cl.pop(g.randrange(len(cl))).close(g.random() < .3)
            for c in cl:
                if g.random() < .5: c.send(g.choice([b"abc\xffB", b"\xffB", b"q" * 500, b"\xffQ"]))
            if virt and g.random() < .4: sh["TARGET"] = max(sh["TARGET"], sh["NOW"]) + g.choice([1, 61, 301, 1801]) * 1000000
            if late and g.random() < .3:
                x = late.pop(g.randrange(len(late)))
                e.refuse(x) if g.random() < .5 else e.accept(x)
                st.seen("late answer")
            if v == "asan" and g.random() < .05: D.sendsig(signal.SIGHUP)
            hub.settle(.002, .01)
        settled[0] = 1
        for x in late: e.accept(x)
        late.clear()
        for c in cl: c.close()
        up = lambda h: [x for x in e.subs if x.host == h and x.stream and not x.stream.closed and not x.stream.eof]
        t0 = time.monotonic()
        while not all(up("bmc%d" % j) for j in range(n)) and time.monotonic() < t0 + 40:
            if virt:
                sh["TARGET"] = max(sh["TARGET"], sh["NOW"]) + 1801 * 1000000
            hub.settle(.05, .2); D.check_alive()
        hub.settle(.1, 1)
        if virt: sh["TARGET"] = max(sh["TARGET"], sh["NOW"]) + 30 * 1000000; hub.settle(.05, .3)
        for j in range(n):
            h = "bmc%d" % j; u = up(h)
            if len(u) != 1: raise Violation("%s: %d sessions with the BMC once everything works again" % (v, len(u)), soft=True)
            for _ in range(20):
                try: c = Client(hub, D.port, "r", ctimeout=3); break
                except OSError: hub.settle(.05, .2)
            k = c.session("CONNECT", ["c%d" % j], ["FORCE"])[0]
            if k != b"OK": raise Violation("session refused: %r" % c.rsp)
            mark = b"mark-%d-%d" % (j, i & 0xffff)
            c.send(mark)
            if not hub.wait(lambda: bytes(u[0].stream.rx).endswith(mark), 20): raise Violation("%s: console does not relay input after the turmoil" % v, soft=True)
            u[0].stream.send(b"reply")
            if not hub.wait(lambda: split_info(c.data)[0].endswith(b"reply"), 20): raise Violation("%s: console does not relay output after the turmoil" % v, soft=True)
            st.count("consoles working after turmoil")
        if g.random() < .5: u[0].stream.close()         # a callback may be on its way
        if sh["IPMI_CBDELAY"]: hub.pump(.001)
        rc = D.stop()
        if D.san_text(): raise Violation("%s sanitizer: %s" % (v, san_summary(D.san_text())), key=san_key(D.san_text()))
        if rc != 0: raise Violation("%s: exit status %r" % (v, rc))
        end_check(e, D)
        st.count("sessions lost and reopened", flaps); st.count("attempts in turmoil", len(e.subs))
        st.seen("turmoil %s virt=%s delay=%s" % (v, virt, sh["IPMI_CBDELAY"]))
    finally: D.kill(); sh.close()
def gen(l, n):
    g = C.rng(l); return [g.randrange(1 << 40) for _ in range(n)]
if __name__ == "__main__":
    C.run_cases(conf_case, gen("conf", C.q(300, 12000)), label="conf")
    C.run_cases(sim_case, gen("sim", C.q(160, 6000)), label="sim")
    C.run_cases(race_case, gen("race", C.q(16, 300)), label="race")
    C.finish(min_evals=1500)
