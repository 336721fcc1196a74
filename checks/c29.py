"""C29: serial consoles: options, line settings, raw data, breaks, restoration, unusable devices."""
import common
from vf import *
import fcntl, pty, termios
C = Check("C29", "one evaluation = one console's settings, data transfer, break, restoration or rejection compared with what its configuration asks for; "
          "distinct = (options given per console and globally, initial settings, device condition, what happened)")
exe = build_daemon("asan")
BPS = [50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800]
CODE = {b: getattr(termios, "B%d" % b) for b in BPS}
KEPT = termios.CSIZE | termios.PARENB | termios.PARODD | termios.CSTOPB
CS = {5: termios.CS5, 6: termios.CS6, 7: termios.CS7, 8: termios.CS8}
IRAW = termios.BRKINT | termios.ICRNL | termios.INLCR | termios.IGNCR | termios.INPCK | termios.ISTRIP | termios.IXON | termios.PARMRK
LRAW = termios.ECHO | termios.ICANON | termios.IEXTEN | termios.ISIG

def valid(rng):
    """(string, changes)"""
    k = rng.random()
    b = rng.choice(BPS) if k < .6 else rng.choice([rng.choice(BPS) + rng.choice([1, -1]), rng.randrange(50, 1000000), 460800, 460801, 2147483647]) if k < .9 else rng.randrange(50, 500)
    b = max(b, 50)
    s = "%d" % b; r = dict(bps=max(x for x in BPS if x <= b))
    if rng.random() < .8:
        r["data"] = rng.randrange(5, 9); s += ",%d" % r["data"]
        if rng.random() < .8:
            p = rng.choice("NnOoEe"); r["par"] = p.upper(); s += p
            if rng.random() < .8: r["stop"] = rng.choice([1, 2]); s += "%d" % r["stop"]
    return s, r
def invalid(rng):
    return rng.choice(["0,8n1", "49", "-9600,8n1", "foo", "9600,4n1", "9600,9n1", "9600,0N1", "9600,-8n1", "9600,8x1", "9600,8n3", "9600,8n0", "9600,8n-1", "n", "fast,8n1", "8n1,9600", "9600,8N1x", "9600,8n1,", "9600;8n1",
        "9600,", "9600,n", "9600,88n1", "9600,8nn1", "9600,8n11", ",8n1", "9600.5,8n1", "9600,8n1 2", "9600baud", "0x2580,8n1", "%d,%d%c%d", "9600,4294967304n1", "9600,8n4294967297", "4294976896,9n1", "9600,8-1", "9600,8n1.5", "9600,8 n1"])

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    cf0 = CS[rng.randrange(5, 9)] | rng.choice([0, termios.PARENB, termios.PARENB | termios.PARODD]) | rng.choice([0, termios.CSTOPB])
    shim = Shim(d); shim["SEED"] = i & 0xffff
    user = rng.random() < .25
    conf = "server port=0\n"
    g = dict(bps=9600, data=8, par="N", stop=1)
    gdesc = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if rng.random() < .3: s = invalid(rng); conf += 'global seropts="%s"\n' % s; gdesc.append("bad:" + s)
        else: s, r = valid(rng); conf += 'global seropts="%s"\n' % s; g.update(r); gdesc.append("%d fields" % len(r))
    ptys, con, errs = [], {}, 0
    locker = None
    class P: pass
    def dev():
        """A new serial line with arbitrary settings."""
        p = P(); ptys.append(p)
        m, s = pty.openpty()
        p.tty = os.ttyname(s); p.slave = s; p.closed = False
        if user: os.chown(p.tty, NOBODY, NOBODY)
        a = termios.tcgetattr(s)
        if rng.random() < .7:
            for f in (termios.ICRNL, termios.INLCR, termios.IGNCR, termios.ISTRIP, termios.INPCK, termios.PARMRK, termios.IXON, termios.BRKINT, termios.IGNBRK, termios.IGNPAR): a[0] = a[0] & ~f | rng.choice([0, f])
            for f in (termios.OPOST, termios.ONLCR, termios.OCRNL): a[1] = a[1] & ~f | rng.choice([0, f])
            for f in (termios.ICANON, termios.ECHO, termios.ISIG, termios.IEXTEN): a[3] = a[3] & ~f | rng.choice([0, f])
            a[6][termios.VMIN] = rng.choice([0, 1, 5]); a[6][termios.VTIME] = rng.choice([0, 3])
        a[2] = a[2] & ~termios.CLOCAL | rng.choice([0, termios.CLOCAL])
        a[4] = a[5] = CODE[rng.choice(BPS)]
        termios.tcsetattr(s, termios.TCSANOW, a)
        p.orig = termios.tcgetattr(s)
        p.m = Stream(hub, m, "tty")
        return p
    def settings(p): return termios.tcgetattr(p.slave)
    names = rng.sample(["a", "b b", "c", "d1", "e.e", "f"], rng.randrange(1, 6))
    used = []
    for nm in names:
        o = None
        kind = rng.choice(["ok", "ok", "ok", "ok", "badopt", "missing", "file", "dir", "null", "locked", "dup", "dupname", "extra"] + ["perm"] * user)
        lf = d + "/log-" + nm.replace(" ", "_")
        c = dict(kind=kind, p=None, up=False, log=lf, n=0)
        path = d + "/tty-" + nm.replace(" ", "_")
        if kind in ("ok", "badopt", "locked", "perm", "extra", "dupname"):
            p = c["p"] = dev()
            if kind == "dupname" and not con: kind = c["kind"] = "ok"
            if rng.random() < .5: os.symlink(p.tty, path)
            else: path = p.tty
        elif kind == "file": open(path, "w").close()
        elif kind == "dir": os.mkdir(path)
        elif kind == "null":
            if "/dev/null" in used: continue
            path = "/dev/null"
        elif kind == "dup":
            if not used: continue
            path = rng.choice(used)
        c["path"] = path
        if kind in ("ok", "null", "locked"): used.append(path)
        line = "console name=\"%s\" dev=\"%s%s\" log=\"%s\"" % (rng.choice([n for n in con if con[n]["kind"] in ("ok", "null", "locked")] or [nm]) if kind == "dupname" else nm,
            path, " x" if kind == "extra" else "", lf)
        if kind == "dupname" and not any(con[n]["kind"] in ("ok", "null", "locked") for n in con): kind = c["kind"] = "ok"; used.append(path)
        opt = dict(g)
        if kind == "badopt": o = invalid(rng) if rng.random() < .9 else ""; line += ' seropts="%s"' % o
        elif rng.random() < .6: o, r = valid(rng); opt.update(r); line += ' seropts="%s"' % o
        c["opt"], c["o"] = opt, o
        if kind == "locked":
            c["holder"] = subprocess.Popen([sys.executable, "-c", "import fcntl,os,sys,time\nf=os.open(sys.argv[1],os.O_RDWR|os.O_NOCTTY)\nfcntl.lockf(f,fcntl.LOCK_EX|fcntl.LOCK_NB)\nprint('ok',flush=True)\ntime.sleep(300)", c["p"].tty],
                stdout=subprocess.PIPE, stdin=subprocess.DEVNULL)
            c["holder"].stdout.readline()
        if kind == "perm": os.chown(c["p"].tty, 0, 0); os.chmod(c["p"].tty, 0o600)
        con[nm] = c
        conf += line + "\n"
    # a console which nothing that happens to the others may disturb
    by = unix_console(hub, d + "/by", "by")
    conf += 'console name=by dev="unix:%s/by"\n' % d
    env = {"VF_TTY_CFLAG": "%x" % cf0}
    kw = dict(user=NOBODY) if user else {}
    D = Daemon(exe, conf, d, hub, shim=shim, env=env, **kw)
    cl = {}
    seen_ev = [0]
    def events(): return [w for _, _, w in shim.events() if w[0] in ("tcsetattr", "tcsendbreak", "tcsetattr-fault")]
    def sets(p): return [[int(x, 16) for x in w[3:7]] + [int(x) for x in w[7:11]] for w in events() if w[0] == "tcsetattr" and w[1] == p.tty]
    def want(c):
        o = c["opt"]
        cf = CS[o["data"]] | {"N": 0, "O": termios.PARENB | termios.PARODD, "E": termios.PARENB}[o["par"]] | (termios.CSTOPB if o["stop"] == 2 else 0)
        return cf, CODE[o["bps"]]
    def applied(what, nm, c):
        if not hub.wait(lambda: len(sets(c["p"])) > c["n"], 10): raise Violation("%s: the device of %s was not configured" % (what, nm), soft=True)
        hub.settle(.005, .1)
        e = sets(c["p"])[-1]; c["n"] = len(sets(c["p"]))
        cf, sp = want(c)
        if e[2] & KEPT & ~(0 if cf & termios.PARENB else termios.PARODD) != cf: raise Violation("%s: %s seropts %r over %r: character format %o, expected %o" % (what, nm, c["o"], gdesc, e[2] & KEPT, cf))
        if e[4] != sp or e[5] != sp: raise Violation("%s: %s seropts %r over %r: speed codes %d/%d, expected %d" % (what, nm, c["o"], gdesc, e[4], e[5], sp))
        if e[0] & IRAW or e[1] & termios.OPOST or e[3] & LRAW or not e[2] & termios.CLOCAL or e[6] < 1: raise Violation("%s: %s not raw: iflag %o oflag %o cflag %o lflag %o min %d" % (what, nm, e[0], e[1], e[2], e[3], e[6]))
        c["up"] = True
        st.seen("%s %s over %s" % (what, sorted(c["opt"].items()), "defaults" if not gdesc else "globals"))
    def restored(what, nm, c, real=True):
        p = c["p"]
        s = sets(p)
        if not hub.wait(lambda: not real or settings(p)[:2] + settings(p)[3:6] == p.orig[:2] + p.orig[3:6], 3):
            raise Violation("%s: settings of %s not restored: %r, were %r" % (what, nm, settings(p)[:6], p.orig[:6]), soft=True)
        if real and (settings(p)[6][termios.VMIN], settings(p)[6][termios.VTIME]) != (p.orig[6][termios.VMIN], p.orig[6][termios.VTIME]): raise Violation("%s: VMIN/VTIME of %s not restored" % (what, nm))
        if s and s[-1][2] & KEPT != cf0: raise Violation("%s: character format of %s not restored: %o, was %o" % (what, nm, s[-1][2] & KEPT, cf0))
    def untouched(what, nm, c):
        p = c["p"]
        if sets(p) or settings(p) != p.orig: raise Violation("%s: %s (%s %r) must not be touched but was: %r %r %r" % (what, nm, c["kind"], c["o"], sets(p), settings(p), p.orig))
        st.seen("%s %s untouched" % (what, c["kind"]))
    def text(n):
        k = rng.random()
        if k < .4: return bytes(rng.randrange(256) for _ in range(n))
        if k < .7: return bytes(rng.choice(b"\r\n\x11\x13\x03\x04\x1a\xff\x00\x7f a") for _ in range(n))
        return bytes(range(256))
    def alive(what):
        D.check_alive(what)
        t = b"<%d>" % rng.randrange(10 ** 9)
        by.conns[0].send(t)
        if not hub.wait(lambda: cl["by"].data.endswith(t), 10) or by.conns[0].eof or cl["by"].eof: raise Violation("%s: the bystander was disturbed" % what, soft=True)
    def transfer(what, nm, c):
        x = cl.get(nm)
        if not x: return
        t = text(rng.choice([1, 20, 300, 3000]))
        mark = len(x.data); lm = os.path.getsize(c["log"])
        c["p"].m.send(t)
        if not hub.wait(lambda: len(x.data) >= mark + len(t), 10) or x.data[mark:] != t: raise Violation("%s: %s: %d bytes of output %r became %r" % (what, nm, len(t), t[:40], bytes(x.data[mark:mark + 40])), soft=True)
        if not hub.wait(lambda: open(c["log"], "rb").read()[lm:] == t, 10): raise Violation("%s: %s: output %r logged as %r" % (what, nm, t[:40], open(c["log"], "rb").read()[lm:][:40]), soft=True)
        t = text(rng.choice([1, 20, 300, 3000]))
        mark = len(c["p"].m.rx)
        x.send(t.replace(b"\xff", b"\xff\xff"))
        if not hub.wait(lambda: len(c["p"].m.rx) >= mark + len(t), 10) or c["p"].m.rx[mark:] != t: raise Violation("%s: %s: %d bytes of input %r became %r" % (what, nm, len(t), t[:40], bytes(c["p"].m.rx[mark:mark + 40])), soft=True)
        st.seen("%s data up to %d" % (what, len(t)))
    def attach(what, nm, c, down=False):
        if nm in cl:
            o = cl.pop(nm); o.close()
            if not hub.wait(lambda: "u@localhost:%d> disconnected" % o.lport in D.log_text(), 10): raise Violation("%s: a closed session of %s is kept" % (what, nm), soft=True)
        x = D.client(nm)
        r = x.session("CONNECT", [nm])
        if r[0] != b"OK": raise Violation("%s: cannot connect to %s: %r" % (what, nm, r))
        cl[nm] = x
        hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"], 10); hub.settle(.01, .3)
        if down and not hub.wait(lambda: b"is currently disconnected from" in x.data, 5): raise Violation("%s: not told that %s is disconnected: %r" % (what, nm, bytes(x.data)), soft=True)
        hub.settle(.01, .3)
        return x
    try:
        if not hub.wait(lambda: by.conns, 10): raise Inconclusive("bystander not connected")
        attach("start", "by", dict(log=None))
        rejected = [n for n in con if con[n]["kind"] not in ("ok", "null", "locked")]
        names_got = set(x.decode("latin-1") for x in D.query()[1].get("CONSOLE", []))
        exp = {n for n in con if n not in rejected} | {"by"}
        if names_got != exp: raise Violation("consoles %s, expected %s (%s)" % (sorted(names_got), sorted(exp), {n: (con[n]["kind"], con[n]["o"]) for n in con}))
        err = D.log_text()
        for n in con:
            c = con[n]
            if n in rejected:
                if c["p"]: untouched("start", n, c)
                ln = [k for k, l in enumerate(conf.splitlines(), 1) if ('log="%s"' % c["log"]) in l][0]
                if ":%d]" % ln not in err: raise Violation("no error for line %d: %s (%s)" % (ln, conf.splitlines()[ln - 1], c["kind"]))
                st.seen("rejected %s %s" % (c["kind"], c["o"] if c["kind"] == "badopt" else ""))
            elif c["kind"] == "ok": applied("start", n, c); attach("start", n, c); transfer("start", n, c)
            elif c["kind"] == "locked": untouched("start", n, c)
        for s in [s for s in gdesc if s.startswith("bad:")]:
            if not re.search(r":[0-9]+\]: .*", err): raise Violation("no error for global seropts %r" % s)
            st.seen("global " + s)
        alive("start")
        live = [n for n in con if con[n]["kind"] in ("ok", "locked", "null")]
        for step in range(rng.randrange(3, 10)):
            if not live: break
            nm = rng.choice(live); c = con[nm]
            op = rng.choice(["data", "data", "break", "breaks", "hang", "readerr", "attach", "unlock", "hup", "seterr"])
            what = "step %d %s" % (step, op)
            if op == "data" and c["up"]: transfer(what, nm, c)
            elif op in ("break", "breaks") and c["up"] and nm in cl:
                n0 = {n: len([w for w in events() if w[0] == "tcsendbreak" and con[n]["p"] and w[1] == con[n]["p"].tty]) for n in con}
                k = 1 if op == "break" else rng.randrange(2, 6)
                m = len(c["p"].m.rx)
                cl[nm].send(b"x\xffBy" * k)
                if not hub.wait(lambda: bytes(c["p"].m.rx[m:]) == b"xy" * k, 10): raise Violation("%s: input around a break became %r" % (what, bytes(c["p"].m.rx[m:])), soft=True)
                for n in con:
                    if not con[n]["p"]: continue
                    b = [w for w in events() if w[0] == "tcsendbreak" and w[1] == con[n]["p"].tty]
                    if len(b) - n0[n] != (k if n == nm else 0): raise Violation("%s on %s: %d breaks on %s" % (what, nm, len(b) - n0[n], n))
                    if any(w[2] != "0" or w[3] != "0" for w in b): raise Violation("%s: break failed or has a duration: %r" % (what, b))
                st.seen(what.split()[2])
            elif op == "hang" and c["up"] and c["path"] != c["p"].tty:   # the device disappears; later another one may appear
                p = c["p"]; os.unlink(c["path"])                 # (before its number can be given to somebody else)
                p.m.close(); os.close(p.slave); p.closed = True
                if not hub.wait(lambda: 'Unable to open [%s] device' % nm in D.log_text(), 10): raise Violation("%s: hangup of %s unnoticed" % (what, nm), soft=True)
                c["up"] = False
                alive(what)
                if nm in cl and cl[nm].eof: raise Violation("%s: session of %s closed" % (what, nm))
                if rng.random() < .6: attach(what, nm, c); 
                if rng.random() < .7:
                    c["p"] = dev(); c["n"] = len(sets(c["p"])); os.symlink(c["p"].tty, c["path"])
                    attach(what, nm, c, True)
                    applied(what, nm, c); transfer(what, nm, c)
                else: live.remove(nm); con[nm]["p"] = None
            elif op == "readerr" and c["up"]:
                shim["TTYREAD"] = 1
                c["p"].m.send(b"?")
                applied(what, nm, c)
                if shim["TTYREAD"]: raise Inconclusive("fault not consumed")
                if nm in cl and cl[nm].eof: raise Violation("%s: session of %s closed" % (what, nm))
                hub.settle(.01, .3)
                transfer(what, nm, c); st.seen("readerr")
            elif op == "attach": attach(what, nm, c)
            elif op == "seterr" and c["up"]:                    # the device fails while it is being configured
                c["norestore"] = True                            # what fails may be the restoration itself
                shim["TTYSET"] = rng.choice([1, 2, 3]); shim["TTYREAD"] = 1
                c["p"].m.send(b"?")
                hub.wait(lambda: shim["TTYREAD"] == 0 and shim["TTYSET"] == 0, 5); hub.settle(.02, .3)
                shim["TTYSET"] = shim["TTYREAD"] = 0
                D.check_alive(what); c["n"] = len(sets(c["p"])) 
                # a second failure makes it open the device again
                shim["TTYREAD"] = 1; c["p"].m.send(b"?"); hub.wait(lambda: shim["TTYREAD"] == 0, 5)
                if len(sets(c["p"])) == c["n"]: attach(what, nm, c)
                applied(what, nm, c)
                hub.settle(.02, .3); attach(what, nm, c); transfer(what, nm, c); st.seen("seterr")
            elif op == "unlock" and c["kind"] == "locked" and not c["up"]:
                attach(what, nm, c, True)
                untouched(what, nm, c)
                c["holder"].kill(); c["holder"].wait()
                attach(what, nm, c, True); applied(what, nm, c); transfer(what, nm, c)
            elif op == "hup": D.sendsig(signal.SIGHUP); hub.wait(lambda: "Performing reconfig" in D.log_text(), 5); hub.settle(.01, .2)
            alive(what)
        for nm in con:
            if con[nm]["up"] and rng.random() < .5: transfer("end", nm, con[nm])
        sig = rng.choice([signal.SIGTERM, signal.SIGINT])
        rc = D.stop(sig)
        if D.san_text(): raise Violation("sanitizer report at exit: " + san_summary(D.san_text()))
        if rc != 0: raise Violation("exit status %s" % rc, soft=rc is None)
        for nm in con:
            c = con[nm]
            if not c["p"] or c["p"].closed: continue
            if c.get("norestore"): continue
            restored("exit", nm, c)
            if not c["up"] and c["kind"] != "ok": untouched("exit", nm, c)
            st.seen("restored %s %o" % (c["kind"], cf0))
        st.sample("%s; global %s" % ({n: (con[n]["kind"], con[n]["o"]) for n in con}, gdesc))
    finally:
        D.kill(); shim.close()
        for p in ptys:
            if not p.closed:
                p.m.close(); os.close(p.slave)
        for c in con.values():
            if c.get("holder"): c["holder"].kill(); c["holder"].wait()
g = C.rng("s"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(350, 12000))])
C.finish(min_evals=1000)
