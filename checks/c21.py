"""Conversion specifiers: paths and commands the real daemon produces compared with an independent model under a virtual clock."""
import common
from vf import *
C = Check("C21", "one evaluation = one console's log path (at start or after a SIGHUP at another virtual time), daemon log path or reset command compared with the model's expansion; "
          "distinct = (specifiers used, console kind, length class, outcome)")
exe = build_daemon("asan")
TSPEC = "dgGHjmMsSuUVwWyY"
ZONES = ["UTC", "EST5EDT", "<+0530>-5:30", "<-11>11", "<+14>-14", "<-0930>9:30"]

def sanit(b):
    return "".join(c if 0x21 <= ord(c) <= 0x7e and c != "/" else "_" for c in b)

def expand(fmt, name, base, pid, now, console=True):
    """Independent expansion; None where the result does not fit 1023 characters."""
    t = time.localtime(now)
    o, i = "", 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != "%" or i == len(fmt) - 1:
            o += ch; i += 1; continue
        s = fmt[i + 1]
        i += 2
        if s == "N": o += sanit(name) if console else "%N"
        elif s == "D": o += (sanit(base) if base else "") if console else "%D"
        elif s == "P": o += str(pid)
        elif s == "s": o += str(now)
        elif s in TSPEC:
            y, w, u = __import__("datetime").date(t.tm_year, t.tm_mon, t.tm_mday).isocalendar()
            o += {"d": "%02d" % t.tm_mday, "g": "%02d" % (y % 100), "G": str(y), "H": "%02d" % t.tm_hour, "j": "%03d" % t.tm_yday, "m": "%02d" % t.tm_mon,
                  "M": "%02d" % t.tm_min, "S": "%02d" % t.tm_sec, "u": str(u), "w": str(u % 7), "U": "%02d" % ((t.tm_yday - 1 + 7 - u % 7) // 7),
                  "W": "%02d" % ((t.tm_yday - 1 + 7 - (u - 1)) // 7), "V": "%02d" % w, "y": "%02d" % (t.tm_year % 100), "Y": str(t.tm_year)}[s]
        elif s == "%": o += "%"
        else: o += "%" + s
    return o if len(o) <= 1023 else None

def fmtgen(rng, i):
    n = rng.randrange(1, 7)
    parts = []
    for _ in range(n):
        k = rng.random()
        if k < .3: parts.append("%" + rng.choice("ND"))
        elif k < .6: parts.append("%" + rng.choice(TSPEC + "P"))
        elif k < .7: parts.append("%%")
        elif k < .8: parts.append("%" + rng.choice("abcefhiklnopqrtvxzABCEFIJKLOQRTXZ-+_.,:=^0123456789"))
        elif k < .85: parts.append("/")
        else: parts.append("".join(rng.choice("abcxyz-_.=,:@") for _ in range(rng.randrange(1, 4))))
    f = "".join(parts).lstrip("/")          # an absolute name would leave the scratch directory
    if rng.random() < .1: f += "%"
    return f

def namegen(rng, i):
    k = rng.random()
    if k < .3: return "c%d" % i
    alpha = "abcXYZ0189/ .%$-_~*?[]{}()!@#&|;:<>,^`\t\x01\x1b\x7f\x80\xe9\xff\\"
    n = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 5, 10, 40, 100, 200])))
    return n if n.strip(" \t\x0b\x0c\r\n") else "b%d" % i

def clean_path(p):
    """Usable as a set of distinct files: no '.', '..' or oversized component."""
    for x in p.split("/"):
        if x in (".", "..") or len(x) > 255: return False
    return not p.endswith("/")

def tree(d):
    r = set()
    for a, _, fs in os.walk(os.fsencode(d)):
        for f in fs: r.add(os.path.join(a, f).decode("latin-1"))
    return r

def normal(p):
    return re.sub("/+", "/", p)

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    shim = Shim(d)
    shim["SEED"] = i & 0xffff
    # year ends and leap days are the interesting times for week numbers
    base = rng.choice([None, None, time.mktime((rng.randrange(2000, 2037), 1, 1, 0, 0, 0, 0, 0, 0)), time.mktime((rng.randrange(2000, 2037, 4), 2, 29, 12, 0, 0, 0, 0, 0))])
    now = int((base + rng.randrange(-6 * 86400, 6 * 86400)) if base else rng.randrange(946684800, 2100000000))
    shim["NOW"] = shim["TARGET"] = now * 1000000
    shim["MODE"] = 1
    tz = rng.choice(ZONES)
    os.environ["TZ"] = tz
    time.tzset()
    root = d + "/L"
    os.mkdir(root)
    cons = []
    conf = 'server port=0\nserver logdir="%s"\nglobal testopts="m:2000000000,n:2000000000"\n' % root
    used, seen_expected = set(), {}
    gfmt = None
    line = 3
    bad = []
    paths = {}
    PID = "\x02PID\x02"
    for j in range(rng.randrange(4, 18)):
        if rng.random() < .25:
            gfmt = fmtgen(rng, j)
            if "%N" in gfmt or "%D" in gfmt:
                conf += 'global log="%s"\n' % gfmt; line += 1
                if "%N" not in gfmt and "%D" not in gfmt: gfmt = None
            else: gfmt = None
            if gfmt is None:
                conf += 'global log=""\n'; line += 1
        name = namegen(rng, j)
        if any(c["name"] == name for c in cons): continue
        kind = rng.choice(["unix", "telnet", "test"])
        L = None
        if kind == "unix":
            bn = rng.choice(["s%d" % j, "s %d" % j, "s%d;x" % j, "s\x01%d" % j, "s%d\xe9" % j])
            os.makedirs(d + "/sk", exist_ok=True)
            dev = d.encode() + b"/sk/" + bn.encode("latin-1")
            L = unix_console(hub, dev, name)
            dev = "unix:" + dev.decode("latin-1")
            if " " in bn or ";" in bn: dev = "\\Q" + dev + "\\Q"
        elif kind == "telnet":
            L = tcp_console(hub, name, cls=TelnetPeer)
            bn = dev = "127.0.0.1:%d" % L.port
        else:
            bn, dev = "", "test:"
        if rng.random() < .6 or gfmt is None:
            fmt = fmtgen(rng, j)
            k = rng.random()
            if k < .5: fmt = "%d" % j + "-" + fmt
            elif k < .62:
                # aim at the length limit
                want = rng.choice([1021, 1022, 1023, 1024, 1025, 1100])
                e = expand(root + "/" + fmt, name, bn, 0, now)
                if e:
                    pad = want - len(e) - (5 if "%P" in fmt else 0)
                    fl = ""
                    while pad > 0:
                        s = min(pad, 200)
                        fl += "p" * (s - 1) + "/" if s > 1 else "p"
                        pad -= s
                    fmt = fl + fmt
                    if len(root + "/" + fmt) >= 1024: continue
            log = ' log="%s"' % fmt
        else:
            fmt, log = gfmt, ""
        if '"' in fmt: continue
        q = '"' if '"' not in name else "'"
        e = expand(root + "/" + fmt, name, bn, PID, now)
        if e is not None:
            en = normal(e)
            if not clean_path(en): continue
            pre = {normal(x) for x in paths}
            if any(x.startswith(en + "/") or en.startswith(x + "/") for x in pre): continue
            if en in pre and e not in paths: continue            # same file, spelled differently
        # the same must hold at the later times
        dup = e is not None and e in paths
        line += 1
        dv = "'" + dev.replace("\\Q", '"') + "'" if "\\Q" in dev else '"' + dev + '"'
        conf += "console name=%s%s%s dev=%s%s\n" % (q, name, q, dv, log)
        if dup: bad.append(line)
        elif e is not None: paths[e] = name
        c = dict(name=name, kind=kind, base=bn, fmt=root + "/" + fmt, dup=dup, L=L)
        cons.append(c)
    resetf = "%N" + fmtgen(rng, 0).replace("`", "").replace("$", "")
    out = d + "/reset.out"
    conf += "server resetcmd=\"printf '%%%%s\\n' '%s' >> %s\"\n" % (resetf, out)
    safe = "r1"
    R = unix_console(hub, d + "/rs", safe)
    conf += 'console name="%s" dev="unix:%s/rs" log=""\n' % (safe, d)
    D = Daemon(exe, conf, d, hub, env={"TZ": tz}, shim=shim, start=False, user=NOBODY)
    V = lambda m, **k: Violation(m, conf=conf, tz=tz, now=now, **k)
    try:
        D.start()
        hub.wait(lambda: all(c["L"] is None or c["L"].up for c in cons), 15)
        D.sync_idle()
        pid = D.p.pid
        got = [int(x) for x in re.findall(r"CONFIG\[[^\]]*:(\d+)\]: ", D.log_text())]
        if got != bad: raise V("configuration errors on lines %r, expected %r (duplicate logs)\n%s" % (got, bad, D.log_text()[:1500]))
        if bad: st.seen("duplicate log refused %d" % min(3, len(bad)), len(bad))
        times = [now]
        expect = {}
        for rnd in range(rng.randrange(1, 4)):
            t = shim["NOW"] // 1000000
            if rnd:
                D.advance(rng.choice([1, 59, 3600, 86399, 86400, 86400 * 6, 86400 * 31, 86400 * 365]))
                t = shim["NOW"] // 1000000
                D.p.send_signal(signal.SIGHUP)
                n0 = D.log_text().count("Performing reconfig")
                hub.wait(lambda: D.log_text().count("Performing reconfig") >= rnd, 10)
                D.sync_idle(); D.sync_idle()
            cur = {}
            clash = False
            for c in cons:
                if c["dup"]: continue
                e = expand(c["fmt"], c["name"], c["base"], pid, t)
                c["cur"] = e and normal(e)
                if e:
                    if not clean_path(c["cur"]): clash = True
                    cur.setdefault(c["cur"], []).append(c["name"])
            allp = set(expect) | set(cur)
            if any(len(v) > 1 for v in cur.values()) or any(a != b and a.startswith(b + "/") for a in allp for b in allp):
                st.count("rounds skipped because the chosen formats meet over time")
                break
            expect.update(cur)
            hub.wait(lambda: tree(root) == set(expect), 3)
            have = tree(root)
            if have != set(expect):
                raise V("round %d: unexpected log files %r, missing %r" % (rnd, sorted(have - set(expect))[:3], sorted(set(expect) - have)[:3]))
            # what a console says goes to its current file
            for c in cons:
                if c["L"] is not None and not c["dup"]: c["L"].conn.send(b"TAG-%d-%d\n" % (cons.index(c), rnd))
            D.sync_idle()
            for c in cons:
                if c["dup"]: continue
                sp = "".join(sorted(set(re.findall(r"%(.)", c["fmt"][len(root):]))))
                cls = "fits" if c["cur"] else "too long"
                if c["cur"]:
                    p = c["cur"].encode("latin-1")
                    def rd(): return open(p, "rb").read()
                    if c["L"] is not None:
                        tag = b"TAG-%d-%d\n" % (cons.index(c), rnd)
                        hub.wait(lambda: tag in rd(), 3)
                        b = rd()
                        if tag not in b: raise V("output of %r did not reach %r" % (c["name"], c["cur"]))
                        for o in cons:
                            if o is not c and b"TAG-%d-" % cons.index(o) in b: raise V("output of console %r in the log of %r" % (o["name"], c["name"]))
                    elif b"Console [" + c["name"].encode("latin-1") + b"] log opened" not in rd():
                        raise V("log %r is not that of %r" % (c["cur"], c["name"]))
                else:
                    w = "Unable to open logfile for [%s]: filename exceeded buffer" % c["name"]
                    if w not in D.log_text(): raise V("overlong log name of %r not reported" % c["name"])
                    cls += " (%d)" % min(1030, len(c["fmt"]))
                ln = len(c["cur"] or "")
                st.seen("log %s %s r%d %s%s" % (sp, c["kind"], min(rnd, 1), cls, " at limit" if ln > 1015 else ""))
        # reset command
        s = D.client(); k, kv = s.session("CONNECT", [safe])
        if k == b"OK":
            t = shim["NOW"] // 1000000
            s.send(b"\xffR")
            want = expand(resetf, safe, "rs", pid, t)
            hub.wait(lambda: os.path.exists(out) and open(out, "rb").read().endswith(b"\n"), 10)
            g = open(out, "rb").read().decode("latin-1") if os.path.exists(out) else None
            if g != want + "\n": raise V("reset command got %r, expected %r from %r" % (g, want, resetf))
            st.seen("reset " + "".join(sorted(set(re.findall(r"%(.)", resetf)))))
        D.check_alive()
        st.sample("%s -> %s" % (cons[0]["fmt"], cons[0].get("cur")) if cons else "none")
    finally:
        D.kill(); shim.close()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(500, 10000))])(C.rng("fmt")))

def resetlen(i, d, st):
    """Reset commands around the length limit, and console-specific values in one command for several consoles."""
    rng = random.Random(i)
    hub = Hub()
    shim = Shim(d)
    now = rng.randrange(1000000000, 2000000000)
    shim["NOW"] = shim["TARGET"] = now * 1000000
    shim["MODE"] = 1
    os.environ["TZ"] = "UTC"; time.tzset()
    n = rng.randrange(1, 4)
    names = ["n%d" % j + "x" * rng.choice([0, 1, 5, 60]) for j in range(n)]
    fmt = ": >> " + d + "/%N.done; #" + rng.choice(["%N", "%N%N", "%D %s", "%P", "%Y%%"])
    tot = rng.choice([900, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023])
    fmt += "y" * max(0, tot - len(fmt))
    fmt = fmt[:1023]
    conf = "server port=0 resetcmd='%s'\n" % fmt
    for nm in names: conf += 'console name="%s" dev="unix:%s/s-%s"\n' % (nm, d, nm)
    L = [unix_console(hub, "%s/s-%s" % (d, nm), nm) for nm in names]
    D = Daemon(exe, conf, d, hub, env={"TZ": "UTC"}, shim=shim, start=False, user=NOBODY)
    try:
        D.start()
        hub.wait(lambda: all(l.up for l in L), 15)
        s = D.client(); k, kv = s.session("CONNECT", names, ["BROADCAST"] if n > 1 else [])
        s.send(b"\xffR")
        D.sync_idle()
        fit = {nm: expand(fmt, nm, "s-" + nm, D.p.pid, now) for nm in names}
        hub.wait(lambda: all(os.path.exists("%s/%s.done" % (d, nm)) for nm in names if fit[nm]), 10)
        hub.settle(.05)
        D.sync_idle()
        info = s.data.decode("latin-1")
        for nm in names:
            ran = os.path.exists("%s/%s.done" % (d, nm))
            if ran != bool(fit[nm]): raise Violation("reset of %r (command length %s) %s" % (nm, fit[nm] and len(fit[nm]), "ran" if ran else "did not run"), conf=conf, info=info)
            if not fit[nm] and "Unable to reset console [%s]: command too long" % nm not in info + D.log_text():
                raise Violation("overlong reset command of %r not reported" % nm, info=info, log=D.log_text())
            st.seen("resetlen %d n=%d" % (len(fit[nm]) if fit[nm] else 1024, n))
        extra = [f for f in os.listdir(d) if f.endswith(".done") and f[:-5] not in names]
        if extra: raise Violation("reset command expanded to %r" % extra)
        D.check_alive()
    finally:
        D.kill(); shim.close()
C.run_cases(resetlen, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(120, 2000))])(C.rng("rl")), label="rl")

def daemonlog(i, d, st):
    """The daemon's own log: time specifiers expand, console specifiers stay as written; reopened on SIGHUP."""
    rng = random.Random(i)
    shim = Shim(d)
    now = rng.randrange(1000000000, 2000000000)
    shim["NOW"] = shim["TARGET"] = now * 1000000
    shim["MODE"] = 1
    tz = rng.choice(ZONES); os.environ["TZ"] = tz; time.tzset()
    root = d + "/L"; os.mkdir(root)
    fmt = "D" + fmtgen(rng, 0).replace(",", "")
    if not clean_path(normal(root + "/" + expand(fmt, "", "", 1, now, False))): return
    conf = 'server port=0 pidfile="%s/pid"\nserver logfile="%s/%s"\nconsole name="x" dev="test:" testopts="m:2000000000,n:2000000000"\n' % (d, root, fmt)
    p = os.path.join(d, "conf"); open(p, "w").write(conf)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:log_path=%s/bg.san" % d, TZ=tz, **shim.env)
    pr = subprocess.run([exe, "-c", p], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, **drop(d))
    pid = None
    try:
        if pr.returncode: raise Violation("start failed: %r" % pr.stdout, conf=conf)
        pid = int(open(d + "/pid").read())
        def w(f, t=5):
            e = time.monotonic() + t
            while not f() and time.monotonic() < e: time.sleep(.01)
            return f()
        exp = {normal(expand(root + "/" + fmt, "", "", pid, now, False))}
        w(lambda: tree(root) == exp)
        if tree(root) != exp: raise Violation("daemon log files %r, expected %r (format %r)" % (sorted(tree(root)), sorted(exp), fmt), conf=conf)
        adv = rng.choice([1, 60, 86400, 86400 * 40])
        idle = shim["IDLE"]
        w(lambda: shim["IDLE"] > idle + 2)
        shim["TARGET"] = (now + adv) * 1000000
        w(lambda: shim["NOW"] >= shim["TARGET"])
        new = normal(expand(root + "/" + fmt, "", "", pid, shim["NOW"] // 1000000, False))
        both = exp | {new}
        if clean_path(new) and not any(a != b and a.startswith(b + "/") for a in both for b in both):
            os.kill(pid, signal.SIGHUP)
            w(lambda: tree(root) == both and "reconfig" in open(sorted(exp)[0], encoding="latin-1").read() + open(new, encoding="latin-1").read())
            if tree(root) != both: raise Violation("after SIGHUP daemon log files %r, expected %r (format %r)" % (sorted(tree(root)), sorted(both), fmt), conf=conf)
            st.seen("daemon log reopened %s" % ("same" if len(both) == 1 else "new"))
        st.seen("daemon log " + "".join(sorted(set(re.findall(r"%(.)", fmt)))))
    finally:
        if pid:
            try:
                if os.path.realpath("/proc/%d/exe" % pid) == os.path.realpath(exe): os.kill(pid, signal.SIGKILL)
            except OSError: pass
        shim.close()
C.run_cases(daemonlog, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(60, 1000))])(C.rng("dl")), label="dl")
C.finish(min_evals=1500)
