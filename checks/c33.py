"""C33: periodic log timestamps appear at every aligned interval, once, in every log, and nowhere else."""
import common
from vf import *
import time as _t
C = Check("C33", "one evaluation = one timestamp message found in a log at exactly its predicted virtual second (none missing, none extra), one log whose other bytes were compared, "
          "or one session seen to receive none; distinct = (interval, unit, time zone, log options, what happened since the previous one)")
exe = build_daemon("asan")
ZONES = {"UTC": 0, "IST-5:30": 330, "NPT-5:45": 345, "XXX-14": 840, "YYY+9:30": -570}
INT = [1, 1, 2, 3, 5, 7, 10, 13, 15, 20, 30, 40, 45, 50, 59, 60, 61, 75, 90, 100, 120, 180, 240, 360, 480, 720, 721, 1000, 1439, 1440, 1441, 2880, 4320, 10080, 43200, 144000]
def expected(start, end, m, off):
    """Seconds in (start, end] at which a timestamp is due: the first multiple of m minutes since local midnight, then every m (every multiple since midnight when m divides the day)."""
    l = start + off * 60
    day = l // 86400 * 86400
    t = day + ((l - day) // 60 // m + 1) * m * 60
    r = []
    while t - off * 60 <= end:
        r.append(t - off * 60)
        t += m * 60
    return r
TS = re.compile(rb"\r\n(?:\d{4}-\d\d-\d\d \d\d:\d\d:\d\d )?<ConMan> Console \[([^\]]*)\] log at (\d+)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d) ([^ .\r\n]*)\.\r\n")
def spell(rng, m):
    c = ["%d" % m, "%dm" % m, "%dM" % m] if rng.random() < .7 else []
    if m % 60 == 0: c += ["%dh" % (m // 60), "%dH" % (m // 60)]
    if m % 1440 == 0: c += ["%dd" % (m // 1440), "%dD" % (m // 1440)]
    return rng.choice(c or ["%d" % m])

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    m = rng.choice(INT) if rng.random() < .85 else rng.randrange(1, 3000)
    if rng.random() < .06: m = 0
    zone = rng.choice(list(ZONES)); off = ZONES[zone]
    start = 1700000000 + rng.randrange(40000000)
    if rng.random() < .3: start = start // 60 * 60 + rng.choice([0, 59])
    if rng.random() < .2: start = (start + off * 60) // 86400 * 86400 - off * 60 + rng.choice([-1, 0, 1])
    n = rng.randrange(1, 4)
    val = spell(rng, m)
    conf = ["server port=0"]
    stamp = rng.choice(['server timestamp=%s', 'SERVER TIMESTAMP = %s', 'server timestamp = %s   # comment']) % val
    names, logged, opts, con = [], [], [], []
    for j in range(n):
        nm = rng.choice(["c%d", "n-%d.x", "Z%d"]) % j
        con.append(unix_console(hub, d + "/s%d" % j, nm))
        lg = rng.random() < .8; o = rng.choice(["", "", "sanitize", "timestamp", "sanitize,timestamp", "nolock"])
        names.append(nm); logged.append(lg); opts.append(o)
        conf.append('console name="%s" dev="unix:%s/s%d"' % (nm, d, j) + (' log="%s/log%d"' % (d, j) + (' logopts="%s"' % o if o else "") if lg else ""))
    conf.insert(rng.randrange(1, len(conf) + 1), stamp)
    shim = Shim(d); shim["SEED"] = i & 0xffff
    shim["NOW"] = shim["TARGET"] = start * 1000000; shim["MODE"] = 1
    D = Daemon(exe, "\n".join(conf) + "\n", d, hub, shim=shim, env={"TZ": zone})
    sent = [b""] * n
    done = [0] * n                                  # stamps already accounted for
    base = [0] * n
    cl = []
    try:
        hub.wait(lambda: all(c.up for c in con), 10); D.sync_idle(); hub.settle(.003, .1); D.sync_idle()
        start = shim["NOW"] // 1000000              # (the clock does not advance by itself)
        last = "start"
        def check(what):
            D.sync_idle(); hub.settle(.002, .1); D.sync_idle()
            end = (shim["NOW"] - 2000) // 1000000   # a timer is dispatched up to a millisecond after it is due
            exp = expected(start, end, m, off) if m else []
            more = expected(end, shim["NOW"] // 1000000 + 1, m, off) if m else []
            for j in range(n):
                if not logged[j]:
                    if os.path.exists(d + "/log%d" % j): raise Violation("a log appeared for an unlogged console")
                    continue
                b = open(d + "/log%d" % j, "rb").read()
                got = []
                for f in TS.finditer(b):
                    if f.group(1).decode() != names[j]: raise Violation("log of %s has the timestamp of %r" % (names[j], f.group(1)))
                    if f.group(8).decode() != re.match("[A-Z]+", zone).group(): raise Violation("timestamp names zone %r" % f.group(8))
                    y, mo, dd, h, mi, s = (int(f.group(k)) for k in range(2, 8))
                    import calendar
                    got.append(calendar.timegm((y, mo, dd, h, mi, s)) - off * 60)
                if got != exp and got != exp + more:
                    k = next((k for k in range(max(len(got), len(exp))) if k >= len(got) or k >= len(exp) or got[k] != exp[k]), 0)
                    f = lambda t: _t.strftime("%F %T", _t.gmtime(t + off * 60))
                    raise Violation("%s, interval %s (%d min) since %s: timestamp %d is %s, expected %s (%d found, %d expected)" %
                                    (what, val, m, f(start), k, f(got[k]) if k < len(got) else None, f(exp[k]) if k < len(exp) else None, len(got), len(exp)), m=m)
                if m == 0 and b"log at" in b: raise Violation("timestamp in a log although none are configured")
                for _ in range(min(50, len(got) - done[j])): st.seen("m=%d %s %s [%s] %s" % (m, val[-1], zone, opts[j], what))
                st.count("timestamps", len(got) - done[j])
                done[j] = len(got)
                rest = re.sub(rb"\r\n(?:\d{4}-\d\d-\d\d \d\d:\d\d:\d\d )?<ConMan> [^\r\n]*\r\n", b"", b)
                if "sanitize" not in opts[j] and "timestamp" not in opts[j]:
                    if rest != sent[j]: raise Violation("%s: beside messages, log of %s holds %d bytes, its console sent %d" % (what, names[j], len(rest), len(sent[j])), soft=True)
                elif re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d ", b"", rest).replace(b"\r\n", b"") != sent[j].replace(b"\n", b""):
                    raise Violation("%s: beside messages, processed log of %s is %r, its console sent %r" % (what, names[j], rest[-200:], sent[j][-200:]), soft=True)
                st.seen("log [%s] %s" % (opts[j], what))
            for c in cl:
                if b"log at" in c.data: raise Violation("a session received a log timestamp")
                st.seen("session %s" % what)
        check("start")
        unit = max(1, m) * 60
        for step in range(rng.randrange(4, 12)):
            op = rng.choice(["adv", "adv", "adv", "far", "edge", "data", "attach", "hup", "drop", "quiet"])
            if op == "adv": D.advance(rng.randrange(1, unit * 3 + 1))
            elif op == "far": D.advance(unit * rng.randrange(2, 60) + rng.randrange(unit))
            elif op == "edge":                          # to just before / just after the next one
                now = shim["NOW"] // 1000000
                nx = expected(now, now + unit, m, off)[:1] if m and now >= start else []
                if nx: nx = [t for t in expected(start, now + unit + 1, m, off) if t > now][:1]
                if nx:
                    D.advance(max(0, nx[0] - shim["NOW"] / 1e6 - .05)); check("just before")
                    D.advance(.2); check("just after")
            elif op == "data":
                for j in range(n):
                    if rng.random() < .7 and con[j].up:
                        t = b"line %d\n" % rng.randrange(10 ** 9)
                        con[j].conn.send(t); sent[j] += t
                hub.settle(.003, .1)
            elif op == "attach" and len(cl) < 4:
                c = D.client("x")
                if c.session(rng.choice(["MONITOR", "CONNECT"]), [rng.choice(names)], ["JOIN"])[0] == b"OK": cl.append(c)
            elif op == "hup":
                k = D.log_text().count("Performing reconfig")
                D.p.send_signal(signal.SIGHUP)
                hub.wait(lambda: D.log_text().count("Performing reconfig") > k, 10)
            elif op == "drop" and rng.random() < .5:
                j = rng.randrange(n)
                if con[j].up: con[j].conn.close()
            elif op == "quiet": D.advance(0.001 * rng.randrange(1, 500))
            check(op)
        st.sample("interval %s zone %s from %d: %s" % (val, zone, start, done))
    finally:
        D.kill(); shim.close()

def dst(i, d, st):
    """Across daylight saving changes: stamps stay on wall-clock multiples, one each."""
    rng = random.Random(i)
    hub = Hub()
    zone, trans = rng.choice([("EST5EDT,M3.2.0,M11.1.0", [1710054000, 1730613600]), ("CET-1CEST,M3.5.0,M10.5.0/3", [1711846800, 1729990800])])
    tr = rng.choice(trans)
    m = rng.choice([1, 5, 10, 15, 20, 30, 60, 120, 180, 240, 360, 720, 1440, 2880, 10080])
    start = tr - rng.randrange(60, 86400 * (4 if m < 1440 else 20))
    con = unix_console(hub, d + "/s", "c")
    shim = Shim(d); shim["NOW"] = shim["TARGET"] = start * 1000000; shim["MODE"] = 1
    D = Daemon(exe, 'server timestamp=%s\nserver port=0\nconsole name=c dev="unix:%s/s" log="%s/log"\n' % (spell(rng, m), d, d), d, hub, shim=shim, env={"TZ": zone})
    try:
        hub.wait(lambda: con.up, 10); D.sync_idle()
        end = tr + rng.randrange(60, 86400 * (4 if m < 1440 else 40)) // 60 * 60
        n = 0
        while shim["NOW"] < end * 1000000: D.advance(min(20000 * m, end - shim["NOW"] // 1000000 + 1))
        D.sync_idle()
        os.environ["TZ"] = zone; _t.tzset()
        got = []
        for f in TS.finditer(open(d + "/log", "rb").read()):
            w = [int(f.group(k)) for k in range(2, 8)]
            z = f.group(8).decode()
            t = [t for t in (int(_t.mktime((*w, 0, 0, s))) for s in (0, 1)) if _t.localtime(t)[:6] == tuple(w) and _t.strftime("%Z", _t.localtime(t)) == z]
            if not t: raise Violation("a log timestamp %r names no local time" % f.group(0))
            got.append(t[0])
        def midnight(t):
            l = _t.localtime(t)
            return (l.tm_hour * 60 + l.tm_min) * 60 + l.tm_sec
        if m <= 60: exp = [t for t in range(start // 60 * 60 + 60, end + 1, 60) if (midnight(t) // 60) % m == 0]
        elif m < 1440: exp = [t for t in range(start // 60 * 60 + 60, end + 1, 60) if midnight(t) // 60 % m == 0]
        else:
            mids = [t for t in range(start // 60 * 60 - 100000 // 60 * 60, end + 1, 60) if midnight(t) == 0]
            k = max(k for k, t in enumerate(mids) if t <= start)                 # the first comes one interval after the midnight before the start
            exp = mids[k + m // 1440::m // 1440]
        near = lambda t: m > 60 and abs(t - tr) <= m * 60 + 3600 and m < 1440    # wall times that do not exist or exist twice: what is right there is open
        a, b = [t for t in got if not near(t) and t <= end], [t for t in exp if not near(t)]
        if a != b:
            x = sorted(set(a) ^ set(b))
            raise Violation("interval %d min across the daylight saving change at %d (zone %s): %d timestamps, %d expected; first difference %s" %
                            (m, tr, zone, len(a), len(b), _t.strftime("%F %T %Z", _t.localtime(x[0])) if x else "repeated"))
        nn = [t for t in got if near(t)]
        if len(set(nn)) != len(nn) or any(y - x < 3600 for x, y in zip(nn, nn[1:])): raise Violation("timestamps repeated at the daylight saving change: %r" % nn)
        for _ in range(min(20, len(a))): st.seen("dst m=%d %s" % (m, zone[:3]))
    finally:
        D.kill(); shim.close(); os.environ["TZ"] = "UTC"; _t.tzset()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(500, 12000))])
g = C.rng("d"); C.run_cases(dst, [g.randrange(1 << 40) for _ in range(C.q(100, 1500))], label="dst")
C.finish(min_evals=2000)
