"""C28: the control port is reachable only as configured, denied peers get nothing, nothing happens before a greeting."""
import common
from vf import *
C = Check("C28", "one evaluation = one connection attempt (destination, source address, access rules, first line) whose outcome was compared with an independent model of the access configuration; "
          "distinct = (loopback setting, filtering setting, destination, rule that decides, first line, outcome)")
exe = build_daemon("asan")
# ---- access rules: text and an independent matcher -------------------------------------------------
def hit(pat, ip):
    name = {"127.0.0.1": "localhost"}.get(ip)
    if pat == "ALL": return True
    if pat == "LOCAL": return bool(name) and "." not in name
    if pat == "KNOWN": return bool(name)
    if pat == "UNKNOWN": return not name
    if "/" in pat:
        a, m = pat.split("/")
        f = lambda x: int.from_bytes(socket.inet_aton(x), "big")
        return f(ip) & f(m) == f(a)
    if pat.endswith("."): return ip.startswith(pat)
    return pat == ip or pat == name
def listed(words, ip):
    """'a b EXCEPT c d'"""
    if "EXCEPT" in words:
        k = words.index("EXCEPT")
        return listed(words[:k], ip) and not listed(words[k + 1:], ip)
    return any(hit(w, ip) for w in words)
def decide(rules, ip):
    for dl, cl in rules:
        if listed_d(dl) and listed(cl, ip): return (dl, cl)
    return None
def listed_d(words):
    if "EXCEPT" in words:
        k = words.index("EXCEPT")
        return listed_d(words[:k]) and not listed_d(words[k + 1:])
    return any(w in ("ALL", "conmand") for w in words)
IPS = ["127.0.0.%d" % k for k in (1, 2, 3, 4, 7, 19, 200)] + ["127.3.0.1", "127.0.1.2"]
PATS = ["ALL", "LOCAL", "KNOWN", "UNKNOWN", "127.", "127.0.0.", "127.3.", "localhost", "127.0.0.0/255.255.255.252", "127.0.0.0/255.255.0.0", "10.0.0.0/255.0.0.0", "otherhost", "10.1.2.3"] + IPS
DAEMONS = [["conmand"], ["conmand"], ["ALL"], ["sshd"], ["sshd", "conmand"], ["conman"], ["ALL", "EXCEPT", "conmand"], ["ALL", "EXCEPT", "sshd"], ["conmandx"]]
def genrules(rng, pad):
    r = []
    for _ in range(rng.randrange(0, 4) + (rng.randrange(20, 200) if pad else 0)):
        if pad and rng.random() < .97: r.append((["conmand", "sshd"], ["10.%d.%d.%d" % tuple(rng.randrange(256) for _ in range(3)) for _ in range(rng.randrange(1, 12))])); continue
        cl = rng.sample(PATS, rng.randrange(1, 4))
        if rng.random() < .2: cl += ["EXCEPT"] + rng.sample(PATS, rng.randrange(1, 3))
        r.append((rng.choice(DAEMONS), cl))
    return r
def put(rng, path, rules):
    t = "# access\n"
    for dl, cl in rules:
        sep = rng.choice([" ", ", ", ","])
        f = lambda w: sep.join(w).replace(sep + "EXCEPT" + sep, " EXCEPT ")
        t += f(dl) + rng.choice([":", " : ", ": "]) + f(cl) + rng.choice(["", "", " : ALLOW"][:2]) + "\n"
        if rng.random() < .1: t += "\n# x\n"
    open(path + ".n", "w").write(t); os.rename(path + ".n", path)

GOOD = [b"HELLO USER='u' TTY='t'", b"HELLO USER='u'", b"hello user='u'", b"HELLO TTY='x' USER='u v'", b'HELLO USER="u"', b"HELLO  USER = 'u'   TTY = 't'"]
BAD = [b"", b"HELLO", b"HELLO USER=''", b"HELLO USER=", b"HELLO USER", b"USER='u'", b"CONNECT CONSOLE='c0'", b"QUERY", b"QUERY CONSOLE='*'", b"MONITOR CONSOLE='c0'", b"CONNECT OPTION=FORCE CONSOLE='c0'",
       b"HELO USER='u'", b"HELLO TTY='t'", b"HELLOUSER='u'", b"GET / HTTP/1.0", b"\xff\xfeR", b"\x00\x01\x02", b"OK", b"USER='u' HELLO", b"'HELLO' 'USER'='u'", b"HELLO 'USER'='u'", b"\xffF\xffR\xffB"]

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    lo = rng.choice([True, True, False, None])
    tw = rng.choice([True, True, True, False, None])
    con = [unix_console(hub, d + "/s%d" % j, "c%d" % j) for j in range(2)]
    conf = ["server port=0", 'server resetcmd="touch %s/reset"' % d]
    if lo is not None: conf.append("server loopback=%s" % rng.choice([["off", "OFF"], ["on", "On"]][lo]))
    if tw is not None: conf.append("server tcpwrappers=%s" % rng.choice([["off", "OFF"], ["on", "On"]][tw]))
    rng.shuffle(conf)
    conf += ['console name=c%d dev="unix:%s/s%d" log="%s/log%d"' % (j, d, j, d, j) for j in range(2)]
    pad = rng.random() < .5
    A, B = d + "/allow", d + "/deny"
    files = {A: genrules(rng, pad), B: genrules(rng, pad)}
    for p, r in files.items(): put(rng, p, r)
    D = Daemon(exe, "\n".join(conf) + "\n", d, hub, env={"VF_HOSTS_ALLOW": A, "VF_HOSTS_DENY": B})
    loopback = lo is not False
    def verdict(ip):
        if tw is not True: return True, "off"
        x = decide(files[A], ip)
        if x: return True, "allow %s" % " ".join(w if not w[0].isdigit() else "ip" for w in x[1][:3])
        x = decide(files[B], ip)
        if x: return False, "deny %s" % " ".join(w if not w[0].isdigit() else "ip" for w in x[1][:3])
        return True, "default"
    try:
        hub.wait(lambda: all(c.up for c in con), 10)
        # the listening sockets of the daemon
        own = set()
        for f in glob.glob("/proc/%d/fd/*" % D.dpid):
            try: t = os.readlink(f)
            except OSError: continue
            if t.startswith("socket:["): own.add(t[8:-1])
        lst = []
        for fam in ("tcp", "tcp6"):
            try: ls = open("/proc/%d/net/%s" % (D.dpid, fam)).read().splitlines()[1:]
            except OSError: ls = []
            for l in ls:
                w = l.split()
                if w[3] == "0A" and w[9] in own: lst.append((fam, w[1]))
        want = [("tcp", "%s:%04X" % ("0100007F" if loopback else "00000000", D.port))]
        if lst and sorted(set(lst)) != want: raise Violation("daemon listens on %r, expected %r" % (lst, want))
        held = None
        nrej = [0]
        dropped = [0]
        def attempt(dst, src, first):
            """Opens one connection; returns (client or None if refused)."""
            try: return Client(hub, D.port, "x", src=src, dst=dst)
            except ConnectionRefusedError: return None
        others = [x for x in subprocess.run(["hostname", "-I"], capture_output=True, text=True).stdout.split() if x.count(".") == 3][:1]
        for step in range(rng.randrange(6, 16)):
            if rng.random() < .2:
                p = rng.choice([A, B]); files[p] = genrules(rng, pad) if rng.random() < .9 else []
                put(rng, p, files[p])
                if rng.random() < .1: os.unlink(p); files[p] = []
            n = rng.choice([1, 1, 1, 2, 6, 12])
            batch = []
            for _ in range(n):
                dst = rng.choice(["127.0.0.1"] * 3 + ["127.0.0.2", "127.9.9.9"] + others)
                src = rng.choice(IPS) if dst.startswith("127.") else None
                ok = rng.random() < .7
                c = attempt(dst, src, None)
                reach = dst == "127.0.0.1" or not loopback
                if (c is not None) != reach: raise Violation("connection to %s with loopback=%s %s" % (dst, {None: "(default)", True: "on", False: "off"}[lo], "refused" if reach else "accepted"))
                st.seen("reach lo=%s dst=%s %s" % (lo, dst if dst.startswith("127") else "lan", reach))
                if c is None: continue
                c.src = src or dst
                c.ok = ok
                c.first = rng.choice(GOOD if ok else BAD)
                c.req = rng.choice([b"QUERY CONSOLE='*'", b"CONNECT OPTION=JOIN CONSOLE='c0'", b"MONITOR CONSOLE='c1'", b"CONNECT OPTION=FORCE CONSOLE='c1'"])
                c.how = rng.choice(["all", "lines", "bytes"])
                batch.append(c)
            mark = [len(c.conn.rx) for c in con]
            for c in batch:                                   # concurrently
                m = c.first + b"\n" + c.req + b"\n"
                if c.how == "all": c.send(m)
                elif c.how == "lines": c.send(c.first + b"\n")
                else:
                    for k in range(0, len(m), 7): c.send(m[k:k + 7]); hub.pump(0)
            for c in batch:
                hub.wait(lambda: b"\n" in c.rx or c.eof, 20)
                if c.how == "lines" and not c.eof: c.send(c.req + b"\n")
            for c in batch:
                acc, why = verdict(c.src)
                if not acc:
                    if not hub.wait(lambda: c.eof, 20): raise Violation("connection of a denied peer (%s) is not closed" % c.src, soft=True)
                    if c.rx: raise Violation("peer %s is denied by the access files (%s) but received %r" % (c.src, why, bytes(c.rx[:200])))
                    out = "denied"; nrej[0] += 1
                elif not c.ok:
                    if not hub.wait(lambda: c.eof, 20): raise Violation("connection stays open after the invalid greeting %r" % c.first, soft=True)
                    l = bytes(c.rx)
                    if l.count(b"\n") > 1 or (l and not l.startswith(b"ERROR CODE=2 ")): raise Violation("invalid greeting %r was answered %r" % (c.first, l[:300]))
                    if not l and not c.err: raise Violation("invalid greeting %r from an accepted peer (%s: %s) got no answer" % (c.first, c.src, why), soft=True)
                    out = "invalid greeting"
                else:
                    hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, 20)
                    l = bytes(c.rx).split(b"\n")
                    if len(l) < 3 or l[0].strip() != b"OK" or not l[1].startswith(b"OK"): raise Violation("peer %s (%s) with a valid greeting %r and request %r got %r" % (c.src, why, c.first, c.req, bytes(c.rx[:300])), soft=True)
                    out = "served"
                st.seen("lo=%s tw=%s %s [%s] %s %s %s" % (lo, tw, why, c.first.split()[:1], c.how, c.req.split()[0], out))
            # sessions of good clients only: what reaches a console comes from them
            hub.settle(.003, .1)
            for j, c in enumerate(con):
                if len(c.conn.rx) != mark[j]: raise Violation("console %d received %r although nobody typed" % (j, bytes(c.conn.rx[mark[j]:])))
            if os.path.exists(d + "/reset"): raise Violation("a reset was run")
            served = [c for c in batch if verdict(c.src)[0] and c.ok]
            for c in batch: c.close()
            hub.settle(.003, .1)
            D.check_alive("after %d connections" % n)
        D.hub.settle(.01, .2)
        hub.wait(lambda: len(re.findall("TCP-Wrappers rejected connection", D.log_text())) == nrej[0], 5)
        k = len(re.findall("TCP-Wrappers rejected connection", D.log_text()))
        if k != nrej[0]: raise Violation("%d rejections logged, %d peers were denied" % (k, nrej[0]), soft=True)
        t = D.log_text()
        st.sample("loopback=%s tcpwrappers=%s rules=%d+%d denied=%d" % (lo, tw, len(files[A]), len(files[B]), nrej[0]))
    finally:
        D.kill()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(250, 6000))])
C.finish(min_evals=1500)
