"""Configuration files generated with a model of their effect; the daemon's observable state is compared with it."""
import common
from vf import *
C = Check("C20", "one evaluation = one observable effect of a generated configuration (console list, device connections, log path, log options, limits, ports, "
          "pid file, reset command, error line numbers) compared with the model; distinct = (effect, setting and where it came from)")
exe = build_daemon("asan")
PRIO = ["emerg", "emergency", "alert", "crit", "critical", "err", "error", "warn", "warning", "notice", "info", "debug"]
LEVEL = dict(emerg=0, emergency=0, alert=1, crit=2, critical=2, err=3, error=3, warn=4, warning=4, notice=5, info=6, debug=7)

class Conf:
    """Writes directives in varied form and tracks their effect."""
    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.eol = rng.choice(["\n", "\n", "\n", "\r\n", "\r"])
        self.wild = rng.random()
        self.text = ""
        self.line = 1
        self.err = []               # (first, last) line of each erroneous directive
        self.s = dict(keepalive=True, loopback=True, coredump=False, tcpwrappers=False, nofile=0, port=None, pidfile=None,
                      resetcmd=None, execpath=None, timestamp=0, logdir=d, glog=None, gopts={}, gtest=None)
        self.cons = {}
        self.kinds = set()
    def case(self, w):
        r = self.rng
        k = r.randrange(4)
        return w if k < 2 else w.upper() if k == 2 else "".join(r.choice([c.lower(), c.upper()]) for c in w)
    def ws(self, must=False):
        r = self.rng
        if r.random() < .6:
            return " " if must else ""
        s = "".join(r.choice([" ", "\t", "  "]) for _ in range(r.randrange(1 if must else 0, 4)))
        if r.random() < .12 * self.wild:
            s += "\\" + self.eol + r.choice(["", " ", "\t"])
            return " " + s
        return s
    def string(self, v, bare_ok=True):
        r = self.rng
        if bare_ok and re.match(r"^[A-Za-z][A-Za-z0-9_]{0,20}$", v) and v.lower() not in KEYWORDS and r.random() < .4:
            return v
        qs = [q for q in "\"'" if q not in v]
        q = r.choice(qs)
        return q + v + q
    def kv(self, k, v, kind="s"):
        v = self.string(v) if kind == "s" else self.string(v, False) if kind == "q" else v
        return self.case(k) + self.ws() + "=" + self.ws() + v
    def put(self, logical, bad=False):
        r = self.rng
        while r.random() < .2 * self.wild:
            self.text += r.choice(["", "  ", "# server port=1", "\t# console name=\"x\" dev=\"unix:/y\" \"", "#'"]) + self.eol
            self.line += 1
        n = logical.count(self.eol)
        if bad:
            self.err.append((self.line, self.line + n))
        if r.random() < .3 and not (bad and ("'" in logical or '"' in logical)):
            logical += " " + r.choice(["# trailing", "#", "# it's \"here"])
        self.text += self.ws().replace("\\" + self.eol, "") + logical + self.eol
        self.line = self.text.count(self.eol) + 1
    def directive(self, word, items):
        return self.case(word) + self.ws(True) + self.ws(True).join(items)
    def finish(self):
        if self.rng.random() < .2 and self.text.endswith(self.eol):
            self.text = self.text[:-len(self.eol)]          # last line without a line ending
        return self.text

KEYWORDS = {"console", "coredump", "coredumpdir", "dev", "execpath", "global", "ipmiopts", "keepalive", "log", "logdir", "logfile", "logopts", "loopback",
            "name", "nofile", "off", "on", "pidfile", "port", "resetcmd", "seropts", "server", "syslog", "tcpwrappers", "testopts", "timestamp"}

def parse_opts(s, base):
    o = dict(base)
    for t in re.split(r"[\s,;]+", s.lower()):
        if t in ("lock", "nolock"): o["lock"] = t == "lock"
        if t in ("sanitize", "nosanitize"): o["sanitize"] = t == "sanitize"
        if t in ("timestamp", "notimestamp"): o["timestamp"] = t == "timestamp"
    return o

def bad_lines(c, rng):
    """A line in error: (text, mentions a console that must not exist)."""
    q = lambda w: c.case(w)
    k = rng.randrange(26)
    return [
        lambda: "bogus", lambda: q("server") + " bogus=1", lambda: q("server") + " port", lambda: q("server") + " port=abc",
        lambda: q("server") + " keepalive=maybe", lambda: q("server") + " loopback=", lambda: q("server") + " loopback=1",
        lambda: q("global") + ' log="no-specifier"', lambda: q("global") + " logopts=", lambda: q("global") + ' logopts=""',
        lambda: q("console") + ' name="bad0"', lambda: q("console") + ' dev="test:"', lambda: q("console") + ' name="bad1" dev="/nonexistent/dev"',
        lambda: q("console") + ' name="bad2" dev="test:" bogus=1', lambda: q("console") + ' name="bad3 dev=test:',
        lambda: q("console") + " name='bad4' dev=\"test:", lambda: q("server") + ' syslog="nosuchfacility"', lambda: q("server") + ' coredumpdir="/nonexistent/x"',
        lambda: q("server") + " timestamp=5x", lambda: q("server") + " timestamp=often", lambda: q("server") + " nofile=many", lambda: "= = =",
        lambda: q("console") + ' name=bad5 dev="test: extra"', lambda: q("console"), lambda: q("server") + " pidfile=''",
        lambda: q("console") + ' name="" dev="test:"'][k]()

def make(rng, d, port):
    c = Conf(rng, d)
    s = c.s
    for x in ("ex1", "ex2", "sub", "sub/deep"):
        os.makedirs(os.path.join(d, x), exist_ok=True)
    for x, tag in (("ex1/prog", "one"), ("ex2/prog", "two"), ("ex2/other", "other"), ("sub/abs", "abs")):
        p = os.path.join(d, x)
        open(p, "w").write("#!/bin/sh\necho PROG-%s \"$@\"\nexec sleep 1000\n" % tag)
        os.chmod(p, 0o755)
    todo = []
    def onoff(k):
        def f():
            v = rng.random() < .5
            s[k] = v
            c.kinds.add("%s=%s" % (k, v))
            return c.kv(k, c.case("on" if v else "off"), "raw")
        return f
    def num(k, v, txt=None):
        def f():
            s[k] = v
            return c.kv(k, txt or str(v), "raw")
        return f
    def strv(k, v, eff=None):
        def f():
            s[k] = eff if eff is not None else v
            return c.kv(k, v, "q")
        return f
    server = [num("port", port)]
    for k in ("keepalive", "loopback", "coredump", "tcpwrappers"):
        if rng.random() < .5: server.append(onoff(k))
        if rng.random() < .1: server.append(onoff(k))
    if rng.random() < .5: server.append(num("nofile", rng.choice([0, -1, 128, 200, 512])))
    if rng.random() < .6:
        v = rng.choice(["pid", "run/x/pid", d + "/pid2", "sub/conmand.pid"])
        server.append(strv("pidfile", v, os.path.join(d, v)))
    if rng.random() < .6: server.append(strv("resetcmd", "echo '%N' >> " + d + "/reset.out" if False else "echo %N >> " + d + "/reset.out"))
    if rng.random() < .6: server.append(strv("execpath", rng.choice([d + "/ex1", d + "/ex1:" + d + "/ex2", d + "/ex2:" + d + "/ex1", "/nonexistent:" + d + "/conman.conf:" + d + "/ex1"])))
    ts = None
    if rng.random() < .5:
        n, u = rng.choice([(0, ""), (1, ""), (10, "m"), (45, "M"), (2, "h"), (1, "H"), (1, "d"), (720, "")])
        ts = n * {"": 1, "m": 1, "h": 60, "d": 1440}[u.lower()]
        def f(n=n, u=u, t=ts):
            s["timestamp"] = t
            return c.kv("timestamp", str(n) + (rng.choice(["", " "]) + u if u else ""), "raw")
        server.append(f)
    if rng.random() < .4:
        server.append(lambda: c.kv("logfile", rng.choice(["daemon.log", d + "/daemon.log,debug"]), "q"))
    if rng.random() < .3:
        server.append(lambda: c.kv("syslog", rng.choice(["daemon", "local0", "LOCAL7", "user"]), "s"))
    if rng.random() < .3:
        server.append(lambda: c.kv("coredumpdir", rng.choice([d, d + "/sub", ""]), "q"))
    rng.shuffle(server)
    # timestamp takes a following word as its unit, so it ends its line
    groups = []
    while server:
        n = min(len(server), rng.choice([1, 1, 1, 2, 3]))
        groups.append(server[:n]); del server[:n]
    ops = [("server", g) for g in groups]
    # consoles and the settings they depend on keep their relative order
    seq = []
    ld = rng.choice([None, None, "logs", d + "/alog", "sub/deep/logs", ""])
    if ld is not None:
        seq.append(("logdir", ld))
    n = rng.randrange(1, 9)
    glob_used = False
    for i in range(n):
        if rng.random() < .3:
            seq.append(("glog", rng.choice(["%N.log", "g-%N", "sub/%D-%N", d + "/glob/%N", ""])))
        if rng.random() < .3:
            seq.append(("gopts", ",".join(rng.sample(["lock", "nolock", "sanitize", "nosanitize", "timestamp", "notimestamp"], rng.randrange(1, 3)))))
        seq.append(("console", i))
    # interleave
    while ops or seq:
        if rng.random() < .15:
            c.put(bad_lines(c, rng), True)
        if ops and (not seq or rng.random() < .5) and not (seq and seq[0][0] == "console" and any(f for _, g in ops for f in g) and rng.random() < .0):
            _, g = ops.pop(0)
            items = [f() for f in g]
            # timestamp last on its line
            items.sort(key=lambda x: x.lower().startswith("timestamp"))
            c.put(c.directive("server", items))
            continue
        if not seq:
            continue
        kind, v = seq.pop(0)
        if kind == "logdir":
            s["logdir"] = os.path.join(d, v) if v else d
            c.put(c.directive("server", [c.kv("logdir", v, "q")]))
        elif kind == "glog":
            s["glog"] = v or None
            c.put(c.directive("global", [c.kv("log", v, "q")]))
        elif kind == "gopts":
            s["gopts"] = parse_opts(v, s["gopts"])
            c.put(c.directive("global", [c.kv("logopts", v if rng.random() < .7 else v.upper(), "q")]))
        else:
            name = "c%d" % v if rng.random() < .8 else rng.choice(["node-%d.x", "A b%d", "x=%d", "n#%d", "Q\\%d"]) % v
            con = dict(name=name)
            dk = rng.choice(["unix", "unix", "telnet", "process", "process", "test"])
            if dk == "process" and not s["execpath"] and rng.random() < .5: dk = "unix"
            con["kind"] = dk
            items = []
            if dk == "unix":
                p = os.path.join(d, "u%d" % v)
                con["path"] = p
                dev = "unix:" + (p if rng.random() < .7 else "u%d" % v)
                items.append(c.kv("dev", dev, "q"))
                con["base"] = "u%d" % v
            elif dk == "telnet":
                con["telnet"] = True
                con["slot"] = v
                items.append(None)
                con["base"] = None
            elif dk == "process":
                arg = rng.choice(["", " a1", " %N", " 'lit %N' b", " \"q q\""]) if " " not in name and "\\" not in name else ""
                if s["execpath"] and rng.random() < .7:
                    prog = rng.choice(["prog", "prog", "other"])
                else:
                    prog = rng.choice(["sub/abs", d + "/sub/abs"])
                tag = None
                if "/" in prog: tag = "abs"
                else:
                    for e in s["execpath"].split(":"):
                        f = os.path.join(e, prog)
                        if os.path.isfile(f):
                            tag = {"ex1/prog": "one", "ex2/prog": "two", "ex2/other": "other"}[os.path.relpath(f, d)]
                            break
                if tag is None:
                    # unrecognised device: the line is in error
                    c.put(c.directive("console", [c.kv("name", name, "q"), c.kv("dev", prog, "q")]), True)
                    continue
                con["tag"] = ("PROG-" + tag + " " + {"": "", " a1": "a1", " %N": name, " 'lit %N' b": "lit %N b", " \"q q\"": "q q"}[arg]).rstrip()
                val = prog + arg
                qv = "'" + val + "'" if '"' in val else '"' + val + '"'
                items.append(c.case("dev") + c.ws() + "=" + c.ws() + qv)
                con["base"] = ""
            else:
                items.append(c.kv("dev", c.case("test:"), "q"))
                con["base"] = ""
            items.append(c.kv("name", name, "q"))
            log = None
            src = "none"
            if rng.random() < .55:
                lv = rng.choice(["l-%d" % v, d + "/abs-%d" % v, "sub/l%d" % v, "%N-own", ""])
                items.append(c.kv("log", lv, "q"))
                log = os.path.join(s["logdir"], lv) if lv else None
                src = "console" if lv else "console-off"
            elif s["glog"]:
                log = os.path.join(s["logdir"], s["glog"])
                src = "global"
            opts = dict(s["gopts"])
            if rng.random() < .3:
                lv = ",".join(rng.sample(["lock", "nolock", "sanitize", "nosanitize", "timestamp", "notimestamp"], rng.randrange(1, 4)))
                items.append(c.kv("logopts", lv, "q"))
                opts = parse_opts(lv, opts)
            if dk == "test":
                if rng.random() < .3: items.append(c.kv("testopts", "b:10,m:1000,n:1,p:1", "q"))
            con.update(log=log, src=src, opts=dict({"lock": True, "sanitize": False, "timestamp": False}, **opts))
            if con["base"] is not None and log:
                base = con["base"]
                clean = "".join(ch if 0x21 <= ord(ch) <= 0x7e and ch != "/" else "_" for ch in name)
                con["log"] = log.replace("%N", clean).replace("%D", base)
            rng.shuffle(items)
            con["items"] = items
            c.cons[name] = con
            con["at"] = len(c.text)
            if dk == "telnet":
                yield c, con
            if rng.random() < .08:
                # a second console of that name is an error and changes nothing
                c.put(c.directive("console", items))
                c.put(c.directive("console", [c.kv("name", name, "q"), c.kv("dev", "test:", "q")]), True)
            else:
                c.put(c.directive("console", items))
    yield c, None

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    shim = Shim(d)
    shim["SEED"] = i & 0xffff
    start = rng.randrange(1600000000, 1800000000)
    shim["NOW"] = shim["TARGET"] = start * 1000000
    shim["MODE"] = 1
    slots = []
    port = 0
    args = []
    for c, con in make(rng, d, port):
        if con is None: break
        l = tcp_console(hub, con["name"], cls=TelnetPeer)
        con["L"] = l
        con["items"][con["items"].index(None)] = c.kv("dev", "127.0.0.1:%d" % l.port, "q")
        if con["log"]:
            clean = "".join(ch if 0x21 <= ord(ch) <= 0x7e and ch != "/" else "_" for ch in con["name"])
            con["log"] = con["log"].replace("%N", clean).replace("%D", "127.0.0.1:%d" % l.port)
    s = c.s
    if not c.cons:
        c.put('console name="last" dev="test:"')
        c.cons["last"] = dict(name="last", kind="test", log=os.path.join(s["logdir"], s["glog"]).replace("%N", "last").replace("%D", "") if s["glog"] else None, src="global", opts=dict({"lock": True, "sanitize": False, "timestamp": False}, **s["gopts"]))
    for n, k in c.cons.items():
        if k["kind"] == "unix":
            k["L"] = unix_console(hub, k["path"], n)
    # bystanders: listeners no directive names
    spare = unix_console(hub, os.path.join(d, "u99"))
    text = c.finish()
    pf = s["pidfile"]
    if rng.random() < .3:
        v = rng.choice(["cli.pid", d + "/cli2.pid"])
        args += ["-P", v]
        pf = os.path.join(d, v)
    wantport = None
    if rng.random() < .5:
        text = re.sub(r"(?i)(port\s*=\s*)0", r"\g<1>1", text) if rng.random() < 0 else text
    verbose = rng.random() < .5
    if verbose: args.append("-v")
    zero = rng.random() < .2
    if zero: args.append("-z")
    cli_port = rng.random() < .4
    fixed = None
    env = {"TZ": "UTC", "VF_HOSTS_ALLOW": d + "/allow", "VF_HOSTS_DENY": d + "/deny"}
    open(d + "/allow", "w").write("")
    open(d + "/deny", "w").write("ALL: ALL\n")
    txt = text.encode("latin-1")
    fixed = 20000 + (os.getpid() * 7 + i) % 11000
    m = re.search(r"(?i)\bport((?:\s|\\(?:\r\n|\n|\r))*)=((?:\s|\\(?:\r\n|\n|\r))*)0", text)
    if cli_port:
        # the file names a port; -p wins
        text = text[:m.end() - 1] + str(fixed) + text[m.end():]
    D = Daemon(exe, text.encode("latin-1"), d, hub, args=args, env=env, shim=shim, rlimit_nofile=(300, 600), start=False, port=0 if cli_port else None)
    V = lambda msg, **k: Violation(msg, conf=text, **k)
    try:
        D.start()
        log = D.log_text()
        if cli_port and D.port == fixed:
            raise V("-p did not override the configured port")
        # --- errors
        got = [int(x) for x in re.findall(r"CONFIG\[[^\]]*:(\d+)\]: ", log)]
        ok = len(got) == len(c.err) and all(a <= g <= b for g, (a, b) in zip(got, c.err))
        if not ok:
            raise V("configuration errors reported for lines %r, expected %r" % (got, c.err))
        st.seen("errors %d eol=%r" % (min(4, len(got)), c.eol))
        for l in re.findall(r"CONFIG\[[^\]]*:\d+\]: (.*)", log):
            st.seen("error: " + re.sub(r"['\"\[].*", "", l)[:40], 0)
        # --- summary
        if verbose:
            m = re.search(r"Options:(.*)\nMonitoring (\d+) console", log)
            exp = []
            if s["coredump"]: exp.append("CoreDump")
            if s["keepalive"]: exp.append("KeepAlive")
            if "logfile" in text.lower() and re.search(r"(?im)^[^#]*\blogfile\b", text.replace("\r", "\n")): exp.append("LogFile")
            if s["loopback"]: exp.append("LoopBack")
            if s["resetcmd"]: exp.append("ResetCmd")
            if s["tcpwrappers"]: exp.append("TCP-Wrappers")
            if s["timestamp"]: exp.append("TimeStamp=%dm" % s["timestamp"])
            if zero: exp.append("ZeroLogs")
            g = [x for x in m.group(1).split() if x not in ("SysLog", "None", "LogFile")]
            if g != [x for x in exp if x != "LogFile"]:
                raise V("summary shows %r, expected %r" % (m.group(1), exp))
            if int(m.group(2)) != len(c.cons):
                raise V("summary counts %s consoles, expected %d" % (m.group(2), len(c.cons)))
            st.seen("summary " + " ".join(g))
        hub.wait(lambda: all(k["L"].up for k in c.cons.values() if "L" in k), 15)
        D.sync_idle()
        # --- tcp wrappers
        if s["tcpwrappers"]:
            x = D.client()
            x.hello()
            k, kv = (None, {}) if x.greet is None else parse_rsp(x.greet)
            if k == b"OK":
                raise V("tcpwrappers=on did not refuse a denied peer")
            x.close()
            open(d + "/allow", "w").write("ALL: ALL\n")
        # --- console list
        q = D.client(); q.hello(); k, kv = q.request("QUERY", ["*"])
        names = sorted(x.decode("latin-1") for x in kv.get("CONSOLE", []))
        if (b"RESET" in kv.get("OPTION", [])) != bool(s["resetcmd"]): raise V("reset support announced %r with resetcmd %r" % (q.rsp, s["resetcmd"]))
        if names != sorted(c.cons) or k != b"OK":
            raise V("consoles are %r, expected %r (%r)" % (names, sorted(c.cons), q.rsp))
        st.seen("consoles %d" % len(names))
        q.close()
        # --- devices
        for n, k in c.cons.items():
            if "L" in k:
                if not k["L"].up or len(k["L"].conns) != 1:
                    raise V("console %r was not connected to its device (%d connections)" % (n, len(k["L"].conns)), soft=True)
                st.seen("device " + k["kind"])
        if spare.conns: raise V("an unconfigured socket was connected")
        # --- limits
        lim = open("/proc/%d/limits" % D.p.pid).read()
        soft = int(re.search(r"Max open files\s+(\S+)", lim).group(1))
        exp = 300 if s["nofile"] == 0 else 600 if s["nofile"] < 0 else s["nofile"]
        if soft != exp: raise V("open file limit %d, expected %d (nofile=%s)" % (soft, exp, s["nofile"]))
        st.seen("nofile=%s" % s["nofile"])
        core = re.search(r"Max core file size\s+(\S+)", lim).group(1)
        if (core != "0") != s["coredump"]: raise V("core limit %s with coredump=%s" % (core, s["coredump"]))
        st.seen("coredump=%s" % s["coredump"])
        # --- pid file
        cands = ["pid", "run/x/pid", "pid2", "sub/conmand.pid", "cli.pid", "cli2.pid"]
        have = [os.path.join(d, x) for x in cands if os.path.exists(os.path.join(d, x))]
        if have != ([pf] if pf else []): raise V("pid files %r, expected %r" % (have, pf))
        if pf and open(pf).read().strip() != str(D.p.pid): raise V("pid file holds %r" % open(pf).read())
        st.seen("pidfile %s%s" % (bool(pf), " -P" if "-P" in args else ""))
        # --- loopback
        try:
            x = socket.create_connection(("127.0.0.2", D.port), 2); x.close(); reach = True
        except OSError:
            reach = False
        if reach == s["loopback"]: raise V("loopback=%s but a connection to 127.0.0.2 %s" % (s["loopback"], "succeeded" if reach else "failed"))
        st.seen("loopback=%s" % s["loopback"])
        # --- keepalive: timer kind on the daemon's side of a session
        n0 = rng.choice(list(c.cons))
        sess = D.client(); kk, _ = sess.session("CONNECT", [re.sub(r"([\\*?\[])", r"\\\1", n0)])
        if kk != b"OK": raise V("cannot connect to %r: %r" % (n0, sess.rsp))
        D.sync_idle()
        def timer():
            for l in open("/proc/net/tcp"):
                w = l.split()
                if len(w) > 5 and w[1].endswith(":%04X" % D.port) and w[2].endswith(":%04X" % sess.lport):
                    return w[5].split(":")[0]
        hub.wait(lambda: timer() != "01", 3)
        t = timer()
        if t in ("00", "02") and (t == "02") != s["keepalive"]: raise V("keepalive=%s but the session's timer is %s" % (s["keepalive"], t))
        st.seen("keepalive=%s" % s["keepalive"])
        # --- reset command
        sess.send(b"\xffR")
        D.sync_idle()
        ro = d + "/reset.out"
        if s["resetcmd"]:
            want = "".join(ch if 0x21 <= ord(ch) <= 0x7e and ch != "/" else "_" for ch in n0)
            hub.wait(lambda: os.path.exists(ro) and open(ro).read(), 10)
            g = open(ro).read() if os.path.exists(ro) else None
            if want.isalnum() and g != want + "\n": raise V("reset command wrote %r, expected %r" % (g, want))
        else:
            hub.settle(.02)
            if os.path.exists(ro): raise V("a reset command ran although none is configured")
        st.seen("resetcmd %s" % bool(s["resetcmd"]))
        sess.close(); D.sync_idle()
        # --- logs
        for n, k in c.cons.items():
            if "L" in k:
                k["L"].conn.send(b"a\x01b\r\nnext\x82\r\n")
        D.sync_idle()
        hub.settle(.02)
        D.sync_idle()
        logs = {k["log"] for k in c.cons.values() if k["log"]}
        for n, k in c.cons.items():
            if not k["log"]:
                st.seen("no log: " + k["src"])
                continue
            def rd():
                try: return open(k["log"], "rb").read()
                except OSError: return None
            if k["kind"] == "process": hub.wait(lambda: k["tag"].encode() in (rd() or b""), 10)
            if k["kind"] in ("unix", "telnet"): hub.wait(lambda: b"next" in (rd() or b""), 5)
            b = rd()
            if b is None:
                raise V("console %r has no log at %r" % (n, k["log"]), files=[os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs])
            if b"Console [" + n.encode() + b"]" not in b: raise V("log %r belongs to another console: %r" % (k["log"], b[:200]))
            o = k["opts"]
            if k["kind"] == "process" and k["tag"].encode() not in b:
                raise V("console %r ran %r, expected %r" % (n, b, k["tag"]))
            if k["kind"] in ("unix", "telnet"):
                body = b[b.rfind(b"\r\n", 0, b.find(b"b\r\n") if b"b\r\n" in b else len(b)):]
                san = b"a^Ab\r\n" in b and b"next~B\r\n" in b
                raw = b"a\x01b\r\n" in b and b"next\x82\r\n" in b
                if san == raw or san != o["sanitize"]: raise V("console %r sanitize=%s but logged %r" % (n, o["sanitize"], b))
                stamp = bool(re.search(rb"\d\d\d\d-\d\d-\d\d \d\d:\d\d:\d\d next", b))
                if stamp != o["timestamp"]: raise V("console %r timestamp=%s but logged %r" % (n, o["timestamp"], b))
                if re.search(rb"\d\d:\d\d:\d\d a", b) is None and o["timestamp"]: raise V("console %r first line lacks its timestamp: %r" % (n, b))
            fd = os.open(k["log"], os.O_RDWR)
            lk = fcntl.fcntl(fd, fcntl.F_GETLK, struct.pack("hhlli4x", fcntl.F_WRLCK, 0, 0, 0, 0))
            os.close(fd)
            held = struct.unpack("hhlli4x", lk)[0] != fcntl.F_UNLCK
            if held != o["lock"]: raise V("console %r lock=%s but the log is %slocked" % (n, o["lock"], "" if held else "not "))
            st.seen("log %s %s san=%s ts=%s lock=%s" % (k["src"], k["kind"], o["sanitize"], o["timestamp"], o["lock"]))
        # --- no other file appeared
        # --- periodic timestamps
        if logs and s["timestamp"] <= 1440 and not (s["timestamp"] != 1 and any(k["kind"] == "test" for k in c.cons.values())):
            lg = sorted(logs)[0]
            n0 = open(lg, "rb").read().count(b"<ConMan> Console [")
            per = s["timestamp"] * 60 or 86400
            def marks():
                return len(re.findall(rb"<ConMan> Console \[[^\r\n]*\] log at ", open(lg, "rb").read()))
            now = shim["NOW"] // 1000000
            nxt = (now // per + 1) * per
            base = marks()
            if nxt - now > 3:
                D.advance(nxt - now - 2)
                if marks() != base: raise V("timestamp before its time (interval %d min)" % s["timestamp"])
                D.advance(4)
            else:
                D.advance(nxt - now + 2)
            hub.settle(.02); D.sync_idle()
            hub.wait(lambda: marks() == base + (1 if s["timestamp"] else 0), 3)
            if marks() != base + (1 if s["timestamp"] else 0):
                raise V("timestamp=%d min: %d marks after the interval" % (s["timestamp"], marks() - base))
            st.seen("timestamp=%d" % s["timestamp"])
        D.check_alive()
        for k in c.kinds: st.seen("set " + k, 0)
        st.sample(text[:400])
        shim["MODE"] = 0
    except Violation as v:
        v.data.setdefault("conf", text)
        raise
    finally:
        D.kill()
        shim.close()

C.run_cases(case, [C.rng("conf").randrange(1 << 40) for _ in range(1)] and (lambda g: [g.randrange(1 << 40) for _ in range(C.q(900, 12000))])(C.rng("conf")))

def background(i, d, st):
    """Daemon log file, priority and pid file of a daemon in the background."""
    rng = random.Random(i)
    prio = rng.choice(PRIO + [None])
    rel = rng.random() < .5
    # relative names lead into the scratch directory from its own path as well as from /
    ld = rng.choice([None, d[1:] + "/lg", d + "/lg2"])
    name = rng.choice([d[1:] + "/dm.log", d[1:] + "/sub/dm.log", d + "/abs/dm.log"])
    lines = []
    if ld: lines.append('server logdir="%s"' % ld)
    if rng.random() < .4: lines.append('server logdir=""'); cleared, ld = True, None       # back to the current directory
    else: cleared = False
    path = os.path.join(os.path.join(d, ld) if ld else d, name)
    cname = rng.choice([d[1:] + "/c.log", d + "/cabs/c.log"])
    glob_ = rng.random() < .5
    cpath = os.path.join(os.path.join(d, ld) if ld else d, cname)
    w = "%s,%s" % (name, prio if rng.random() < .5 else (prio or "").upper()) if prio else name
    lines.append('server logfile="%s"' % w)
    if glob_: lines.append('global log="%s"' % cname.replace("/c.log", "/%N.log")); cpath = cpath.replace("/c.log", "/c0.log")
    rest = ['server pidfile="%s/pid" port=0' % d, 'console name="c0" dev="test:"' + ("" if glob_ else ' log="%s"' % cname), "server bogus=1", 'server loopback=on']
    rng.shuffle(rest)
    conf = "\n".join(lines + rest) + "\n"
    p = os.path.join(d, "conf"); open(p, "w").write(conf)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:log_path=%s/bg.san" % d, UBSAN_OPTIONS="log_path=%s/bg.san" % d)
    pr = subprocess.run([exe, "-c", p], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    pid = None
    try:
        if pr.returncode != 0: raise Violation("background start failed: %r" % pr.stdout, conf=conf)
        pid = int(open(d + "/pid").read())
        if "CONFIG[" not in pr.stdout.decode(): raise Violation("a line in error was not reported before daemonizing: %r" % pr.stdout, conf=conf)
        hubw = time.monotonic() + 10
        def rd():
            try: return open(path).read()
            except OSError: return ""
        lvl = LEVEL[prio] if prio else 6
        while time.monotonic() < hubw and lvl >= 6 and "Open file limit" not in rd(): time.sleep(.02)
        while time.monotonic() < hubw and not os.path.exists(cpath): time.sleep(.02)
        os.kill(pid, signal.SIGTERM)
        while os.path.exists("/proc/%d" % pid) and time.monotonic() < hubw + 10:
            time.sleep(.02)
        t = rd()
        if not os.path.exists(cpath): raise Violation("no console log at %s" % cpath, conf=conf)
        if not os.path.exists(path): raise Violation("no daemon log at %s" % path, conf=conf)
        for msg, l in (("Starting ConMan daemon", 5), ("Listening on TCP port", 6), ("Open file limit set", 6), ("Stopping ConMan daemon", 5)):
            if (msg in t) != (l <= lvl):
                raise Violation("priority %s: message %r is %s the daemon log" % (prio, msg, "in" if msg in t else "missing from"), conf=conf, log=t)
        for l in t.splitlines():
            if not re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [A-Z]+: ", l): raise Violation("daemon log line without timestamp and priority: %r" % l)
        if os.path.exists(d + "/pid"): raise Violation("pid file left behind")
        st.seen("background prio=%s logdir=%s name=%s console=%s%s" % (prio, "cleared" if cleared else ld and ld[0] == "/", name[0] == "/", cname[0] == "/", " global" if glob_ else ""), 5)
        san = "".join(open(f).read() for f in glob.glob(d + "/bg.san*"))
        if san: raise Violation("sanitizer report: " + san_summary(san), key=san_key(san))
    finally:
        if pid and os.path.exists("/proc/%d" % pid):
            try:
                if os.path.realpath("/proc/%d/exe" % pid) == os.path.realpath(exe): os.kill(pid, signal.SIGKILL)
            except OSError: pass
C.run_cases(background, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(80, 900))])(C.rng("bg")), label="bg")
C.finish(min_evals=1500)
