"""C23: helper processes inherit nothing, get a clean environment, and are ended and reaped."""
import common
from vf import *
C = Check("C23", "one evaluation = one helper process whose own record of its descriptors, environment and ids was checked, or one moment at which the daemon's children were compared with what must run; "
          "distinct = (helper kind, behaviour, event that ended it, daemon mode, environment given)")
exe = build_daemon("asan")
tool = build_harness("t_helper", [], "plain")
STD = {"IFS": " \t\n", "TERM": "dumb", "PATH": "/usr/bin:/bin:/usr/sbin:/sbin"}
HOSTILE = {"IFS": "/x", "PATH": "/tmp/evil:/usr/bin:/bin", "BASH_ENV": "/tmp/evil", "ENV": "/tmp/evil", "HOME": "/nowhere", "USER": "eve", "SHELL": "/bin/evil", "LD_LIBRARY_PATH": "/tmp/evil",
           "PYTHONPATH": "/tmp/evil", "CDPATH": "/tmp", "TERM": "xterm", "LANG": "tlh", "EDITOR": "evil", "LC_ALL": "C", "SHELLOPTS": "xtrace", "PS4": "$(evil)", "GCONV_PATH": "/tmp/evil", "X" * 300: "y" * 3000}
def stat_of(p):
    try: w = open("/proc/%d/stat" % p).read().rsplit(")", 1)[1].split()
    except OSError: return None
    return w[0], int(w[1]), int(w[2])
def children(pid):
    r = {}
    for p in glob.glob("/proc/[0-9]*"):
        s = stat_of(int(p[6:]))
        if s and s[1] == pid: r[int(p[6:])] = s[0]
    return r
def record(d, pid):
    try: t = open(d + "/h-%d" % pid).read()
    except OSError: return None
    r = dict(fd={}, env=[], ids=None, arg=[], mode=None)
    for l in t.splitlines():
        k, _, v = l.partition(" ")
        if k == "fd":
            a, _, b = v.partition(" "); r["fd"][int(a)] = b
        elif k == "env": r["env"].append(re.sub(r"\\([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), v))
        elif k == "ids": r["ids"] = tuple(map(int, v.split()))
        elif k == "arg": r["arg"].append(v)
        elif k == "mode": r["mode"] = v
    return r
def judge(r, kind, env, dpid, what):
    if sorted(r["fd"]) != [0, 1, 2]: raise Violation("%s helper was given descriptors %r" % (kind, r["fd"]))
    t = set(r["fd"].values())
    if kind == "process" and (len(t) != 1 or not t.pop().startswith("socket:")): raise Violation("process helper's standard streams are %r" % r["fd"])
    if kind == "reset" and t != {"/dev/null"}: raise Violation("reset helper's standard streams are %r" % r["fd"])
    got = {}
    for e in r["env"]:
        k, _, v = e.partition("=")
        if k in got: raise Violation("%s helper's environment has %s twice" % (kind, k))
        got[k] = v
    want = dict(STD)
    for k in ("DEBUG", "TZ"):
        if k in env: want[k] = env[k]
    if kind == "reset":
        for k in ("PWD", "OLDPWD", "SHLVL", "_"): got.pop(k, None)      # the shell's own
        if got.get("IFS") is None: want.pop("IFS")                       # shells do not pass on the IFS they import
    want["PATH"] = got.get("PATH") if got.get("PATH") and all(x.startswith(("/usr", "/bin", "/sbin")) for x in got["PATH"].split(":")) else "(standard path)"
    if got != want: raise Violation("%s helper's environment is %r, expected %r" % (kind, got, want))
    pid, pp, pg, sid = r["ids"]
    if kind == "reset":
        if pg == os.getpgid(dpid): raise Violation("reset command runs in the daemon's process group")
    elif pp != dpid: raise Violation("helper's parent is %d" % pp)

def case(i, d, st):
    rng = random.Random(i)
    subreaper()
    hub = Hub()
    bg = rng.random() < .4
    env = {"TZ": "UTC"}
    if rng.random() < .3: env["DEBUG"] = rng.choice(["1", "", "x y"])
    if rng.random() < .2: env["TZ"] = "EST5EDT"
    henv = dict(env)
    if rng.random() < .8: henv.update({k: HOSTILE[k] for k in rng.sample(list(HOSTILE), rng.randrange(1, len(HOSTILE)))})
    np = rng.randrange(1, 4)
    reset = rng.random() < .7
    conf = "server port=0\n"
    if reset: conf += 'server resetcmd="%s %s exit %%N"\n' % (tool, d)
    u = unix_console(hub, d + "/u", "u")
    tl = tcp_console(hub, "t", cls=TelnetPeer)
    conf += 'console name=u dev="unix:%s/u" log="%s/log-u"\nconsole name=t dev="127.0.0.1:%d" log="%s/log-t"\nconsole name=e dev="test:" testopts="m:2000000000,n:2000000000"\n' % (d, d, tl.port, d)
    pty = PtySerial(hub) if rng.random() < .5 else None
    if pty: conf += 'console name=s dev="%s" log="%s/log-s"\n' % (pty.path, d)
    mode = {}
    for j in range(np):
        mode["p%d" % j] = rng.choice(["echo", "echo", "exit", "closefds", "ignore"])
        open(d + "/m-p%d" % j, "w").write(mode["p%d" % j])
        conf += "console name=p%d dev='%s %s file:%s/m-p%d a%d' log=\"%s/log-p%d\"\n" % (j, tool, d, d, j, j, d, j)
    shim = Shim(d); shim["SEED"] = i & 0xffff
    shim["NOW"] = shim["TARGET"] = 1700000000 * 1000000; shim["MODE"] = 1
    D = (BgDaemon if bg else Daemon)(exe, conf, d, hub, shim=shim, env=henv)
    off = [0]
    def forks():
        with open(shim.log) as f:
            f.seek(off[0]); b = f.read(); off[0] += b.rfind("\n") + 1
        return [int(w[3]) for w in (l.split() for l in b.splitlines()) if len(w) > 3 and w[2] == "fork" and int(w[1]) == D.dpid]
    sess = []
    seen = set()
    kind = {}
    try:
        def look(what):
            D.sync_idle()
            lt = D.log_text()
            for p in forks(): kind[p] = "reset" if "reset by <u@localhost> (pid %d)" % p in lt else "process"
            for p, k in kind.items():
                if p in seen: continue
                if k == "process":
                    if not hub.wait(lambda: record(d, p) or not os.path.exists("/proc/%d" % p), 10): raise Violation("helper did not start", soft=True)
                    r = record(d, p)
                    if not r: raise Violation("helper of a process console died before it ran", soft=True)
                    rs = [r]
                else:
                    hub.wait(lambda: not os.path.exists("/proc/%d" % p), 10)
                    rs = [record(d, q) for q in map(int, (f[len(d) + 3:] for f in glob.glob(d + "/h-*"))) if q not in kind and q not in seen]
                    for r in rs: seen.add(r["ids"][0])
                    if kind[p] == "reset" and not rs and p in kind: rs = [record(d, p)] if record(d, p) else []
                for r in rs:
                    judge(r, k, env, D.dpid, what)
                    st.seen("%s %s bg=%s env=%s" % (k, r["arg"][2], bg, sorted(env)))
                seen.add(p)
            # which helpers must be running
            up = dict(re.findall(r"Console \[(p\d)\] connected to \"[^\"]*\" \(pid (\d+)\)", lt))
            def want():
                lt = D.log_text()
                r = set()
                for n in mode:
                    m = re.findall(r"Console \[%s\] (connected|disconnected) (?:to|from) \"[^\"]*\" \(pid (\d+)\)" % n, lt)
                    if m and m[-1][0] == "connected": r.add(int(m[-1][1]))
                return r
            ok = lambda: children(D.dpid) == {p: "S" for p in want()} or (set(children(D.dpid)) == want() and "Z" not in children(D.dpid).values())
            if not hub.wait(ok, 8):
                D.check_alive(what)
                raise Violation("%s: daemon's children are %r, expected the helpers %r" % (what, children(D.dpid), want()), soft=True)
            for p in want():
                r = record(d, p)
            st.seen("children n=%d %s bg=%s" % (len(want()), what.split()[0], bg))
        look("start")
        for step in range(rng.randrange(5, 14)):
            op = rng.choice(["adv", "adv", "attach", "attach", "reset", "kill", "mode", "quit", "drop", "hup"])
            if op == "adv": D.advance(rng.choice([1, 59, 61, 130, 300, 2000]))
            elif op == "attach" and len(sess) < 8:
                c = D.client("x")
                n = rng.choice(list(mode) * 2 + ["u", "t", "e"] + (["s"] if pty else []))
                if c.session("CONNECT", [n], ["JOIN"])[0] == b"OK": sess.append(c)
                hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"], 10)
            elif op == "reset" and sess:
                c = rng.choice(sess)
                if not c.eof: c.send(b"\xffR"); hub.settle(.01, .1); D.sync_idle()
            elif op == "kill":
                ps = [p for p, s_ in children(D.dpid).items() if s_ != "Z" and kind.get(p) == "process"]
                if ps: os.kill(rng.choice(ps), rng.choice([signal.SIGKILL, signal.SIGTERM]))
            elif op == "mode":
                n = rng.choice(list(mode)); mode[n] = rng.choice(["echo", "echo", "exit", "closefds", "ignore"])
                open(d + "/m-" + n, "w").write(mode[n])
            elif op == "quit" and sess: sess.pop(rng.randrange(len(sess))).close()
            elif op == "drop": (rng.choice([u, tl]).conn or u.conn).close()
            elif op == "hup": D.sendsig(signal.SIGHUP)
            hub.settle(.004, .1); D.sync_idle()
            look(op)
        # (helpers that ignore the SIGTERM sent on exit are not expected to end)
        last = [p for p in children(D.dpid) if (record(d, p) or {}).get("mode") != "ignore"]
        rc = D.stop(rng.choice([signal.SIGTERM, signal.SIGINT]))
        if not bg and rc != 0 or bg and rc not in (0, "unknown"): raise Violation("daemon exit status %r" % rc)
        if not hub.wait(lambda: all((stat_of(p) or "Z")[0] == "Z" for p in last), 8): raise Violation("helpers %r outlived the daemon" % [(p, stat_of(p)) for p in last], soft=True)
        st.seen("exit bg=%s helpers=%d" % (bg, len(last)))
        st.sample("bg=%s env=%s %s" % (bg, sorted(henv)[:4], sorted(mode.items())))
    finally:
        D.kill()
        for p in kind:
            if (stat_of(p) or (0, 0, 0))[0] and (record(d, p) or kind[p]): 
                try:
                    if os.readlink("/proc/%d/exe" % p).endswith(os.path.basename(tool)): os.kill(p, signal.SIGKILL)
                except OSError: pass
        shim.close()

def race(i, d, st):
    """Clients attach at the very moment reconnection timers expire."""
    rng = random.Random(i)
    subreaper()
    hub = Hub()
    np, nt, nu = rng.randrange(1, 4), rng.randrange(0, 3), rng.randrange(0, 2)
    conf = "server port=0\n"
    tl = [tcp_console(hub, "t%d" % j, cls=TelnetPeer) for j in range(nt)]
    for j, l in enumerate(tl): conf += 'console name=t%d dev="127.0.0.1:%d"\n' % (j, l.port)
    for j in range(np):
        open(d + "/m-p%d" % j, "w").write("exit")
        conf += "console name=p%d dev='%s %s file:%s/m-p%d'\n" % (j, tool, d, d, j)
    shim = Shim(d); shim["SEED"] = i & 0xffff
    shim["NOW"] = shim["TARGET"] = 1700000000 * 1000000; shim["MODE"] = 1
    D = Daemon(exe, conf, d, hub, shim=shim, env={"TZ": "UTC"})
    pids = set()
    try:
        D.sync_idle()
        due = 1700000000
        for rnd in range(4):
            for j in range(np): open(d + "/m-p%d" % j, "w").write("exit")
            # every program exits: wait until all are down, their retry delay running
            ps = children(D.dpid)
            for p in ps: os.kill(p, signal.SIGKILL)
            for l in tl:
                if l.conn: l.conn.close()
            def down():
                t = D.log_text()
                return all(t.rfind("Console [p%d] disconnected" % j) > t.rfind("Console [p%d] connected" % j) for j in range(np)) and not children(D.dpid)
            if not hub.wait(down, 10): raise Violation("programs that ended are still regarded as running: %r" % (children(D.dpid),), soft=True)
            D.sync_idle()
            for j in range(np): open(d + "/m-p%d" % j, "w").write("echo")
            names = ["p%d" % j for j in range(np)] + ["t%d" % j for j in range(nt)]
            cl = [D.client("x%d" % k) for k in range(rng.randrange(1, 5))]
            for c in cl: c.hello()
            shim["FORKDELAY"] = rng.choice([0, 300, 3000, 10000]); shim["SOCKDELAY"] = rng.choice([0, 300, 3000])
            for c in cl:
                n = rng.sample(names, rng.randrange(1, len(names) + 1))
                c.send(b"CONNECT OPTION=JOIN" + (b" OPTION=BROADCAST" if len(n) > 1 else b"") + b"".join(b" CONSOLE='" + x.encode() + b"'" for x in n) + b"\n")
                if rng.random() < .3: time.sleep(rng.random() * .003)
            x = rng.random()
            if x < .7: time.sleep(rng.choice([0, 0, 0, .0003, .001, .003]))
            shim["TARGET"] = max(shim["TARGET"], shim["NOW"]) + 3700 * 1000000
            hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"] and shim["NTHREAD"] >= 1, 10)
            D.sync_idle(); hub.settle(.005, .2); D.sync_idle()
            shim["FORKDELAY"] = shim["SOCKDELAY"] = 0
            D.advance(3700); hub.settle(.005, .2)
            D.advance(3700); hub.settle(.005, .2); D.sync_idle()
            D.check_alive("race")
            def want():
                t = D.log_text(); r = set()
                for j in range(np):
                    m = re.findall(r"Console \[p%d\] (connected|disconnected) (?:to|from) \"[^\"]*\" \(pid (\d+)\)" % j, t)
                    if m and m[-1][0] == "connected": r.add(int(m[-1][1]))
                return r
            if not hub.wait(lambda: set(children(D.dpid)) == want() and len(want()) == np, 8):
                raise Violation("round %d: daemon's children are %r, expected the running helpers of %d consoles %r" % (rnd, children(D.dpid), np, want()), soft=True)
            for l in tl:
                live = [c for c in l.conns if not c.eof and not c.closed]
                if len(live) > 1: raise Violation("round %d: %d connections are open for one console" % (rnd, len(live)), soft=True)
            st.seen("race np=%d nt=%d clients=%d delays=%d,%d" % (np, nt, len(cl), shim["FORKDELAY"], shim["SOCKDELAY"]))
            for p in want():
                if p in pids: continue
                pids.add(p)
                hub.wait(lambda: record(d, p), 5)
                r = record(d, p)
                if r and sorted(r["fd"]) != [0, 1, 2]: raise Violation("process helper was given descriptors %r" % r["fd"], soft=True)
                st.seen("race helper")
            for c in cl: c.close()
            hub.settle(.005, .2); D.sync_idle()
        D.stop(signal.SIGTERM)
    finally:
        D.kill(); shim.close()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(900, 12000))])(C.rng("b")))
C.run_cases(race, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(150, 4000))])(C.rng('r')), label='race')
C.finish(min_evals=300)
