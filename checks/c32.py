"""C32: stopping the daemon at any moment: prompt, successful, everything released, nothing already received lost."""
import common, fcntl, termios
from vf import *
C = Check("C32", "one evaluation = one stop of the daemon under some load, with exit status, time, pid file, sessions, consoles, port, helpers, tty settings checked and every log compared with what was sent and with the bytes the daemon had read; "
          "distinct = (signal, foreground, load, state of clients, build)")
exe = {v: build_daemon(v) for v in ("asan", "plain")}
tool = build_harness("t_helper", [], "plain")
def gone(p):
    try: return open("/proc/%d/stat" % p).read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError: return True
def children(p):
    r = []
    for x in glob.glob("/proc/[0-9]*/stat"):
        try: s = open(x).read()
        except OSError: continue
        if int(s.rsplit(")", 1)[1].split()[1]) == p: r.append(int(s.split()[0]))
    return r

def case(i, d, st):
    rng = random.Random(i)
    subreaper()
    hub = Hub()
    variant = rng.choice(["asan", "plain"])
    cons = {}
    reset = rng.choice(["exit 0", "exec sleep 90", "exit 0"])
    conf = 'server port=0\nserver resetcmd="%s"\n' % reset
    nu = rng.choice([1, 2, 6])
    raw = []
    for j in range(nu):
        nm = "u%d" % j; raw.append(nm)
        cons[nm] = unix_console(hub, d + "/" + nm, nm)
        conf += 'console name=%s dev="unix:%s/%s" log="%s/log-%s"\n' % (nm, d, nm, d, nm)
    cons["t0"] = tcp_console(hub, "t0", TelnetPeer); raw.append("t0")
    conf += 'console name=t0 dev="127.0.0.1:%d" log="%s/log-t0"\n' % (cons["t0"].port, d)
    helper = rng.choice(["echo", "hang", "echo", "closefds"])
    conf += 'console name=p0 dev="%s %s %s" log="%s/log-p0"\n' % (tool, d, helper, d)
    pt = PtySerial(hub, "s0") if rng.random() < .4 else None
    if pt:
        conf += 'console name=s0 dev="%s" seropts="%s" log="%s/log-s0"\n' % (pt.path, rng.choice(["9600", "115200,8n1", "1200"]), d)
        a = termios.tcgetattr(pt.slave); a[0] |= termios.ICRNL; a[3] |= termios.ECHO | termios.ICANON; a[4] = a[5] = rng.choice([termios.B4800, termios.B38400]); termios.tcsetattr(pt.slave, termios.TCSANOW, a)
        tty0 = termios.tcgetattr(pt.slave)
    if rng.random() < .4: cons["v"] = unix_console(hub, d + "/v", "v"); conf += 'console name=v dev="unix:%s/v" log="%s/log-v" logopts="sanitize,timestamp"\n' % (d, d)
    if rng.random() < .3: conf += 'console name=down dev="unix:%s/none"\nconsole name=down2 dev="127.0.0.1:1"\n' % d
    if rng.random() < .2: conf += 'console name=full dev="unix:%s/f" log="/dev/full" logopts="nolock"\n' % d; cons["full"] = unix_console(hub, d + "/f", "full")
    bg = rng.random() < .6
    sh = Shim(d); sh["SEED"] = i & 0xffff
    if rng.random() < .4: sh["THRDELAY"] = rng.choice([2000, 30000])
    if rng.random() < .3: sh["RSHORT"] = rng.choice([50, 1000])
    pidp = d + "/run/conmand.pid"
    if rng.random() < .5: os.mkdir(d + "/run")
    args = []
    if bg: D = BgDaemon(exe[variant], conf, d, hub, shim=sh, pidpath=pidp)
    else: D = Daemon(exe[variant], 'server pidfile="%s"\n' % pidp + conf, d, hub, shim=sh)
    if rng.random() < .3: sh["EINTR"] = 200
    held = []
    dp = D.dpid
    stuff = "?"
    port = D.port
    try:
        if not os.path.exists(pidp) or int(open(pidp).read()) != dp: raise Violation("pid file does not hold the daemon's pid")
        early = rng.random() < .15                               # stopped while it is still connecting
        sent = {n: b"" for n in cons}
        fdof, base = {}, {}
        viewers = {}
        if not early:
            if not hub.wait(lambda: all(c.up for c in cons.values()), 10): raise Inconclusive("consoles not up")
            for n in cons:
                if rng.random() < .5 and n != "full":
                    v = D.client("v"); v.session("MONITOR", [n]); viewers[n] = v; held.append(v)
            hub.wait(lambda: sh["NTHREAD"] == sh["THRDONE"], 10); hub.settle(.02, .3)
            # learn which descriptor each console's output is read from: the daemon's reads are recorded from here on
            sh["LOGIO"] = 1
            for j, n in enumerate(raw):
                t = b"%d" % (j % 10) * (200 + j); sent[n] += t
                k = len(open(sh.log, "rb").read())
                cons[n].conn.send(t)
                def rd():
                    m = {}
                    for f, b in re.findall(rb" read (\d+) (\d+)\n", open(sh.log, "rb").read()[k:]): m[int(f)] = m.get(int(f), 0) + int(b)
                    return [f for f, b in m.items() if b == len(t)]
                if not hub.wait(lambda: len(rd()) == 1, 10): raise Inconclusive("cannot tell the console's descriptor")
                fdof[n] = rd()[0]
            for n in raw:
                def ok(): return split_info(open(d + "/log-" + n, "rb").read())[0] == sent[n]
                if not hub.wait(ok, 10): raise Violation("output of console %s is not logged before the stop" % n, soft=True)
            if "v" in cons: cons["v"].conn.send(b"settled line\r\n"); hub.wait(lambda: b"settled line" in open(d + "/log-v", "rb").read(), 5)
        # clients in every state
        state = []
        for _ in range(rng.choice([0, 2, 6])):
            s = rng.choice(["silent", "part", "hello", "inflight", "inflight", "inflight", "query", "rw", "bcast", "susp", "stalled", "reset", "gone", "regex"])
            try: c = Client(hub, D.port, s, ctimeout=3)
            except OSError: break
            held.append(c); state.append(s)
            H = b"HELLO USER='u' TTY='t'\n"; n = rng.choice(raw).encode()
            if s == "part": c.send(b"HELLO US")
            elif s == "hello": c.send(H)
            elif s == "inflight": c.send(H + rng.choice([b"CONNECT OPTION=FORCE CONSOLE='*'\n", b"CONNECT OPTION=FORCE OPTION=BROADCAST CONSOLE='*'\n", b"MONITOR CONSOLE='%s'\n" % n, b"CONNECT OPTION=JOIN CONSOLE='%s'\n" % n, b"CONNECT CONSOLE='p0'\n"]))
            elif s == "query": c.send(H + b"QUERY CONSOLE='*'\n")
            elif s == "regex": c.send(H + b"QUERY OPTION=REGEX CONSOLE='" + b"(u|t|p)*" * 20 + b"'\n")
            elif s in ("rw", "bcast", "susp", "stalled", "reset"):
                c.send(H + (b"CONNECT OPTION=FORCE OPTION=BROADCAST CONSOLE='*'\n" if s == "bcast" else b"CONNECT OPTION=FORCE CONSOLE='%s'\n" % n))
                hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, .5)
                if s == "susp": c.send(b"\xffZ")
                elif s == "stalled": c.paused = True
                elif s == "reset": c.send(b"\xffR"); hub.settle(.005, .05)
                else: c.send(b"keys")
            elif s == "gone": c.send(H); c.close(rst=rng.random() < .5)
        # load
        load = rng.choice(["none", "burst", "flow", "flow"]) if not early else "none"
        if load != "none":
            for _ in range(rng.randrange(1, 8)):
                for n in raw:
                    if rng.random() < .7:
                        b = bytes(rng.choice(b"abcdefgh\n") for _ in range(50)) * rng.choice([1, 40, 400])
                        sent[n] += b; cons[n].conn.send(b)
                if "v" in cons and rng.random() < .5: cons["v"].conn.send(b"x\r\ny\n" * 300)
                if load == "flow": hub.pump(rng.choice([0, .001, .004]))
        for _ in range(rng.choice([0, 0, 5, 30])): D.sendsig(rng.choice([signal.SIGHUP, signal.SIGPIPE, signal.SIGCHLD]))
        if rng.random() < .3:
            hub.pump(.02); D.check_alive("after signals that do not stop it")
        if rng.random() < .3: time.sleep(rng.random() * .01)
        kids = children(dp)
        sig = rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT])
        stuff = "sig=%d bg=%s early=%s load=%s %s" % (sig, bg, early, load, variant)
        t0 = time.monotonic()
        D.sendsig(sig)
        if rng.random() < .3:                                     # further signals while it is stopping
            for _ in range(3):
                try: D.sendsig(rng.choice([signal.SIGHUP, signal.SIGPIPE, signal.SIGTERM]))
                except ProcessLookupError: pass
        # what sessions already hold must be in the logs (the peers go on reading until the end)
        poll = (lambda: D.poll()) if bg else (lambda: D.p.poll())
        while poll() is None and time.monotonic() - t0 < 25: hub.pump(.002)
        dt = time.monotonic() - t0
        rc = poll()
        san = D.san_text()
        if san and ("ERROR" in san or "runtime error" in san): raise Violation("%s: sanitizer report while stopping: %s" % (stuff, san_summary(san)), key=san_key(san), san=san[:5000])
        if rc is None: raise Violation("%s, clients %s: still running %.0f s after the signal" % (stuff, state, dt), soft=True)
        if dt > 10: raise Violation("%s: took %.1f s to stop" % (stuff, dt), soft=True)
        if rc != 0: raise Violation("%s, clients %s: exit status %r, not 0: %s" % (stuff, state, rc, D.log_text()[-300:]))
        if os.path.exists(pidp): raise Violation("%s: pid file left behind" % stuff)
        for c in held: c.paused = False
        end = lambda: all(c.eof or c.closed for c in held) and all(x.eof or x.closed for c in cons.values() for x in c.conns)
        if not hub.wait(end, 10):
            raise Violation("%s: left open after the exit: sessions %s, consoles %s" % (stuff, [c.name for c in held if not (c.eof or c.closed)], [n for n, c in cons.items() if any(not (x.eof or x.closed) for x in c.conns)]), soft=True)
        try: socket.create_connection(("127.0.0.1", port), 1).close(); raise Violation("%s: port still accepts connections after the exit" % stuff)
        except OSError: pass
        for p in kids:
            if reset != "exit 0" and "reset" in state: continue   # a reset command may outlive the daemon
            if not hub.wait(lambda: gone(p), 10): raise Violation("%s: helper program %d still runs after the exit" % (stuff, p), soft=True)
        if pt:
            if termios.tcgetattr(pt.slave) != tty0: raise Violation("%s: serial device not restored: %r, was %r" % (stuff, termios.tcgetattr(pt.slave), tty0))
        t = D.log_text()
        if "Exiting on signal=" not in t or "Stopping ConMan daemon" not in t: raise Violation("%s: stop not reported in the daemon's log: %s" % (stuff, t[-300:]))
        # logs
        if fdof:
            io = open(sh.log, "rb").read()
            tot = {}
            for f, b in re.findall(rb" read (\d+) (\d+)\n", io): tot[int(f)] = tot.get(int(f), 0) + int(b)
            for n in raw:
                p, _ = split_info(open(d + "/log-" + n, "rb").read())
                if not sent[n].startswith(p): raise Violation("%s: log of %s is not a prefix of what its console sent: %s" % (stuff, n, diffpos(sent[n], p)))
                if len(cons[n].conns) == 1 and len(p) != tot[fdof[n]]:
                    raise Violation("%s: the daemon had read %d bytes of console %s when it stopped, %d are in its log (%s)" % (stuff, tot[fdof[n]], n, len(p), "unwritten data reported" if "unwritten" in t else "nothing reported"), soft=False)
                if n in viewers and "Overwrote" not in t and len(split_info(bytes(viewers[n].data))[0]) > len(p): raise Violation("%s: a session saw more of %s than its log holds" % (stuff, n))
                st.count("log bytes compared", len(p)); st.count("bytes still unread at the stop", len(sent[n]) - len(p))
        if "v" in cons and not early:
            if not re.search(rb"settled line\r\n", open(d + "/log-v", "rb").read()): raise Violation("%s: processed log lost a line" % stuff)
        for s in set(state) or ["no client"]: st.seen("%s %s" % (stuff, s))
        # it can be started again at once, on the same port
        if rng.random() < .3:
            sh2 = Shim(d); D.shim = sh2; D.env.update(sh2.env)
            D.conf_path = d + "/again.conf"
            open(D.conf_path, "w").write(('server logfile="%s,info"\nserver pidfile="%s"\n' % (d + "/bg.log", pidp)) + conf.replace("port=0", "port=%d" % port))
            if bg: D.pid = D.rc = None
            D.start(30)
            k, kv = D.query()
            if k != b"OK": raise Violation("restarted daemon does not answer")
            if D.stop() != 0: raise Violation("second stop: exit status")
            sh2.close()
            st.seen("restart on the same port bg=%s" % bg)
        st.sample("%s clients %s: %.2f s" % (stuff, state, dt))
    finally:
        D.kill(); sh.close()
        for c in held: c.close()
        if pt: pt.close()
        for p in children(os.getpid()):
            try: os.kill(p, 9)
            except OSError: pass
        subprocess.run(["pkill", "-9", "-f", tool + " " + d], stdout=subprocess.DEVNULL)
def diffpos(a, b):
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return "at byte %d: sent %r, logged %r" % (k, a[k:k + 40], b[k:k + 40])

def starting(i, d, st):
    """The signal arrives while the daemon is starting: it ends, and no pid file stays behind."""
    rng = random.Random(i)
    subreaper()
    hub = Hub()
    pidp = d + "/pid"
    conf = 'server port=0\nserver pidfile="%s"\n' % pidp + "".join('console name=c%d dev="test:"\n' % k for k in range(rng.choice([1, 300, 2000])))
    sh = Shim(d)
    D = Daemon(exe["plain"], conf, d, hub, shim=sh, start=False)
    try:
        D.spawn()
        end = time.monotonic() + rng.choice([.001, .003, .01, .02, .05]) * rng.random()
        while time.monotonic() < end: pass
        D.p.send_signal(signal.SIGTERM)
        try: rc = D.p.wait(20)
        except subprocess.TimeoutExpired: raise Violation("signal during start ignored", soft=True)
        ann = "Starting ConMan" in D.log_text()
        if os.path.exists(pidp) and ann: raise Violation("pid file left behind by a signal during start")
        if ann and rc != 0: raise Violation("exit status %s for a signal during start" % rc)
        st.seen("start: %s" % ("clean exit" if rc == 0 else "ended before it was set up"))
    finally:
        D.kill(); sh.close()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(1600, 12000))], label="stop")
g = C.rng("s"); C.run_cases(starting, [g.randrange(1 << 40) for _ in range(C.q(150, 1500))], label="start")
C.finish(min_evals=500)
