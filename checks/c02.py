"""C02: clients that fail anywhere and system calls that fail affect nobody else, and the daemon keeps serving."""
import common, errno
from vf import *
C = Check("C02", "one evaluation = after one fault (client abort at a protocol stage, failing system call, exhausted descriptors, dying console) the daemon lived, answered a new client, and bystander session, console and log "
          "exchanged exactly their own bytes; distinct = (fault, stage, how, number, descriptor limit, build)")
exe = {v: build_daemon(v) for v in ("asan", "plain")}
tool = build_harness("t_helper", [], "plain")
STAGES = ["connected", "part-hello", "hello", "greeted", "part-req", "req", "query", "session", "typing", "output", "suspended", "reqbad", "escape"]
HOW = ["close", "rst", "shutwr", "shutrd", "shutboth", "silent"]

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    variant = rng.choice(["asan", "asan", "plain"])
    lim = rng.choice([None, None, 30, 36, 50])
    cons = {}
    conf = 'server port=0\nserver resetcmd="exit 0"\n'
    for nm in ("by", "u0", "u1"):
        cons[nm] = unix_console(hub, d + "/" + nm, nm)
        conf += 'console name=%s dev="unix:%s/%s" log="%s/log-%s"\n' % (nm, d, nm, d, nm)
    cons["t0"] = tcp_console(hub, "t0", TelnetPeer)
    conf += 'console name=t0 dev="127.0.0.1:%d" log="%s/log-t0"\n' % (cons["t0"].port, d)
    conf += 'console name=p0 dev="%s %s echo" log="%s/log-p0"\n' % (tool, d, d)
    full = rng.random() < .4
    if full: conf += 'console name=full dev="unix:%s/full" log="/dev/full" logopts="nolock"\n' % d; cons["full"] = unix_console(hub, d + "/full", "full")
    shim = Shim(d); shim["SEED"] = i & 0xffff
    shim["NOW"] = shim["TARGET"] = 1700000000 * 1000000; shim["MODE"] = 1
    D = Daemon(exe[variant], conf, d, hub, shim=shim, rlimit_nofile=(lim, lim) if lim else None)
    held = []
    B = None
    exp_in, exp_out, exp_log = b"", b"", b""
    def clear():
        for k in ("ACC_CNT", "GPN_CNT", "PTH_CNT", "FORK_CNT", "SOCK_CNT", "SSO_CNT", "OPEN_CNT"): shim[k] = 0
        for k in ("RSHORT", "WSHORT", "EINTR", "POSTACC", "THRDELAY"): shim[k] = 0
    def dclient(nm):
        for _ in range(8):
            try: return Client(hub, D.port, nm, ctimeout=.5)
            except OSError: D.check_alive("connecting"); D.advance(1.1)   # its backlog is full; accept() is retried every second
        raise Violation("the daemon accepts no new client", soft=True)
    def bystander(what):
        nonlocal exp_in, exp_out, exp_log
        D.check_alive(what)
        t, u = b"<%d>" % rng.randrange(10 ** 9) * rng.choice([1, 1, 40]), b"{%d}" % rng.randrange(10 ** 9) * rng.choice([1, 1, 40])
        exp_out += t; exp_in += u
        cons["by"].conn.send(t); B.send(u)
        if not hub.wait(lambda: len(B.data) >= len(exp_out) and len(cons["by"].conn.rx) >= len(exp_in), 20) or B.data != exp_out or bytes(cons["by"].conn.rx) != exp_in:
            raise Violation("%s: bystander's session got %r of %r, its console %r of %r%s" % (what, B.data[-80:], exp_out[-80:], bytes(cons["by"].conn.rx[-80:]), exp_in[-80:], " (closed)" if B.eof else ""), soft=True)
        def lg():
            p, _ = split_info(open(d + "/log-by", "rb").read()); return p
        if not hub.wait(lambda: lg() == exp_out, 10): raise Violation("%s: bystander's log holds %r, expected %r" % (what, lg()[-80:], exp_out[-80:]), soft=True)
        if len(cons["by"].conns) != 1: raise Violation("%s: bystander's console was reconnected" % what)
    def served(what):
        for _ in range(8):                                     # while descriptors are short, accept() is retried every second (of virtual time)
            q = dclient("probe")
            q.send(b"HELLO USER='u' TTY='t'\nQUERY CONSOLE='*'\n")
            if hub.wait(lambda: q.rx.count(b"\n") >= 2 or q.eof, .5) and q.rx.count(b"\n") >= 2: break
            q.close(); D.advance(1.1)
        l = bytes(q.rx).split(b"\n")
        q.close()
        if len(l) < 3: raise Violation("%s: a new client is not served" % what, soft=True)
        q = parse_rsp(l[1])
        exp = {b"by", b"u0", b"u1", b"t0", b"p0"} | ({b"full"} if full else set())
        if q[0] != b"OK" or set(q[1].get("CONSOLE", [])) != exp: raise Violation("%s: a new client's query was answered %r" % (what, q), soft=True)
    def kill(c, how):
        s = c.sock
        try:
            if how == "close": c.close()
            elif how == "rst": c.close(rst=True)
            elif how == "shutwr": s.shutdown(socket.SHUT_WR); held.append(c)
            elif how == "shutrd": s.shutdown(socket.SHUT_RD); held.append(c)
            elif how == "shutboth": s.shutdown(socket.SHUT_RDWR); held.append(c)
            else: held.append(c)
        except OSError: c.close()
    def abort(stage, how, tgt):
        c = dclient("x")
        if stage == "connected": pass
        elif stage == "part-hello": c.send(rng.choice([b"H", b"HELLO", b"HELLO USER='a", b"HELLO USER='u'"]))
        elif stage == "hello": c.send(b"HELLO USER='u' TTY='t'\n")
        else:
            if rng.random() < .5: c.hello()
            else: c.send(b"HELLO USER='u' TTY='t'\n")
            o = rng.choice([b"", b"OPTION=FORCE ", b"OPTION=JOIN ", b"OPTION=BROADCAST OPTION=FORCE ", b"OPTION=QUIETLY "])
            cmd = rng.choice([b"CONNECT", b"CONNECT", b"MONITOR"])
            req = cmd + b" " + o + b"CONSOLE='" + tgt + b"'"
            if stage == "part-req": c.send(req[:rng.randrange(len(req))])
            elif stage == "req": c.send(req + b"\n")
            elif stage == "query": c.send(b"QUERY CONSOLE='*'\n")
            elif stage == "reqbad": c.send(rng.choice([b"CONNECT CONSOLE='nosuch'\n", b"FOO\n", b"CONNECT OPTION=REGEX CONSOLE='('\n", b"\n", b"CONNECT CONSOLE='*'\n"]))
            elif stage != "greeted":
                c.send(req + b"\n"); hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, 5)
                if stage == "typing": c.send(bytes(rng.randrange(256) for _ in range(rng.choice([5, 3000]))).replace(b"\xff", b"."))
                elif stage == "output":
                    c.paused = True
                    if cons.get(tgt.decode()) and cons[tgt.decode()].up: cons[tgt.decode()].conn.send(b"o" * rng.choice([10, 30000]))
                elif stage == "suspended": c.send(b"\xffZ")
                elif stage == "escape": c.send(b"".join(b"\xff" + bytes([rng.choice(b"BDFJLMQRZ")]) for _ in range(rng.randrange(1, 5))) + rng.choice([b"", b"\xff"]))
                if rng.random() < .5: hub.settle(.002, .02)
        if rng.random() < .5: hub.pump(0)
        kill(c, how)
    try:
        hub.wait(lambda: all(c.up for c in cons.values()), 10)
        B = D.client("by")
        if B.session("CONNECT", ["by"])[0] != b"OK": raise Violation("no session")
        D.sync_idle(); hub.settle(.003, .1); D.sync_idle()
        bystander("start"); served("start"); hub.settle(.01, .2)
        def nfd(): return len(os.listdir("/proc/%d/fd" % D.dpid))
        base = nfd() + 2
        for step in range(rng.randrange(6, 16)):
            op = rng.choice(["abort"] * 6 + ["mixed", "accept", "accept", "gpn", "thread", "sso", "exhaust", "exhaust", "condie", "condie", "fork", "sock", "log", "io", "signals", "release", "flood", "reset"])
            tgt = rng.choice([b"u0", b"u1", b"t0", b"p0", b"full", b"*0", b"by"] if full else [b"u0", b"u1", b"t0", b"p0", b"u?"])
            if tgt == b"by": tgt = b"u0"
            what = op; n = 1
            if op in ("abort", "mixed"):
                stage, how = rng.choice(STAGES), rng.choice(HOW)
                n = rng.choice([1, 1, 2, 5, 12])
                if lim: n = min(n, 3)
                if rng.random() < .3: shim["THRDELAY"] = rng.choice([1000, 20000])
                for _ in range(n):
                    if op == "mixed": stage, how = rng.choice(STAGES), rng.choice(HOW)
                    try: abort(stage, how, tgt)
                    except Inconclusive: break
                what = "%s %s %s x%d" % (op, stage, how, n) if op == "abort" else "mixed x%d" % n
            elif op in ("accept", "gpn", "thread", "sso"):
                K, es = dict(accept=("ACC", [errno.ECONNABORTED, errno.EMFILE, errno.ENFILE, errno.EINTR, errno.ENOBUFS, errno.ENOMEM, errno.EPROTO, errno.EPERM, errno.ENETDOWN, errno.EHOSTUNREACH, errno.EAGAIN]),
                    gpn=("GPN", [errno.ENOTCONN, errno.ENOBUFS]), thread=("PTH", [errno.EAGAIN, errno.ENOMEM]), sso=("SSO", [errno.EINVAL, errno.ENOBUFS, errno.ENOTCONN]))[op]
                e = rng.choice(es); n = rng.choice([1, 1, 2, 4])
                shim[K + "_ERR"] = e; shim[K + "_CNT"] = n
                cs = []
                for _ in range(rng.randrange(1, 5)):
                    try: c = dclient("f"); c.send(b"HELLO USER='u' TTY='t'\nMONITOR CONSOLE='u0'\n"); cs.append(c)
                    except Inconclusive: pass
                hub.settle(.01, .1)
                for c in cs: kill(c, rng.choice(HOW))
                what = "%s %s x%d" % (op, errno.errorcode[e], n)
            elif op == "exhaust" and lim:                       # more clients than descriptors
                cs = []
                for _ in range(lim + rng.randrange(1, 10)):
                    try: c = Client(hub, D.port, "e", ctimeout=.3)
                    except OSError: break
                    if rng.random() < .7: c.send(b"HELLO USER='u' TTY='t'\nMONITOR CONSOLE='u1'\n")
                    cs.append(c)
                hub.settle(.02, .3)
                bystander("exhausted descriptors")
                rng.shuffle(cs)
                for c in cs: kill(c, rng.choice(["close", "close", "rst"]))
                what = "exhaust"
            elif op == "condie":
                nm = rng.choice(["u0", "u1", "t0"]); c = cons[nm]
                if c.up:
                    x = c.conn
                    if rng.random() < .5: x.send(b"q" * rng.choice([1, 20000]))
                    if rng.random() < .3: x.sock.shutdown(socket.SHUT_WR)
                    else: x.close(rst=rng.random() < .5)
                    what = "condie " + nm
            elif op in ("fork", "sock", "log"):
                if op == "fork":
                    shim["FORK_ERR"] = rng.choice([errno.EAGAIN, errno.ENOMEM]); shim["FORK_CNT"] = rng.choice([1, 3])
                    for p in children(D.dpid): os.kill(p, signal.SIGKILL)
                    c = dclient("r"); c.session("CONNECT", ["u1"], ["FORCE"]); c.send(b"\xffR"); hub.settle(.01, .1); c.close()
                elif op == "sock":
                    shim["SOCK_ERR"] = rng.choice([errno.EMFILE, errno.ENFILE, errno.ENOBUFS, errno.ENOMEM, errno.EACCES]); shim["SOCK_CNT"] = rng.choice([1, 3])
                    for nm in ("u0", "t0"):
                        if cons[nm].up: cons[nm].conn.close()
                else:
                    shim["OPEN_ERR"] = rng.choice([errno.EMFILE, errno.EACCES, errno.ENOSPC]); shim["OPEN_CNT"] = 0
                    if full: cons["full"].conn.send(b"z" * 20000) if cons["full"].up else None
                hub.settle(.01, .1); D.sync_idle(); D.advance(rng.choice([0, 1.1, 16]))
            elif op == "io":
                shim["RSHORT"] = rng.choice([0, 1, 7, 100]); shim["WSHORT"] = rng.choice([0, 1000]); shim["EINTR"] = rng.choice([0, 100, 500])
                bystander("short transfers and interruptions")
                what = "io %d %d %d" % (shim["RSHORT"], shim["WSHORT"], shim["EINTR"])
            elif op == "signals":
                for _ in range(rng.randrange(1, 30)): D.sendsig(rng.choice([signal.SIGCHLD, signal.SIGPIPE, signal.SIGCHLD]))
            elif op == "release":
                for c in held: c.close()
                held.clear()
            elif op == "flood":                                  # connections made and broken as fast as possible
                for _ in range(rng.choice([20, 100]) if not lim else 10):
                    try: c = Client(hub, D.port, "e", ctimeout=.3)
                    except OSError: break
                    if rng.random() < .5: c.send(b"HELLO USER='u'\n")
                    c.close(rst=rng.random() < .7)
            elif op == "reset":
                try: c = dclient("r"); r = c.session("CONNECT", ["u1"], ["FORCE"], timeout=5); c.send(b"\xffR"); c.close(rst=True)
                except Inconclusive: pass
            else: continue
            hub.settle(.004, .15)
            bystander(what)
            clear()
            if lim:
                for c in held: c.close()
                held.clear(); hub.settle(.004, .15)
                for _ in range(20):
                    if nfd() <= base: break
                    hub.settle(.004, .1); D.advance(1.1)
            D.advance(1.1)                                     # accept() is retried after a second
            served(what)
            st.seen("%s %s lim=%s %s" % (what, tgt if op == "abort" else "", lim, variant))
        # consoles come back
        clear()
        for c in held: c.close()
        D.advance(61); D.advance(1900); hub.settle(.01, .3); D.sync_idle()
        for nm, c in cons.items():
            if not hub.wait(lambda: c.up, 5): raise Violation("console %s is not reconnected after the faults" % nm, soft=True)
            x = D.client("v")
            if x.session("MONITOR", [nm])[0] != b"OK": raise Violation("console %s cannot be monitored after the faults" % nm)
            hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"], 10); D.sync_idle()
            t = b"<%d>" % rng.randrange(10 ** 9)
            c.conn.send(t)
            if not hub.wait(lambda: t in x.data, 10): raise Violation("console %s delivers nothing after the faults" % nm, soft=True)
            if nm == "by": exp_out += t
            if nm != "full" and not hub.wait(lambda: t in open(d + "/log-" + nm, "rb").read(), 5): raise Violation("console %s is not logged after the faults" % nm, soft=True)
            x.close()
        bystander("end")
        rc = D.stop()
        if rc != 0: raise Violation("exit status %s after the faults: %s" % (rc, D.san_text()[:300]), soft=True)
        st.sample("%s lim=%s, %d steps" % (variant, lim, step + 1))
    finally:
        D.kill(); shim.close()
def children(p):
    r = []
    for x in glob.glob("/proc/[0-9]*/stat"):
        try: s = open(x).read()
        except OSError: continue
        w = s.rsplit(")", 1)[1].split()
        if int(w[1]) == p: r.append(int(s.split()[0]))
    return r
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(350, 6000))])
C.finish(min_evals=800)
