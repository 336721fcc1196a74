"""Identical rounds of session activity; after each, what the daemon holds is compared with what it held after the round before."""
from vf import *
import errno
OPS = ["rw", "ro", "query", "regex", "bad", "badhello", "partial", "rst", "longname", "steal", "join", "bcast", "busy", "keys", "reset", "bcreset", "roreset", "susp", "susp-out", "drop", "pdie", "rotate", "hup", "thread", "gpn", "accept",
       "halfclose", "flood", "output", "unread", "manypat", "suspsteal", "quiet", "replay", "late"]
def children(p):
    r = []
    for x in glob.glob("/proc/[0-9]*/stat"):
        try: s = open(x).read()
        except OSError: continue
        if int(s.rsplit(")", 1)[1].split()[1]) == p: r.append(int(s.split()[0]))
    return r
def held(D):
    p = "/proc/%d/" % D.dpid
    f = []
    for x in os.listdir(p + "fd"):
        try: f.append(re.sub(r":\[\d+\]", "", os.readlink(p + "fd/" + x)))
        except OSError: pass
    return sorted(f), len(os.listdir(p + "task")), len(children(D.dpid))

def rounds(exe, tool, i, d, st, nrounds, nops, per, ops=None, mem=True, extra_keys=None, gen=None, gendev=None):
    rng = random.Random(i)
    hub = Hub()
    cons = {}
    conf = 'server port=0\nserver resetcmd="exit 0"\n'
    for nm in ("u0", "u1"):
        cons[nm] = unix_console(hub, d + "/" + nm, nm)
        conf += 'console name=%s dev="unix:%s/%s" log="%s/log-%s"\n' % (nm, d, nm, d, nm)
    cons["t0"] = tcp_console(hub, "t0", TelnetPeer)
    conf += 'console name=t0 dev="127.0.0.1:%d" log="%s/log-t0" logopts="sanitize,timestamp"\n' % (cons["t0"].port, d)
    conf += 'console name=p0 dev="%s %s echo"\n' % (tool, d)
    sh = Shim(d); sh["SEED"] = i & 0xffff; sh["NOW"] = sh["TARGET"] = 1700000000 * 1000000; sh["MODE"] = 1
    D = Daemon(exe, conf, d, hub, shim=sh, env=dict(VF_SHIM_MEM="1", GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1"))
    names = ["u0", "u1", "t0", "p0"]
    plan = [(rng.choice(ops or OPS), rng.randrange(1 << 30)) for _ in range(nops)]
    plan = [x for x in plan for _ in range(per)]
    def quiet(what):
        """Everything a session used must be released shortly after its end."""
        hub.settle(.004, .1)
        if not hub.wait(lambda: sh["NTHREAD"] == sh["THRDONE"], 20): D.check_alive(what); raise Violation("%s: a client thread never ends after its client has gone" % what, soft=True)
        D.sync_idle()
    def memory():
        sh["MEMREQ"] = sh["MEMREQ"] + 1
        if not hub.wait(lambda: sh["MEMACK"] == sh["MEMREQ"], 10): raise Inconclusive("no answer from the memory probe")
        return sh["MEM"]
    def cl():
        for _ in range(4):
            try: return Client(hub, D.port, "r", ctimeout=3)
            except OSError: D.check_alive(); D.advance(1.1)
        raise Violation("the daemon accepts no new client", soft=True)
    def sess(g, cmd, names, opts=(), user="u", tty="t"):
        c = cl()
        c.send(b"HELLO USER='" + user.encode() + b"' TTY='" + tty.encode() + b"'\n" + cmd.encode() + b" " + b"".join(b"OPTION=" + o.encode() + b" " for o in opts) + b"".join(b"CONSOLE='" + n.encode() + b"' " for n in names) + b"\n")
        hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, 5)
        return c
    def do(op, s):
        g = random.Random(s)
        n = g.choice(names); live = []
        cc = cons.get(n)
        if op == "rw": live.append(sess(g, "CONNECT", [n], ["FORCE"]))
        elif op == "ro": live.append(sess(g, "MONITOR", [n]))
        elif op == "query": live.append(sess(g, "QUERY", g.choice([["*"], [n], ["nope"], ["u*", "t0"], names])))
        elif op == "regex": live.append(sess(g, "QUERY", g.choice([[".*"], ["("], ["u[01]", "t"], ["nope"]]), ["REGEX"]))
        elif op == "bad":
            c = cl(); c.send(b"HELLO USER='u' TTY='t'\n" + g.choice([b"FOO\n", b"\n", b"CONNECT CONSOLE='nope'\n", b"CONNECT CONSOLE='*'\n", b"CONNECT OPTION=REGEX CONSOLE='('\n", b"CONNECT\n", b"QUERY OPTION=X CONSOLE=\n"])); live.append(c)
        elif op == "badhello": c = cl(); c.send(g.choice([b"FOO\n", b"\n", b"HELLO\n", b"HELLO TTY='x'\n", b"QUERY CONSOLE='*'\n", b"x" * 5000 + b"\n"])); live.append(c)
        elif op == "partial": c = cl(); c.send(g.choice([b"", b"HEL", b"HELLO USER='u' TTY='t'\n", b"HELLO USER='u' TTY='t'\nCONNECT CONS"])); hub.settle(.002, .02); c.close(rst=g.random() < .5)
        elif op == "hostile":
            c = cl(); c.send(gen(g)); live.append(c); hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, .05)
        elif op == "hostdev":
            if g.random() < .5: live.append(sess(g, "MONITOR", [g.choice(["u0", "u1", "t0"])]))
            for x in (cons["u0"], cons["t0"]):
                if x.up: x.conn.send(gendev(g))
        elif op == "rst": c = sess(g, "CONNECT", [n], ["FORCE"]); c.send(b"abc\r"); c.close(rst=True)
        elif op == "longname": live.append(sess(g, "CONNECT", [n], ["FORCE"], user="u" * g.choice([1, 70, 500, 3000]), tty="t" * g.choice([1, 70, 500, 3000])))
        elif op == "steal":
            live.append(sess(g, "CONNECT", [n], ["FORCE"])); live.append(sess(g, "CONNECT", [n], ["FORCE"])); live.append(sess(g, "CONNECT", [n], ["FORCE"]))
        elif op == "join": live += [sess(g, "CONNECT", [n], ["JOIN"]), sess(g, "CONNECT", [n], ["JOIN"]), sess(g, "MONITOR", [n])]
        elif op == "bcast": c = sess(g, "CONNECT", ["*"], ["BROADCAST", g.choice(["FORCE", "JOIN"])]); c.send(b"hi\r"); live.append(c)
        elif op == "busy": live.append(sess(g, "CONNECT", [n], ["FORCE"])); live.append(sess(g, "CONNECT", [n])); live.append(sess(g, "CONNECT", ["*"], ["BROADCAST"]))
        elif op == "keys":
            c = sess(g, g.choice(["CONNECT", "MONITOR"]), [n], g.choice([["JOIN"], ["FORCE"]])); live.append(c)
            c.send(b"".join(b"\xff" + bytes([g.choice(b"BDFJLMQ\xff")]) for _ in range(6)))
        elif op == "bcreset": c = sess(g, "CONNECT", ["*"], ["BROADCAST", "FORCE"]); c.send(b"\xffR\xffR"); hub.settle(.01, .1); live.append(c)
        elif op == "roreset": c = sess(g, "MONITOR", [n]); c.send(b"\xffR"); hub.settle(.01, .1); live.append(c)
        elif op == "reset": c = sess(g, "CONNECT", [n], ["FORCE"]); c.send(b"\xffR"); hub.settle(.01, .1); live.append(c)
        elif op in ("susp", "susp-out", "suspsteal"):
            c = sess(g, "CONNECT", [n], ["FORCE"]); c.send(b"\xffZ"); live.append(c); hub.settle(.002, .03)
            if op == "susp-out" and cc and cc.up: cc.conn.send(b"s" * g.choice([100, 20000]))
            if op == "suspsteal": live.append(sess(g, "CONNECT", [n], ["FORCE"]))
        elif op == "drop":
            live.append(sess(g, "MONITOR", [n]))
            for x in (cons["u0"], cons["t0"]):
                if x.up: x.conn.close(rst=g.random() < .5)
            hub.settle(.004, .05); D.sync_idle(); D.advance(61); D.advance(16)
        elif op == "pdie":
            for p in children(D.dpid):
                try: os.kill(p, signal.SIGKILL)
                except OSError: pass
            hub.settle(.01, .1); D.sync_idle(); live.append(sess(g, "CONNECT", ["p0"], ["FORCE"]))
        elif op == "rotate":
            for x in ("u0", "t0"):
                try: os.rename(d + "/log-" + x, d + "/old-" + x)
                except OSError: pass
            D.sendsig(signal.SIGHUP); hub.settle(.004, .05); D.sync_idle()
        elif op == "hup": D.sendsig(signal.SIGHUP); hub.settle(.004, .05)
        elif op in ("thread", "gpn", "accept"):
            K, e = dict(thread=("PTH", errno.EAGAIN), gpn=("GPN", errno.ENOTCONN), accept=("ACC", errno.ECONNABORTED))[op]
            sh[K + "_ERR"] = e; sh[K + "_CNT"] = 1
            c = cl(); c.send(b"HELLO USER='u' TTY='t'\nQUERY CONSOLE='*'\n"); hub.wait(lambda: c.rx.count(b"\n") >= 2 or c.eof, .2); live.append(c)
            sh[K + "_CNT"] = 0; D.advance(1.1)
        elif op == "halfclose":
            c = sess(g, g.choice(["CONNECT", "MONITOR"]), [n], ["JOIN"])
            try: c.sock.shutdown(socket.SHUT_WR)
            except OSError: pass
            live.append(c); hub.settle(.002, .02)
        elif op == "flood":
            for _ in range(8): cl().close(rst=g.random() < .5)
        elif op == "output":
            live.append(sess(g, "MONITOR", ["*"] if False else [n]))
            if cc and cc.up: cc.conn.send(b"o\r\n" * g.choice([1, 3000]))
        elif op == "unread":
            c = sess(g, "MONITOR", [n]); c.paused = True; live.append(c)
            if cc and cc.up: cc.conn.send(b"o" * 50000)
            hub.settle(.004, .05)
        elif op == "manypat": live.append(sess(g, g.choice(["QUERY", "MONITOR"]), [g.choice(["u0", "x%d" % k, "*", "u?"]) for k in range(60)]))
        elif op == "quiet": live += [sess(g, "CONNECT", [n], ["JOIN", "QUIETLY"]), sess(g, "CONNECT", [n], ["FORCE", "QUIETLY"])]
        elif op == "replay": c = sess(g, "MONITOR", [n]); c.send(b"\xffL\xffL"); live.append(c)
        elif op == "late":                                  # the client goes while the daemon is still preparing the session
            c = cl(); c.send(b"HELLO USER='u' TTY='t'\nCONNECT OPTION=FORCE CONSOLE='%s'\n" % n.encode()); c.close(rst=g.random() < .5)
        if extra_keys:
            for c in live[:2]:
                if not c.eof: c.send(extra_keys(g))
        hub.settle(.002, .02)
        for c in live: c.close(rst=g.random() < .3)
    hist = []
    def desc(): return ", ".join("%s" % o for o in dict.fromkeys(x[0] for x in plan))
    def up():
        for nm, c in cons.items():
            if not hub.wait(lambda: c.up, .3): D.advance(61); D.advance(16); D.advance(1900)
            if not hub.wait(lambda: c.up, 5): raise Violation("console %s is not reconnected" % nm, soft=True)
        c = sess(rng, "MONITOR", ["p0"]); c.close()          # restarts the helper if it is down
        for _ in range(3):
            if len(children(D.dpid)) == 1: break
            hub.settle(.01, .2); D.sync_idle()
    try:
        hub.wait(lambda: all(c.up for c in cons.values()), 10)
        up(); quiet("start")
        base = held(D)
        for r in range(nrounds):
            for op, s in plan: do(op, s)
            up(); quiet("after " + desc())
            D.advance(70 + 60); up(); quiet("after " + desc())
            now = held(D)
            for _ in range(3):
                if now == base: break
                hub.settle(.01, .2); quiet(desc()); now = held(D)
            D.check_alive(desc())
            if now != base:
                extra = list(now[0])
                for x in base[0]:
                    if x in extra: extra.remove(x)
                raise Violation("after %s (x%d): the daemon holds %d descriptors (additional: %s), %d threads, %d children; before it held %d, %d, %d" % (desc(), r + 1, len(now[0]), extra[:6], now[1], now[2], len(base[0]), base[1], base[2]), soft=True)
            # consoles are free
            for n in names:
                c = sess(rng, "CONNECT", [n])
                l = bytes(c.rx).split(b"\n")
                if len(l) < 3 or not l[1].startswith(b"OK"): raise Violation("after %s: console %s is not free: %r" % (desc(), n, l[1:2]), soft=True)
                c.close()
            quiet("after " + desc())
            hist.append(memory())
            st.seen("round of " + " ".join(sorted(set(x[0] for x in plan))))
        if mem:
            lo = nrounds // 2
            a, b = max(hist[lo - 2:lo]), min(hist[-2:])
            n = (nrounds - lo) * len(plan)
            # a leak repeats with every identical round; what a pool keeps does not
            steps = [hist[k + 1] - hist[k] for k in range(lo - 1, nrounds - 1)]
            if b - a > 400 and sum(x > 0 for x in steps) >= len(steps) - 1: raise Violation("memory in use grows with every identical round of %s: %s (%d operations a round)" % (desc(), hist, len(plan)), soft=True, hist=hist)
            st.sample("memory after each round %s" % hist[-6:])
        if D.stop() != 0: raise Violation("exit status")
    finally:
        D.kill(); sh.close()
    return hist
