"""C14: lost console connections are retried with bounded backoff; sessions stay; data flows again."""
import common
from vf import *
C = Check("C14", "one evaluation = one connection attempt (recorded by the connect/fork interposer at its virtual time) compared with the predicted backoff schedule, "
          "or one up/down transition whose sessions, notices and data were compared; distinct = (console kind, failure mode, delay reached, how recovered)")
exe = build_daemon("asan")
os.environ["TZ"] = "UTC"; time.tzset()
EPS = 0.1
KIND = dict(unix=dict(init=1, first=None, mx=60, reset=60), telnet=dict(init=0, first=15, mx=1800, reset=15), process=dict(init=0, first=60, mx=1800, reset=60))
HELPER = r'''
import os, select, sys
n = 0
os.write(1, b"start %d\n" % os.getpid())
b = b""
while True:
    select.select([0], [], [])
    try: x = os.read(0, 65536)
    except BlockingIOError: continue
    if not x: break
    b += x
    while b"\n" in b:
        l, b = b.split(b"\n", 1)
        os.write(1, b"echo " + l + b"\n")
'''
class Con:
    def __init__(self, s, kind, name):
        self.s, self.kind, self.name = s, kind, name
        self.k = KIND[kind]
        self.delay = self.k["first"] or self.k["init"]
        self.up, self.since, self.due = False, None, None
        self.mode = None
        self.ups = self.downs = 0
        self.tok = 0
        self.attempts = 0
        self.expect_rx = bytearray()            # what sessions must have seen of this console
        self.L = self.cur = None
        d = s.d
        if kind == "unix":
            self.path = d + "/s-" + name
            self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.sock.bind(self.path)
            self.dev = "unix:" + self.path
            self.key = "unix:" + self.path
        elif kind == "telnet":
            self.sock = socket.socket(); self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.sock.bind(("127.0.0.1", 0)); self.port = self.sock.getsockname()[1]
            self.dev = "127.0.0.1:%d" % self.port
            self.key = "inet:" + self.dev
        else:
            self.prog = d + "/prog-" + name
            open(d + "/helper.py", "w").write(HELPER)
            open(self.prog, "w").write("#!/bin/sh\nread m < %s.mode\ncase $m in stay) exec %s %s/helper.py;; esac\nexit 3\n" % (self.prog, "/usr/bin/python3", d))
            os.chmod(self.prog, 0o755)
            self.dev = self.prog
    def setmode(self, m):
        """refuse / reject / ok; process: refuse = not executable, reject = exits at once"""
        if m == self.mode: return
        k = self.kind
        if k == "process":
            open(self.prog + ".mode", "w").write("stay\n" if m == "ok" else "exit\n")
            os.chmod(self.prog, 0o644 if m == "refuse" else 0o755)
        else:
            if m == "refuse":
                assert k == "telnet" or self.mode is None
                if self.L:
                    self.s.hub.remove(self.L); self.L.sock.close(); self.L = None
                    self.sock = None
            else:
                if self.L is None:
                    if self.sock is None:
                        self.sock = socket.socket(); self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                        self.sock.bind(("127.0.0.1", self.port))
                    self.sock.listen(16)
                    self.L = Listener(self.s.hub, self.sock, self.name, Stream if k == "unix" else TelnetPeer)
                self.L.reject = m == "reject"
        self.mode = m
    def fail(self, t):
        self.up = False
        self.due = t + self.delay
        self.delay = min(self.delay * 2, self.k["mx"]) if self.delay else self.k["first"]
    def uptime(self, now):
        if self.up and now - self.since >= self.k["reset"]: self.delay = self.k["init"]

class Sim:
    def __init__(self, i, d, st, kinds):
        self.rng = rng = random.Random(i)
        self.d, self.st, self.hub = d, st, Hub()
        self.shim = Shim(d); s = self.shim
        s["SEED"] = i & 0xffff; s["NOW"] = s["TARGET"] = rng.randrange(1500000000, 1900000000) * 1000000; s["MODE"] = 1
        self.cons = [Con(self, k, "c%d" % j) for j, k in enumerate(kinds)]
        self.faulty = 0
        conf = "server port=0\nserver keepalive=off\n"
        for c in self.cons:
            m = rng.choice(["refuse", "refuse", "ok", "ok", "reject"] if c.kind != "process" else ["ok", "reject"])
            c.setmode(m)
            conf += 'console name=%s dev="%s" log="%s/log-%s"\n' % (c.name, c.dev, d, c.name)
        if len(kinds) == 1 and rng.random() < .4:
            self.faulty = rng.randrange(1, 6)
        self.D = Daemon(exe, conf, d, self.hub, shim=s, start=False, env={"TZ": "UTC"})
        self.off = 0
        self.log0 = {}
        for c in self.cons: c.due = self.now
        self.D.start()
        self.sync()
        self.nth = 0
        self.clients = []
        self.collect("start")
        if self.faulty:
            s = self.shim
            if kinds[0] == "process": s["FORK_ERR"], s["FORK_CNT"] = 11, self.faulty
            else: s["SOCK_ERR"], s["SOCK_CNT"] = 24, self.faulty
    @property
    def now(self): return self.shim["NOW"] / 1e6
    def sync(self):
        self.D.sync_idle(); self.hub.settle(.004, .2); self.D.sync_idle()
    def raw(self):
        with open(self.shim.log, errors="replace") as f:
            f.seek(self.off); b = f.read(); e = b.rfind("\n") + 1; self.off += e
        return [(int(w[0]) / 1e6, w[2:]) for w in (l.split() for l in b[:e].splitlines()) if len(w) > 2]
    def collect(self, what):
        """Compare the attempts made with the schedule, until no console is due."""
        for rounds in range(12):
            ev = self.raw()
            prog = False
            lt = self.D.log_text()
            for c in self.cons:
                at = []
                for t, w in ev:
                    if c.kind != "process" and w[0] == "connect" and w[1] == c.key: at.append((t, "connect"))
                    if c.kind != "process" and w[0] == "socket-fault": at.append((t, "fault"))
                    if c.kind == "process" and w[0] == "fork": at.append((t, int(w[1])))
                    if c.kind == "process" and w[0] == "fork-fault": at.append((t, "fault"))
                if c.kind == "process":
                    n = lt.count("Console [%s] connection failed: \"%s\"" % (c.name, os.path.basename(c.prog)))
                    at += [(self.now, "refused")] * (n - self.log0.get(c.name, 0)); self.log0[c.name] = n
                for t, how in at:
                    prog = True
                    self.attempt(c, t, how, what)
            self.sync()
            if not prog and all(c.up or c.due > self.now + EPS for c in self.cons): break
        for c in self.cons:
            if not c.up and c.due < self.now - EPS:
                raise Violation("%s: console %s (%s) was not retried: due %.1f s ago after a delay now %s s" % (what, c.name, c.kind, self.now - c.due, c.delay))
    def attempt(self, c, t, how, what):
        if c.up: raise Violation("%s: %s console retried while up" % (what, c.kind))
        if abs(t - c.due) > EPS:
            raise Violation("%s: %s console retried %+.3f s from its schedule (next delay %s s, attempt %d)" % (what, c.kind, t - c.due, c.delay, c.attempts))
        c.attempts += 1
        self.st.seen("%s %s delay=%s" % (c.kind, how if isinstance(how, str) and how != "connect" else c.mode, c.delay))
        if how in ("fault", "refused") or c.mode == "refuse":
            if how == "refused" and c.due < t < c.due + EPS: t = c.due      # only the log tells of these attempts
            c.fail(t); return
        if c.mode == "reject":
            c.ups += 1; c.downs += 1
            c.maybe = getattr(c, "maybe", b"") + getattr(c, "held", b""); c.held = b""
            self.hub.wait(lambda: self.D.log_text().count("Console [%s] disconnected" % c.name) >= c.downs, 10)
            if self.D.log_text().count("Console [%s] disconnected" % c.name) < c.downs:
                raise Violation("%s: loss of the connection of %s not noticed" % (what, c.name), soft=True)
            c.fail(t); return
        c.up, c.since = True, t
        c.ups += 1
        if c.kind == "process": c.pid = how
        else:
            L = c.L; n = getattr(L, "used", 0)
            if not self.hub.wait(lambda: len(L.conns) > n, 10): raise Violation("%s: %s connected elsewhere" % (what, c.name))
            L.used = len(L.conns)
            c.cur = L.conns[-1]
        self.fresh(c, what)
    def say(self, c, b):
        """The console outputs b."""
        c.cur.send(b); c.expect_rx += b
    def fresh(self, c, what):
        """A new connection carries data both ways, and nothing of an earlier one."""
        c.tok += 1
        if not self.D.hub.wait(lambda: self.D.log_text().count("Console [%s] connected" % c.name) >= c.ups, 10):
            raise Violation("%s: reconnection of %s not announced" % (what, c.name), soft=True)
        if c.kind != "process":
            self.say(c, b"<new%d>" % c.tok)
        else: c.expect_rx += b"start %d\n" % c.pid
        w = [k for k in self.clients if k.c is c and k.rw and not k.eof]
        if w:
            t = b"in-%d\n" % c.tok
            w[0].send(t); c.typed = getattr(c, "typed", b"") + t
        if c.kind == "process":
            if w: c.expect_rx += b"echo " + t
        elif w:
            old = getattr(c, "typed_old", b"")
            x = c.cur
            have = lambda: bytes(x.data if c.kind == "telnet" else x.rx)
            want = getattr(c, "held", b"") + t
            self.hub.wait(lambda: len(have()) >= len(want), 10); self.D.sync_idle(); self.hub.settle(.01, .2)
            # what was typed before a connection that was accepted and closed at once may have gone there
            if not have().endswith(want) or not (getattr(c, "maybe", b"") + want).endswith(have()): raise Violation("%s: new connection of %s received %r, expected %r" % (what, c.name, have()[:60], want[:60]))
            c.held = c.maybe = b""
        self.st.seen("%s up again %s" % (c.kind, "with writer" if w else ""))
    def verify(self, what):
        for k in self.clients:
            c = k.c
            exp = bytes(c.expect_rx[k.rx0:])
            self.hub.wait(lambda: len(split_info(k.data)[0]) >= len(exp), 5)
            if k.eof: raise Violation("%s: session on %s was closed" % (what, c.name))
            p, m = split_info(k.data)
            if p != exp: raise Violation("%s: session on %s (%s) saw %r, expected %r" % (what, c.name, c.kind, p[-80:], exp[-80:]))
            cnt = lambda: (sum(b"] connected to" in x for x in split_info(k.data)[1]), sum(b"] disconnected from" in x for x in split_info(k.data)[1]))
            self.hub.wait(lambda: cnt() == (c.ups - k.u0, c.downs - k.d0), 5)
            n = cnt()
            if n != (c.ups - k.u0, c.downs - k.d0): raise Violation("%s: session on %s got %r up/down notices, expected %r" % (what, c.name, n, (c.ups - k.u0, c.downs - k.d0)))
    def attach(self, c, rw, what):
        was = c.up
        if not was and c.kind == "telnet": c.delay = 15
        if not was: c.due = self.now
        k = self.D.client("x")
        k.c, k.rw = c, rw
        k.rx0, k.u0, k.d0 = len(c.expect_rx), c.ups, c.downs
        kind, _ = k.session("CONNECT" if rw else "MONITOR", [c.name], ["JOIN"] if rw else [])
        self.nth += 1
        if kind != b"OK": raise Violation("%s: session refused: %r" % (what, k.rsp))
        self.clients.append(k)
        self.hub.wait(lambda: self.shim["NTHREAD"] == self.shim["THRDONE"], 10)
        self.sync()
        self.collect(what)
        if not was:
            self.hub.wait(lambda: b"is currently disconnected from" in k.data, 5)
            m = split_info(k.data)[1]
            if not any(b"is currently disconnected from" in x for x in m): raise Violation("session on a down console not told: %r" % k.data)
            self.st.seen("%s attach while down -> %s" % (c.kind, "up" if c.up else "down"))
    def advance(self, secs, what):
        end = self.now + secs
        while True:
            nxt = min([c.due for c in self.cons if not c.up] + [end])
            if nxt < end: self.D.advance(max(0, nxt - self.now) + .003)
            elif end > self.now: self.D.advance(end - self.now)
            self.sync()
            for c in self.cons: c.uptime(self.now)
            self.collect(what)
            if self.now >= end - .0001: break
    def drop(self, c, what):
        c.uptime(self.now)
        if c.kind == "process":
            log = self.d + "/log-" + c.name
            self.hub.wait(lambda: split_info(open(log, "rb").read())[0] == bytes(c.expect_rx), 10)      # else its output may die with it
            os.kill(c.pid, signal.SIGKILL)
        else:
            self.say(c, b"<old")
            self.sync()
            c.cur.close(self.rng.random() < .3)
        c.downs += 1
        c.held = c.maybe = b""
        c.fail(self.now)
        if not self.hub.wait(lambda: self.D.log_text().count("Console [%s] disconnected" % c.name) >= c.downs, 10):
            raise Violation("%s: loss of the connection of %s (%s) not noticed" % (what, c.name, c.kind), soft=True)
        self.sync()
    def run(self):
        rng = self.rng
        for step in range(rng.randrange(8, 22)):
            c = rng.choice(self.cons)
            op = rng.choice(["adv", "adv", "adv", "mode", "mode", "drop", "drop", "attach", "type", "quit", "out"])
            what = "step %d %s %s" % (step, op, c.name)
            if op == "adv":
                self.advance(rng.choice([0.5, 1, 3, 10, 14.5, 15.5, 31, 59.5, 61, 130, 300, 1000, 1850, 4000, 8000]), what)
            elif op == "mode":
                m = rng.choice(["ok", "ok", "reject", "refuse"])
                if m == "refuse" and c.kind == "unix": m = "reject"
                c.setmode(m)
            elif op == "drop" and c.up:
                if rng.random() < .5: c.setmode(rng.choice(["reject", "ok", "refuse" if c.kind != "unix" else "reject"]))
                self.drop(c, what)
                self.collect(what)
            elif op == "attach" and len(self.clients) < 6:
                self.attach(c, rng.random() < .5, what)
            elif op == "type" and not c.up and c.kind != "process":
                w = [k for k in self.clients if k.c is c and k.rw]
                if w:
                    t = b"held%d\n" % step
                    w[0].send(t); c.held = getattr(c, "held", b"") + t
                    self.sync()
            elif op == "out" and c.up and c.kind != "process":
                self.say(c, b"<out%d>" % step)
                self.sync()
            elif op == "quit" and self.clients:
                k = self.clients.pop(rng.randrange(len(self.clients)))
                k.close(); self.sync()
            self.D.check_alive(what)
            self.verify(what)
        # in the end everything recovers
        for c in self.cons: c.setmode("ok")
        self.shim["FORK_CNT"] = self.shim["SOCK_CNT"] = 0
        self.advance(1801, "recovery")
        for c in self.cons:
            if not c.up: raise Violation("%s console never recovered" % c.kind)
        self.verify("recovery")
        # and its log has all of it
        for c in self.cons:
            self.hub.wait(lambda: split_info(open(self.d + "/log-" + c.name, "rb").read())[0] == bytes(c.expect_rx), 5)
            p, m = split_info(open(self.d + "/log-" + c.name, "rb").read())
            if p != bytes(c.expect_rx): raise Violation("log of %s lacks data across reconnects: %r" % (c.name, p[-60:]))
        self.st.count("attempts", sum(c.attempts for c in self.cons))

def case(i, d, st):
    rng = random.Random(i ^ 0x5555)
    kinds = rng.choice([["unix"], ["telnet"], ["process"], ["unix", "telnet"], ["telnet", "telnet", "unix"], ["unix", "unix"], ["process", "telnet"], ["unix", "process"]])
    s = Sim(i, d, st, kinds)
    try:
        s.run()
        st.sample("%s: %s" % (kinds, [(c.attempts, c.ups) for c in s.cons]))
    finally:
        s.D.kill(); s.shim.close()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(200, 8000))])(C.rng("b")))
C.finish(min_evals=1500)
