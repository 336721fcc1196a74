"""Reference model of conman sessions (who is linked to whom, what each endpoint must receive)
run in lock step with a real daemon under the stepped clock: operation, barrier, exact comparison."""
import time as _time
from vf import *

BUF = 16384 - 1

class MCon:
    def __init__(self, name, kind, logged):
        self.name, self.kind, self.logged = name, kind, logged
        self.readers, self.writers = [], []     # clients
        self.log = bytearray()
        self.rx = bytearray()                   # bytes the console must receive
        self.hold = bytearray()
        self.up = True
        self.down_text = ""                     # text naming the device in notices
        self.breaks = 0
        self.lastlog = 0
        self.proc = None                        # log processing (Proc), if any
        self.logdown = False                    # log could not be written; `held` awaits its reopening
        self.held = bytearray()
        self.since = 0                          # offset in log of the first byte a replay may show

class Proc:
    """Log processing as documented, computed from the whole text since the last informational message:
    every newline variant becomes CR-LF, a line's timestamp is that of its first character."""
    NL = re.compile(rb"(?:\r[\r\0]*\n|\n|\r)[\r\0]*")
    def __init__(self, sanitize, stamp, local=_time.localtime):
        self.sanitize, self.stamp, self.local = sanitize, stamp, local
        self.init()
    def init(self):
        self.text, self.when, self.done = bytearray(), [], 0
    def ts(self, at):
        if not self.stamp: return b""
        for off, t in reversed(self.when):
            if off <= at:
                return _time.strftime("%Y-%m-%d %H:%M:%S ", self.local(t)).encode()
    def chars(self, b):
        if not self.sanitize: return bytes(b)
        o = bytearray()
        for x in b:
            m, c = x & 0x80, x & 0x7f
            if c < 32 or c == 127: o += (b"~" if m else b"^") + bytes([c ^ 64])
            else: o += (b"`" if m else b"") + bytes([c])
        return bytes(o)
    def feed(self, data, now):
        self.when.append((len(self.text), now))
        self.text += data
        out, pos, n = [], 0, len(self.text)
        for m in self.NL.finditer(bytes(self.text)):
            out.append(self.ts(pos) + self.chars(self.text[pos:m.start()]))
            pos = m.end()
            if b"\n" in m.group() or pos < n: out.append(b"\r\n")      # a final lone CR may yet become CR-LF
        if pos < n:
            out.append(self.ts(pos) + self.chars(self.text[pos:]))
        out = b"".join(out)
        new = out[self.done:]
        self.done = len(out)
        return new

class MCli:
    def __init__(self, cid, user, tty):
        self.id, self.user, self.tty = cid, user, tty
        self.cons_r, self.cons_w = [], []       # consoles feeding me / consoles I write
        self.quiet = self.susp = self.bcast = False
        self.force = self.join = False
        self.eof = False                        # unlinked by someone else
        self.gone = False
        self.esc = False
        self.out = bytearray()                  # delivered (expected) stream
        self.pend = bytearray()                 # held back while suspended
        self.last_read = 0

class Model:
    def __init__(self, host, now):
        self.host, self.now = host, now
        self.cons, self.cli = {}, {}
        self.msgs = 0
    def stamp(self):
        t = _time.gmtime(self.now())
        return _time.strftime("%m-%d %H:%M", t)
    def who(self, c):
        s = "<%s@%s>" % (c.user, self.host)
        if c.tty is not None and c.tty != "":
            s += " on %s" % c.tty
        elif c.tty is not None:
            s += " on "
        return s
    # ---- primitive effects
    def to_client(self, c, data, info=False):
        if c.eof or c.gone or not data:
            return
        if info and c.quiet:
            return
        if info:
            self.msgs += 1
        if c.susp:
            c.pend += data
            if len(c.pend) > BUF:
                del c.pend[:len(c.pend) - BUF]
        else:
            c.out += data
    def notify(self, k, text):
        m = ("\r\n<ConMan> " + text + ".\r\n").encode("latin-1")
        seen = []
        if k.logged:
            self.to_log(k, m)
            if k.proc: k.proc.init()
        for c in k.readers + k.writers:
            if c not in seen:
                seen.append(c)
                self.to_client(c, m, True)
    def link_w(self, c, k):
        stolen = c.force and bool(k.writers)
        self.notify(k, "Console [%s] %s%s by %s at %s" % (k.name, "stolen" if stolen else "joined",
                    " for B/C" if c.bcast else "", self.who(c), self.stamp()))
        for w in k.writers:
            self.to_client(c, ("\r\n<ConMan> Console [%s] %s %s at %s.\r\n" % (k.name,
                    "stolen from" if stolen else "joined with", self.who(w), self.stamp())).encode("latin-1"), True)
        if stolen:
            for w in list(k.writers):
                self.unlink_all(w)
                w.evicted = True
        c.cons_w.append(k)
        k.writers.append(c)
    def link_r(self, c, k):
        c.cons_r.append(k)
        k.readers.append(c)
    def unlink_w(self, c, k):
        c.cons_w.remove(k)
        k.writers.remove(c)
        self.notify(k, "Console [%s] departed by %s at %s" % (k.name, self.who(c), self.stamp()))
        if not c.cons_w and not c.cons_r:
            c.eof = True
    def unlink_all(self, c):
        for k in list(c.cons_r):
            c.cons_r.remove(k)
            k.readers.remove(c)
            if not c.cons_w and not c.cons_r:
                c.eof = True
        for k in list(c.cons_w):
            self.unlink_w(c, k)
    # ---- operations
    def connect(self, c, mode, names, force=False, join=False, quiet=False, bcast=False):
        """Returns None if admitted or the list of busy consoles."""
        ks = [self.cons[n] for n in names]
        c.force, c.join, c.quiet = force, join, quiet
        if mode == "MONITOR":
            self.link_r(c, ks[0])
            self.check_state(ks[0], c)
            return None
        if not force and not join:
            busy = [k for k in ks if k.writers]
            if busy:
                return busy
        c.bcast = bcast and len(ks) > 1
        if len(ks) == 1:
            self.link_w(c, ks[0])
            self.link_r(c, ks[0])
            self.check_state(ks[0], c)
        else:
            for k in ks:
                self.link_w(c, k)
                self.check_state(k, c)
        return None
    def check_state(self, k, c):
        if not k.up:
            self.to_client(c, ("\r\n<ConMan> Console [%s] is currently disconnected from %s.\r\n" % (
                k.name, k.down_text)).encode("latin-1"), True)
            if k.kind == "unix" and not getattr(k, "unreachable", False):
                self.con_up(k)                  # an immediate attempt is made, and its peer is listening
    def to_log(self, k, data):
        if not k.logdown:
            k.log += data
        else:
            k.held += data
            if len(k.held) > BUF:
                del k.held[:len(k.held) - BUF]
    def console_out(self, k, data):
        if k.logged:
            self.to_log(k, k.proc.feed(data, self.now()) if k.proc else data)
        for c in k.readers:
            self.to_client(c, data)
    def to_console(self, k, data):
        if k.up:
            k.rx += data
        else:
            k.hold += data                      # kept until the connection is back
            if len(k.hold) > BUF:
                del k.hold[:len(k.hold) - BUF]
    def con_up(self, k):
        k.up = True
        k.rx += k.hold
        k.hold = bytearray()
        self.notify(k, "Console [%s] connected to %s" % (k.name, k.down_text))
    def client_in(self, c, data, hooks=None):
        c.last_read = self.now()
        for b in data:
            if c.esc:
                c.esc = False
                ch = chr(b)
                if b == 0xFF:
                    for k in c.cons_w:
                        self.to_console(k, b"\xff")
                elif ch == 'D':
                    for k in c.cons_w:
                        self.to_console(k, b"\x7f")
                elif ch == 'B':
                    for k in c.cons_w:
                        k.breaks += 1
                        if k.kind == "process":
                            self.to_console(k, b"&B")
                        elif k.kind == "telnet":
                            k.marks.append(len(k.rx))
                elif ch in "FJM":
                    if ch == 'F': c.force, c.join = True, False
                    if ch == 'J': c.force, c.join = False, True
                    if ch == 'M': c.force, c.join = False, False
                    if not c.bcast and c.cons_r:
                        k = c.cons_r[0]
                        if c.cons_w:
                            self.unlink_w(c, k)
                        else:
                            self.link_w(c, k)
                elif ch == 'Q':
                    c.quiet = not c.quiet
                    self.to_client(c, ("\r\n<ConMan> Quiet-mode %s -- info msgs will be %s.\r\n" % (
                        ("enabled", "suppressed") if c.quiet else ("disabled", "displayed"))).encode())
                elif ch == 'L':
                    if c.cons_r:
                        k = c.cons_r[0]
                        if not k.logged or k.logdown:
                            self.to_client(c, ("\r\n<ConMan> Console [%s] is not being logged -- cannot replay.\r\n" % k.name).encode())
                        else:
                            self.to_client(c, ("\r\n<ConMan> Begin log replay of console [%s].\r\n" % k.name).encode()
                                + bytes(k.log[k.since:][-4096:])
                                + ("\r\n<ConMan> End log replay of console [%s].\r\n" % k.name).encode())
                elif ch == 'Z':
                    c.susp = not c.susp
                    if not c.susp:
                        c.out += c.pend
                        c.pend = bytearray()
                elif ch == 'R':
                    if hooks:
                        hooks(c)
            elif b == 0xFF:
                c.esc = True
            else:
                for k in c.cons_w:
                    self.to_console(k, bytes([b]))
    def client_gone(self, c):
        if not c.gone:
            c.gone = True
            self.unlink_all(c)
    def mode(self, c):
        if c.gone or c.eof: return "gone"
        if c.bcast: return "BC"
        return "RW" if c.cons_w else "RO"

class TPeer(TelnetPeer):
    pass

class Rig:
    """Daemon + fake consoles + clients + model."""
    def __init__(self, exe, d, kinds, logged, seed=1, names=None, faults=None, extra_conf="", extra_con=None,
                 env=None, reset=None, start_time=1700000000, thrdelay=0, logopts=None, rcvbuf=None):
        self.hub = Hub()
        self.dir = d
        self.shim = Shim(d)
        s = self.shim
        s["SEED"] = seed
        s["NOW"] = s["TARGET"] = start_time * 1000000
        s["MODE"] = 1
        for k, v in (faults or {}).items():
            s[k] = v
        s["THRDELAY"] = thrdelay
        self.names = names or ["c%d" % i for i in range(len(kinds))]
        conf = 'server port=0\nserver keepalive=off\n' + extra_conf
        self.con = {}
        self.path = {}
        for n, kd, lg in zip(self.names, kinds, logged):
            if kd == "unix":
                self.path[n] = os.path.join(d, "s-%d" % self.names.index(n))
                self.con[n] = unix_console(self.hub, self.path[n], n)
                dev = "unix:" + self.path[n]
                dt = '"%s"' % self.path[n]
            elif kd == "telnet":
                self.con[n] = tcp_console(self.hub, n, cls=TelnetPeer, rcvbuf=rcvbuf)
                dev = "127.0.0.1:%d" % self.con[n].port
                dt = "<%s>" % dev
            conf += 'console name="%s" dev="%s"' % (n, dev)
            if lg:
                conf += ' log="%s/log-%d"' % (d, self.names.index(n))
                lo = logopts.get(n) if isinstance(logopts, dict) else logopts
                if lo:
                    conf += ' logopts="%s"' % lo
            conf += "\n"
        e = {"TZ": "UTC"}
        e.update(env or {})
        self.D = Daemon(exe, conf, d, self.hub, shim=s, env=e)
        self.oldlogs = {}                       # name: earlier files of a rotated log
        self.nconn = 0
        self.pending_threads = 0
        self.model = Model("localhost", lambda: s["NOW"] // 1000000)
        self.cl = {}
        self.ignore = set()                     # session ids not compared
        self.n = 0
        self.steps = 0
        self.hub.wait(lambda: all(c.up for c in self.con.values()), 20)
        self.barrier()
        for n, kd, lg in zip(self.names, kinds, logged):
            k = self.model.cons[n] = MCon(n, kd, lg)
            k.marks = []
            k.base = 0
            if lg:
                k.log = bytearray(self.read_log(n))
            if kd == "unix":
                k.down_text = '"%s"' % self.path[n]
            else:
                k.down_text = "<127.0.0.1:%d>" % self.con[n].port
    def log_path(self, n):
        return os.path.join(self.dir, "log-%d" % self.names.index(n))
    def read_log(self, n):
        r = b""
        for p in self.oldlogs.get(n, []) + [self.log_path(n)]:
            try:
                if not os.path.islink(p): r += open(p, "rb").read()
            except FileNotFoundError:
                pass
        return r
    def rotate(self, n):
        """Rename a log; the comparison keeps covering both files."""
        l = self.oldlogs.setdefault(n, [])
        q = self.log_path(n) + ".old%d" % len(l)
        if os.path.lexists(self.log_path(n)) and not os.path.islink(self.log_path(n)):
            os.rename(self.log_path(n), q)
            l.append(q)
        elif os.path.islink(self.log_path(n)):
            os.unlink(self.log_path(n))
    def hup(self, fail=()):
        """Reconfigure; logs named in fail cannot be written afterwards."""
        for n in fail:
            self.rotate(n)
            os.symlink("/dev/full", self.log_path(n))
        cnt = self.D.log_text().count("Performing reconfig")
        self.D.p.send_signal(signal.SIGHUP)
        self.hub.wait(lambda: self.D.log_text().count("Performing reconfig") > cnt, 10)
        self.barrier(); self.barrier()
        for n, k in self.model.cons.items():
            if not k.logged: continue
            if n in fail:
                k.logdown, k.held = True, bytearray()
            else:
                msg = ("\r\n<ConMan> Console [%s] log opened at %s.\r\n" % (n, self.longstamp())).encode("latin-1")
                if k.logdown:
                    k.logdown = False
                    k.since = len(k.log)
                    k.log += (k.held + msg)[-BUF:]          # what was held plus the notice, as far as it is retained
                    k.held = bytearray()
                else:
                    k.log += msg
            if k.proc: k.proc.init()
    def longstamp(self):
        return _time.strftime("%Y-%m-%d %H:%M:%S %Z", _time.localtime(self.model.now()))
    def barrier(self, timeout=60):
        s = self.shim
        end = time.monotonic() + timeout
        while s["NTHREAD"] < self.nconn or s["NTHREAD"] - s["THRDONE"] > self.pending_threads:
            self.hub.pump(0.001)
            if not self.D.alive():
                self.D.check_alive()
            if time.monotonic() > end:
                raise Inconclusive("client thread still busy")
        for c in self.cl.values():
            if c.tx:
                c.flush()
        for l in self.con.values():
            if l.conn and l.conn.tx and not l.conn.paused:
                self.hub.wait(lambda: not l.conn.tx, 20)
        self.D.sync_idle(timeout)
        while self.hub.pump(0):
            pass
        self.steps += 1
    def new_client(self, user=None, tty="tty", rcvbuf=None):
        c = self.D.client(str(self.n), rcvbuf=rcvbuf)
        self.nconn += 1
        m = MCli(self.n, user or "u%d" % self.n, tty)
        m.evicted = False
        c.m = m
        self.n += 1
        return c
    def connect(self, mode, names, opts=(), user=None, tty="tty", pats=None, rcvbuf=None):
        """Returns (client, admitted?, response kind, fields); model updated."""
        c = self.new_client(user, tty, rcvbuf)
        m = c.m
        c.hello(m.user, m.tty)
        kind, kv = c.request(mode, pats if pats is not None else names, opts)
        busy = self.model.connect(m, mode, names, "FORCE" in opts, "JOIN" in opts, "QUIET" in opts, "BROADCAST" in opts)
        self.barrier()
        if busy is None:
            self.cl[m.id] = c
            self.model.cli[m.id] = m
        return c, busy, kind, kv
    def send(self, c, data, chunks=None, hooks=None):
        self.model.client_in(c.m, data, hooks)
        if chunks:
            pos = 0
            for n in chunks:
                c.send(data[pos:pos + n])
                pos += n
                self.barrier()
            c.send(data[pos:])
        else:
            c.send(data)
        self.barrier()
    def output(self, n, data):
        self.model.console_out(self.model.cons[n], data)
        self.con[n].conn.send(data)
        self.barrier()
    def close_client(self, c, rst=False):
        self.model.client_gone(c.m)
        c.close(rst)
        self.cl.pop(c.m.id, None)
        self.barrier()
    def drop(self, n, rst=False):
        """Console connection lost and re-established."""
        k = self.model.cons[n]
        self.con[n].conn.close(rst)
        nacc = len(self.con[n].conns)
        self.barrier()
        k.up = False
        self.model.notify(k, "Console [%s] disconnected from %s" % (n, k.down_text))
        return nacc
    def con_rx(self, n):
        """Everything the console ever received, over all its connections."""
        l = self.con[n]
        r = b""
        for s in l.conns:
            r += bytes(s.data if isinstance(s, TelnetPeer) else s.rx)
        return r
    def until(self, f, limit=5):
        """Value of f() once true, or after giving the kernel's own buffering (Nagle, delayed acks) time to drain."""
        end = time.monotonic() + limit
        while not f() and time.monotonic() < end:
            self.hub.pump(0.02)
        return f()
    def rxlen(self, n):
        return sum(len(s.data if isinstance(s, TelnetPeer) else s.rx) for s in self.con[n].conns)
    # ---- comparison: list of (category, message)
    def diffs(self):
        r = []
        mo = self.model
        for cid, c in self.cl.items():
            if cid in self.ignore:
                continue
            got, exp = c.data, bytes(c.m.out)
            if got != exp:
                gp, gm = split_info(got)
                ep, em = split_info(exp)
                i = first_diff(got, exp)
                txt = "session %d (%s on %s): stream differs at byte %d: got ...%r, expected ...%r (lengths %d/%d)" % (
                    cid, mo.mode(c.m), [k.name for k in c.m.cons_r + c.m.cons_w], i, got[max(0, i - 40):i + 60], exp[max(0, i - 40):i + 60], len(got), len(exp))
                cat = []
                if gp != ep: cat.append("payload")
                if gm != em: cat.append("info")
                if mo.mode(c.m) == "BC" and gp != ep: cat.append("bcpayload")
                r.append((cat or ["order"], txt, c.m))
            want_eof = c.m.eof and not c.m.susp
            if c.eof and not want_eof:
                r.append((["closed"], "session %d (%s) was disconnected" % (cid, mo.mode(c.m)), c.m))
            elif want_eof and not c.eof:
                r.append((["notclosed"], "session %d lost its console but was not disconnected" % cid, c.m))
        for n, k in mo.cons.items():
            got, exp = self.con_rx(n), bytes(k.rx)
            if got != exp:
                i = first_diff(got, exp)
                r.append((["input"], "console %s received: differs at byte %d: got ...%r, expected ...%r (lengths %d/%d)" % (
                    n, i, got[max(0, i - 30):i + 50], exp[max(0, i - 30):i + 50], len(got), len(exp)), k))
            if k.kind == "telnet":
                br, off = [], 0
                for s in self.con[n].conns:
                    br += [off + c[2] for c in s.cmds if c[0] == BRK]
                    off += len(s.data)
                if br != k.marks:
                    r.append((["break"], "console %s received breaks at %r, expected %r" % (n, br, k.marks), k))
            if k.logged:
                got, exp = self.read_log(n), bytes(k.log)
                if got != exp:
                    i = first_diff(got, exp)
                    gp, gm = split_info(got)
                    ep, em = split_info(exp)
                    cat = []
                    if gp != ep: cat.append("log")
                    if gm != em: cat.append("loginfo")
                    r.append((cat or ["log"], "log of %s: differs at byte %d: got ...%r, expected ...%r (lengths %d/%d)" % (
                        n, i, got[max(0, i - 40):i + 60], exp[max(0, i - 40):i + 60], len(got), len(exp)), k))
        return r
    def verify(self, cats, what=""):
        d = self.diffs()
        if d:
            # give the kernel a moment before believing a difference
            end = time.monotonic() + 3
            while d and time.monotonic() < end:
                self.hub.pump(0.05)
                self.barrier()
                d = self.diffs()
        self.D.check_alive(what)
        if not d:
            return
        for cat, txt, obj in d:
            if (cats(cat, obj) if callable(cats) else set(cat) & set(cats)):
                raise Violation("%s: %s" % (what, txt), all=[t for _, t, _ in d][:6])
        raise Foreign(d[0][1])
    def end(self):
        self.D.kill()
        self.shim.close()

def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo = 0
    hi = n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if a[:mid] == b[:mid]: lo = mid
        else: hi = mid
    return lo

# ------------------------------------------------------------ random walks --
def rbytes(rng, n, kind=None):
    k = kind if kind is not None else rng.randrange(6)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789 \r\n") for _ in range(n))
    if k == 2:
        return bytes(rng.choice(b"\x00\x01\x07\x08\x0a\x0d\x1b\x7f\x80\xfe\xff&~") for _ in range(n))
    if k == 3:
        return (b"line %08d\r\n" % rng.randrange(10**8) * (n // 10 + 1))[:n]
    if k == 4:
        return bytes([rng.randrange(256)]) * n
    return bytes((i * 7 + n) & 0xff for i in range(n))

def size(rng, big=4000):
    r = rng.random()
    if r < .4: return rng.randrange(1, 8)
    if r < .8: return rng.randrange(8, 200)
    return rng.randrange(200, big)

def telnet_out(data):
    return data.replace(b"\xff", b"\xff\xff")

class Walk:
    """Random operation sequences over a Rig; every step is followed by a barrier and a full comparison."""
    W = dict(rw=4, ro=4, bc=2, busy=2, force=2, join=2, out=14, inp=10, esc=8, toggle=3, force_esc=2, quiet=2,
             replay=2, suspend=2, close=4, rst=1, drop=1, time=1, delbrk=2, unknown=1, literal=2)
    def __init__(self, rig, rng, cats, st, weights=None, maxcli=7, tag="", split=0.3, big=4000, admit=False):
        """cats: set of deviation categories that refute the property, or f(did, cats, object)."""
        self.admit = admit
        self.r, self.rng, self.cats, self.st, self.maxcli, self.split, self.big = rig, rng, cats, st, maxcli, split, big
        self.w = dict(self.W)
        if weights is not None:
            for k in self.w: self.w[k] = 0
            self.w.update(weights)
        self.ops = [k for k, v in self.w.items() if v]
        self.ws = [self.w[k] for k in self.ops]
        self.trace = []
        self.tag = tag
    def live(self, modes=None, susp=None):
        r = []
        for c in self.r.cl.values():
            m = self.r.model.mode(c.m)
            if c.m.eof or c.eof: continue
            if modes and m not in modes: continue
            if susp is not None and c.m.susp != susp: continue
            r.append(c)
        return r
    def state_key(self):
        return "|".join(sorted("%d:%s" % (i, ",".join(sorted(self.r.model.mode(c) + ("q" if c.quiet else "") + ("z" if c.susp else "")
            for c in set(k.readers + k.writers)))) for i, k in enumerate(self.r.model.cons.values())))
    def step(self):
        rng, r = self.rng, self.r
        op = rng.choices(self.ops, self.ws)[0]
        names = list(r.model.cons)
        n = rng.choice(names)
        did = op
        if op in ("rw", "ro", "bc", "busy", "force", "join"):
            if len(r.cl) >= self.maxcli:
                return None
            opts = []
            mode = "CONNECT"
            sel = [n]
            if op == "ro":
                mode = "MONITOR"
            elif op == "bc" or (op in ("busy", "force", "join") and rng.random() < .3 and len(names) > 1):
                opts.append("BROADCAST")
                sel = sorted(rng.sample(names, rng.randrange(1, len(names) + 1)))
            if op == "force": opts.append("FORCE")
            if op == "join": opts.append("JOIN")
            if op == "ro" and rng.random() < .4: opts.append(rng.choice(["FORCE", "JOIN"]))    # without effect until the session asks to write
            if rng.random() < .15: opts.append("QUIET")
            rng.shuffle(opts)
            c, busy, kind, kv = r.connect(mode, sel, opts, tty=rng.choice(["tty1", "pts/3", None]))
            self.trace.append("%s %s %s -> %s" % (mode, sel, opts, kind))
            cats = {"admit"} if self.admit else set()
            if busy is None:
                if kind != b"OK":
                    if "admit" in cats:
                        raise Violation("%s %s %s refused: %r although %s" % (mode, opts, sel, c.rsp, self.state_key()))
                    raise Foreign("refused")
                did = op + ":ok" + ("" if len(sel) == 1 else ":%d" % len(sel))
            else:
                if kind != b"ERROR" or kv.get("CODE") != [b"7"]:
                    if "admit" in cats:
                        raise Violation("%s %s %s answered %r although %s busy: %s" % (mode, opts, sel, c.rsp, [k.name for k in busy], self.state_key()))
                    raise Foreign("admitted")
                r.hub.wait(lambda: c.eof, 10)
                if "admit" in cats:
                    rest = bytes(c.rx[c.pos:]).decode("latin-1")
                    exp = []
                    for k in busy:
                        for w in k.writers:
                            exp.append((k.name, "B/C" if w.bcast else "R/W", r.model.who(w)))
                    got = re.findall(r"Console \[([^\]]*)\] open (\S+) by (<.*?>(?: on [^\n]*?)?) \(idle [^)\n]*\)\.\n", rest)
                    if got != exp or rest.count("\n") != len(exp):
                        raise Violation("busy notice lists %r, expected %r: %r" % (got, exp, rest))
                    if not c.eof:
                        raise Violation("refused request left the connection open", soft=True)
                c.close()
                did = op + ":busy%d" % min(3, len(busy))
        elif op == "out":
            k = r.model.cons[n]
            if not k.up: return None
            data = rbytes(rng, size(rng, self.big))
            if k.kind == "telnet":
                data = data.replace(b"\xff", b"")
                if not data: return None
            r.output(n, data)
            self.trace.append("out %s %d" % (n, len(data)))
            did = "out:r%d" % min(3, len(k.readers))
        elif op in ("inp", "literal", "delbrk", "unknown", "quiet", "replay", "suspend", "toggle", "force_esc", "esc"):
            cs = self.live()
            if not cs: return None
            c = rng.choice(cs)
            m = r.model.mode(c.m)
            parts = []
            for _ in range(rng.randrange(1, 5) if op == "esc" else 1):
                o = rng.choice(["inp", "literal", "delbrk", "quiet", "replay", "unknown"]) if op == "esc" else op
                if o == "inp":
                    parts.append(rbytes(rng, size(rng, min(self.big, 2000))).replace(b"\xff", b"\xff\xff"))
                elif o == "literal": parts.append(b"\xff\xff")
                elif o == "delbrk": parts.append(rng.choice([b"\xffD", b"\xffB"]))
                elif o == "quiet": parts.append(b"\xffQ")
                elif o == "replay": parts.append(b"\xffL")
                elif o == "unknown": parts.append(b"\xff" + bytes([rng.choice(b"AXyz09 \x00\n?&fjm\xfe\x80")]))
                elif o == "suspend": parts.append(b"\xffZ")
                elif o == "toggle":
                    parts.append({"RW": b"\xffM", "RO": rng.choice([b"\xffF", b"\xffJ"]), "BC": rng.choice([b"\xffF", b"\xffJ", b"\xffM"])}[m])
                elif o == "force_esc":
                    parts.append({"RW": b"\xffMx\xffF", "RO": b"\xffF", "BC": b"\xffJ"}[m])
            data = b"".join(parts)
            if b"\xffQ" in data: c.m.toggled_quiet = True
            if re.search(b"\xff[FJM]", data): c.m.toggled_mode = True
            if b"\xffZ" in data: c.m.ever_susp = True
            if op == "toggle" and rng.random() < .4:
                data = rbytes(rng, rng.randrange(1, 30), 1) + data + rbytes(rng, rng.randrange(1, 30), 1)
            chunks = None
            if len(data) > 1 and rng.random() < self.split:
                chunks = []
                left = len(data)
                for _ in range(rng.randrange(1, 4)):
                    if left < 2: break
                    z = rng.randrange(1, left) if left < 50 or rng.random() < .5 else rng.randrange(1, 4)
                    chunks.append(z); left -= z
            r.send(c, data, chunks)
            self.trace.append("in %d %s %r%s" % (c.m.id, m, data[:40], " split %r" % chunks if chunks else ""))
            did = "%s:%s%s%s" % (op, m, ":z" if c.m.susp else "", ":split" if chunks else "")
        elif op in ("close", "rst"):
            if not r.cl: return None
            c = rng.choice(list(r.cl.values()))
            did = "%s:%s%s" % (op, r.model.mode(c.m), ":z" if c.m.susp else "")
            self.trace.append("%s %d" % (op, c.m.id))
            r.close_client(c, op == "rst")
        elif op == "drop":
            k = r.model.cons[n]
            if k.kind == "unix" and all(x.up for x in r.model.cons.values()):
                nacc = r.drop(n)
                self.trace.append("drop %s" % n)
            else:
                return None
        elif op == "time":
            if not all(x.up for x in r.model.cons.values()): return None
            r.D.advance(rng.choice([0.5, 1, 61, 3600]))
        # consoles that come back (their minimum delay has passed)
        for n2, k in r.model.cons.items():
            if not k.up and rng.random() < .5:
                nacc = len(r.con[n2].conns)
                r.D.advance(61)
                if not r.hub.wait(lambda: len(r.con[n2].conns) > nacc, 10):
                    raise Foreign("console not reconnected")
                r.barrier()
                r.model.con_up(k)
        self.check(did)
        # sessions that the daemon closed after eviction are finished
        for cid, c in list(r.cl.items()):
            if c.m.eof and c.eof:
                c.close()
                r.cl.pop(cid)
                self.st.count("evicted sessions closed")
        return did
    def check(self, did):
        cats = self.cats
        if callable(cats):
            f = cats
            cats = lambda cat, obj: f(did, cat, obj)
        self.r.verify(cats, "after %s" % (self.trace[-3:],))
        self.st.seen("%s%s @ %s" % (self.tag, did, self.state_key()))
    def run(self, steps):
        done = 0
        try:
            for _ in range(steps * 2):
                d = self.step()
                if d:
                    done += 1
                    self.st.count("op " + d.split(":")[0])
                if done >= steps: break
        except Foreign as f:
            self.st.count("cases ended by a deviation that belongs to another property")
            self.st.foreign.append(str(f) + " trace " + repr(self.trace[-4:]))
        except Violation as v:
            v.data["trace"] = self.trace[-60:]
            raise
        self.st.count("info messages checked", self.r.model.msgs)
        self.st.count("console bytes logged/checked", sum(len(k.log) for k in self.r.model.cons.values()))
        self.st.count("input bytes checked", sum(len(k.rx) for k in self.r.model.cons.values()))
        self.st.count("barriers", self.r.steps)
        self.st.sample(" ; ".join(self.trace[:6]))
