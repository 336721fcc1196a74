"""C13: log files are private, appended to, locked, and rotate without loss."""
import common
from vf import *
C = Check("C13", "one evaluation = one log file (every inode that was ever a log) compared with what it held before plus the console bytes and notices it must hold, its mode and "
          "lock examined; distinct = (operation, log state, lock option, -z, umask, background)")
exe = build_daemon("asan")
os.environ["TZ"] = "UTC"; time.tzset()
LOCKER = r'''
import fcntl, sys
fs = []
for p in sys.argv[1:]:
    f = open(p, "r+b"); fcntl.lockf(f, fcntl.LOCK_EX); fs.append(f)
print("locked", flush=True)
sys.stdin.read()
'''
def locked_by(path):
    fl = struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0)
    with open(path, "rb+") as f:
        r = struct.unpack("hhqqi4x", fcntl.fcntl(f, fcntl.F_GETLK, fl))
    return r[4] if r[0] != fcntl.F_UNLCK else None

class LFile:
    """One inode that is, was or will be a log."""
    def __init__(self, path, prior=None, mode=None):
        self.path = path
        self.prior = prior if prior is not None else b""
        self.mode = mode                        # of a file that existed; None: created by the daemon
        self.exp = b""                          # console bytes it must hold
        self.opens = 0
        self.fd = None
        if prior is not None: self.open()
    def open(self):
        self.fd = os.open(self.path, os.O_RDONLY)
    def content(self):
        if self.fd is None:
            try: self.open()
            except FileNotFoundError: return None
        n = os.fstat(self.fd).st_size
        return os.pread(self.fd, n + 10, 0)

class Log:
    def __init__(self, rng, d, j):
        self.name = "c%d" % j
        self.rng = rng
        self.path = d + rng.choice(["/log-%d", "/sub%d/deep/log", "/log %d"]) % j
        if self.path.startswith(d + "/sub") and rng.random() < .4: os.makedirs(os.path.dirname(self.path), 0o755)
        self.cpath = self.path
        if rng.random() < .3: self.cpath, self.path = d + "/%N-log", d + "/c%d-log" % j       # name with a conversion
        self.lock = rng.random() < .7
        self.files = []                         # all LFiles
        self.cur = None                         # open by the daemon
        self.atpath = None                      # LFile at the configured path
        self.blocker = None
        self.held = b""
        self.opens = 0
        r = rng.random()
        if r < .5:
            self.preexist()
    def preexist(self):
        rng = self.rng
        try: os.makedirs(os.path.dirname(self.path), 0o755)
        except OSError: pass
        b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 3000, 5000]))).replace(b"<ConMan>", b"")
        m = rng.choice([0o600, 0o644, 0o640, 0o666])
        with open(self.path, "wb") as f: f.write(b)
        os.chmod(self.path, m)
        self.atpath = LFile(self.path, b, m)
        self.files.append(self.atpath)
    def block(self):
        if self.blocker is None and self.atpath is not None and self.cur is not self.atpath and self.lock:
            self.blocker = subprocess.Popen([sys.executable, "-c", LOCKER, self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            assert self.blocker.stdout.readline().strip() == b"locked"
            return True
    def unblock(self):
        if self.blocker:
            self.blocker.stdin.close(); self.blocker.wait(); self.blocker = None
    def opened(self, trunc=False):
        """The daemon (re)opened its log."""
        if self.blocker:
            self.cur = None
            return
        if self.atpath is None:
            self.atpath = LFile(self.path); self.files.append(self.atpath)
        f = self.cur = self.atpath
        if trunc: f.prior, f.exp, f.opens = b"", b"", 0
        f.opens += 1
        f.exp += self.held; self.held = b""
    def output(self, b):
        if self.cur: self.cur.exp += b
        else: self.held += b

def run(i, d, st):
    rng = random.Random(i)
    bg = rng.random() < .4
    umask = rng.choice([0, 0, 0o022, 0o077, 0o002])
    zero = rng.random() < .35
    n = rng.randrange(1, 4)
    hub = Hub()
    logs = [Log(rng, d, j) for j in range(n)]
    con = [unix_console(hub, d + "/s%d" % j, str(j)) for j in range(n)]
    conf = "server port=0\n" + "".join('console name=c%d dev="unix:%s/s%d" log="%s" logopts="%s"\n' % (j, d, j, logs[j].cpath, "lock" if logs[j].lock else "nolock") for j in range(n))
    args = ["-z"] if zero else []
    cls = BgDaemon if bg else Daemon
    try:
        for l in logs:
            if rng.random() < .15: l.block()
        shim = Shim(d); shim["SEED"] = i & 0xffff
        if rng.random() < .4: shim["WSHORT"] = rng.choice([100, 500, 2000])
        old = os.umask(umask)
        try: D = cls(exe, conf, d, hub, args=args, shim=shim)
        finally: os.umask(old)
        seq = [0]
        def verify(what):
            hub.wait(lambda: all(c.up for c in con), 10)
            for l in logs:
                for f in l.files:
                    want = f.exp
                    def got():
                        c = f.content()
                        if c is None: return None
                        p, m = split_info(c[len(f.prior):])
                        return p, sum(b"] log opened at" in x for x in m), c[:len(f.prior)]
                    ok = lambda: got() is not None and got()[0] == want and got()[1] == f.opens and got()[2] == f.prior
                    hub.wait(ok, 8)
                    D.check_alive(what)
                    if not ok():
                        g = got()
                        if g is None: raise Violation("%s: log of %s was not created" % (what, l.name), soft=True)
                        if g[2] != f.prior: raise Violation("%s: earlier content of a log of %s overwritten (%d bytes, %d before)" % (what, l.name, len(f.content()), len(f.prior)))
                        raise Violation("%s: log file of %s holds %d console bytes and %d opening notices, expected %d and %d (tails %r / %r)" % (
                            what, l.name, len(g[0]), g[1], len(want), f.opens, g[0][-50:], want[-50:]), soft=True)
                    mode = os.fstat(f.fd).st_mode & 0o7777
                    if mode != (0o600 if f.mode is None else f.mode):
                        raise Violation("%s: log of %s has mode %o (umask %o, %s)" % (what, l.name, mode, umask, "created by the daemon" if f.mode is None else "existed with %o" % f.mode))
                    st.seen("%s %s %s lock=%s z=%s umask=%o bg=%s conv=%s" % (what.split()[0], "current" if f is l.cur else "old", "created" if f.mode is None else "existed", l.lock, zero, umask, bg, l.cpath != l.path))
                if l.cur and not l.blocker and l.cur is l.atpath:
                    pid = D.dpid
                    b = locked_by(l.path)
                    if (b == pid) != l.lock: raise Violation("%s: log of %s lock=%s but held by %s (daemon %d)" % (what, l.name, l.lock, b, pid))
                    st.seen("lock %s" % l.lock)
        def hup():
            c = D.log_text().count("Performing reconfig")
            D.sendsig(signal.SIGHUP)
            if not hub.wait(lambda: D.log_text().count("Performing reconfig") > c, 10): raise Violation("SIGHUP ignored", soft=True)
        hub.wait(lambda: all(c.up for c in con), 20)
        for l in logs: l.opened(zero and not l.blocker)
        # a truncating start empties a file even when its lock turns out to be taken: not compared
        for l in logs:
            if l.blocker and zero: l.files.remove(l.atpath); l.atpath = None; l.unblock(); l.skip = True
        logs = [l for l in logs if not getattr(l, "skip", False)]
        verify("start")
        for step in range(rng.randrange(6, 16)):
            op = rng.choice(["out", "out", "out", "mv", "rm", "hup", "hup", "create", "block", "restart"])
            if not logs: break
            l = rng.choice(logs)
            if op == "out":
                k = int(l.name[1:])
                m = rng.choice([10, 300, 4000, 12000])
                if len(l.held) + m > 14000: continue
                b = payload(rng, seq, m)
                con[k].conn.send(b); l.output(b)
                hub.wait(lambda: not con[k].conn.tx, 10)
                if not l.cur: D.query(); hub.settle(.02, .5)
            elif op == "mv" and l.atpath and not l.blocker:
                os.rename(l.path, l.path + ".%d" % step); l.atpath.path = l.path + ".%d" % step
                if l.atpath.fd is None: l.atpath.open()
                l.atpath = None
            elif op == "rm" and l.atpath and not l.blocker:
                if l.atpath.fd is None: l.atpath.open()
                os.unlink(l.path); l.atpath = None
            elif op == "create" and l.atpath is None:
                l.preexist()
            elif op == "block":
                if rng.random() < .5: l.unblock()
                else: l.block()
            elif op == "hup":
                verify("beforehup")             # output on its way would go to either file
                hup()
                for x in logs: x.opened()
            elif op == "restart":
                if any(x.blocker or x.held for x in logs): continue
                verify("beforestop")
                rc = D.stop()
                if rc != 0: raise Violation("daemon exit status %r" % rc)
                con2 = list(con)
                old = os.umask(umask)
                try: D.start()
                finally: os.umask(old)
                hub.wait(lambda: all(c.up for c in con), 20)
                for x in logs: x.opened(zero)
                for c in con: c.reject = False
            verify(op + " step %d" % step)
        st.sample("logs %s umask %o z=%s bg=%s: %d files" % ([(l.lock, l.path[len(d):]) for l in logs], umask, zero, bg, sum(len(l.files) for l in logs)))
        D.kill()
    finally:
        for l in logs: l.unblock()
def payload(rng, seq, n):
    o = b""
    while len(o) < n:
        seq[0] += 1
        o += b"%d:%s\n" % (seq[0], b"x" * rng.randrange(60))
    return o[:n]
C.run_cases(run, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(700, 12000))])(C.rng("b")))

def stream(i, d, st):
    """Rotation under continuous output: the files of a log, in order, hold every byte once."""
    rng = random.Random(i)
    hub = Hub()
    n = rng.randrange(1, 3)
    con = [unix_console(hub, d + "/s%d" % j, str(j)) for j in range(n)]
    conf = "server port=0\n" + "".join('console name=c%d dev="unix:%s/s%d" log="%s/log%d" logopts=nolock\n' % (j, d, j, d, j) for j in range(n))
    shim = Shim(d); shim["SEED"] = i & 0xffff
    if rng.random() < .6:                       # on average a write still takes more than a read brings
        shim["RSHORT"] = rng.choice([100, 300, 1000]); shim["WSHORT"] = shim["RSHORT"] * 8
    if rng.random() < .4: shim["EINTR"] = 20
    D = Daemon(exe, conf, d, hub, shim=shim)
    hub.wait(lambda: all(c.up for c in con), 20)
    sent = [bytearray() for _ in con]
    fds = [[] for _ in con]
    seq = [0]; hups = 0
    rots = rng.randrange(5, 25)
    for r in range(rots):
        for k in range(rng.randrange(1, 6)):
            j = rng.randrange(n)
            b = payload(rng, seq, rng.choice([20, 500, 5000]))
            con[j].conn.send(b); sent[j] += b
            hub.pump(0)
            if rng.random() < .3: time.sleep(rng.random() * .003)
        for j in range(n):
            p = d + "/log%d" % j
            if rng.random() < .7 and os.path.exists(p):
                fds[j].append(os.open(p, os.O_RDONLY))
                if rng.random() < .5: os.rename(p, p + ".%d" % r)
                else: os.unlink(p)
        c = D.log_text().count("Performing reconfig")
        D.p.send_signal(signal.SIGHUP)
        for k in range(rng.randrange(0, 4)):
            j = rng.randrange(n)
            b = payload(rng, seq, rng.choice([20, 500, 5000]))
            con[j].conn.send(b); sent[j] += b
            hub.pump(0)
        if rng.random() < .8:
            hub.wait(lambda: D.log_text().count("Performing reconfig") > c, 10)
            hub.wait(lambda: all(os.path.exists(d + "/log%d" % j) for j in range(n)), 10)
        else: hub.settle(.02, .3)               # signals may merge; a rotation follows at the latest now
    hub.wait(lambda: not any(x.conn.tx for x in con), 20)
    def whole(j):
        o = b""
        for f in fds[j]: o += os.pread(f, os.fstat(f).st_size, 0)
        try: o += open(d + "/log%d" % j, "rb").read()
        except FileNotFoundError: pass
        return split_info(o)[0]
    for j in range(n):
        hub.wait(lambda: whole(j) == bytes(sent[j]), 10)
        D.check_alive("rotating")
        if whole(j) != bytes(sent[j]):
            w = whole(j)
            k = next((x for x in range(min(len(w), len(sent[j]))) if w[x] != sent[j][x]), min(len(w), len(sent[j])))
            raise Violation("rotation under load: files of log %d hold %d bytes of %d; first difference at %d: %r / %r" % (j, len(w), len(sent[j]), k, w[k-20:k+40], bytes(sent[j][k-20:k+40])), soft=True)
        st.seen("rotated %d files=%d short=%d" % (j, len(fds[j]), shim["WSHORT"]))
        st.count("rotations", len(fds[j])); st.count("bytes", len(sent[j]))
        for f in fds[j]: os.close(f)
    D.kill()
C.run_cases(stream, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(300, 6000))])(C.rng("s")), label="stream")
C.finish(min_evals=800)
