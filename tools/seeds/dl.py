"""Small helpers for the demonstration beside it: a daemon from $PWD/_build in a scratch directory,
fake unix-socket consoles and raw protocol clients."""
import atexit, os, re, select, shutil, signal, socket, subprocess, sys, tempfile, time
BIN = os.path.join(os.getcwd(), "_build", "conmand")
CLI = os.path.join(os.getcwd(), "_build", "conman")
dir = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
procs = []
def _end():
    for p in procs:
        try: p.kill(); p.wait()
        except Exception: pass
    shutil.rmtree(dir, ignore_errors=True)
atexit.register(_end)
def fail(msg):
    print("DEMO FAILED:", msg); sys.stdout.flush(); sys.exit(1)
def ok(msg="ok"):
    print(msg); sys.exit(0)
class Sk:
    def __init__(self, s): self.s = s; s.setblocking(False); self.rx = b""; self.eof = False
    def pump(self, t=0.0):
        if self.eof: time.sleep(min(t, .01)); return
        r, _, _ = select.select([self.s], [], [], t)
        if r:
            try: d = self.s.recv(65536)
            except OSError: d = b""
            if d: self.rx += d
            else: self.eof = True
    def until(self, f, t=10):
        end = time.time() + t
        while not f():
            if time.time() > end: return False
            self.pump(.02)
        return True
    def expect(self, what, t=10):
        return self.until(lambda: what in self.rx, t)
    def quiet(self, t=.4):
        end = time.time() + t
        while time.time() < end: self.pump(.05)
        return self.rx
    def send(self, b):
        self.s.setblocking(True); self.s.sendall(b); self.s.setblocking(False)
    def close(self): self.s.close()
class Console:
    """A listening unix socket standing for a console."""
    def __init__(self, name):
        self.path = os.path.join(dir, name + ".sock")
        self.l = socket.socket(socket.AF_UNIX); self.l.bind(self.path); self.l.listen(8); self.l.settimeout(15)
    def accept(self):
        return Sk(self.l.accept()[0])
class Daemon:
    def __init__(self, conf, args=(), env=None, fg=True, name="conf"):
        self.conf = os.path.join(dir, name)
        open(self.conf, "w").write(conf.replace("{d}", dir))
        self.out = os.path.join(dir, name + ".out")
        f = open(self.out, "wb")
        self.p = subprocess.Popen([BIN, "-F", "-c", self.conf] + list(args), stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=dir, env=dict(os.environ, **(env or {})))
        procs.append(self.p)
        end = time.time() + 20
        while True:
            m = re.search(r"Listening on \S+ port (\d+)|Listening on port (\d+)", self.log())
            if m: self.port = int(m.group(1) or m.group(2)); break
            if self.p.poll() is not None or time.time() > end: self.port = None; break
            time.sleep(.02)
    def log(self): return open(self.out, "rb").read().decode("latin-1")
    def client(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(("127.0.0.1", self.port)); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return Sk(s)
    def session(self, req, user="u", tty="t", rcvbuf=None):
        """Sends greeting and request line; .rsp is the reply line and .rx what followed it."""
        c = self.client(rcvbuf)
        c.send(("HELLO USER='%s' TTY='%s'\n" % (user, tty)).encode())
        if not c.until(lambda: c.rx.count(b"\n") >= 1 or c.eof): fail("no greeting")
        c.rx = c.rx.split(b"\n", 1)[1] if b"\n" in c.rx else b""
        c.send(req.encode("latin-1") + b"\n")
        c.until(lambda: b"\n" in c.rx or c.eof)
        c.rsp, _, c.rx = c.rx.partition(b"\n")
        return c
    def stop(self, sig=signal.SIGTERM):
        self.p.send_signal(sig)
        try: return self.p.wait(20)
        except subprocess.TimeoutExpired: return None
def payload(b):
    return re.sub(rb"\r\n<ConMan> [^\r\n]*\r\n", b"", b)
def infos(b):
    return re.findall(rb"\r\n<ConMan> ([^\r\n]*)\r\n", b)
def slurp(p):
    try: return open(p, "rb").read()
    except OSError: return b""
def wait(f, t=10):
    end = time.time() + t
    while time.time() < end:
        v = f()
        if v: return v
        time.sleep(.02)
    return f()
