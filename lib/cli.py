"""Running the interactive client (conman) under a pseudo-terminal or on pipes against a scripted server."""
from vf import *
import fcntl, pty, pwd, termios

def lhost(i, k=1):
    """A loopback address of this case's own, so that default ports are free on it."""
    return "127.%d.%d.%d" % (10 + os.getpid() % 200, 1 + os.getpid() // 200 % 250, k)

def listen(hub, addr, port=0, rcvbuf=None):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.bind((addr, port)); s.listen(16)
    l = Listener(hub, s, "server")
    l.addr, l.port = addr, s.getsockname()[1]
    return l

ANSI = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}

_job = None
def JOB():
    global _job
    if _job is None: _job = build_harness("t_job", [], "plain")
    return _job

class Cli:
    """A running client. tty=True: stdin and stdout are a pseudo-terminal (self.m is the master side)."""
    def __init__(self, exe, argv, d, hub, env=None, tty=True, user=None, cwd=None, attrs=None, stdin=None, stderr_tty=False):
        self.hub, self.d = hub, d
        self.n = len(glob.glob(d + "/cli*.err"))
        self.errf = d + "/cli%d.err" % self.n
        self.outf = d + "/cli%d.std" % self.n
        self.san = d + "/cli%d.san" % self.n
        e = {"PATH": "/usr/bin:/bin", "HOME": d, "TZ": "UTC"}
        e["ASAN_OPTIONS"] = ANSI["ASAN_OPTIONS"] + ":log_path=" + self.san
        e["UBSAN_OPTIONS"] = ANSI["UBSAN_OPTIONS"] + ":log_path=" + self.san
        e.update(env or {})
        kw = {}
        if user: kw = dict(user=user, group=user, extra_groups=[])
        err = open(self.errf, "wb"); out = open(self.outf, "wb")
        self.m = self.slave = None
        self.job = None
        if tty:
            m, s = pty.openpty()
            self.slave, self.tty = s, os.ttyname(s)
            if user: os.chown(self.tty, user, user)
            if attrs: termios.tcsetattr(s, termios.TCSANOW, attrs(termios.tcgetattr(s)))
            self.orig = termios.tcgetattr(s)
            self.m = Stream(hub, m, "terminal")
            r, w = os.pipe()
            self.p = subprocess.Popen([JOB(), str(w), exe] + argv, stdin=s, stdout=s, stderr=err, env=e, cwd=cwd or d, close_fds=True, pass_fds=[w], **kw)
            os.close(w)
            self.job = r
            os.set_blocking(r, False)
            self.jb = b""
        else:
            self.p = subprocess.Popen([exe] + argv, stdin=stdin if stdin is not None else subprocess.DEVNULL, stdout=out, stderr=err, env=e, cwd=cwd or d, **kw)
        err.close(); out.close()
    def settings(self): return termios.tcgetattr(self.slave)
    def raw(self): return not self.settings()[3] & termios.ICANON
    def _job(self):
        if self.jb.count(b"\n") < 2:
            try: self.jb += os.read(self.job, 100)
            except BlockingIOError: pass
        return self.jb.split(b"\n")
    @property
    def pid(self):
        if self.job is None: return self.p.pid
        self.hub.wait(lambda: len(self._job()) > 1, 10)
        return int(self._job()[0])
    def poll(self):
        if self.job is None: return self.p.poll()
        j = self._job()
        if len(j) > 2: return os.waitstatus_to_exitcode(int(j[1]))
        return None
    def exited(self): return self.poll() is not None
    def state(self):
        """Process state letter."""
        try: return open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()[0]
        except OSError: return "X"
    def sig(self, n): os.kill(self.pid, n)
    def wait(self, timeout=20):
        """Exit status, negative for a signal, None if still running."""
        self.hub.wait(self.exited, timeout)
        if self.exited() and self.m:
            self.hub.settle(.005, .2)
        return self.poll()
    def out(self): return bytes(self.m.rx) if self.m else open(self.outf, "rb").read()
    def err(self): return open(self.errf, "rb").read()
    def report(self):
        return "".join(open(f, errors="replace").read() for f in glob.glob(self.san + "*"))
    def sane(self, what):
        r = self.report()
        if r: raise Violation("%s: the client: %s" % (what, san_summary(r)), key="san:" + str(san_key(r)))
        if (self.poll() or 0) < 0: raise Violation("%s: the client was killed by signal %d; stderr %r" % (what, -self.poll(), self.err()[-300:]))
    def close(self):
        if not self.exited():
            try: os.kill(self.pid, 9)
            except (OSError, ValueError, IndexError): pass
        if self.p.poll() is None:
            self.p.kill(); self.p.wait()
        if self.m and not self.m.closed:
            self.m.close(); os.close(self.slave)
        if self.job is not None: os.close(self.job); self.job = None

def parse_req(line):
    """(command, sorted options, patterns in order, other fields) of a request line."""
    words = re.findall(rb"""(\w+)(?:\s*=\s*('[^']*'|"[^"]*"|[^\s'"]+))?""", line)
    kv = [(k.upper().decode(), bytes(c & 0x7f for c in v.strip(b"'\"")) if v else None) for k, v in words[1:]]
    return (words[0][0].upper().decode() if words else "", sorted(v.upper().decode() for k, v in kv if k == "OPTION" and v), [v for k, v in kv if k == "CONSOLE"],
            {k: v for k, v in kv if k not in ("OPTION", "CONSOLE")})
