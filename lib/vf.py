"""Common machinery: builds of /repo's current sources, daemon control, an event
hub for fake consoles and clients, and check bookkeeping (evidence, verdicts)."""
import argparse, errno, fcntl, glob, hashlib, json, mmap, multiprocessing, os, pty, random, re, select
import shutil, signal, socket, stat, struct, subprocess, sys, tempfile, termios, time, traceback, tty

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")

class Violation(Exception):
    """The code under test broke the property."""
    def __init__(self, msg, key=None, soft=False, **data):
        Exception.__init__(self, msg)
        self.msg, self.key, self.soft, self.data = msg, key, soft, data

class Inconclusive(Exception):
    pass

class Foreign(Exception):
    """A deviation that belongs to another property: stop this case without a verdict."""

# ------------------------------------------------------------------ builds --
SERVER = ["inevent", "server-conf", "server-esc", "server-ipmi", "server-logfile", "server-obj",
          "server-process", "server-serial", "server-sock", "server-telnet", "server-test",
          "server-unixsock", "server", "tpoll"]
COMMON = ["common", "lex", "list", "log", "util-file", "util-net", "util-str", "util"]
CLIENT = ["client-conf", "client-sock", "client-tty", "client"]
WRAPS = ["read", "write", "writev", "gettimeofday", "time", "poll", "accept", "connect", "getpeername",
         "pthread_create", "fork", "kill", "socket", "setsockopt", "tcsendbreak", "tcsetattr", "tcgetattr"]
SAN = {
    "plain": ("gcc", "-O2 -g -U_FORTIFY_SOURCE", ""),
    "asan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "tsan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread", "-fsanitize=thread"),
    "msan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins", "-fsanitize=memory"),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def _lists_from_makefile():
    """Follow the repository's own source lists so that a file split or added there is built too."""
    try:
        txt = open(os.path.join(REPO, "Makefile.am")).read()
    except OSError:
        return None
    txt = txt.replace("\\\n", " ")
    def var(name):
        m = re.search(r"^%s\s*=\s*(.*)$" % name, txt, re.M)
        return [w for w in m.group(1).split("#")[0].split() if w.endswith(".c")] if m else []
    common = var("common_sources")
    srv = var("conmand_SOURCES") + var("EXTRA_conmand_SOURCES") + common
    cli = var("conman_SOURCES") + common
    if not srv or not cli:
        return None
    return srv, cli

def sources(kind):
    m = _lists_from_makefile()
    if m:
        return [os.path.join(REPO, s) for s in (m[0] if kind == "server" else m[1])]
    names = SERVER + COMMON if kind == "server" else CLIENT + COMMON
    return [os.path.join(REPO, "src", n + ".c") for n in names]

def config_h():
    """Directory holding config.h: a private out-of-tree configure of the current tree if the
    stock build directory has none."""
    d = os.path.join(REPO, "_build")
    if os.path.exists(os.path.join(d, "config.h")):
        return d
    d = os.path.join(BUILD, "conf")
    if not os.path.exists(os.path.join(d, "config.h")):
        os.makedirs(d, exist_ok=True)
        r = sh([os.path.join(REPO, "configure"), "CC=gcc", "CFLAGS=-g -O2"], cwd=d)
        if r.returncode:
            raise SystemExit("configure failed:\n" + r.stdout.decode(errors="replace")[-2000:])
    return d

def _digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def compile_objs(srcs, variant, cflags=(), tag="", asserts=False):
    """Compile each source (cached by content of all headers + that source); returns object paths."""
    cc, sanc, sanl = SAN[variant]
    conf = config_h()
    hdrs = glob.glob(os.path.join(REPO, "src", "*.h")) + [os.path.join(conf, "config.h")]
    base = [cc] + sanc.split() + ["-w", "-DHAVE_CONFIG_H", "-DSYSCONFDIR=/nonexistent-vf/etc", "-DWITH_OOMF", "-DWITH_PTHREADS"]
    inc = ["-I" + conf, "-I" + os.path.join(REPO, "src")]
    if asserts:
        ad = os.path.join(BUILD, "assertconf")
        os.makedirs(ad, exist_ok=True)
        txt = open(os.path.join(conf, "config.h")).read().replace("#define NDEBUG 1", "/* NDEBUG off */")
        p = os.path.join(ad, "config.h")
        if not os.path.exists(p) or open(p).read() != txt:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(txt)
            os.rename(tmp, p)
        inc = ["-I" + ad, "-I" + os.path.join(REPO, "src")]
        hdrs.append(p)
    base += inc + list(cflags)
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    hh = _digest(hdrs, (base, tag))
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(od, "%s-%s.o" % (os.path.basename(s)[:-2], _digest([s], hh)))
        objs.append(o)
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            jobs.append((s, o, tmp, subprocess.Popen(base + ["-c", s, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for s, o, tmp, p in jobs:
        out = p.communicate()[0]
        if p.returncode:
            raise SystemExit("compile of %s failed:\n%s" % (s, out.decode(errors="replace")))
        os.rename(tmp, o)
    return objs

def link(name, objs, variant, ldflags=()):
    cc, sanc, sanl = SAN[variant]
    bd = os.path.join(BUILD, "bin")
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, "%s-%s" % (name, hashlib.sha256(repr((sorted(objs), variant, tuple(ldflags))).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([cc, "-g"] + sanl.split() + list(objs) + ["-o", tmp] + list(ldflags))
        if r.returncode:
            raise SystemExit("link of %s failed:\n%s" % (name, r.stdout.decode(errors="replace")))
        os.rename(tmp, exe)
    return exe

def build_daemon(variant="asan", shim=True, fake_ipmi=False, asserts=False):
    objs = compile_objs(sources("server"), variant, asserts=asserts)
    ld = ["-lwrap", "-lpthread"]
    if shim:
        objs = objs + compile_objs([os.path.join(HARN, "shim.c")], "plain" if variant == "tsan" else variant, tag="shim")
        ld += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
    if variant == "msan":
        objs = objs + compile_objs([os.path.join(HARN, "msan_str.c")], variant, cflags=("-fno-builtin",), tag="mstr")
    if fake_ipmi:
        objs = objs + compile_objs([os.path.join(HARN, "fake_ipmi.c")], variant, tag="fipmi")
    else:
        ld += ["-lipmiconsole"]
    return link("conmand", objs, variant, ld)

def build_client(variant="asan"):
    objs = compile_objs(sources("client"), variant)
    return link("conman", objs, variant, ["-lpthread"])

def build_harness(name, modules, variant="asan", cflags=(), ldflags=(), shim=False, asserts=False):
    """harness/<name>.c linked with the listed /repo/src modules."""
    objs = compile_objs([os.path.join(HARN, name + ".c")], variant, cflags=cflags, tag=name, asserts=asserts)
    objs += compile_objs([os.path.join(REPO, "src", m + ".c") for m in modules], variant, cflags=cflags, asserts=asserts)
    ld = list(ldflags) + ["-lpthread"]
    if shim:
        objs += compile_objs([os.path.join(HARN, "shim.c")], variant, tag="shim")
        ld += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
    return link(name, objs, variant, ld)

def prune_build(keep_mb=1500):
    """Keep the object cache bounded."""
    try:
        files = []
        for d in ("obj", "bin"):
            for p in glob.glob(os.path.join(BUILD, d, "*")):
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
        files.sort(reverse=True)
        tot = 0
        for m, s, p in files:
            tot += s
            if tot > keep_mb * 1e6 and time.time() - m > 3600:
                os.unlink(p)
    except OSError:
        pass

# ------------------------------------------------------------------- shim ---
SLOTS = """MODE NOW TARGET IDLE RSHORT WSHORT EINTR EAGAIN ACC_ERR ACC_CNT GPN_ERR GPN_CNT PTH_ERR PTH_CNT
FORK_ERR FORK_CNT SOCK_ERR SOCK_CNT SEED MEMREQ MEMACK MEM NPOLL NREAD NWRITE NFORK NACCEPT NSHORT NEINTR NTHREAD
SSO_ERR SSO_CNT OPEN_ERR OPEN_CNT THRDELAY POLLRET NEWTHR NCONN SPINMAX WREADY LOGIO STALLFD POSTACC THRDONE FORKDELAY SOCKDELAY TTYREAD TTYSET IPMI_CREATE IPMI_SUBMIT IPMI_CBDELAY IPMI_FD CHILDLAG""".split()
SLOT = {n: i for i, n in enumerate(SLOTS)}

class Shim:
    def __init__(self, d):
        self.path = os.path.join(d, "shim.page")
        self.log = os.path.join(d, "shim.log")
        with open(self.path, "wb") as f:
            f.write(b"\0" * 1024)
        self.fd = os.open(self.path, os.O_RDWR)
        self.m = mmap.mmap(self.fd, 1024)
        self.env = dict(VF_SHIM_PAGE=self.path, VF_SHIM_LOG=self.log)
    def __getitem__(self, k):
        return struct.unpack_from("@Q", self.m, 8 * SLOT[k])[0]   # native: one 8-byte load
    def __setitem__(self, k, v):
        struct.pack_into("@Q", self.m, 8 * SLOT[k], v)
    def events(self):
        """[(time_us, pid, [words])]"""
        r = []
        try:
            for l in open(self.log, errors="replace"):
                w = l.split()
                if len(w) >= 3:
                    r.append((int(w[0]), int(w[1]), w[2:]))
        except FileNotFoundError:
            pass
        return r
    def close(self):
        self.m.close()
        os.close(self.fd)

# -------------------------------------------------------------------- hub ---
class Hub:
    """Single-threaded pump over every fake console and client of a scenario."""
    def __init__(self):
        self.eps = {}
        self.nread = 0
    def add(self, ep):
        self.eps[ep.fileno()] = ep
    def remove(self, ep_or_fd):
        fd = ep_or_fd if isinstance(ep_or_fd, int) else ep_or_fd.fileno()
        self.eps.pop(fd, None)
    def pump(self, timeout=0.0):
        p = select.poll()
        n = 0
        for fd, ep in list(self.eps.items()):
            ev = 0
            if ep.want_read():
                ev |= select.POLLIN
            if ep.want_write():
                ev |= select.POLLOUT
            if ev:
                p.register(fd, ev)
                n += 1
        if not n:
            time.sleep(min(timeout, 0.002))
            return False
        r = p.poll(max(0, timeout) * 1000)
        for fd, ev in r:
            ep = self.eps.get(fd)
            if ep is None:
                continue
            if ev & (select.POLLIN | select.POLLHUP | select.POLLERR):
                ep.on_read()
            if ev & select.POLLOUT and fd in self.eps:
                ep.on_write()
        return bool(r)
    def wait(self, pred, timeout=20.0, step=0.02):
        """Pump until pred() is true; returns its value (falsy on timeout)."""
        end = time.monotonic() + timeout
        while True:
            v = pred()
            if v:
                return v
            left = end - time.monotonic()
            if left <= 0:
                return pred()
            self.pump(min(step, left))
    def settle(self, quiet=0.03, limit=2.0):
        """Pump until nothing has arrived for `quiet` seconds."""
        end = time.monotonic() + limit
        last = time.monotonic()
        while time.monotonic() < end and time.monotonic() - last < quiet:
            if self.pump(min(quiet, 0.01)):
                last = time.monotonic()

class Stream:
    """Byte stream endpoint with recorded input (rx) and queued output."""
    def __init__(self, hub, sock, name=""):
        self.hub, self.sock, self.name = hub, sock, name
        self.rx = bytearray()
        self.tx = bytearray()
        self.eof = False
        self.err = None
        self.paused = False
        self.closed = False
        self.sent = 0
        if hasattr(sock, "setblocking"):
            sock.setblocking(False)
        else:
            os.set_blocking(sock, False)
        hub.add(self)
    def fileno(self):
        return self.sock if isinstance(self.sock, int) else self.sock.fileno()
    def want_read(self):
        return not (self.paused or self.eof or self.closed)
    def want_write(self):
        return bool(self.tx) and not self.closed
    def _recv(self):
        return os.read(self.sock, 65536) if isinstance(self.sock, int) else self.sock.recv(65536)
    def _send(self, b):
        return os.write(self.sock, b) if isinstance(self.sock, int) else self.sock.send(b)
    def on_read(self):
        try:
            d = self._recv()
        except (BlockingIOError, InterruptedError):
            return
        except OSError as e:
            self.err = e.errno
            self.eof = True
            return
        if not d:
            self.eof = True
            return
        self.hub.nread += len(d)
        self.rx += d
        self.received(d)
    def received(self, d):
        pass
    def on_write(self):
        try:
            n = self._send(bytes(self.tx[:65536]))
        except (BlockingIOError, InterruptedError):
            return
        except OSError as e:
            self.err = e.errno
            self.tx.clear()
            return
        del self.tx[:n]
        self.sent += n
    def send(self, b):
        if self.closed:
            return
        self.tx += b
        if len(self.tx) == len(b):
            self.on_write()
    def flush(self, timeout=20):
        if not self.hub.wait(lambda: not self.tx or self.closed or self.err, timeout):
            raise Inconclusive("could not send to the daemon on %s" % self.name)
    def close(self, rst=False):
        if self.closed:
            return
        self.hub.remove(self)
        self.closed = True
        if isinstance(self.sock, int):
            os.close(self.sock)
            return
        try:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.close()
        except OSError:
            pass

class Listener:
    """Listening endpoint standing for a console device (unix socket or TCP)."""
    def __init__(self, hub, sock, name, cls=Stream):
        self.hub, self.sock, self.name, self.cls = hub, sock, name, cls
        self.sock.setblocking(False)
        self.conns = []
        self.accept_times = []
        self.reject = False
        hub.add(self)
    def fileno(self):
        return self.sock.fileno()
    def want_read(self):
        return True
    def want_write(self):
        return False
    def on_read(self):
        try:
            s, _ = self.sock.accept()
        except OSError:
            return
        self.accept_times.append(time.monotonic())
        if self.reject:
            s.close()
            return
        if s.family == socket.AF_INET:
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.conns.append(self.cls(self.hub, s, self.name))
    @property
    def conn(self):
        return self.conns[-1] if self.conns else None
    @property
    def up(self):
        return bool(self.conns) and not self.conns[-1].closed and not self.conns[-1].eof
    def close(self):
        self.hub.remove(self)
        self.sock.close()
        for c in self.conns:
            c.close()

def unix_console(hub, path, name="", cls=Stream):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(path)
    s.listen(16)
    return Listener(hub, s, name, cls)

def tcp_console(hub, name="", cls=Stream, port=0, rcvbuf=None):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.bind(("127.0.0.1", port))
    s.listen(16)
    l = Listener(hub, s, name, cls)
    l.port = s.getsockname()[1]
    return l

IAC, DONT, DO, WONT, WILL, SB, BRK, SE = 255, 254, 253, 252, 251, 250, 243, 240

class TelnetPeer(Stream):
    """Fake terminal server side of a telnet connection: decodes what the daemon sends."""
    def __init__(self, *a, **k):
        self.data = bytearray()
        self.cmds = []          # (cmd, opt or None, len(data) at that time)
        self.st = 0
        Stream.__init__(self, *a, **k)
    def received(self, d):
        for c in d:
            if self.st == 0:
                if c == IAC: self.st = 1
                else: self.data.append(c)
            elif self.st == 1:
                if c == IAC:
                    self.data.append(c); self.st = 0
                elif c in (DO, DONT, WILL, WONT):
                    self.st = c
                elif c == SB:
                    self.cmds.append((SB, None, len(self.data))); self.st = 2
                else:
                    self.cmds.append((c, None, len(self.data))); self.st = 0
            elif self.st == 2:
                if c == IAC: self.st = 3
            elif self.st == 3:
                self.st = 0 if c == SE else 2
            else:
                self.cmds.append((self.st, c, len(self.data))); self.st = 0

class PtySerial(Stream):
    """Serial device: the daemon opens the slave side."""
    def __init__(self, hub, name=""):
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        self.path = os.ttyname(self.slave)
        Stream.__init__(self, hub, self.master, name)
    def close(self, rst=False):
        if not self.closed:
            Stream.close(self)
            if self.slave is not None:
                os.close(self.slave)

# ----------------------------------------------------------------- client ---
ESC = b"\xff"
def enc(s):
    """lex_encode(): quotes travel with their high bit set."""
    b = s if isinstance(s, bytes) else s.encode("latin-1")
    return bytes((c | 0x80) if c in (0x22, 0x27) else c for c in b)

def parse_rsp(line):
    """(kind, dict-of-lists) from one response line."""
    words = re.findall(rb"""(\w+)(?:\s*=\s*('[^']*'|"[^"]*"|[^\s'"]+))?""", line)
    kind = words[0][0].upper() if words else b""
    kv = {}
    for k, v in words[1:]:
        v = v.strip(b"'\"")
        kv.setdefault(k.upper().decode("latin-1"), []).append(bytes(c & 0x7f for c in v))
    return kind, kv

class Client(Stream):
    """A raw protocol client."""
    def __init__(self, hub, port, name="", rcvbuf=None, src=None, dst="127.0.0.1", ctimeout=None):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if src:
            s.bind((src, 0))
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(ctimeout)
        try:
            s.connect((dst, port))
        except OSError:
            s.close()
            raise
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.lport = s.getsockname()[1]
        Stream.__init__(self, hub, s, name)
        self.pos = 0            # consumed part of rx
        self.greet = None
        self.rsp = None
        self.mark = 0           # start of session data in rx
    def line(self, timeout=20):
        def have():
            return self.rx.find(b"\n", self.pos) >= 0 or self.eof
        self.hub.wait(have, timeout)
        i = self.rx.find(b"\n", self.pos)
        if i < 0:
            return None
        l = bytes(self.rx[self.pos:i])
        self.pos = i + 1
        return l
    def hello(self, user="u", tty="t", timeout=20):
        m = b"HELLO USER='" + enc(user) + b"'"
        if tty is not None:
            m += b" TTY='" + enc(tty) + b"'"
        self.send(m + b"\n")
        self.greet = self.line(timeout)
        return self.greet
    def request(self, cmd, consoles=(), opts=(), timeout=20):
        m = cmd.encode()
        for o in opts:
            m += b" OPTION=" + o.encode()
        for c in consoles:
            m += b" CONSOLE='" + enc(c) + b"'"
        self.send(m + b"\n")
        l = self.line(timeout)
        self.rsp = l
        self.mark = self.pos
        if l is None:
            return None, {}
        return parse_rsp(l)
    def session(self, cmd, consoles, opts=(), user="u", tty="t", timeout=20):
        """Greeting + request; returns (kind, fields)."""
        self.hello(user, tty, timeout)
        return self.request(cmd, consoles, opts, timeout)
    @property
    def data(self):
        """Session bytes received after the response line."""
        return bytes(self.rx[self.mark:])

INFO_RE = re.compile(rb"\r\n<ConMan> [^\r\n]*\r\n")
def split_info(data):
    """(payload, [messages]) with complete informational messages removed."""
    msgs = INFO_RE.findall(data)
    return INFO_RE.sub(b"", data), msgs

# ----------------------------------------------------------------- daemon ---
import ctypes
_libc = ctypes.CDLL(None)
def subreaper():
    _libc.prctl(36, 1, 0, 0, 0)                 # PR_SET_CHILD_SUBREAPER
NOBODY = 65534
def drop(d, user=NOBODY):
    """Popen arguments that run a program as an unprivileged user owning only scratch directory d, so
    that a path leading out of the scratch directory reaches nothing."""
    if user is None or os.getuid() != 0:
        return {}
    for a, ds, fs in os.walk(d):
        for x in [a] + [os.path.join(a, f) for f in fs]:
            os.chown(x, user, user, follow_symlinks=False)
    return dict(user=user, group=user, extra_groups=[])

class Daemon:
    def __init__(self, exe, conf, d, hub=None, args=(), env=None, shim=None, fg=True, port=None,
                 start=True, logname="daemon.out", rlimit_nofile=None, conf_name="conman.conf", timeout=40, user=None):
        self.exe, self.dir, self.hub, self.args, self.shim, self.fg = exe, d, hub or Hub(), list(args), shim, fg
        self.conf_path = os.path.join(d, conf_name)
        if conf is not None:
            with open(self.conf_path, "wb") as f:
                f.write(conf if isinstance(conf, bytes) else conf.encode("latin-1"))
        self.out = os.path.join(d, logname)
        self.env = {k: v for k, v in os.environ.items() if not k.startswith("CONMAN")}
        self.sanlog = os.path.join(d, logname + ".san")
        self.env.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:log_path=%s:handle_abort=1" % self.sanlog,
                        UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=%s" % self.sanlog,
                        TSAN_OPTIONS="halt_on_error=0:exitcode=98:log_path=%s:history_size=4:suppressions=%s" % (self.sanlog, os.path.join(HARN, "tsan.supp")),
                        MSAN_OPTIONS="exitcode=97:log_path=%s" % self.sanlog)
        self.env.pop("DEBUG", None)
        if shim:
            self.env.update(shim.env)
        self.env.update(env or {})
        self.rlimit_nofile = rlimit_nofile
        self.user = user
        self.port = None
        self.p = None
        self.want_port = port
        if start:
            self.start(timeout)
    def argv(self):
        a = [self.exe, "-c", self.conf_path]
        if self.fg:
            a.append("-F")
        if self.want_port is not None:
            a += ["-p", str(self.want_port)]
        return a + self.args
    def spawn(self):
        self.outf = open(self.out, "ab")
        self.out0 = os.path.getsize(self.out)
        def pre():
            os.setsid()
            _libc.prctl(1, 9, 0, 0, 0)          # PR_SET_PDEATHSIG: a killed check leaves no daemon behind
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if self.rlimit_nofile:
                import resource
                resource.setrlimit(resource.RLIMIT_NOFILE, self.rlimit_nofile)
        self.p = subprocess.Popen(self.argv(), stdin=subprocess.DEVNULL, stdout=self.outf, stderr=self.outf,
                                  env=self.env, cwd=self.dir, preexec_fn=pre, **drop(self.dir, self.user))
        self.outf.close()
        return self.p
    def start(self, timeout=40):
        self.spawn()
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            m = re.search(rb"Listening on \S+ port (\d+)|Listening on port (\d+)", self.log_bytes()[self.out0:])
            if m:
                self.port = int(m.group(1) or m.group(2))
                return self
            if self.p.poll() is not None:
                raise Violation("daemon exited with status %s at start: %s" % (self.p.returncode, (self.log_text()[-1500:] + self.san_text()[-3000:])))
            if self.hub:
                self.hub.pump(0.01)
        raise Inconclusive("daemon did not start listening: " + self.log_text()[-1000:])
    def log_bytes(self):
        try:
            return open(self.out, "rb").read()
        except FileNotFoundError:
            return b""
    def log_text(self):
        return self.log_bytes().decode("latin-1")
    def san_text(self):
        r = ""
        for p in sorted(glob.glob(self.sanlog + ".*")):
            r += open(p, errors="replace").read()
        return r
    def sendsig(self, sig):
        self.p.send_signal(sig)
    @property
    def dpid(self):
        return self.p.pid
    def alive(self):
        return self.p is not None and self.p.poll() is None
    def check_alive(self, what=""):
        st = self.san_text()
        if st and ("ERROR" in st or "runtime error" in st or "MemorySanitizer" in st):
            raise Violation("sanitizer report %s: %s" % (what, san_summary(st)), key=san_key(st), san=st[:6000])
        if not self.alive():
            raise Violation("daemon died (status %s) %s: %s" % (self.p.returncode, what, self.log_text()[-800:]), key="died")
    def client(self, name="", **k):
        for i in range(50):
            try:
                return Client(self.hub, self.port, name, **k)
            except (ConnectionRefusedError, OSError):
                if not self.alive():
                    self.check_alive()
                time.sleep(0.05)
        raise Inconclusive("cannot connect to the daemon")
    def query(self, pats=("*",), opts=(), timeout=20):
        c = self.client("probe")
        try:
            c.hello(timeout=timeout)
            k, kv = c.request("QUERY", pats, opts, timeout=timeout)
            return k, kv
        finally:
            c.close()
    def stop(self, sig=signal.SIGTERM, timeout=30):
        """Signals the daemon and waits; returns its exit status (None if it had to be killed)."""
        if not self.p:
            return 0
        if self.p.poll() is None:
            if self.shim and self.shim["MODE"]:
                pass
            try:
                self.p.send_signal(sig)
            except ProcessLookupError:
                pass
            end = time.monotonic() + timeout
            resent = False
            while self.p.poll() is None and time.monotonic() < end:
                if self.hub:
                    self.hub.pump(0.005)
                else:
                    time.sleep(0.005)
            if self.p.poll() is None:
                self.kill()
                return None
        rc = self.p.returncode
        self.reap_group()
        return rc
    def reap_group(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    def kill(self):
        if self.p:
            self.reap_group()
            try:
                self.p.kill()
            except ProcessLookupError:
                pass
            self.p.wait()
    # ---- stepped clock
    def advance(self, secs, timeout=25):
        """Move the virtual clock forward; returns once the daemon's loop is parked at the new time."""
        s = self.shim
        s["TARGET"] = max(s["TARGET"], s["NOW"]) + int(secs * 1000000)
        self.sync_idle(timeout)
    def sync_idle(self, timeout=25):
        s = self.shim
        end = time.monotonic() + timeout
        while s["NOW"] < s["TARGET"]:
            self.hub.pump(0.001)
            if time.monotonic() > end:
                raise Violation("event loop never waits for the next timer: it spins or is stuck", key="spin", soft=True)
            if not self.alive():
                self.check_alive("while advancing time")
        i = s["IDLE"]
        while s["IDLE"] < i + 3:
            self.hub.pump(0.001)
            if time.monotonic() > end:
                raise Violation("event loop never became idle (spins)", key="spin", soft=True)
            if not self.alive():
                self.check_alive("while advancing time")

class BgDaemon(Daemon):
    """The daemon in its normal background mode; this process adopts it (child subreaper), so its exit status is seen."""
    def __init__(self, exe, conf, d, *a, pidfile=True, pidpath=None, **k):
        _libc.prctl(36, 1, 0, 0, 0)             # PR_SET_CHILD_SUBREAPER
        self.pidpath = pidpath or os.path.join(d, "conmand.pid")
        logname = k.get("logname", "bg.log")
        k["logname"] = logname
        conf = 'server logfile="%s,info"\n' % os.path.join(d, logname) + ('server pidfile="%s"\n' % self.pidpath if pidfile else "") + conf
        self.pid, self.rc = None, None
        super().__init__(exe, conf, d, *a, fg=False, **k)
    def start(self, timeout=40):
        self.rc = self.pid = None
        self.launch = os.path.join(self.dir, "launch.out")
        out, self.out = self.out, self.launch
        n = os.path.getsize(out) if os.path.exists(out) else 0
        self.spawn()
        self.out, self.out0 = out, 0 if "-z" in self.args else n
        end = time.monotonic() + timeout
        while time.monotonic() < end and self.p.poll() is None:
            self.hub.pump(0.005)
        if self.p.poll() is None: raise Inconclusive("launcher does not return")
        if self.p.returncode:
            raise Violation("daemon launcher exited with status %s: %s" % (self.p.returncode, open(self.launch, errors="replace").read()[-1000:] + self.san_text()[-2000:]))
        m = re.findall(r"Starting ConMan daemon \S+ \(pid (\d+)\)", self.log_text()[self.out0:])
        q = re.findall(r"Listening on TCP port (\d+)", self.log_text()[self.out0:])
        if not m or not q: raise Violation("background daemon announced nothing: " + self.log_text()[self.out0:][-500:], soft=True)
        self.pid, self.port = int(m[-1]), int(q[-1])
        return self
    @property
    def dpid(self):
        return self.pid
    def poll(self):
        if self.rc is None and self.pid:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
                if p: self.rc = os.waitstatus_to_exitcode(st)
            except ChildProcessError:
                if not os.path.exists("/proc/%d" % self.pid): self.rc = "unknown"
        return self.rc
    def alive(self):
        return self.pid is not None and self.poll() is None
    def check_alive(self, what=""):
        st = self.san_text()
        if st and ("ERROR" in st or "runtime error" in st or "MemorySanitizer" in st):
            raise Violation("sanitizer report %s: %s" % (what, san_summary(st)), key=san_key(st), san=st[:6000])
        if not self.alive():
            raise Violation("daemon died (status %s) %s: %s" % (self.rc, what, self.log_text()[-800:]), key="died")
    def sendsig(self, sig):
        os.kill(self.pid, sig)
    def stop(self, sig=signal.SIGTERM, timeout=30):
        if self.alive():
            self.sendsig(sig)
            end = time.monotonic() + timeout
            while self.poll() is None and time.monotonic() < end: self.hub.pump(0.005)
            if self.poll() is None:
                self.kill(); return None
        return self.rc
    def kill(self):
        if self.pid and self.poll() is None:
            try: os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            end = time.monotonic() + 10
            while self.poll() is None and time.monotonic() < end: time.sleep(.002)

def san_summary(t):
    m = re.search(r"(SUMMARY: .*|.*runtime error: .*)", t)
    return m.group(1)[:300] if m else t[:300]
def san_key(t):
    m = re.search(r"SUMMARY: \w+: (\S+) \S*?([\w.-]+\.c):\d+(?::\d+)? in (\w+)", t)
    if m:
        return "san:%s:%s" % (m.group(1), m.group(3))
    m = re.search(r"([\w-]+\.c):\d+:\d+: runtime error: ([a-z ]+)", t)
    return "san:%s:%s" % (m.group(2).strip(), m.group(1)) if m else "san"

# ------------------------------------------------------------------ checks --
class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.foreign = []
    def seen(self, key, n=1):
        """One oracle evaluation whose distinct behaviour is identified by key."""
        self.evaluations += n
        if key is not None:
            self.distinct.add(key if isinstance(key, str) else repr(key))
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n
    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:400])
    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.foreign += o.foreign
        for s in o.samples:
            self.sample(s)
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v

_FN = None
def _run_case(args):
    case, timeout = args
    fn = _FN
    st = Stats()
    d = tempfile.mkdtemp(prefix="vfcase.", dir=scratch_root())
    def onalarm(*a):
        raise Inconclusive("case timed out")
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    try:
        fn(case, d, st)
        res = ("ok", None, st)
    except Violation as v:
        signal.alarm(0)
        extra = {}
        for p in glob.glob(os.path.join(d, "*.out")) + glob.glob(os.path.join(d, "*.san*")) + glob.glob(os.path.join(d, "shim.log")):
            try:
                extra[os.path.basename(p)] = open(p, errors="replace").read()[-8000:]
            except OSError:
                pass
        res = ("violation", dict(msg=v.msg, key=v.key, soft=v.soft, data=v.data, files=extra, case=repr(case)), st)
    except Foreign as e:
        st.count("cases ended by a deviation that belongs to another property")
        st.foreign.append("case %r: %s" % (case, e))
        res = ("ok", None, st)
    except Inconclusive as e:
        extra = ""
        for p in glob.glob(os.path.join(d, "*.out")):
            try:
                extra += open(p, errors="replace").read()[-600:]
            except OSError:
                pass
        res = ("inconclusive", str(e) + " | " + extra, st)
    except Exception:
        res = ("inconclusive", "harness error: " + traceback.format_exc(), st)
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        kill_strays(d)
        shutil.rmtree(d, ignore_errors=True)
    return res

def kill_strays(d):
    """End every process whose working directory is inside scratch directory d, and every daemon (which
    changes to the root directory) started on a configuration in it."""
    me = os.getpid()
    for p in glob.glob("/proc/[0-9]*"):
        pid = int(p[6:])
        if pid == me:
            continue
        try:
            c = os.readlink(p + "/cwd")
            if c == "/" and (d + "/").encode() in open(p + "/cmdline", "rb").read() and os.readlink(p + "/exe").startswith(BUILD):
                c = d
        except OSError:
            continue
        if c == d or c.startswith(d + "/"):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass

_scratch = None
def scratch_root():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
        os.chmod(_scratch, 0o755)
    return _scratch

class Check:
    def __init__(self, prop, rule, level="exploration", argv=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--case", default=None, help="replay one case (python literal)")
        ap.add_argument("--label", default=None, help="run only the case family of this label")
        ap.add_argument("--repeat", type=int, default=1)
        ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
        self.a = ap.parse_args(argv)
        self.prop, self.rule, self.level = prop, rule, level
        self.tier, self.seed = self.a.tier, self.a.seed
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.st = Stats()
        self.viol = []
        self.known_hit = {}
        self.incon = []
        self.known = load_known(prop)
        os.makedirs(EVID, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        self.assumptions = []
        scratch_root()
        prune_build()
    def q(self, quick, thorough):
        return thorough if self.thorough else quick
    def rng(self, *k):
        return random.Random(repr((self.prop, self.seed) + k))
    def report(self, info):
        key = info.get("key")
        for k in self.known:
            if key and k["key"] == key:
                self.known_hit.setdefault(k["key"], k["text"])
                return
        self.viol.append(info)
        if len(self.viol) <= 5:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol)))
            info = dict(info, property=self.prop, seed=self.seed, tier=self.tier)
            with open(path, "w") as f:
                json.dump(info, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + str(info.get("msg"))[:600].replace("\n", "\n  "))
            sys.stdout.flush()
    def run_cases(self, fn, cases, jobs=None, timeout=240, retries=2, stop_after=3, label=""):
        """Run fn(case, scratch_dir, stats) for every case in parallel worker processes."""
        cases = list(cases)
        if self.a.label is not None and label != self.a.label:
            return
        if self.a.case is not None:
            import ast
            cases = [ast.literal_eval(self.a.case)] * self.a.repeat
        jobs = min(jobs or self.a.jobs, max(1, len(cases)))
        todo = [(c, timeout) for c in cases]
        global _FN
        _FN = fn
        # A soft violation (one that a starved machine could also cause) and a case that gave no answer are
        # repeated with less load, at once when they become numerous; cases not yet run follow afterwards.
        again, attempt, rest = [], 0, []
        while todo:
            again, done, stop = [], 0, False
            with multiprocessing.get_context("fork").Pool(max(1, jobs >> attempt), maxtasksperchild=50) as pool:
                for job, res in zip(todo, pool.imap(_run_case, todo)):
                    done += 1
                    kind, info, st = res
                    self.st.merge(st)
                    if kind == "ok":
                        continue
                    if kind == "violation" and not (info["soft"] and attempt < retries):
                        info["label"] = label
                        self.report(info)
                        if len(self.viol) >= stop_after:
                            pool.terminate()
                            return
                        continue
                    again.append(job)
                    if kind != "violation" and attempt == retries:
                        self.incon.append(str(info)[-1500:])
                    if attempt == 0 and len(again) >= 6:
                        pool.terminate()
                        break
            rest += todo[done:]
            attempt += 1
            todo = again if attempt <= retries else []
            if not todo:
                if len(self.incon) >= 6 or self.viol:
                    break                       # no use going on
                todo, rest, attempt = rest, [], 0
    def finish(self, min_evals=1, extra=None):
        shutil.rmtree(scratch_root(), ignore_errors=True)
        cov = dict(evaluations=self.st.evaluations, distinct_nontrivial=len(self.st.distinct),
                   rule=self.rule, samples=self.st.samples[:12] or ["(none)"], counters=self.st.counters,
                   inconclusive=len(self.incon))
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for i in self.st.foreign[:3]:
            print("note: deviation that belongs to another property: " + i[:600])
        for i in self.incon[:4]:
            print("note: inconclusive case (not counted): " + i.replace("\n", "\n    ")[:1500])
        print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" % (
            self.prop, self.st.evaluations, len(self.st.distinct), len(self.viol), len(self.incon), time.time() - self.t0))
        if not self.viol and self.st.evaluations < min_evals:
            # never silently pass without observations
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(EVID, self.prop + ".json")))
            print("  the check could not observe the behaviour it monitors (%d observations, %d expected): %s"
                  % (self.st.evaluations, min_evals, "; ".join(self.incon)[:500]))
            sys.exit(1)
        sys.exit(1 if self.viol else 0)

def load_known(prop):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(dict(key=m.group(2), text=m.group(3)))
    except FileNotFoundError:
        pass
    return r
