"""The BMCs' side of harness/fake_ipmi.c."""
from vf import *
import array
class Sub:
    """One connection attempt the daemon submitted to the engine."""
    def __init__(self, w):
        self.id = int(w[1])
        un = lambda x: None if x == "NULL" else bytes.fromhex(x[1:])
        self.host, self.user, self.pswd, self.kg = un(w[2]).decode("latin1"), un(w[3]), un(w[4]), un(w[5])
        self.kglen, self.priv, self.cipher, self.wf = int(w[6]), int(w[7]), int(w[8]), int(w[9])
        self.t = int(w[10]) / 1e6
        self.ok = self.done = self.destroyed = False
        self.stream = None
        self.breaks = 0
    def opts(self): return (self.user, self.pswd, self.kg, self.priv, self.cipher, self.wf)

class Engine:
    """Listens at path for the fake engine; .subs = submissions in order, .events = every line."""
    def __init__(self, hub, path):
        self.hub = hub
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); self.l.bind(path); self.l.listen(2); self.l.setblocking(False)
        self.sock = None
        self.buf = b""
        self.fds = []
        self.subs, self.by, self.events = [], {}, []
        self.policy = None              # f(sub) -> "ok" / error number / None (no answer)
        self.threads = None
        self.down = False
        hub.add(self)
    def fileno(self): return self.l.fileno()
    def want_read(self): return True
    def want_write(self): return False
    def on_write(self): pass
    def on_read(self):
        s, _ = self.l.accept()
        self.sock = s; s.setblocking(False)
        self.hub.add(Conn(self, s))
    def line(self, l):
        w = l.decode().split()
        self.events.append(w)
        if w[0] == "INIT": self.threads = int(w[1])
        elif w[0] in ("SUBMIT", "NOSUBMIT"):
            x = Sub(w); x.failed = w[0] == "NOSUBMIT"
            self.subs.append(x); self.by[x.id] = x
            if self.policy and not x.failed:
                v = self.policy(x)
                if v == "ok": self.accept(x)
                elif v is not None: self.refuse(x, v)
        elif w[0] == "FD":
            x = self.by[int(w[1])]
            x.stream = Stream(self.hub, socket.socket(fileno=self.fds.pop(0)), x.host); x.ok = True
        elif w[0] == "DONE": self.by[int(w[1])].done = True
        elif w[0] == "BREAK": self.by[int(w[1])].breaks += w[2] == "0"
        elif w[0] == "DESTROY" and int(w[1]) in self.by: self.by[int(w[1])].destroyed = True
        elif w[0] == "TEARDOWN": self.down = True
    def accept(self, x): self.tell(b"OK %d\n" % x.id)
    def refuse(self, x, e=5): self.tell(b"ERR %d %d\n" % (x.id, e))
    def tell(self, b):
        try: self.sock.send(b)
        except OSError: pass            # the daemon has gone or shut its engine down

class Conn:
    def __init__(self, e, s): self.e, self.s = e, s
    def fileno(self): return self.s.fileno()
    def want_read(self): return True
    def want_write(self): return False
    def on_write(self): pass
    def on_read(self):
        e = self.e
        try: d, fds, _, _ = socket.recv_fds(self.s, 65536, 8)
        except (BlockingIOError, InterruptedError): return
        except OSError: d, fds = b"", []
        e.fds += fds
        if not d:
            e.hub.remove(self); self.s.close(); return
        e.hub.nread += len(d)
        e.buf += d
        while b"\n" in e.buf:
            l, e.buf = e.buf.split(b"\n", 1)
            e.line(l)
