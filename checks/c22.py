"""C22: one daemon per configuration; query, kill and reconfigure find exactly it."""
import common
from vf import *
C = Check("C22", "one evaluation = one command (second start, -q, -k, -r, crash, pid file inspection) whose exit status, output and effect on every daemon were compared with the model; "
          "distinct = (command, state of the daemon, background, pid file option, config replaced, unprivileged)")
exe = build_daemon("asan")
class Conf:
    def __init__(self, j, d, rng):
        self.j, self.d, self.rng = j, d, rng
        self.dir = d + "/k%d" % j; os.mkdir(self.dir, 0o755)
        self.path = self.dir + "/conf %d" % j
        self.pidp = self.dir + rng.choice(["/pid", "/run/x/pid"])
        self.viaP = rng.random() < .4           # pid file named on the command line rather than in the configuration
        self.log = self.dir + "/log"
        self.write()
        self.D, self.pid, self.bg = None, None, None
        self.replaced = False
        self.n = 0
        self.recs = 0
        self.logbytes = b""
    def text(self):
        return 'server port=0\n' + ('' if self.viaP else 'server pidfile="%s"\n' % self.pidp) + \
            'server logfile="%s/dlog,info"\nconsole name=c%d dev="test:" testopts="m:2000000000,n:2000000000" log="%s"\n' % (self.dir, self.j, self.log)
    def write(self):
        with open(self.path + ".new", "w") as f: f.write(self.text())
        os.rename(self.path + ".new", self.path)
    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.startswith("CONMAN")}
        self.san = self.dir + "/san"
        e.update(ASAN_OPTIONS="detect_leaks=0:exitcode=99:log_path=%s" % self.san, UBSAN_OPTIONS="halt_on_error=1:exitcode=99:log_path=%s" % self.san)
        return e
    def cmd(self, args, P=True, path=None):
        return [exe, "-c", path or self.path] + (["-P", self.pidp] if P else []) + args
    def run(self, args, P=False, path=None, user=None, **k):
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if user else {}
        p = subprocess.run(self.cmd(args, P, path), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(), timeout=30, cwd=self.dir, **kw)
        for s in glob.glob(self.san + ".*"): raise Violation("sanitizer report: " + san_summary(open(s, errors="replace").read()))
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
def pidalive(p):
    try:
        s = open("/proc/%d/stat" % p).read()
        return s.rsplit(")", 1)[1].split()[0] != "Z"
    except OSError: return False

def case(i, d, st):
    rng = random.Random(i)
    subreaper()
    os.chmod(d, 0o755)
    hub = Hub()
    cs = [Conf(j, d, rng) for j in range(rng.randrange(1, 4))]
    def reap():
        try:
            while os.waitpid(-1, os.WNOHANG)[0]: pass
        except ChildProcessError: pass
    def dlog(c):
        f = c.dir + ("/dlog" if c.bg else "/fg.out")
        try: return open(f, errors="replace").read()
        except OSError: return ""
    def start(c):
        c.bg = rng.random() < .5
        um = rng.choice([0, 0o022, 0o077])
        z = []
        off = len(dlog(c))
        if c.bg:
            old = os.umask(um)
            try: r = c.run(z, c.viaP)
            finally: os.umask(old)
            if r[0] != 0: raise Violation("daemon refused to start on an unused configuration: %r" % (r,))
        else:
            f = open(c.dir + "/fg.out", "ab")
            old = os.umask(um)
            try: c.p = subprocess.Popen(c.cmd(["-F"] + z, c.viaP), stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=c.env(), cwd=c.dir, start_new_session=True)
            finally: os.umask(old)
            f.close()
        if not hub.wait(lambda: "Listening on TCP port" in dlog(c)[off:] and "limit set to" in dlog(c)[off:], 20): raise Inconclusive("no start: " + dlog(c)[off:])
        t = dlog(c)[off:]
        c.pid = int(re.search(r"\(pid (\d+)\)", t).group(1))
        c.port = int(re.search(r"Listening on TCP port (\d+)", t).group(1))
        c.replaced = False
        c.recs = dlog(c).count("Performing reconfig")
        hub.wait(lambda: os.path.exists(c.pidp), 5)
        try: v = open(c.pidp).read()
        except OSError: raise Violation("no pid file after start")
        if v.strip() != str(c.pid): raise Violation("pid file holds %r, daemon is %d" % (v, c.pid))
        m = os.stat(c.pidp).st_mode & 0o777
        if m & 0o022: raise Violation("pid file mode %o" % m)
        st.seen("start bg=%s viaP=%s" % (c.bg, c.viaP))
    def check(what):
        for c in cs:
            if c.pid:
                if not pidalive(c.pid): raise Violation("%s: daemon of configuration %d is gone" % (what, c.j))
                if open(c.pidp).read().strip() != str(c.pid): raise Violation("%s: pid file of configuration %d disturbed" % (what, c.j))
                n = dlog(c).count("Performing reconfig")
                if n != c.recs: raise Violation("%s: configuration %d reconfigured %d times, expected %d" % (what, c.j, n, c.recs))
                b = open(c.log, "rb").read()
                if not b.startswith(c.logbytes): raise Violation("%s: console log of configuration %d disturbed" % (what, c.j))
                c.logbytes = b
    def serves(c):
        k = Client(hub, c.port, "x")
        k.hello(); r = k.request("QUERY", ["*"]); k.close()
        if r[0] != b"OK": raise Violation("daemon does not answer: %r" % (r,))
    def gone(c, what):
        def g():
            reap()
            if not c.bg: c.p.poll()
            return not os.path.exists("/proc/%d" % c.pid)      # a zombie can still be signalled: wait until it is reaped
        if not hub.wait(g, 20): raise Violation("%s: daemon still runs" % what, soft=True)
        c.pid = None
    try:
        for step in range(rng.randrange(8, 20)):
            c = rng.choice(cs)
            op = rng.choice(["start", "start", "second", "second", "q", "q", "r", "k", "term", "crash", "edit", "simul"])
            P = rng.random() < .4
            user = rng.random() < .25
            what = "step %d %s config %d" % (step, op, c.j)
            key = "%s running=%s bg=%s P=%s replaced=%s user=%s" % (op, bool(c.pid), c.bg, P, c.replaced, user)
            path = c.path
            if rng.random() < .2:
                path = c.dir + "/link"
                if os.path.lexists(path): os.unlink(path)
                os.symlink(c.path, path)
            found = c.pid and (not c.replaced or P)
            if op == "start" and not c.pid:
                start(c); serves(c)
            elif op == "second" and c.pid and not c.replaced:
                a = rng.choice([["-F"], [], ["-z"], ["-F", "-p", "0"], ["-F", "-z"]])
                other = c.dir + "/other.pid"
                r = c.run(a + rng.choice([[], ["-P", other]]), False, path)
                if r[0] == 0: raise Violation("%s: a second daemon was let start with %s: %r" % (what, a, r))
                if "in use by pid %d" % c.pid not in r[1] + r[2]: raise Violation("%s: refusal does not name the daemon: %r" % (what, r))
                if os.path.exists(other): raise Violation("%s: refused daemon left a pid file" % what)
                serves(c); st.seen(key + " %s" % a)
            elif op == "simul" and not c.pid:
                f = open(c.dir + "/simul.out", "ab")
                ps = [subprocess.Popen(c.cmd(["-F"], True), stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=c.env(), cwd=c.dir, start_new_session=True) for _ in range(4)]
                f.close()
                last = time.monotonic()
                hub.wait(lambda: sum(p.poll() is None for p in ps) <= 1, 10)
                run = [p for p in ps if p.poll() is None]
                if len(run) > 1: raise Violation("%s: %d daemons of four started together run" % (what, len(run)), soft=True)
                st.seen("simul ran=%d" % len(run))
                if run:
                    hub.wait(lambda: os.path.exists(c.pidp) and open(c.pidp).read().strip() == str(run[0].pid), 5)
                    r = c.run(["-q"])
                    if r[1].strip() != str(run[0].pid): raise Violation("%s: -q says %r, running %d" % (what, r, run[0].pid), soft=True)
                    run[0].kill()
                for p in ps: p.wait()
                try: c.logbytes = open(c.log, "rb").read()
                except OSError: pass
            elif op == "q":
                r = c.run(["-q"], P, path, user)
                if found:
                    if r[0] != 0 or r[1].strip() != str(c.pid): raise Violation("%s: -q gave %r, daemon is %d" % (what, r, c.pid), soft=True)
                elif not c.pid:
                    if r[0] == 0 or re.search(r"^\d+$", r[1]): raise Violation("%s: -q succeeded without a daemon: %r" % (what, r))
                st.seen(key)
            elif op == "r":
                r = c.run(["-r"] + (["-v"] if rng.random() < .3 else []), P, path, user)
                if found and not user:
                    if r[0] != 0: raise Violation("%s: -r failed: %r" % (what, r))
                    c.recs += 1
                    if not hub.wait(lambda: dlog(c).count("Performing reconfig") >= c.recs, 10): raise Violation("%s: -r had no effect" % what, soft=True)
                elif r[0] == 0 and not (c.pid and c.replaced and not P): raise Violation("%s: -r reported success: %r" % (what, r))
                st.seen(key)
            elif op == "k":
                r = c.run(["-k"] + (["-v"] if rng.random() < .3 else []), P, path, user)
                if found and not user:
                    if r[0] != 0: raise Violation("%s: -k failed: %r" % (what, r))
                    gone(c, what)
                    if os.path.exists(c.pidp): raise Violation("%s: pid file left behind" % what)
                    if "Exiting on signal=15" not in dlog(c): raise Violation("%s: not a regular exit" % what, soft=True)
                elif r[0] == 0 and not (c.pid and c.replaced and not P): raise Violation("%s: -k reported success: %r" % (what, r))
                st.seen(key)
            elif op == "term" and c.pid:
                s = rng.choice([signal.SIGTERM, signal.SIGINT])
                os.kill(c.pid, s); gone(c, what)
                if os.path.exists(c.pidp): raise Violation("%s: pid file left behind" % what)
                st.seen(key + str(s))
            elif op == "crash" and c.pid:
                os.kill(c.pid, signal.SIGKILL); gone(c, what)
                st.seen(key)
            elif op == "edit" and c.pid and rng.random() < .4:
                c.write(); c.replaced = True
                st.seen(key)
            time.sleep(.005)
            check(what)
        st.sample("%d configurations, %d steps" % (len(cs), step + 1))
    finally:
        for c in cs:
            if c.pid: os.kill(c.pid, signal.SIGKILL)
        reap()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(900, 12000))])(C.rng("b")))
C.finish(min_evals=400)
