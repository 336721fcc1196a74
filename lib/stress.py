"""Free-running (real clock) stress: many concurrent clients doing everything while consoles talk and come and go."""
from sess import *
import threading

def stress(exe, d, seed, secs, kinds=("unix", "unix", "telnet", "process"), faults=None, resets=True, hups=True, drops=True, nthreads=6, rlimit=None, env=None, before_end=None, st=None, extra_conf="", fake_names=None):
    """Runs the workload; returns (Daemon, counters). The caller judges and kills the daemon."""
    rng = random.Random(seed)
    hub = Hub()
    sh_ = Shim(d)
    sh_["SEED"] = seed & 0xffff
    sh_["THRDELAY"] = rng.choice([0, 500, 4000])
    for k, v in (faults or {}).items(): sh_[k] = v
    conf = "server port=0\nserver keepalive=on\n" + ('server resetcmd="sleep 0.01"\n' if resets else "") + extra_conf
    cons, paths, names = {}, {}, []
    os.makedirs(os.path.join(d, "bin"), exist_ok=True)
    for j, k in enumerate(kinds):
        n = "c%d" % j; names.append(n)
        if k == "unix":
            paths[n] = os.path.join(d, "s%d" % j); cons[n] = unix_console(hub, paths[n], n); dev = "unix:" + paths[n]
        elif k == "telnet":
            cons[n] = tcp_console(hub, n, cls=TelnetPeer); dev = "127.0.0.1:%d" % cons[n].port
        elif k == "process": dev = "/bin/cat"
        elif k == "test": dev = "test:"; 
        conf += 'console name="%s" dev="%s" log="%s/log%d"%s\n' % (n, dev, d, j, ' testopts="b:200,m:5,n:50,p:100"' if k == "test" else "")
    D = Daemon(exe, conf, d, hub, shim=sh_, rlimit_nofile=rlimit, env=env, timeout=90)
    D.cons, D.paths, D.names = cons, paths, names
    stop = threading.Event()
    cnt = {}
    lock = threading.Lock()
    def bump(k, n=1):
        with lock: cnt[k] = cnt.get(k, 0) + n
    def worker(wid):
        g = random.Random(seed * 1000 + wid)
        open_ = []
        while not stop.is_set():
            try:
                op = g.randrange(12)
                if op < 5 or not open_:
                    s = socket.create_connection(("127.0.0.1", D.port), 20)
                    s.settimeout(20)
                    x = g.randrange(10)
                    if x == 0:
                        s.close(); bump("connect+close"); continue
                    s.sendall(b"HELLO USER='w%d' TTY='t'\n" % wid)
                    if x == 1:
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.close(); bump("rst after greeting"); continue
                    b = s.recv(500)
                    cmd = g.choice([b"QUERY CONSOLE='*'", b"MONITOR CONSOLE='%s'" % g.choice(names).encode(), b"CONNECT OPTION=%s CONSOLE='%s'" % (g.choice([b"JOIN", b"FORCE"]), g.choice(names).encode()),
                        b"CONNECT CONSOLE='%s'" % g.choice(names).encode(), b"CONNECT OPTION=BROADCAST OPTION=%s CONSOLE='*'" % g.choice([b"JOIN", b"FORCE"]), b"QUERY OPTION=REGEX CONSOLE='c[0-9]'", b"CONNECT CONSOLE='nope'", b"JUNK"])
                    s.sendall(cmd + b"\n")
                    if x == 2: s.close(); bump("close after request"); continue
                    b = s.recv(500); bump("request " + cmd.split()[0].decode() + " " + b.split()[0].decode("latin-1", "replace") if b else "eof")
                    if b.startswith(b"OK") and not cmd.startswith(b"QUERY") and len(open_) < 6: s.setblocking(False); open_.append(s)
                    else: s.close()
                elif op < 10:
                    s = g.choice(open_)
                    data = g.choice([b"hello\r", b"\xffQ", b"\xffL", b"\xffR", b"\xffB", b"\xffZ", b"\xffM", b"\xffF", b"\xffJ", b"\xff\xff", b"\xff", b"x" * g.randrange(2000), b"\xffD", b"&."])
                    try: s.send(data); bump("session writes")
                    except BlockingIOError: pass
                    try: bump("session bytes read", len(s.recv(65536)))
                    except BlockingIOError: pass
                else:
                    s = g.choice(open_); open_.remove(s)
                    if g.random() < .3: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close(); bump("session closes")
                if g.random() < .2: time.sleep(g.random() * .005)
            except OSError:
                bump("socket errors")
                for s in open_: s.close()
                open_ = []
                time.sleep(.002)
        for s in open_: s.close()
    ths = [threading.Thread(target=worker, args=(w,), daemon=True) for w in range(nthreads)]
    for t in ths: t.start()
    end = time.monotonic() + secs
    while time.monotonic() < end:
        hub.pump(.002)
        n = rng.choice(names)
        x = rng.random()
        if n in cons and cons[n].conn and not cons[n].conn.closed:
            c = cons[n].conn
            if x < .5 and len(c.tx) < 100000: c.send(rbytes(rng, rng.randrange(1, 3000)).replace(b"\xff", b"")); bump("console writes")
            elif x < .52 and drops: c.close(rng.random() < .5); bump("console drops")
        if hups and rng.random() < .01: D.p.send_signal(signal.SIGHUP); bump("SIGHUP")
        if hups and rng.random() < .01:
            try: os.rename("%s/log0" % d, "%s/log0.old" % d)
            except OSError: pass
        if not D.alive(): break
        for l in cons.values():
            for c in l.conns[:-1]:
                if not c.closed: c.close()
                c.rx = bytearray()
            if l.conn: l.conn.rx = bytearray()
    stop.set()
    for t in ths:
        while t.is_alive():
            hub.pump(.002); t.join(.001)
            if not D.alive(): t.join(25)
    D.counts = cnt
    return D, cnt
