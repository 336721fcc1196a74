"""C34: unix-socket consoles follow the socket at their path, promptly, and nothing else."""
import common
from vf import *
C = Check("C34", "one evaluation = one moment at which every unix-socket console was found connected to exactly the listener at its path (or to none when there is none) and nobody else was contacted; "
          "distinct = (what happened in the directory, console up or down and for how long, watch state, sessions, bystander)")
exe = build_daemon("asan")
def listener(hub, path, name, via=None, listen=True):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(via or path)
    if listen: s.listen(16)
    l = Listener.__new__(Listener)
    if listen: Listener.__init__(l, hub, s, name)
    else: l.hub, l.sock, l.name, l.cls, l.conns, l.accept_times, l.reject = hub, s, name, Stream, [], [], False
    if via: os.rename(via, path)
    return l
def live(l): return [c for c in l.conns if not c.eof and not c.closed]

def case(i, d, st):
    rng = random.Random(i)
    hub = Hub()
    nd = rng.randrange(1, 4)
    base = d + "/w"; os.mkdir(base)
    dirs = [base + "/d%d" % k for k in range(nd)]
    for x in dirs: os.mkdir(x)
    n = rng.randrange(1, 5)
    NAMES = ["s", "s1", "ss", "sock", "sock.old", "a b", ".hid", "s-", "S"]
    con = {}                                              # name: [path, directory, listener or None]
    used = set()
    conf = "server port=0\n"
    for j in range(n):
        while True:
            k = rng.randrange(nd); f = rng.choice(NAMES)
            if (k, f) not in used: break
        used.add((k, f))
        nm = "c%d" % j
        con[nm] = dict(path=dirs[k] + "/" + f, dir=k, l=None, wd=True, up=None, n=0, txt=b"")
        if rng.random() < .5: con[nm]["l"] = listener(hub, con[nm]["path"], nm)
        conf += "console name=%s dev='\"unix:%s\"' log=\"%s/log-%s\"\n" % (nm, con[nm]["path"], d, nm)
    decoys = []
    for k in range(nd):
        f = rng.choice(NAMES)
        if (k, f) not in used: used.add((k, f)); decoys.append(listener(hub, dirs[k] + "/" + f, "decoy"))
    shim = Shim(d); shim["SEED"] = i & 0xffff
    shim["NOW"] = shim["TARGET"] = 1700000000 * 1000000; shim["MODE"] = 1
    D = Daemon(exe, conf, d, hub, shim=shim, env={"TZ": "UTC"})
    cl = {}
    old = []                                              # listeners no longer at a path: nobody may connect to them any more
    def settle():
        D.sync_idle(); hub.settle(.003, .1); D.sync_idle(); hub.settle(.002, .1)
    def up(c): return c["l"] is not None and len(live(c["l"])) == 1
    def check(what, who=(), wait=()):
        """who: consoles whose state may have changed; wait: seconds of virtual time after which each listener must be connected."""
        settle()
        for w in wait:
            if all(up(con[x]) for x in who if con[x]["l"]): break
            D.advance(w); settle()
        D.check_alive(what)
        for nm, c in con.items():
            l = c["l"]
            if l is None: continue
            k = live(l)
            if len(k) > 1: raise Violation("%s: %d connections to the socket of %s" % (what, len(k), nm))
            if nm not in who:
                if c["up"] is not None and c["up"] is not (k[0] if k else None): raise Violation("%s disturbed console %s" % (what, nm), soft=True)
                continue
            if not k: raise Violation("%s: console %s is not connected to the socket at its path after %s s%s" % (what, nm, sum(wait), " (directory replaced)" if not c["wd"] else ""), soft=True)
            c["up"] = k[0]
        for x in decoys:
            if x.conns: raise Violation("%s: the daemon connected to a socket that is no console's" % what)
        for x, m in old:
            if len(x.conns) > m: raise Violation("%s: the daemon connected to a socket no longer at the console's path" % what)
        for nm, c in con.items():                          # the connection works in both directions
            if c["up"] is None or not up(c): continue
            t = b"<%d>" % rng.randrange(10 ** 9)
            c["up"].send(t)
            if not hub.wait(lambda: t in open(d + "/log-" + nm, "rb").read(), 10): raise Violation("%s: output of %s did not reach its log" % (what, nm), soft=True)
            if nm in cl:
                if cl[nm].eof: raise Violation("%s: session of %s was closed" % (what, nm))
                if not hub.wait(lambda: t in cl[nm].data, 10): raise Violation("%s: output of %s did not reach its session" % (what, nm), soft=True)
                u = b"{%d}" % rng.randrange(10 ** 9)
                cl[nm].send(u)
                if not hub.wait(lambda: u in c["up"].rx, 10): raise Violation("%s: input did not reach %s" % (what, nm), soft=True)
            st.seen("%s %s wd=%s sess=%s" % (what, "target" if nm in who else "bystander", c["wd"], nm in cl))
    def drop(c, unlink=True, closeconn=True):
        l = c["l"]
        if l is None: return
        if unlink and os.path.lexists(c["path"]): os.unlink(c["path"])
        old.append((l, len(l.conns)))
        if closeconn:
            for x in l.conns: x.close()
            hub.remove(l)
            try: l.sock.close()
            except OSError: pass
            old.pop()
        c["l"] = c["up"] = None
    try:
        hub.wait(lambda: all(up(c) for c in con.values() if c["l"]), 10)
        check("start", [x for x in con if con[x]["l"]], [1])
        if rng.random() < .5: D.advance(rng.choice([1, 30, 61, 200])); settle()
        for nm in con: con[nm]["up"] = live(con[nm]["l"])[0] if con[nm]["l"] else None
        for step in range(rng.randrange(5, 14)):
            op = rng.choice(["appear", "appear", "appear", "bindlisten", "replace", "restart", "restart", "vanish", "churn", "file", "adv", "attach", "burst", "rmdir", "symlink", "attachrace", "movedir", "overflow", "crowd", "crowd"])
            nm = rng.choice(list(con)); c = con[nm]
            gone = not os.path.isdir(dirs[c["dir"]])
            fast = [1.1] if c["wd"] else [61]
            if op in ("appear", "bindlisten", "symlink", "attachrace") and not gone:
                if c["l"] is not None: drop(c); settle(); D.advance(rng.choice([0.5, 1.5, 5, 61, 200])); settle()
                elif os.path.lexists(c["path"]): os.unlink(c["path"])
                if op == "appear":
                    c["l"] = listener(hub, c["path"], nm, via=base + "/tmp%d" % step)
                    check("appear", [nm], [0] if c["wd"] else [61])
                elif op == "symlink":
                    real = base + "/real%d" % step
                    c["l"] = listener(hub, real, nm); os.symlink(real, c["path"])
                    check("symlink", [nm], [0] if c["wd"] else [61])
                elif op == "bindlisten":
                    l = listener(hub, c["path"], nm, listen=False)
                    if rng.random() < .7: settle()
                    l.sock.listen(16); Listener.__init__(l, hub, l.sock, nm)
                    c["l"] = l
                    check("bindlisten", [nm], fast)
                else:
                    cs = []
                    for _ in range(rng.randrange(1, 4)): x = D.client("r"); x.hello(); cs.append(x)
                    for x in cs[1:]: x.send(b"CONNECT OPTION=JOIN CONSOLE='%s'\n" % nm.encode())
                    c["l"] = listener(hub, c["path"], nm, via=base + "/tmp%d" % step)
                    cs[0].send(b"CONNECT OPTION=JOIN CONSOLE='%s'\n" % nm.encode())
                    hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"], 10)
                    k = rng.random()
                    if k < .3: shim["TARGET"] = max(shim["TARGET"], shim["NOW"]) + 61000000
                    check("attachrace", [nm], fast)
                    if len(live(c["l"])) != 1 or len(c["l"].conns) != 1: raise Violation("attachrace: console connected to a new socket was disconnected again (%d connections)" % len(c["l"].conns), soft=True)
                    for x in cs: x.close()
                    settle()
            elif op == "replace" and c["l"] and not gone:       # a new socket takes the place of the connected one
                o = c["l"]
                drop(c, unlink=False, closeconn=False)
                c["l"] = listener(hub, c["path"], nm, via=base + "/tmp%d" % step)
                check("replace", [nm], fast if c["wd"] else [])if c["wd"] else None
                if not c["wd"]:                                  # unnoticed until the old connection ends
                    for x in o.conns: x.close()
                    check("replace+close", [nm], [61])
                if rng.random() < .5: [x.close() for x in o.conns]
            elif op == "restart" and c["l"] and not gone:
                drop(c, closeconn=True)
                if rng.random() < .5: settle()
                c["l"] = listener(hub, c["path"], nm, via=base + "/tmp%d" % step)
                check("restart", [nm], fast)
            elif op == "vanish" and c["l"]:
                drop(c, unlink=not gone); check("vanish", [])
            elif op == "churn" and not gone:
                for _ in range(rng.randrange(1, 40)):
                    f = dirs[c["dir"]] + "/" + rng.choice(["x", os.path.basename(c["path"]) + "x", os.path.basename(c["path"])[:-1] or "q", "y" * 200, os.path.basename(c["path"]).upper() + "_"])
                    if (c["dir"], os.path.basename(f)) in used: continue
                    if os.path.exists(f): os.unlink(f)
                    else: open(f, "w").close()
                    if rng.random() < .2: os.mkdir(f + ".d"); os.rmdir(f + ".d")
                check("churn")
            elif op == "crowd" and not gone:                     # the socket appears among other changes that are noticed together
                k = c["dir"]
                who = [x for x in con if con[x]["dir"] == k and con[x]["wd"] and (x == nm or rng.random() < .6)]
                if not c["wd"]: continue
                for x in who:
                    if con[x]["l"]: drop(con[x])
                    elif os.path.lexists(con[x]["path"]): os.unlink(con[x]["path"])
                settle(); D.advance(rng.choice([1.5, 61, 200])); settle()
                os.kill(D.dpid, signal.SIGSTOP)
                try:
                    for x in rng.sample(who, len(who)):
                        for j in range(rng.choice([0, 1, 3, 8, 30])):
                            f = dirs[k] + "/n%d-%d" % (step, j) + "w" * rng.choice([0, 1, 14, 15, 16, 17, 200])
                            open(f, "w").close()
                            if rng.random() < .5: os.unlink(f)
                        con[x]["l"] = listener(hub, con[x]["path"], x, via=base + "/tmp%d%s" % (step, x))
                    for j in range(rng.choice([0, 3])): open(dirs[k] + "/m%d-%d" % (step, j), "w").close()
                finally: os.kill(D.dpid, signal.SIGCONT)
                check("crowd", who, [0])
            elif op == "overflow" and not gone:
                for j in range(rng.choice([150, 600])):
                    f = dirs[c["dir"]] + "/%d" % j + "z" * (j % 60); open(f, "w").close(); os.unlink(f)
                check("overflow")
            elif op == "file" and c["l"] is None and not gone:
                if os.path.lexists(c["path"]): os.unlink(c["path"])
                open(c["path"], "w").close(); check("file"); D.advance(rng.choice([1, 61])); check("file")
            elif op == "adv": D.advance(rng.choice([.3, 1.1, 3, 10, 61, 130])); check("adv", [])
            elif op == "attach":
                if nm in cl: cl.pop(nm).close(); settle()
                elif not (c["l"] is None and False):
                    x = D.client("s")
                    if x.session("CONNECT", [nm], ["JOIN"])[0] == b"OK":
                        hub.wait(lambda: shim["NTHREAD"] == shim["THRDONE"], 10); settle(); cl[nm] = x
                        check("attach", [])
            elif op == "burst" and not gone:                     # the server restarts several times in quick succession
                for _ in range(rng.randrange(2, 7)):
                    drop(c, unlink=True)
                    if os.path.lexists(c["path"]): os.unlink(c["path"])
                    c["l"] = listener(hub, c["path"], nm, via=base + "/tmp%d" % step)
                    if rng.random() < .3: hub.settle(.002, .02)
                check("burst", [nm], fast)
            elif op in ("rmdir", "movedir"):
                k = c["dir"]
                there = [x for x in con.values() if x["dir"] == k]
                if not gone:
                    for x in there: drop(x)
                    for x in list(decoys):
                        if x.sock.getsockname().startswith(dirs[k] + "/"): decoys.remove(x); hub.remove(x); x.sock.close()
                    settle()
                    if op == "rmdir": shutil.rmtree(dirs[k])
                    else: os.rename(dirs[k], dirs[k] + ".moved%d" % step)
                    for x in there: x["wd"] = False
                    check("rmdir", [])
                    if rng.random() < .5: D.advance(rng.choice([1, 61]))
                    os.mkdir(dirs[k])
                    used -= {u for u in used if u[0] == k and all(dirs[k] + "/" + u[1] != x["path"] for x in con.values())}
        for c in con.values():
            if c["l"]: st.count("consoles connected at the end")
        st.sample("%d consoles in %d directories, %d decoys" % (n, nd, len(decoys)))
    finally:
        D.kill(); shim.close()
g = C.rng("c"); C.run_cases(case, [g.randrange(1 << 40) for _ in range(C.q(400, 10000))])
C.finish(min_evals=1000)
