"""C24: each reset request runs the console's command exactly once, alone, and within its time limit."""
import common
from vf import *
import sess
from sess import Rig
C = Check("C24", "one evaluation = one reset request and console (command runs recorded by the command itself and by the fork interposer, notices, logs) or one expiry / completion of a command "
          "compared with the model; distinct = (command behaviour, request kind, active or not, time since start, fault)")
exe = build_daemon("asan")
RST = r'''#!/bin/sh
# $1 directory, $2 console
m=`cat "$1/mode-$2"`
read a b c d pg rest < /proc/$$/stat
case $m in
quick) ;;
tree) sh -c 'sleep 900 & echo $! >> "$0/kids-$1"; sleep 900' "$1" "$pg" & echo $! >> "$1/kids-$pg"; sleep 901 & echo $! >> "$1/kids-$pg" ;;
orphan) sleep 902 & echo $! >> "$1/kids-$pg" ;;
ignore) trap '' TERM INT HUP ;;
esac
echo "$pg $2 $3" >> "$1/runs"
case $m in
hold|tree|ignore) echo $$ >> "$1/kids-$pg"; sh -c "echo \$\$ >> '$1/kids-$pg'; exec sleep 903"; sleep 904 ;;
esac
'''
def alive(p):
    try: return open("/proc/%d/stat" % p).read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError: return False

def reap(R):
    """Reaps orphans, never the daemon."""
    for p in glob.glob("/proc/[0-9]*/stat"):
        try: w = open(p).read().rsplit(")", 1)[1].split()
        except OSError: continue
        pid = int(p.split("/")[2])
        if w[0] == "Z" and int(w[1]) == os.getpid() and pid != R.D.p.pid:
            try: os.waitpid(pid, os.WNOHANG)
            except OSError: pass

def case(i, d, st):
    rng = random.Random(i)
    subreaper()                                 # orphans end up here and are reaped, so that a dead group is gone
    n = rng.randrange(1, 4)
    names = sorted(rng.sample(["alpha", "b-2", "c.3", "node7", "x_y"], n))
    open(d + "/rst.sh", "w").write(RST); os.chmod(d + "/rst.sh", 0o755)
    resets = rng.random() < .92
    long = resets and rng.random() < .05
    cmd = "%s/rst.sh %s %%N %s" % (d, d, rng.choice(["p%%q", "on", "%N-%N", "y" * 480, "y" * rng.randrange(300, 850)]) if not long else "%N" * 400)
    arg = cmd.split(" ", 3)[3]
    R = Rig(exe, d, ["unix"] * n, [rng.random() < .7 for _ in range(n)], seed=i & 0xffff, names=names,
            extra_conf='server resetcmd="%s"\n' % cmd if resets else "")
    s = R.shim
    s["CHILDLAG"] = rng.choice([0, 0, 3000, 20000])     # a new process is slow to do anything
    M = R.model
    hist = []
    off = [0]
    def forks():
        """Processes the daemon started since the last call, failed attempts as None."""
        with open(s.log) as f:
            f.seek(off[0]); b = f.read(); off[0] += b.rfind("\n") + 1
        r = []
        for w in (l.split() for l in b.splitlines()):
            if len(w) > 2 and int(w[1]) == R.D.p.pid:
                if w[2] == "fork": r.append(int(w[3]))
                if w[2] == "fork-fault": r.append(None)
        return r
    ndead = [0]
    runs = []                                   # (pid, name) that must have been recorded
    class A: pass
    every = []
    act = {}                                    # console: its tracked command
    mode = {}
    for x in names: act[x] = None
    def group(a):
        """Processes of the command's group."""
        reap(R)
        r = []
        for p in glob.glob("/proc/[0-9]*/stat"):
            try: w = open(p).read().rsplit(")", 1)
            except OSError: continue
            f = w[1].split()
            if int(f[2]) == a.pid: r.append(int(p.split("/")[2]))
        return r
    def recorded():
        try: return [l.split(" ", 2) for l in open(d + "/runs").read().splitlines()]
        except OSError: return []
    def settle(a):
        """The command reached its steady state."""
        def ok():
            if a.mode == "quick": return not group(a) and not os.path.exists("/proc/%d" % a.pid)
            try: kids = len(open(d + "/kids-%d" % a.pid).read().split())
            except OSError: kids = 0
            if a.mode == "orphan": return kids == 1 and len(group(a)) == 1 and not os.path.exists("/proc/%d" % a.pid)
            return kids >= {"hold": 2, "ignore": 2, "tree": 4}[a.mode] and any(r[0] == str(a.pid) for r in recorded())
        if not R.hub.wait(ok, 20):
            if a.mode in ("quick", "orphan") and os.path.exists("/proc/%d" % a.pid) and not alive(a.pid): raise Violation("reset command of %s left as a zombie" % a.name, soft=True)
            raise Violation("reset command of %s (%s) did not come up: %s" % (a.name, a.mode, group(a)), soft=True)
        # time stands still for it until here
        rec = recorded()
        mine = [r for r in rec if int(r[0]) == a.pid]
        want = arg.replace("%%", "\0").replace("%N", a.name).replace("\0", "%")
        if len(mine) != 1 or mine[0][1] != a.name or mine[0][2] != want:
            raise Violation("reset of %s (%s, pid %d) ran as %r, expected once with %r; all %r, kids %r" % (a.name, a.mode, a.pid, mine, want, rec, [(k, open(k).read()) for k in glob.glob(d + "/kids*")]))
    def running(a):
        return a is not None and a.mode != "quick" and not a.done
    def expire():
        now = s["NOW"] / 1e6
        for x in names:
            a = act[x]
            if a and now >= a.t + 60 - .0001:
                if running(a):
                    g = lambda: group(a)
                    if not R.hub.wait(lambda: not g(), 10): raise Violation("reset command of %s (%s) still runs %.1f s after its start: %s" % (x, a.mode, now - a.t, g()), soft=True)
                    txt = "Console [%s] reset terminated after 60s (pid %d)" % (x, a.pid)
                    if not R.hub.wait(lambda: txt in R.D.log_text(), 5): raise Violation("termination of the reset of %s not reported" % x)
                    st.seen("expired %s" % a.mode)
                elif "reset terminated after 60s (pid %d)" % a.pid in R.D.log_text(): raise Violation("ended reset reported as terminated")
                else: st.seen("expiry of an ended command %s" % a.mode)
                act[x] = None
            elif a and running(a):
                if not group(a): raise Violation("reset command of %s (%s) killed %.1f s after its start" % (x, a.mode, now - a.t))
    def request(c, times):
        m = c.m
        if rng.random() < .15 and resets:
            s["FORK_ERR"] = 11; s["FORK_CNT"] = 1
            fault = 1
        else: fault = 0
        exp = []
        R.barrier(); forks()
        ks = list(m.cons_w)
        c.send(b"\xffR" * times)
        m.last_read = M.now()
        R.barrier()
        got = forks()
        for t in range(times):
            for k in ks:
                x = k.name
                if not resets: continue
                if running(act[x]):
                    M.notify(k, "Ignoring reset of console [%s]: pid %d still active" % (x, act[x].pid))
                    st.seen("ignored %s x%d %s" % (act[x].mode, times, M.mode(m))); continue
                if long:
                    M.notify(k, "Unable to reset console [%s]: command too long" % x); st.seen("too long"); continue
                if not got: raise Violation("reset of %s by a %s session ran nothing" % (x, M.mode(m)))
                p = got.pop(0)
                if p is None:
                    if not fault: raise Violation("unexpected fork failure")
                    fault = 0
                    M.notify(k, "Unable to reset console [%s]: fork failed: Resource temporarily unavailable" % x)
                    st.seen("fork fault"); act[x] = None if act[x] is None or not running(act[x]) else act[x]; continue
                a = act[x] = A()
                every.append(a)
                a.pid, a.name, a.mode, a.t, a.done = p, x, mode[x], s["NOW"] / 1e6, False
                M.notify(k, "Console [%s] reset by <%s@%s> (pid %d)" % (x, m.user, M.host, p))
                st.seen("run %s x%d %s consoles=%d" % (a.mode, times, M.mode(m), len(ks)))
        if got: raise Violation("%d processes too many started by a reset request of a %s session" % (len(got), M.mode(m)))
        s["FORK_CNT"] = 0
        for k in ks:
            if act[k.name] and not act[k.name].done and act[k.name].t == s["NOW"] / 1e6: settle(act[k.name])
    try:
        for step in range(rng.randrange(8, 20)):
            what = "step %d" % step
            op = rng.choice(["connect", "reset", "reset", "reset", "adv", "adv", "end", "out", "close"])
            live = [c for c in R.cl.values() if not c.m.eof]
            if op == "connect" or not live:
                if len(live) >= 4: continue
                x = rng.choice(["RW", "RW", "RO", "BC"])
                if x == "RO": R.connect("MONITOR", [rng.choice(names)])
                elif x == "BC" and n > 1: R.connect("CONNECT", names, ["JOIN", "BROADCAST"])
                else: R.connect("CONNECT", [rng.choice(names)], ["JOIN"])
            elif op == "reset":
                c = rng.choice(live)
                for x in names:
                    if not running(act[x]):
                        mode[x] = rng.choice(["quick", "hold", "tree", "ignore", "orphan", "hold"])
                        open(d + "/mode-" + x, "w").write(mode[x] + "\n")
                t = 1
                if all(mode[k.name] != "quick" or running(act[k.name]) for k in c.m.cons_w): t = rng.choice([1, 1, 2, 3])
                what += " reset by %s" % R.model.mode(c.m)
                request(c, t)
            elif op == "adv":
                t = rng.choice([1, 10, 29, 30, 31, 59, 59.9, 60, 60.1, 61, 200])
                R.D.advance(t); R.barrier()
                while any(a and abs(s["NOW"] / 1e6 - a.t - 60) < .01 for a in act.values()): R.D.advance(.02); R.barrier()
                what += " +%s" % t
                expire()
            elif op == "end":
                l = [a for a in act.values() if running(a)]
                if l:
                    a = rng.choice(l)
                    os.killpg(a.pid, signal.SIGKILL)
                    R.hub.wait(lambda: not group(a), 10)
                    if not R.hub.wait(lambda: not os.path.exists("/proc/%d" % a.pid), 10): raise Violation("reset command left as a zombie", soft=True)
                    a.done = True
                    st.seen("ended early")
            elif op == "out":
                R.output(rng.choice(names), b"data %d" % step)
            elif op == "close" and rng.random() < .5:
                R.close_client(rng.choice(live))
            for x in names:
                if running(act[x]) and s["NOW"] / 1e6 < act[x].t + 60 and not group(act[x]): raise Violation("%s: reset command of %s vanished" % (what, x))
            R.verify(lambda cat, obj: True, what)
            hist.append(what)
        rec = [int(r[0]) for r in recorded()]
        if len(rec) != len(set(rec)): raise Violation("a reset ran more than once: %r" % rec)
        if not resets and rec: raise Violation("reset without a command")
        st.count("commands run", len(rec)); st.sample("; ".join(hist)[:300])
    finally:
        for a in every:
            if a:
                try: os.killpg(a.pid, signal.SIGKILL)
                except OSError: pass
        R.end()
C.run_cases(case, (lambda g: [g.randrange(1 << 40) for _ in range(C.q(800, 12000))])(C.rng("b")))
C.finish(min_evals=300)
