import common
from cunit import *
from stress import *
from walks import *
C = Check("C17", "one evaluation = one list entry, timer or log line of a multi-threaded run accounted for, or one operation of a daemon session run under ThreadSanitizer; "
          "distinct = (component, end state) or (session operation, session modes)")
n = {"list": C.q(1500, 20000), "tpoll": C.q(800, 8000), "log": C.q(800, 10000)}
for variant in ("tsan", "plain", "asan"):
    exe = build_harness("h_race", MODS + ["tpoll"], variant)
    for m in ("list", "tpoll", "log"):
        C.run_cases(harness_case(exe, lambda i: [m, i, n[m] * (4 if variant == "plain" else 1)], label="%s %s: " % (variant, m), timeout=230, asan="detect_leaks=0"),
                    seeds(C, variant + m, C.q(8, 40)), label=variant + m, jobs=4)

def tsan_reports(t):
    """ThreadSanitizer reports except those about flags set by signal handlers
    (and errno in handlers: the handlers save it, and ThreadSanitizer misjudges nested ones)."""
    r = []
    for b in t.split("=================="):
        if "WARNING: ThreadSanitizer" in b and "CallUserSignalHandler" not in b and "spoils errno" not in b:
            r.append(b)
    return r
exe = build_daemon("tsan")
def daemon(i, d, st):
    rng = random.Random(i)
    # the access check of a connect request and the main loop's removal of sessions overlap most with thread delays and short i/o
    D, cnt = stress(exe, d, i, C.q(14, 60), kinds=rng.choice([("unix", "unix", "telnet", "process"), ("unix", "telnet"), ("unix", "process", "process")]),
                    faults=rng.choice([{}, {"RSHORT": 40, "WSHORT": 200}, {"EINTR": 100, "EAGAIN": 200}]), nthreads=rng.choice([3, 6, 10]))
    try:
        alive = D.alive()
        if alive:
            k, kv = D.query()
            if k != b"OK": raise Violation("daemon does not answer after concurrent sessions: %r" % k, soft=True)
            D.stop()
        t = D.san_text()
        rep = tsan_reports(t)
        if rep:
            raise Violation("data race in the daemon: " + san_summary(rep[0]), key=san_key(rep[0]), san=rep[0][:5000])
        if not alive: raise Violation("daemon died (status %s) under concurrent sessions: %s" % (D.p.returncode, D.log_text()[-600:]), key="died")
        for k in cnt:
            st.count(k, cnt[k])
            st.seen("daemon: " + k, 0 if "bytes" in k else cnt[k])
        st.count("client threads", D.shim["NTHREAD"])
    finally:
        D.kill(); D.shim.close()
C.run_cases(daemon, seeds(C, "daemon", C.q(8, 40)), label="daemon", jobs=4)
C.finish(min_evals=50000)
