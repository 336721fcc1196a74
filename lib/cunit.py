"""Runs an in-process C harness and turns its report into verdicts and coverage."""
from vf import *
MODS = COMMON
def harness_case(exe, argf, timeout=200, env=None, label="", asan="detect_leaks=1"):
    def case(i, d, st):
        e = dict(os.environ, ASAN_OPTIONS=asan + ":exitcode=99", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
                 TSAN_OPTIONS="halt_on_error=1:exitcode=98:second_deadlock_stack=1", TZ="UTC")
        e.update(env or {})
        try:
            p = subprocess.run([exe] + [str(a) for a in argf(i)], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired as x:
            raise Violation("%sharness did not terminate (hang): %r" % (label, (x.stdout or b"")[-800:]), key="hang", soft=True)
        out = p.stdout.decode("latin-1")
        evals = 0
        for l in out.splitlines():
            if l.startswith("K "): st.seen(label + l[2:], 0)
            elif l.startswith("EVALS "): evals = int(l[6:])
            elif l.startswith("C "):
                w = l[2:].rsplit(" ", 1); st.count(w[0], int(w[1]))
            elif l.startswith("S "): st.sample(l[2:])
        st.evaluations += evals
        m = re.search(r"^(FAIL|SOFT) (.*)", out, re.M)
        if m:
            raise Violation(label + m.group(2), soft=m.group(1) == "SOFT", trace=out[-3500:])
        err = p.stderr.decode("latin-1")
        if p.returncode or "DONE" not in out:
            raise Violation("%sharness ended with status %d: %s" % (label, p.returncode, san_summary(err) if err else out[-500:]), key=san_key(err), san=err[:6000])
    return case
