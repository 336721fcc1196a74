import common
from cunit import *
from walks import seeds
C = Check("C15", "one evaluation = one timer firing, cancellation or wait judged against the model of pending deadlines on a virtual clock; "
          "distinct = (event, where it was done from, how many timers pend, lateness, descriptor readiness)")
W = ["-Wl,--wrap=poll,--wrap=gettimeofday"]
for variant, asserts in (("asan", True), ("plain", False)):
    exe = build_harness("h_timer", MODS + ["tpoll"], variant, asserts=asserts, ldflags=W)
    C.run_cases(harness_case(exe, lambda i: [i, C.q(400, 8000)], label=variant + ": "), seeds(C, variant, C.q(24, 240)), label=variant)
C.finish(min_evals=200000)
