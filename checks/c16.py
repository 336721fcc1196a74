import common
from cunit import *
from walks import seeds
C = Check("C16", "one evaluation = the state reported for one descriptor after a wait compared with the registered interest and the descriptor's own state, or one registration; "
          "distinct = (events reported, interest, descriptor number range, whether another thread acted during the wait)")
W = ["-Wl,--wrap=poll"]
for variant, asserts in (("asan", True), ("plain", False)):
    exe = build_harness("h_fds", MODS + ["tpoll"], variant, asserts=asserts, ldflags=W)
    C.run_cases(harness_case(exe, lambda i: [i, C.q(60, 1200)], label=variant + ": "), seeds(C, variant, C.q(24, 240)), label=variant)
exe = build_harness("h_wake", MODS + ["tpoll"], "plain")
C.run_cases(harness_case(exe, lambda i: [i, C.q(4000, 60000)], label="threads: "), seeds(C, "wake", C.q(8, 64)), label="wake")
C.finish(min_evals=100000)
