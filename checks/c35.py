import common
from cunit import *
from walks import seeds
C = Check("C35", "one evaluation = one helper call compared with a model of its documented result, every buffer having its exact size under ASan; "
          "distinct = (helper, argument shape, fits / exact / too small, faults injected)")
W = ["-Wl,--wrap=read,--wrap=write"]
for variant, asserts in (("asan", True), ("plain", False)):
    exe = build_harness("h_util", MODS, variant, asserts=asserts, ldflags=W)
    C.run_cases(harness_case(exe, lambda i: [i, C.q(4000, 60000)], label=variant + ": "), seeds(C, variant, C.q(16, 160)), label=variant)
C.finish(min_evals=200000)
