import common
from cunit import *
from walks import seeds
C = Check("C18", "one evaluation = one list operation after which counts, order, every iterator and the destruction bookkeeping were compared with a sequence model; "
          "distinct = (operation, list size before and after, live iterators, deletion function)")
for variant, asserts in (("asan", True), ("plain", False)):
    exe = build_harness("h_list", MODS, variant, asserts=asserts)
    C.run_cases(harness_case(exe, lambda i: [i, C.q(600, 12000)], label=variant + ": "), seeds(C, variant, C.q(24, 240)), label=variant)
C.finish(min_evals=1000000)
