import common
from walks import *
from flow import *
C = Check("C03", "one evaluation = one comparison of every session's received bytes (daemon run against fake consoles) with the reference model after one operation, "
          "or one reader checked at the end of a free-running / overload flow; distinct = (operation, session modes on every console)")
exe = build_daemon("asan")
W = dict(rw=4, ro=6, bc=1, join=3, force=1, out=30, inp=3, esc=2, toggle=2, quiet=1, replay=2, close=4, rst=1, drop=1, time=1, suspend=1)
C.run_cases(walk_case(exe, {"payload", "order"}, W, 60, tag="walk "), seeds(C, "walk", C.q(160, 6000)))
C.run_cases(windowed(exe, "out", C.q(80000, 300000), only=("out",)), seeds(C, "win", C.q(120, 4000)))
C.run_cases(windowed(exe, "both", only=("out",)), seeds(C, "win2", C.q(60, 2000)))
C.run_cases(overload_reader(exe, only=("fast", "slow")), seeds(C, "over", C.q(16, 300)))
C.finish(min_evals=1500)
