"""C26: sessions release everything they used."""
import common
from release import *
C = Check("C26", "one evaluation = after one round of sessions (and failures, drops, resets, rotations) has ended, the daemon's descriptors, threads and children are exactly those before, every console can be taken without force, "
          "and the heap in use does not grow over identical rounds; distinct = set of operations in the round")
tool = build_harness("t_helper", [], "plain")
exe = {v: build_daemon(v) for v in ("plain", "asan")}
def single(op, d, st):
    """One kind of operation at a time, many times."""
    rounds(exe["plain"], tool, hash_(op), d, st, C.q(12, 16), 1, C.q(10, 30), ops=[op[0]])
def hash_(op): return random.Random(repr(op)).randrange(1 << 40)
def mixed(i, d, st): rounds(exe["plain"], tool, i, d, st, C.q(12, 16), C.q(14, 30), 1)
def mixed_asan(i, d, st): rounds(exe["asan"], tool, i, d, st, 3, 14, 1, mem=False)
C.run_cases(single, [(o, k + 100 * C.a.seed) for o in OPS for k in range(C.q(2, 12))], timeout=300, label="single")
g = C.rng("m"); C.run_cases(mixed, [g.randrange(1 << 40) for _ in range(C.q(100, 900))], timeout=300, label="mixed")
C.run_cases(mixed_asan, [g.randrange(1 << 40) for _ in range(C.q(16, 200))], timeout=300, label="asan")
C.finish(min_evals=400)
