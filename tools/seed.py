#!/usr/bin/env python3
"""Make a planted bug from a spec (tools/seeds/<id>.py): scratch copy of /repo, edit, build, tests, demo with and
without; on success /verif/seeded/<id>/.  With --check also runs the property's check against the changed copy.
spec: P (property), NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source using dl)."""
import os, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, cwd, t=300, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
def one(id, check, keep=False, only_check=False, checks=None):
    ns = {}
    exec(open("%s/tools/seeds/%s.py" % (V, id)).read(), ns)
    sc = "/tmp/seed-" + id
    shutil.rmtree(sc, ignore_errors=True)
    run(["cp", "-a", "/repo", sc], "/")
    res = []
    try:
        for f, o, n in ns["EDITS"]:
            p = os.path.join(sc, f); s = open(p).read()
            if s.count(o) != 1: return "edit does not apply uniquely (%d): %r" % (s.count(o), o[:60])
            open(p, "w").write(s.replace(o, n))
        diff = run("git diff", sc).stdout
        base = run("git rev-list --max-parents=0 HEAD", "/repo").stdout.decode().strip()
        rem = 0
        for f in sorted({e[0] for e in ns["EDITS"]}):
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", run(["git", "diff", "-U0", f], sc).stdout.decode("latin-1"), re.M):
                n = int(h[1] or 1)
                if not n: continue
                for l in run(["git", "blame", "-s", "-l", "-L", "%s,+%d" % (h[0], n), "HEAD", "--", f], "/repo").stdout.decode("latin-1").splitlines():
                    rem += 1
                    if l.lstrip("^")[:30] != base[:30]: return "changes a line of one of our own commits: " + l[41:]
        if not rem: return "removes or changes no original line"
        if not only_check:
            b = run("make -j8 2>&1", sc + "/_build")
            if b.returncode: return "build failed " + b.stdout.decode()[-1500:]
            os.makedirs(sc + "/_build/vp-tmp", exist_ok=True)
            t = run("make -j1 check 2>&1", sc + "/_build", env=dict(os.environ, TMPDIR=sc + "/_build/vp-tmp", SHARNESS_TEST_OUTDIR=sc + "/_build/vp-sharness"))
            m = re.search(rb"# PASS:\s+(\d+)", t.stdout), re.search(rb"# FAIL:\s+(\d+)", t.stdout)
            if not m[0] or int(m[0].group(1)) != 14: return "tests: " + t.stdout.decode()[-800:]
            o = "%s/seeded/%s" % (V, id)
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "wb").write(diff)
            open(o + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom dl import *\n" + ns["DEMO"])
            shutil.copy("%s/tools/seeds/dl.py" % V, o + "/dl.py")
            open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(o + "/demo.sh", 0o755)
            json.dump(dict(property=ns["P"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
            for k in range(3):
                r = run(["bash", o + "/demo.sh"], "/repo")
                if r.returncode: return "demo fails on the unchanged tree: " + r.stdout.decode()[-800:]
            for k in range(3):
                r = run(["bash", o + "/demo.sh"], sc)
                if not r.returncode: return "demo passes with the patch (%d): %s" % (k, r.stdout.decode()[-800:])
            res.append("planted; demo: " + r.stdout.decode().strip()[-150:])
        if check:
            for c in (checks or [ns["P"]]):
                r = run("python3 checks/%s.py --tier quick" % c.lower(), V, t=1200, env=dict(os.environ, VF_REPO=sc, VF_BUILD=V + "/build", VERIF_SEED="1"))
                o = r.stdout.decode()
                res.append("%s: exit %d %s" % (c, r.returncode, "CAUGHT " + o[o.find("VIOLATION"):][:400] if r.returncode == 1 else "MISSED " + o[-300:]))
        return "; ".join(res)
    finally:
        if not keep: shutil.rmtree(sc, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    check = "--check" in a; oc = "--only-check" in a
    cs = [x[9:].split(",") for x in a if x.startswith("--checks=")]
    for id in [x for x in a if not x.startswith("--")]:
        print(id, one(id, check or oc or cs, "--keep" in a, oc, cs[0] if cs else None)); sys.stdout.flush()
