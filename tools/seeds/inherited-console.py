P="C23"
NEEDS="two process-based consoles, the second started after the first, and the first one's connection closed by the daemon"
BREAKS="the daemon's end of a process console's socket pair is inherited by processes started later"
EDITS=[("src/server-process.c","    set_fd_closed_on_exec(fd_pair[0]);\n","")]
DEMO='''
open(dir + "/h", "w").write("#!/bin/sh\\nls -l /proc/$$/fd > %s/fds.$1.tmp; mv %s/fds.$1.tmp %s/fds.$1; exec sleep 30\\n" % (dir, dir, dir))
os.chmod(dir + "/h", 0o755)
d = Daemon('server port=0\\nconsole name="a" dev="{d}/h a"\\nconsole name="b" dev="{d}/h b"\\nconsole name="c" dev="{d}/h c"\\n')
for n in "abc":
    if not wait(lambda: os.path.exists(dir + "/fds." + n)): fail("process %s did not start" % n)
    x = [l.split(" -> ") for l in slurp(dir + "/fds." + n).decode().split("\\n") if " -> " in l]
    x = [(a.split()[-1], b) for a, b in x]
    own = dict(x).get("0")
    bad = [(a, b) for a, b in x if int(a) > 2 and "socket:" in b and b != own]
    if bad: fail("process %s inherited %s" % (n, bad))
ok()
'''
