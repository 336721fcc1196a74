P="C13"
NEEDS="a daemon started with -z that later gets SIGHUP (as log rotation sends it)"
BREAKS="every reopening of a log truncates it again, so what the console said before the SIGHUP is lost"
EDITS=[("src/server-logfile.c","        logfile->aux.logfile.gotTruncate = 0;\n        flags","        flags")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s" log="{d}/log"\\n' % k.path, ["-z"])
s = k.accept()
s.send(b"before the signal\\n")
if not wait(lambda: b"before the signal" in slurp(dir + "/log")): fail("nothing logged")
d.p.send_signal(signal.SIGHUP); time.sleep(1)
s.send(b"after the signal\\n")
if not wait(lambda: b"after the signal" in slurp(dir + "/log")): fail("nothing logged after SIGHUP")
if b"before the signal" not in slurp(dir + "/log"): fail("log lost its contents")
ok()
'''
