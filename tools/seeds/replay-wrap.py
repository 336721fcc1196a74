P="C12"
NEEDS="a log whose circular buffer has wrapped and whose write position is less than the replay length past the wrap point"
BREAKS="the older part of a replay spanning the buffer's wrap point is taken one byte too early"
EDITS=[("src/server-esc.c","            p = &logfile->buf[OBJ_BUF_SIZE] - m;","            p = &logfile->buf[OBJ_BUF_SIZE - 1] - m;")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s" log="{d}/log"\\n' % k.path)
s = k.accept()
sent = b"".join(b"%07d\\n" % i for i in range(2200))   # 17600 bytes: wraps with ~1.2 KB after the wrap point
for i in range(0, len(sent), 1000):
    s.send(sent[i:i+1000]); time.sleep(.02)
wait(lambda: slurp(dir + "/log").endswith(sent[-100:]))
a = d.session("MONITOR CONSOLE='k'", "a")
a.quiet(.2); a.rx = b""
a.send(b"\\xffL")
if not a.expect(b"End log replay"): fail("no replay")
got = payload(a.rx)
exp = slurp(dir + "/log")[-4096:]
if got != exp: fail("replay differs: %r... instead of %r..." % (got[:20], exp[:20]))
ok()
'''
