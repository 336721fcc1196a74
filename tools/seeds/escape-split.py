P="C08"
NEEDS="an escape sequence whose introducer and letter arrive in different reads"
BREAKS="an escape split over two packets is not recognised: the letter reaches the console as data"
EDITS=[("src/server-esc.c","        if (client->aux.client.gotEscape) {\n            client->aux","        if (client->aux.client.gotEscape && (len > 1)) {\n            client->aux")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s"\\n' % k.path)
s = k.accept()
a = d.session("CONNECT CONSOLE='k'", "a")
a.send(b"x\\xff"); time.sleep(.5); a.send(b"D"); time.sleep(.3); a.send(b"end")
s.expect(b"end")
if s.rx != b"x\\x7fend": fail("console received %r" % s.rx)
ok()
'''
