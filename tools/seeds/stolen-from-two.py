P="C27"
NEEDS="a console stolen by force from two or more joined clients"
BREAKS="nobody is told that the session was stolen when it had more than one writer"
EDITS=[("src/server-obj.c","""            && !list_is_empty(dst->writers);""","""            && (list_count(dst->writers) == 1);""")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s"\\n' % k.path)
k.accept()
m = d.session("MONITOR CONSOLE='k'", "mona")
a = d.session("CONNECT CONSOLE='k'", "anna")
b = d.session("CONNECT OPTION=JOIN CONSOLE='k'", "bob")
for x in (a, b): x.quiet(.3)
c = d.session("CONNECT OPTION=FORCE CONSOLE='k'", "carl")
if b"OK" not in c.rsp: fail("force: %r" % c.rsp)
for n, x in (("anna", a), ("bob", b), ("mona", m)):
    if not x.expect(b"stolen by", 5) or b"carl" not in x.rx: fail("%s was not told: %r" % (n, x.rx))
ok()
'''
