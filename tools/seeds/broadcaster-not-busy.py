P="C07"
NEEDS="a console whose current writer is a broadcast client, and another client connecting to it without force or join"
BREAKS="a console being written to by a broadcast session does not count as busy, so a second writer gets in unasked"
EDITS=[("src/server-sock.c","""            gotBcast = list_is_empty(writer->writers);
            tty = writer->aux.client.req->tty;
            x_pthread_mutex_unlock(&writer->bufLock);
            delta""","""            if ((gotBcast = list_is_empty(writer->writers)))
                numBusy--;
            tty = writer->aux.client.req->tty;
            x_pthread_mutex_unlock(&writer->bufLock);
            delta""")]
DEMO='''
ks = {}
c = ""
for n in ("a", "b", "c"):
    ks[n] = Console(n); c += 'console name="%s" dev="unix:%s"\\n' % (n, ks[n].path)
d = Daemon('server port=0\\n' + c)
for n in ks: ks[n] = ks[n].accept()
o = d.session("CONNECT OPTION=BROADCAST CONSOLE='a' CONSOLE='b'", "owner")
if b"OK" not in o.rsp: fail("broadcast: %r" % o.rsp)
for n in "ab":
    x = d.session("CONNECT CONSOLE='%s'" % n, "other")
    if b"ERROR" not in x.rsp: fail("connecting was granted though %s is in use: %r" % (n, x.rsp))
x = d.session("CONNECT CONSOLE='c'", "other")
if b"OK" not in x.rsp: fail("free console: %r" % x.rsp)
ok()
'''
