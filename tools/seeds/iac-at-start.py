P="C10"
NEEDS="an escaped data byte 0xFF (IAC IAC) from a telnet console that stands at the very beginning of what one read returns"
BREAKS="a 0xFF data byte is dropped from the stream when it is the first thing in a read"
EDITS=[("src/server-telnet.c","""            case IAC:
                *q++ = *p;
                telnet->aux""","""            case IAC:
                if (q > (unsigned char *) src)
                    *q++ = *p;
                telnet->aux""")]
DEMO='''
l = socket.socket(); l.bind(("127.0.0.1", 0)); l.listen(4); l.settimeout(15)
d = Daemon('server port=0\\nconsole name="k" dev="127.0.0.1:%d" log="{d}/log"\\n' % l.getsockname()[1])
s = Sk(l.accept()[0]); s.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
s.quiet(.5)
a = d.session("MONITOR CONSOLE='k'", "a")
a.quiet(.3); a.rx = b""
s.send(b"abc"); time.sleep(.5); s.send(b"\\xff\\xffdef"); time.sleep(.5); s.send(b"ghi")
a.expect(b"ghi")
if b"abc\\xffdefghi" not in a.rx: fail("the client got %r" % a.rx)
if not wait(lambda: b"abc\\xffdefghi" in slurp(dir + "/log")): fail("the log has %r" % slurp(dir + "/log"))
ok()
'''
