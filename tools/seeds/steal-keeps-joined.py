P="C07"
NEEDS="two writers joined on one console, then a third connects with FORCE"
BREAKS="a forced connect evicts only the console's first writer; further joined writers keep write access silently"
EDITS=[("src/server-obj.c","""            while ((writer = list_next(i))) {
                assert(is_client_obj(writer));
                unlink_obj(writer);""","""            if ((writer = list_next(i))) {
                assert(is_client_obj(writer));
                unlink_obj(writer);""")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s"\\n' % k.path)
s = k.accept()
a = d.session("CONNECT CONSOLE='k'", "a")
b = d.session("CONNECT OPTION=JOIN CONSOLE='k'", "b")
c = d.session("CONNECT OPTION=FORCE CONSOLE='k'", "c")
if not (a.until(lambda: a.eof, 5) and b.until(lambda: b.eof, 5)): fail("a previous writer was not disconnected by a forced connect")
b_ok = True
ok()
'''
