P="C09"
NEEDS="two patterns of one request matching the same console, with another match between them"
BREAKS="a console matched by several patterns of a request is listed (and linked) once per pattern"
EDITS=[("src/server-sock.c","""            if (!fnmatch(pat, obj->name, 0)
              && !list_find_first(matches, (ListFindF) find_obj, obj))""","""            if (!fnmatch(pat, obj->name, 0)
              && (list_peek(matches) != obj))""")]
DEMO='''
c = ""
ks = []
for n in ("ax", "bx", "ay", "by"):
    k = Console(n); ks.append(k)
    c += 'console name="%s" dev="unix:%s"\\n' % (n, k.path)
d = Daemon('server port=0\\n' + c)
for k in ks: k.accept()
a = d.session("QUERY CONSOLE='*x' CONSOLE='a*' CONSOLE='*'", "a")
a.until(lambda: a.eof, 5)
import collections
got = (a.rsp + b" " + a.rx).decode()
for n in ("ax", "bx", "ay", "by"):
    m = len(re.findall(r"'%s'|(?m:^%s$)" % (n, n), got))
    if m != 1: fail("%s is listed %d times in %r" % (n, m, got))
ok()
'''
