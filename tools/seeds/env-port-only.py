P="C31"
NEEDS="CONMAN_HOST of the form \":port\", with no host name"
BREAKS="the port in CONMAN_HOST is ignored when no host stands before the colon"
EDITS=[("src/client-conf.c","""            *q++ = '\\0';
            if ((i = atoi(q)) > 0)
                conf->req->port = i;
        }
        if (*p) {""","""            *q++ = '\\0';
            if (*p && ((i = atoi(q)) > 0))
                conf->req->port = i;
        }
        if (*p) {""")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="thatone" dev="unix:%s"\\n' % k.path)
k.accept()
r = subprocess.run([CLI, "-q"], env=dict(os.environ, CONMAN_HOST=":%d" % d.port), capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
if "thatone" not in r.stdout: fail("query through CONMAN_HOST=:%d: %r %r" % (d.port, r.stdout, r.stderr))
ok()
'''
