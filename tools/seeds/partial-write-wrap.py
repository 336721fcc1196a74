P="C03"
NEEDS="a reader so slow that writev() accepts only part of the data while the circular buffer is wrapped, ending beyond the wrap point"
BREAKS="after a partial write that crosses the end of the circular buffer the output position is off, so the reader gets bytes twice"
EDITS=[("src/server-obj.c","""            if (obj->bufOutPtr >= &obj->buf[OBJ_BUF_SIZE]) {
                obj->bufOutPtr -= OBJ_BUF_SIZE;
            }
        }
    }
    /*  If all""","""            if (obj->bufOutPtr >= &obj->buf[OBJ_BUF_SIZE]) {
                obj->bufOutPtr = obj->buf;
            }
        }
    }
    /*  If all""")]
DEMO='''
k = Console("k")
d = Daemon('server port=0\\nconsole name="k" dev="unix:%s"\\n' % k.path)
s = k.accept()
a = d.session("MONITOR CONSOLE='k'", "a", rcvbuf=2048)
sent = b""
n = 0
import random
rng = random.Random(5)
# keep the daemon's buffer between empty and full while reading in small sips
for i in range(30000):
    line = b"%08d" % n; n += 1
    sent += line
chunk = 0
pos = 0
a.s.setblocking(False)
end = time.time() + 60
while pos < len(sent) and time.time() < end:
    if pos - len(a.rx) < 12000:
        m = rng.randrange(1, 3000)
        s.send(sent[pos:pos+m]); pos += m; pos = min(pos, len(sent))
    try:
        a.rx += a.s.recv(rng.randrange(1, 3000))
    except OSError: time.sleep(.001)
a.until(lambda: len(payload(a.rx)) >= len(sent), 10)
a.quiet(.3)
if "Overwrote" in d.log(): ok("overwrote (no verdict)")
if payload(a.rx) != sent: fail("stream differs: %d bytes received, %d sent" % (len(payload(a.rx)), len(sent)))
ok()
'''
