"""Free-running and overload scenarios over real sockets (no stepped barrier inside the flow)."""
from sess import *

def numbered(start, n):
    """n bytes of self-identifying stream starting at offset `start` (16-byte records)."""
    a = start // 16
    b = (start + n) // 16 + 1
    s = b"".join(b"<%012d>\r\n" % i for i in range(a, b))
    s = bytes(s)
    return s[start - a * 16:start - a * 16 + n]

def align(sent, got, win=40):
    """got must be `sent` with contiguous pieces missing; returns [(pos_in_sent, length)] or None."""
    gaps = []
    i = j = 0
    while j < len(got):
        # longest common run
        k = first_diff(sent[i:i + len(got) - j], got[j:])
        i += k
        j += k
        if j >= len(got):
            break
        w = got[j:j + win]
        p = sent.find(w, i)
        if p < 0:
            return None
        gaps.append((i, p - i))
        i = p
    if i < len(sent):
        gaps.append((i, len(sent) - i))
    return gaps

def overwrote(D, pat):
    return [int(n) for n, name in re.findall(r'Overwrote (\d+) bytes? for "([^"]*)"', D.log_text()) if re.search(pat, name)]

def only_(only):
    def v(what, msg, **k):
        if only and what not in only: return Foreign(msg)
        return Violation(msg, **k)
    return v

def overload_reader(exe, only=None):
    V = only_(only)
    # what: fast (other readers), log, slow (the stalled reader)
    """A reader that stops reading loses only oldest data, reported; everybody else is unaffected."""
    def case(i, d, st):
        rng = random.Random(i)
        kinds = rng.choice([["unix", "unix"], ["telnet", "unix"]])
        r = Rig(exe, d, kinds, [True, True], seed=i & 0xffff, faults=rng.choice([{}, {"WSHORT": 900}, {"RSHORT": 700, "EAGAIN": 100}]))
        try:
            r.names = list(r.model.cons)
            a, b = r.names
            mode = rng.choice(["MONITOR", "CONNECT"])
            slow, _, k, _ = r.connect(mode, [a], ["QUIET"], user="slow", rcvbuf=4096)
            if k != b"OK": raise Foreign("refused")
            r.ignore.add(slow.m.id)
            fast, _, _, _ = r.connect("MONITOR", [a], ["QUIET"])
            other, _, _, _ = r.connect("CONNECT", [b], ["QUIET"])
            base_log = len(r.read_log(a))
            slow.paused = True
            sent = b""
            extra = rng.randrange(1, 60000)
            tail = None
            rounds = 0
            while True:
                n = rng.randrange(1, 8000)
                data = numbered(len(sent), n)
                sent += data
                r.output(a, data)
                if rng.random() < .2:
                    r.output(b, numbered(rounds * 100, 100))
                if rng.random() < .1:
                    r.send(other, b"typed %d\r" % rounds)
                rounds += 1
                if tail is None and overwrote(r.D, "slow@"):
                    tail = len(sent) + extra
                if tail is not None and len(sent) >= tail:
                    break
                if len(sent) > 24 << 20:
                    raise Inconclusive("kernel buffers never filled")
            r.until(lambda: len(fast.data) >= len(sent))
            got_fast = fast.data
            if got_fast != sent:
                raise V("fast", "a reader lost or reordered output because another reader was slow: " + "%d/%d bytes, first difference at %d"
                                % (len(got_fast), len(sent), first_diff(got_fast, sent)))
            r.until(lambda: len(r.read_log(a)) >= base_log + len(sent))
            lp, _ = split_info(r.read_log(a)[base_log:])
            if lp != sent:
                raise V("log", "console log incomplete while a reader was slow (%d/%d bytes)" % (len(lp), len(sent)))
            r.verify({"log"} if only == ("log",) else {"payload", "input"}, "while one reader of %s is stalled" % a)
            # resume
            slow.paused = False
            r.hub.wait(lambda: slow.rx.endswith(sent[-16:]), 30)
            r.barrier()
            got = bytes(slow.rx[slow.mark:])
            gp, gm = split_info(got)
            gaps = align(sent, gp)
            if gaps is None:
                raise V("slow", "slow reader received bytes that are not a subsequence of the console output", tail=repr(gp[-200:]))
            lost = sum(n for _, n in gaps)
            rep = sum(overwrote(r.D, "slow@"))
            if gaps and gaps[-1][0] + gaps[-1][1] > len(sent) - BUF + 40 and lost:
                raise V("slow", "slow reader lost recent data: gap %r of %d sent" % (gaps[-1], len(sent)))
            if not lost and rep:
                raise V("slow", "loss of %d bytes reported but none observed" % rep)
            if lost != rep:
                raise V("slow", "slow reader lost %d bytes but the daemon's log reports %d" % (lost, rep))
            st.seen("overload reader %s %s gaps=%d lost=%d" % (kinds[0], mode, len(gaps), lost))
            st.count("overloaded bytes sent", len(sent)); st.count("bytes lost and reported", lost)
            st.sample("reader stalled: sent %d, lost %d in %d gaps, reported %d" % (len(sent), lost, len(gaps), rep))
            r.D.check_alive()
        finally:
            r.end()
    return case

def overload_console(exe):
    """A console that stops accepting input loses only oldest input, reported; others unaffected."""
    def case(i, d, st):
        rng = random.Random(i)
        kinds = rng.choice([["unix", "unix"], ["telnet", "unix"]])
        r = Rig(exe, d, kinds, [True, True], seed=i & 0xffff, faults=rng.choice([{}, {"WSHORT": 900}, {"RSHORT": 700, "EAGAIN": 100}]), rcvbuf=8192)
        try:
            a, b = list(r.model.cons)
            bc = rng.random() < .5
            if bc:
                w, _, _, _ = r.connect("CONNECT", [a, b], ["BROADCAST", "QUIET"])
            else:
                w, _, _, _ = r.connect("CONNECT", [a], ["QUIET"])
            other, _, _, _ = r.connect("CONNECT", [b], ["JOIN", "QUIET"])
            pa = r.con[a].conn
            pa.paused = True
            sent = b""
            extra = rng.randrange(1, 60000)
            tail = None
            while True:
                data = numbered(len(sent), rng.randrange(1, 7000))
                sent += data
                w.send(data); r.barrier()
                if bc: r.model.to_console(r.model.cons[b], data)
                if tail is None and overwrote(r.D, "^%s$" % a):
                    tail = len(sent) + extra
                if tail is not None and len(sent) >= tail: break
                if len(sent) > 24 << 20: raise Inconclusive("kernel buffers never filled")
                if rng.random() < .1:
                    r.output(a, b"still talking %d\r\n" % len(sent))
                    r.output(b, b"me too %d\r\n" % len(sent))
            if len(r.con[a].conns) > 1: raise Inconclusive("console reconnected")
            r.until(lambda: r.con_rx(b) == bytes(r.model.cons[b].rx))
            if r.con_rx(b) != bytes(r.model.cons[b].rx):
                raise Violation("input to a console lost because another console was slow", which=b)
            pa.paused = False
            def rx(): return r.con_rx(a)
            r.hub.wait(lambda: rx().endswith(sent[-16:]), 30)
            r.barrier()
            gaps = align(sent, rx())
            if gaps is None:
                raise Violation("stalled console received bytes that are not a subsequence of what was typed")
            lost = sum(n for _, n in gaps)
            rep = sum(overwrote(r.D, "^%s$" % a))
            if lost and gaps[-1][0] + gaps[-1][1] > len(sent) - BUF + 40:
                raise Violation("stalled console lost recent input: gap %r of %d" % (gaps[-1], len(sent)))
            if lost != rep:
                raise Violation("stalled console lost %d bytes of input but the daemon's log reports %d" % (lost, rep))
            st.seen("overload console %s bc=%s gaps=%d lost=%d" % (kinds[0], bc, len(gaps), lost))
            st.count("overloaded bytes sent", len(sent)); st.count("bytes lost and reported", lost)
            r.D.check_alive()
        finally:
            r.end()
    return case

def windowed(exe, direction, total=60000, only=None):
    V = only_(only)
    # what: out, log, in
    """Free running: many endpoints at once, amount in flight kept below the daemon's buffers so nothing may be lost."""
    def case(i, d, st):
        rng = random.Random(i)
        nk = rng.randrange(1, 4)
        kinds = [rng.choice(["unix", "telnet"]) for _ in range(nk)]
        r = Rig(exe, d, kinds, [True] * nk, seed=i & 0xffff, faults=rng.choice([{}, {"WSHORT": 50}, {"WSHORT": 2000, "RSHORT": 900}, {"RSHORT": 30, "EINTR": 100}, {"EAGAIN": 300, "WSHORT": 500}]))
        try:
            names = list(r.model.cons)
            readers = {n: [] for n in names}
            writers = {n: [] for n in names}
            bcs = []
            for n in names:
                for j in range(rng.randrange(1, 4)):
                    mode = rng.choice(["MONITOR", "CONNECT"])
                    c, busy, k, kv = r.connect(mode, [n], ["QUIET"] + (["JOIN"] if mode == "CONNECT" else []))
                    if k != b"OK": raise Foreign("refused")
                    readers[n].append(c)
                    if mode == "CONNECT": writers[n].append(c)
            if nk > 1 and rng.random() < .5:
                c, busy, k, kv = r.connect("CONNECT", names, ["QUIET", "JOIN", "BROADCAST"])
                if k == b"OK":
                    bcs.append(c)
                    for n in names: writers[n].append(c)
            r.verify({"payload"}, "setup")
            base = {c: len(c.rx) for n in names for c in readers[n]}
            lbase = {n: len(r.read_log(n)) for n in names}
            cb = {n: len(r.con_rx(n)) for n in names}
            WIN = 6000
            sent = {n: b"" for n in names}
            wsent = {}
            tags = {}
            for j, c in enumerate({id(c): c for n in names for c in writers[n]}.values()):
                wsent[c] = b""; tags[c] = j
            def cdata(c): return bytes(c.rx[base[c]:])
            last, lastprog = time.monotonic(), None
            lim = total
            while True:
                busy_ = False
                for n in names:
                    if len(sent[n]) < lim and direction in ("out", "both"):
                        busy_ = True
                        low = min([len(c.rx) - base[c] for c in readers[n]] + [os.path.getsize(r.log_path(n)) - lbase[n]])
                        room = WIN - (len(sent[n]) - low)
                        if room > 0 and not r.con[n].conn.tx:
                            m = rng.randrange(1, room + 1)
                            data = numbered(len(sent[n]), m)
                            sent[n] += data
                            r.con[n].conn.send(data)
                if direction in ("in", "both"):
                    for c in wsent:
                        if len(wsent[c]) < lim // 2:
                            busy_ = True
                            mine = [n for n in names if c in writers[n]]
                            infl = max(sum(len(wsent[x]) for x in writers[n]) - (r.rxlen(n) - cb[n]) for n in mine)
                            room = WIN - infl
                            if room > 3 and not c.tx:
                                m = rng.randrange(1, room // 3 + 1)
                                data = rec(tags[c], len(wsent[c]), m)
                                wsent[c] += data
                                c.send(data.replace(b"\xff", b"\xff\xff"))
                # uneven draining
                for c in base:
                    c.paused = rng.random() < .3
                r.hub.pump(0.001)
                if not busy_: break
                prog = (sum(len(v) for v in sent.values()), sum(len(v) for v in wsent.values()))
                if prog != lastprog:
                    lastprog, last = prog, time.monotonic()
                elif time.monotonic() - last > 10:
                    break           # something is missing: compare what was sent so far
            for c in base: c.paused = False
            r.barrier()
            r.until(lambda: all(len(c.rx) - base[c] >= len(sent[n]) for n in names for c in readers[n]) and
                    all(r.rxlen(n) - cb[n] >= sum(len(wsent[x]) for x in writers[n] if x in wsent) for n in names))
            for n in names:
                for c in readers[n]:
                    p, m = split_info(cdata(c))
                    if p != sent[n]:
                        raise V("out", "reader of %s received %d of %d bytes; first difference at %d (%r / %r)" % (n, len(p), len(sent[n]), first_diff(p, sent[n]),
                            p[max(0, first_diff(p, sent[n]) - 20):][:50], sent[n][max(0, first_diff(p, sent[n]) - 20):][:50]))
                    st.seen("windowed out %s %s r=%d" % (kinds[names.index(n)], r.model.mode(c.m), len(readers[n])))
                lg, _ = split_info(r.read_log(n)[lbase[n]:])
                if lg != sent[n]:
                    raise V("log", "log of %s holds %d of %d bytes; first difference at %d" % (n, len(lg), len(sent[n]), first_diff(lg, sent[n])))
                if direction in ("in", "both"):
                    got = r.con_rx(n)[cb[n]:]
                    per = split_rec(got, tags, writers[n])
                    for c in writers[n]:
                        if per.get(tags[c], b"") != wsent[c]:
                            x = per.get(tags[c], b"")
                            raise V("in", "console %s got %d of %d bytes from writer %d; first difference at %d" % (n, len(x), len(wsent[c]), tags[c], first_diff(x, wsent[c])))
                        st.seen("windowed in %s %s w=%d" % (kinds[names.index(n)], r.model.mode(c.m), len(writers[n])))
                    extra = set(per) - {tags[c] for c in writers[n]}
                    if extra: raise V("in", "console %s received input of sessions that do not write to it" % n)
            st.count("windowed bytes out", sum(len(v) for v in sent.values()))
            st.count("windowed bytes in", sum(len(v) for v in wsent.values()))
            r.D.check_alive()
        finally:
            r.end()
    return case

# one byte per writer and position: high nibble = writer, low = counter hash; 8 writers at most
def rec(tag, start, n):
    return bytes((tag << 5) | ((i * 11 + (i // 29)) & 31) for i in range(start, start + n))

def split_rec(data, tags, ws):
    r = {}
    for b in data:
        r.setdefault(b >> 5, bytearray()).append(b)
    return {k: bytes(v) for k, v in r.items()}
