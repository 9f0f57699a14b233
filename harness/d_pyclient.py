"""The Python client: random streams, read from files and from servers, by polling and by callback."""
import gc, os, signal, socket, sys, threading, time
import pycases

UINT, INT, TEXT, STRUCT = 99, 3, 2, 1

class Writer:
    def __init__(self, rng):
        self.r, self.big, self.b, self.names = rng, False, bytearray(), {}
        self.klasses = {}           # id: (name, [fields])
    def n(self, v, size):
        self.b += (v % (1 << (8 * size))).to_bytes(size, "big" if self.big else "little")
    def s(self, t):
        self.b += t + b"\0"
    def head(self, k):
        self.n(k, 4); self.n(self.r.getrandbits(64), 8); self.n(self.r.getrandbits(64), 8)
    def text(self):
        r = self.r
        x = r.random()
        if x < 0.15:
            return b""
        if x < 0.3:
            return bytes(r.randint(1, 255) for _ in range(r.randint(1, 12)))        # most often no UTF-8
        if x < 0.45:
            return r.choice(["\u00e9t\u00e9", "\u0424", "\U0001f985!", "a\u20acb"]).encode()
        return bytes(r.choice(b"abcXYZ_019 \t%\\\"'") for _ in range(r.choice([1, 3, 10, 300])))
    def name(self):
        if self.r.random() < 0.1:
            return self.text() or b"x"
        return self.r.choice([b"alpha", b"beta", b"value", b"x", b"y", b"duration", b"label", b"timestamp2", b"k", b"a", b"b", b"c"]) + self.r.choice([b"", b"1", b"2"])
    def klass(self, k, name, fields):
        self.head(2); self.n(k, 4); self.s(name); self.n(len(fields), 1)
        for n, t, size, kind in fields:
            self.head(3); self.n(k, 4); self.s(t); self.s(n); self.n(size, 8); self.n(kind, 1)
        self.klasses[k] = (name, fields)
    def define(self):
        r = self.r
        k = 8 + len(self.klasses) + r.choice([0, 0, 100, 1 << 31])
        if k in self.klasses:
            return
        name = b"Klass%d" % len(self.klasses) if r.random() < 0.9 else self.text() + b"%d" % len(self.klasses)
        fs = [(b"base", b"HT_Event", 20, STRUCT)]
        if self.klasses and r.random() < 0.4:
            p = r.choice(list(self.klasses.values()))
            fs = [(b"base", p[0], 8, STRUCT)]
        seen = set()
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            n = self.name()
            if n in seen or n == b"base":
                continue
            seen.add(n)
            x = r.random()
            if x < 0.3:
                fs.append((n, b"const char*", 8, TEXT))
            elif x < 0.6:
                fs.append((n, b"int", r.choice([1, 2, 4, 8]), INT))
            elif x < 0.93 or not self.klasses:
                fs.append((n, b"uint", r.choice([1, 2, 4, 8]), UINT))
            else:
                fs.append((n, r.choice(list(self.klasses.values()))[0], 8, STRUCT))
        self.klass(k, name, fs)
    def values(self, fs, header):
        for n, t, size, kind in fs:
            if kind == STRUCT:
                if t == b"HT_Event":
                    if not header:
                        self.head(self.r.getrandbits(32))
                    continue
                p = [x for x in self.klasses.values() if x[0] == t][0]
                self.values(p[1], header and n == b"base")
            elif kind == TEXT:
                self.s(self.text())
            else:
                v = self.r.choice([0, 1, -1, 127, 128, 255, -128, 1 << 31, -(1 << 31), (1 << 63) - 1, 1 << 63, -(1 << 63), self.r.getrandbits(64)])
                self.n(v, size)
    def event(self):
        if not self.klasses or self.r.random() < 0.05:
            self.head(1)
            return
        k = self.r.choice(list(self.klasses))
        self.head(k)
        self.values(self.klasses[k][1], True)

def stream(r):
    w = Writer(r)
    if r.random() < 0.7:
        w.head(0); w.big = r.random() < 0.3; w.n(1 if w.big else 0, 1)
    for _ in range(r.choice([0, 1, 5, 20, 60])):
        if r.random() < 0.15 or not w.klasses:
            w.define()
        else:
            w.event()
    if r.random() < 0.2 and w.b:
        del w.b[r.randrange(len(w.b)):]
    return bytes(w.b)

def serve(data, r, keep, here=False):
    """A server of its own process (here: a thread); returns its address."""
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    if here and r.random() < 0.5:       # the client has to wait for it
        threading.Timer(r.choice([0.001, 0.02]), lambda: s.listen(1)).start()
    else:
        s.listen(1)
    cuts = sorted(r.randrange(len(data) + 1) for _ in range(r.choice([0, 1, 5])))
    nap = r.choice([0, 0.001, 0.003])
    if here:
        threading.Thread(target=server, args=(s, data, cuts, nap, keep), daemon=True).start()
    elif os.fork():
        s.close()
    else:
        signal.alarm(40)
        server(s, data, cuts, nap, keep)
        os._exit(0)
    return "127.0.0.1:%d" % port

def server(s, data, cuts, nap, keep):
    try:
        end = time.time() + 30
        while True:
            try:
                s.settimeout(30)
                c, _ = s.accept()
                break
            except OSError:             # not listening yet
                if time.time() > end:
                    raise
                time.sleep(0.001)
        at = 0
        for x in cuts + [len(data)]:
            c.sendall(data[at:x])
            at = x
            time.sleep(nap)
        if keep:
            c.settimeout(30)
            c.recv(1)       # until the client goes away
        else:
            c.shutdown(socket.SHUT_WR)
            c.settimeout(5)
            c.recv(1)
        c.close()
    except OSError:
        pass

def text_bytes(s):
    return list(s.encode("utf-8", "surrogateescape"))

def fields(d):
    out = []
    for n, v in d.items():
        if isinstance(v, str):
            out.append(dict(n=text_bytes(n), t="s", v=text_bytes(v)))
        elif isinstance(v, int):
            out.append(dict(n=text_bytes(n), t="n", v=list(v.to_bytes(9, "big", signed=True))))
        else:
            out.append(dict(n=text_bytes(n), t="?", v=[]))
    return out

def case(rng, d, log, mode):
    sys.setswitchinterval(rng.choice([0.005, 1e-6, 1e-5]))
    plan = []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        data = stream(rng)
        kind = rng.choice(["file", "file", "file", "tcp", "here", "open"])       # open: the server keeps the connection
        if kind == "file":
            src = os.path.join(d, "s%d" % i)
            open(src, "wb").write(data)
        elif kind != "here":
            src = serve(data, rng, kind == "open")
        else:
            src = None
        plan.append([kind, src, data])
    for x in plan:      # threads last, after the processes
        if x[0] == "here":
            x[1] = serve(x[2], rng, False, True)
    import hawktracer.client as hc

    def attempt(what, f):
        try:
            f()
            log(e="Api", what=what, ok=True)
        except Exception as x:
            log(e="Api", what=what, ok=False, err=type(x).__name__)

    def early(c):
        """Calls on a client that was never started: nothing may break."""
        for _ in range(rng.choice([0, 0, 1, 3])):
            what = rng.choice(["poll", "stop", "eos", "wait", "bad source", "bad callback", "missing"])
            if what == "poll":
                attempt(what, lambda: c.poll_event())
            elif what == "stop":
                attempt(what, c.stop)
            elif what == "eos":
                log(e="Idle", eos=c.eos(), ev=c.poll_event() is not None)       # nothing runs, so nothing is to be waited for
            elif what == "missing":
                attempt(what, lambda: c.start(os.path.join(d, "none")))
            elif what == "wait":
                attempt(what, c.wait_for_eos)
            elif what == "bad source":
                attempt(what, lambda: c.start(""))
            else:
                attempt(what, lambda: c.start(os.path.join(d, "none"), 5))

    def got(e):
        log(e="Ev", s=cur[0], kn=text_bytes(e[0]), f=fields(e[1]))
    cur = [0]
    c = None
    for i, (kind, src, data) in enumerate(plan):
        cur[0] = i
        if c is None or rng.random() < 0.5:
            if c is not None and rng.random() < 0.7:
                log(e="Gone", s=i - 1)
                c = None                    # dropped, perhaps while it is running
                log(e="Stopped", s=i - 1)
            c = hc.Client()
            early(c)
        else:
            log(e="Gone", s=i - 1)          # its events may still be on their way until start() returns
        how = rng.choice(["callback", "callback", "poll", "poll"])
        limit = rng.choice([0, 1, 3, 10, 30]) if kind == "open" or rng.random() < 0.25 else None
        seen = [0]
        bump = threading.Event()
        mood = rng.choice([0, 0, 0.3])
        r2 = __import__("random").Random(rng.random())
        def callback(kn, ev, i=i, seen=seen, r2=r2, bump=bump, mood=mood):
            log(e="Ev", s=i, kn=text_bytes(kn), f=fields(ev))
            seen[0] += 1
            bump.set()
            if r2.random() < 0.1:
                time.sleep(0.0005)
            if r2.random() < mood:
                raise ValueError("from the callback")
        log(e="Start", s=i, b=list(data), how=how, cb=how == "callback")
        try:
            if how == "callback":
                c.start(src, callback)
            else:
                c.start(src)
        except Exception as x:
            log(e="Broken", what="start: %r" % x)
            return
        log(e="Started", s=i)
        if how == "callback":
            if limit is None:
                if rng.random() < 0.5:
                    c.wait_for_eos()
                else:
                    while not c.eos():
                        time.sleep(0.0002)
                log(e="Waited", s=i)
            else:
                end = time.time() + rng.choice([0, 0.01, 0.03])
                while seen[0] < limit and time.time() < end:
                    bump.wait(0.005)
                    bump.clear()
        else:
            if limit is None:
                if rng.random() < 0.4:
                    c.wait_for_eos()
                last = False
                while True:
                    e = c.poll_event()
                    if e is not None:
                        got(e)
                    elif last:
                        break
                    else:
                        last = c.eos()
                        if rng.random() < 0.3:
                            time.sleep(0.0001)
                log(e="Waited", s=i)
            else:
                n = 0
                end = time.time() + 0.05
                while n < limit and time.time() < end:
                    e = c.poll_event()
                    if e is not None:
                        got(e)
                        n += 1
        x = rng.random()
        if x < 0.6 or (limit is not None and x < 0.8) or i == len(plan) - 1:
            c.stop()
            log(e="Stopped", s=i)
            log(e="Idle", eos=c.eos(), ev=False)
            if how == "poll" and rng.random() < 0.5:
                while True:
                    e = c.poll_event()
                    if e is None:
                        break
                    got(e)
            if rng.random() < 0.2:
                c.stop()
    if rng.random() < 0.5:
        c = None
        gc.collect()
        log(e="Stopped", s=len(plan) - 1)

pycases.run(case, lambda d, emit, lines: None, timeout=int(os.environ.get("PYT", "60")))
