"""Traced Python functions: random programs of traced calls, recorded by the program itself and
by the tracer (the dump files it leaves behind)."""
import functools, os, struct, sys, threading, time
import pycases

class Dump:
    """A reader for dump files (little endian)."""
    BOOT = {0: [("base", "HT_Event", 1, 0), ("endianness", "", 99, 1)],
            2: [("base", "HT_Event", 1, 0), ("info_klass_id", "", 99, 4), ("event_klass_name", "", 2, 0), ("field_count", "", 99, 1)],
            3: [("base", "HT_Event", 1, 0), ("info_klass_id", "", 99, 4), ("field_type", "", 2, 0), ("field_name", "", 2, 0), ("size", "", 99, 8), ("data_type", "", 99, 1)]}
    def __init__(self, data):
        self.b, self.i = data, 0
        self.fields, self.names, self.events = dict(self.BOOT), {}, []
        while self.i < len(self.b):
            h = self.num(4), self.num(8), self.num(8)
            if h[0] == 1:
                continue
            if h[0] not in self.fields:
                raise ValueError("unknown class %d at %d" % (h[0], self.i))
            ev = {}
            self.read(self.fields[h[0]], ev, True)
            if h[0] == 2:
                self.names.setdefault(ev["info_klass_id"], ev["event_klass_name"].decode())
                self.fields.setdefault(ev["info_klass_id"], [])
            elif h[0] == 3:
                k, f = ev["info_klass_id"], (ev["field_name"].decode(), ev["field_type"].decode(), ev["data_type"], ev["size"])
                if k not in self.BOOT and k != 1 and f not in self.fields[k]:
                    self.fields[k].append(f)
            else:
                self.events.append((self.names.get(h[0], "?"), ev))
    def num(self, n):
        if self.i + n > len(self.b):
            raise ValueError("cut at %d" % self.i)
        self.i += n
        return int.from_bytes(self.b[self.i - n:self.i], "little")
    def read(self, fs, ev, top):
        for name, ty, kind, size in fs:
            if kind == 1:
                if ty == "HT_Event":
                    continue
                self.read(self.fields[[k for k, v in self.names.items() if v == ty][0]], ev, top)
            elif kind == 2:
                z = self.b.index(b"\0", self.i)
                ev[name] = self.b[self.i:z]
                self.i = z + 1
            else:
                ev[name] = self.num(size)

def hexs(s):
    return "h" + s.encode("utf-8", "surrogatepass").hex()

def label_of(f):
    """The label a call of f has now: None if it has none (no name, or no text of its own)."""
    n = getattr(f, "__name__", None)
    if not isinstance(n, str):
        return ""
    try:
        n.encode("utf-8")
    except UnicodeEncodeError:
        return ""
    return hexs(n)

class Boom(Exception):
    pass

NAMES = ["a", "work", "\u00e9t\u00e9", "\u0424\u0443\u043d\u043a", "\U0001f985", "with space", "x" * 200, "long_" * 300, "\t\n\"\\", "trace_function", "<lambda>"]

def case(rng, d, log, mode):
    env = rng.choice([None, None, "1", "0"])
    os.environ.pop("HT_PYTHON_TRACE_ENABLED", None)
    if env is not None:
        os.environ["HT_PYTHON_TRACE_ENABLED"] = env
    sys.setswitchinterval(rng.choice([0.005, 1e-6, 1e-5]))
    import hawktracer.core as core
    log(e="Import", env=env == "1")
    threads = {threading.get_ident(): 0}
    T = lambda: threads[threading.get_ident()]
    values = [None, 1, -5, 2.5, "txt", [1, 2], {"k": 1}, (), object(), b"x", True, 10 ** 40]
    reg = {}
    keep = []
    def show(x):          # identity, so that a copy would be noticed
        if isinstance(x, tuple):
            return "(" + ",".join(show(y) for y in x) + ")"
        if isinstance(x, dict) and not any(x is v for v in values):
            return "{" + ",".join("%s=%s" % (k, show(v)) for k, v in x.items()) + "}"
        keep.append(x)
        return "%s#%d" % (type(x).__name__, reg.setdefault(id(x), len(reg)))
    funcs = []            # (callable as called, object whose name counts, signature kind)
    depth = {}
    budget = {}
    lock_toggles = [False]

    def body(tag, got, r):
        """What a traced function does: possibly calls others, toggles, then returns or raises."""
        t = T()
        log(e="Got", t=t, a=show(got))
        steps(r, depth.get(t, 0) + 1)
        if r.random() < 0.25:
            x = r.choice([Boom("b"), KeyError(1), StopIteration(), ValueError("\u00e9")])
            log(e="Out", t=t, how="raise", v=show(x))
            raise x
        v = r.choice(values)
        log(e="Out", t=t, how="return", v=show(v))
        return v

    rngs = {0: rng}
    def make(kind):
        name = rng.choice(NAMES)
        if kind == "plain":
            def f(*a, **k):
                return body("f", (a, k), rngs[T()])
        elif kind == "fixed":
            def f(x, y=values[3], *, z=values[4]):
                return body("f", ((x, y), {"z": z}), rngs[T()])
        elif kind == "lambda":
            f = lambda *a, **k: body("f", (a, k), rngs[T()])
        elif kind == "class":
            class f:
                def __new__(cls, *a, **k):
                    return body("f", (a, k), rngs[T()])
        elif kind == "instance":
            class F:
                def __call__(self, *a, **k):
                    return body("f", (a, k), rngs[T()])
            f = F()
            if rng.random() < 0.4:
                f.__name__ = rng.choice([5, [1], "inst", "\udc80bad"])
            return f
        elif kind == "wrapped static":
            f = staticmethod(lambda *a, **k: body("f", (a, k), rngs[T()]))
            return f
        elif kind == "bound":
            class B:
                def bm(self, *a, **k):
                    return body("f", (a, k), rngs[T()])
            return B().bm
        elif kind == "partial":
            g = lambda *a, **k: body("f", (a[1:], k), rngs[T()])
            return functools.partial(g, values[0])
        else:
            raise KeyError(kind)
        if rng.random() < 0.85:
            f.__name__ = name if kind == "class" or rng.random() < 0.95 else "\udc80" + name
        return f

    def define():
        kind = rng.choice(["plain", "plain", "fixed", "lambda", "class", "instance", "partial", "wrapped static", "bound", "method", "static", "clsm", "prop"])
        if kind in ("method", "static", "clsm", "prop"):
            name = rng.choice(NAMES)
            if kind == "static":
                def m(*a, **k):
                    return body("m", (a, k), rngs[T()])
            else:
                def m(self, *a, **k):
                    if show(self) != show(inst) and show(self) != show(C):
                        log(e="Broken", what="wrong self")
                    return body("m", (a, k), rngs[T()])
            m.__name__ = name
            w = core.trace(m)
            log(e="Def", same=w is m)
            C = type("C", (), {"m": staticmethod(w) if kind == "static" else classmethod(w) if kind == "clsm" else property(w) if kind == "prop" else w})
            if rng.random() < 0.3:
                C = type("D", (C,), {})
            inst = C()
            if kind == "prop":
                call = lambda *a, **k: inst.m
            elif kind == "method" and rng.random() < 0.3:
                call = lambda *a, **k: C.m(inst, *a, **k)
            elif kind == "clsm" and rng.random() < 0.5:
                call = lambda *a, **k: C.m(*a, **k)
            else:
                call = lambda *a, **k: inst.m(*a, **k)
            funcs.append((call, m, kind, w is not m))
            return
        f = make(kind)
        w = core.trace(f)
        log(e="Def", same=w is f)
        if rng.random() < 0.2 and kind in ("class", "instance", "partial", "wrapped static", "bound"):
            holder = type("H", (), {"m": w})    # as an attribute of a class these take no object
            funcs.append((lambda *a, **k: holder().m(*a, **k), f, kind, w is not f))
        else:
            funcs.append((w, f, kind, w is not f))

    def call(r):
        w, f, kind, wrapped = r.choice(funcs)
        t = T()
        if kind == "prop":
            a, k = (), {}
        elif kind == "fixed":
            a, k = (r.choice(values),), {}
            if r.random() < 0.5:
                a += (r.choice(values),)
            elif r.random() < 0.5:
                k["y"] = r.choice(values)
            if r.random() < 0.5:
                k["z"] = r.choice(values)
            full = {"x": a[0], "y": values[3], "z": values[4]}
            if len(a) > 1:
                full["y"] = a[1]
            full.update(k)
            want = ((full["x"], full["y"]), {"z": full["z"]})
        else:
            a = tuple(r.choice(values) for _ in range(r.choice([0, 0, 1, 2, 4])))
            k = {n: r.choice(values) for n in r.sample(["p", "q", "self_", "args"], r.choice([0, 0, 1, 2]))}
        if kind != "fixed":
            want = (a, k)
        if r.random() < 0.04 and not lock_toggles[0] and hasattr(f, "__name__") and kind not in ("instance", "partial", "bound", "wrapped static"):
            f.__name__ = r.choice(NAMES)
        log(e="Call", t=t, wrapped=wrapped, label=label_of(f), a=show(want))
        depth[t] = depth.get(t, 0) + 1
        try:
            v = w(*a, **k)
            log(e="Back", t=t, how="return", v=show(v))
        except Exception as x:
            log(e="Back", t=t, how="raise", v=show(x) if isinstance(x, (Boom, KeyError, StopIteration)) or type(x) is ValueError else "%s: %s" % (type(x).__name__, x))
        finally:
            depth[t] -= 1

    def builtin(r):
        """Functions without a Python body."""
        fs = [(len, ([1, 2],), {}, 2), (sorted, ([3, 1],), {"reverse": True}, [3, 1]), (str.upper, ("a",), {}, "A"), (int, ("11",), {"base": 2}, 3), (divmod, (7, 2), {}, (3, 1))]
        f, a, k, want = r.choice(fs)
        w = core.trace(f)
        log(e="Def", same=w is f)
        t = T()
        log(e="Call", t=t, wrapped=w is not f, label=label_of(f), a="")
        try:
            v = w(*a, **k)
            log(e="Got", t=t, a="")
            log(e="Out", t=t, how="return", v=repr(want))
            log(e="Back", t=t, how="return", v=repr(v))
        except Exception as x:
            log(e="Got", t=t, a="")
            log(e="Out", t=t, how="return", v=repr(want))
            log(e="Back", t=t, how="raise", v=repr(x))

    nreg = [0]
    inited = [env == "1"]
    def toggle(r):
        x = r.random()
        if x < 0.35:
            core.enable_tracing(); log(e="Tracing", on=True)
        elif x < 0.5:
            core.disable_tracing(); log(e="Tracing", on=False)
        elif x < 0.7:
            core.enable_trace_decorator(); log(e="Deco", on=True)
        elif x < 0.78:
            core.disable_trace_decorator(); log(e="Deco", on=False)
        elif x < 0.86:
            core.init(); log(e="Init"); inited[0] = True
        elif nreg[0] < 3:
            try:
                if nreg[0] and r.random() < 0.2:
                    core.register_file_listener(os.path.join(d, "no", "such"))
                    log(e="Broken", what="registered a listener for a file that cannot be made")
                size = r.choice([1, 32, 100, 4096, 4096, 1 << 16])
                k = nreg[0]
                core.register_file_listener(os.path.join(d, "dump%d" % k), *([size] if r.random() < 0.7 else []))
                nreg[0] += 1
                log(e="Reg", ok=True, k=k)
            except Exception as x:
                if "Broken" in str(x):
                    raise
                log(e="Reg", ok=False, bad=inited[0] and "rror code" in str(x))

    def steps(r, dep):
        t = T()
        for _ in range(r.choice([0, 1, 1, 2, 3]) if dep else r.randint(5, 30)):
            if budget.get(t, 0) <= 0:
                return
            budget[t] -= 1
            x = r.random()
            if x < 0.12 and not lock_toggles[0]:
                toggle(r)
            elif x < 0.22 and not lock_toggles[0]:
                define()
            elif x < 0.27:
                builtin(r)
            elif dep < 12 and funcs:
                call(r)

    if rng.random() < 0.8:
        core.init(); log(e="Init"); inited[0] = True
    if inited[0] and rng.random() < 0.8:
        core.register_file_listener(os.path.join(d, "dump0"), rng.choice([32, 4096, 4096, 200000])); nreg[0] = 1
        log(e="Reg", ok=True, k=0)
    if rng.random() < 0.85:
        core.enable_trace_decorator(); log(e="Deco", on=True)
    if rng.random() < 0.85:
        core.enable_tracing(); log(e="Tracing", on=True)
    for _ in range(rng.randint(1, 4)):
        define()
    for phase in range(rng.choice([1, 1, 2, 3])):
        budget[0] = rng.choice([5, 20, 60, 150])
        depth[0] = 0
        steps(rng, 0)
        if rng.random() < 0.4:
            ths = []
            lock_toggles[0] = True
            n = rng.randint(1, 4)
            gate = threading.Barrier(n)
            def work(t):
                threads[threading.get_ident()] = t
                gate.wait()
                steps(rngs[t], 0)
            for i in range(n):
                t = max(rngs) + 1
                import random
                rngs[t] = random.Random(rng.random())
                budget[t] = rng.choice([5, 20, 60])
                depth[t] = 0
                ths.append(threading.Thread(target=work, args=(t,)))
            for x in ths:
                x.start()
            for x in ths:
                x.join()
            end = time.time() + (0 if mode == "hasty" else 20)      # until the system's threads are gone as well
            while len(os.listdir("/proc/self/task")) > 1 and time.time() < end:
                time.sleep(0.0005)
            lock_toggles[0] = False

def finish(d, emit, lines):
    for k in range(10):
        p = os.path.join(d, "dump%d" % k)
        if not os.path.exists(p):
            continue
        try:
            dump = Dump(open(p, "rb").read())
        except (ValueError, IndexError, KeyError, UnicodeDecodeError) as x:
            emit(e="File", k=k, bad=str(x), evs=[], maps=[])
            continue
        evs, maps = [], []
        for n, v in dump.events:
            if n == "HT_CallstackIntEvent":
                evs.append(dict(t="t%d" % v["thread_id"], id="i%d" % v["label"]))
            elif n == "HT_StringMappingEvent":
                maps.append(dict(id="i%d" % v["identifier"], s="h" + v["label"].hex()))
        emit(e="File", k=k, evs=evs, maps=maps)

pycases.run(case, finish)
