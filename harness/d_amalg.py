#!/usr/bin/python3
"""Runs the amalgamation tool of the tree under test: one to three runs into one directory, the
directory entries in any order, one run going on - or being killed - in the middle of another, and
judges what lies in the directory whenever it changed: by compiling it, linking it into a program
of two files and running that."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
TOOL = os.path.join(REPO, "tools", "amalgamate.py")
arg = dict(zip(sys.argv[1::2], sys.argv[2::2]))
SEED = int(arg["--seed"])
OUT = open(arg["--out"], "w")
FILES = {"g": "ht_config.h", "h": "hawktracer.h", "c": "hawktracer.c", "x": "hawktracer.cpp"}
ENV = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPATH", "LD_PRELOAD")}
ENV.update(PYTHONDONTWRITEBYTECODE="1", PATH="/usr/local/bin:/usr/bin:/bin", LC_ALL="C", LANG="C")

def emit(**k):
    OUT.write(json.dumps(k, separators=(",", ":")) + "\n")
    OUT.flush()

OPTIONS = ["HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED", "HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED", "HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED",
           "HT_USE_PTHREADS", "HT_COMPILE_STATIC", "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS"]
def config(rnd):
    """A configuration header as the build makes it, with some of the options."""
    on = {o: True for o in OPTIONS}
    on[OPTIONS[2]] = rnd.random() < 0.3
    for o in OPTIONS[0:2] + OPTIONS[4:6]:
        if rnd.random() < 0.2:
            on[o] = False
    if rnd.random() < 0.15:
        on["HT_USE_PTHREADS"] = False
    if rnd.random() < 0.15:
        on["HT_ENABLE_THREADS"] = on["HT_ENABLE_TCP_LISTENER"] = on["HT_USE_PTHREADS"] = False
    res = []
    with open(os.path.join(REPO, "lib", "include", "hawktracer", "ht_config.h.in")) as f:
        for x in f:
            w = x.split()
            if len(w) == 2 and w[0] == "#cmakedefine":
                x = "#define %s\n" % w[1] if on.get(w[1], False) else "/* #undef %s */\n" % w[1]
            for k, v in (("", "0.11.0"), ("_MAJOR", "0"), ("_MINOR", "11"), ("_PATCH", "0")):
                x = x.replace("@PROJECT_VERSION%s@" % k, v)
            if rnd.random() < 0.2 and "define HT_MUTEX_IMPL_POSIX" in x:
                x = "#define HT_MUTEX_IMPL_POSIX\n"
            if on["HT_ENABLE_THREADS"] and rnd.random() < 0.2 and "define HT_MONOTONIC_CLOCK_IMPL_CUSTOM *" in x:
                x = "#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n"
            res.append(x)
    if on[OPTIONS[0]] and rnd.random() < 0.2:
        res.insert(2, "#define HT_PLATFORM_FEATURE_CPU_USAGE_CUSTOM_SOURCE\n")
    return "".join(res)

class Run:
    def __init__(self, k, top, rnd):
        self.k, self.cpp = k, rnd.random() < 0.5
        self.dir = os.path.join(top, "r%d" % k)
        os.mkdir(self.dir)
        with open(os.path.join(self.dir, "conf.h"), "w") as f:
            f.write(config(rnd))
        root = REPO
        if rnd.random() < 0.3:
            root += "/"
        elif rnd.random() < 0.3:
            root = os.path.relpath(REPO, self.dir)
        elif rnd.random() < 0.3:
            os.symlink(REPO, os.path.join(self.dir, "tree"))
            root = "tree"
        out = os.path.join(top, "some", "where")
        cwd = self.dir
        args = ["--root-dir", root, "--config-path", rnd.choice(["conf.h", os.path.join(self.dir, "conf.h")])]
        z = rnd.randrange(4)
        if z == 0 and os.path.isdir(out):
            cwd = out
            args = ["--root-dir", REPO, "--config-path", os.path.join(self.dir, "conf.h")]
        else:
            args += ["--out-dir", (out, out + "/", os.path.relpath(out, cwd), out)[z]]
        if self.cpp:
            args.insert(rnd.randrange(0, len(args) + 1, 2), "--cpp")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.req, self.ans = r1, w2
        self.p = subprocess.Popen(["/usr/bin/python3", os.path.join(HERE, "amalg", "gen.py"), TOOL, str(rnd.randrange(1 << 30)), str(w1), str(r2)] + args,
                                  stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.dir, "err"), "w"), cwd=cwd, pass_fds=(w1, r2), env=ENV)
        os.close(w1)
        os.close(r2)
    def step(self):
        """Up to the next thing it does to a file; False when it has ended."""
        return os.read(self.req, 1) == b"p"
    def go(self):
        os.write(self.ans, b"g")
    def kill(self):
        os.write(self.ans, b"d")
        self.end()
    def end(self):
        rc = self.p.wait(120)
        os.close(self.req)
        os.close(self.ans)
        return rc
    def why(self):
        with open(os.path.join(self.dir, "err"), errors="replace") as f:
            return f.read()[-300:]

known = {}
class Dir:
    """What lies in the output directory."""
    def __init__(self, top, rnd, runs_conf):
        self.top, self.out, self.rnd, self.confs = top, os.path.join(top, "some", "where"), rnd, runs_conf
        self.last = None
    def sh(self, cmd, cwd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=cwd, env=ENV, timeout=120, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout
    def look(self, force=False):
        now = {}
        for k, f in FILES.items():
            try:
                with open(os.path.join(self.out, f), "rb") as h:
                    now[k] = h.read()
            except FileNotFoundError:
                now[k] = None
        if now == self.last and not force:
            return
        same, self.last = now == self.last, now
        if same and self.said:
            emit(**self.said)
            return
        st, why = {k: "absent" if v is None else "there" for k, v in now.items()}, ""
        if now["g"] is not None:
            st["g"] = "whole" if now["g"] in self.confs else "broken"
        if now["g"] is not None and now["h"] is not None:
            ok, why = self.use(now, None)
            st["h"] = "whole" if ok else "broken"
            if ok:
                for k in "cx":
                    if now[k] is not None:
                        ok, w = self.use(now, k)
                        st[k] = "whole" if ok else "broken"
                        why = why or w
        self.said = dict(e="State", why=why, **st)
        emit(**self.said)
    def use(self, now, k):
        comp = "/usr/bin/g++" if k == "x" else self.rnd.choice(["/usr/bin/gcc", "/usr/bin/gcc", "/usr/bin/clang-18"])
        std = self.rnd.choice(["c++11", "c++14", "gnu++17", "c++17"] if k == "x" else ["c99", "gnu99", "gnu11", "c17"])
        key = hashlib.sha1(repr((comp, std, k, now["g"], now["h"], now.get(k))).encode()).hexdigest()
        if key in known:
            return known[key]
        d = tempfile.mkdtemp(dir=self.top)
        try:
            for f in "gh" + (k or ""):
                with open(os.path.join(d, FILES[f]), "wb") as h:
                    h.write(now[f])
            ext = "cpp" if k == "x" else "c"
            for f in ("main", "other"):
                shutil.copy(os.path.join(HERE, "amalg", f + ".inc"), os.path.join(d, f + "." + ext))
            base = [comp, "-std=" + std, "-w", "-D_GNU_SOURCE"] + (["-fpermissive"] if k == "x" else [])
            if k is None:
                rc, out = self.sh(base + ["-fsyntax-only", "main.c", "other.c"], d)
            else:
                srcs = [FILES[k], "main." + ext, "other." + ext]
                self.rnd.shuffle(srcs)
                rc, out = self.sh(base + srcs + ["-o", "prog", "-pthread"], d)
                if rc == 0:
                    rc, out = self.sh([os.path.join(d, "prog")], d)
                    if rc == 0 and out != "fine\n":
                        rc = 1
            errs = [x for x in out.split("\n") if "error" in x or "undefined" in x or "multiple" in x or "line" in x]
            known[key] = (rc == 0, "" if rc == 0 else ("%s -std=%s: %s" % (os.path.basename(comp), std, " ".join(errs)[:300] or "exit %d" % rc)))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return known[key]

def case(n):
    rnd = random.Random("%d-%d-amalg" % (SEED, n))
    emit(e="Case", n=n)
    top = tempfile.mkdtemp(prefix="amalg-", dir=os.environ.get("SCRATCH", "/tmp"))
    try:
        confs = []
        d = Dir(top, rnd, confs)
        order = iter(range(100))
        def start():
            r = Run(next(order), top, rnd)
            with open(os.path.join(r.dir, "conf.h"), "rb") as f:
                confs.append(f.read())
            emit(e="Start", k=r.k, cpp=r.cpp)
            return r
        def run(depth):
            """One run from its beginning to its end, others (and its death) in its middle."""
            r = start()
            at = rnd.randrange(0, 160) if depth and rnd.random() < 0.9 else -1
            kill = rnd.random() < 0.3
            i = 0
            while r.step():
                d.look()
                if i == at:
                    if kill:
                        r.kill()
                        emit(e="Kill", k=r.k)
                        d.look(True)
                        if depth > 1:
                            run(depth - 1)
                        return
                    run(depth - 1)
                i += 1
                r.go()
            rc = r.end()
            emit(e="End", k=r.k, rc=rc, why=r.why() if rc else "")
            d.look(True)
        for _ in range(rnd.choice([1, 1, 2])):
            run(rnd.choice([0, 1, 1, 2]))
        emit(e="Fin")
    finally:
        shutil.rmtree(top, ignore_errors=True)

first = int(arg["--first"])
for n in range(first, first + int(arg["--count"])):
    case(n)
