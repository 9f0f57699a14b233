"""Runs TLC: exhaustive model checks and trace validation."""
import os, re, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, "specs")
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "out"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def _tlc(args, env=None, heap="2g", timeout=3000, jopts=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=OUT)
    try:
        cmd = ["java", "-XX:+UseSerialGC" if "-workers" in args and args[args.index("-workers") + 1] == "1" else "-XX:+UseParallelGC",
               "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=100000"] + list(jopts) + ["-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final"] + args
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out: " + " ".join(args))
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def _stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))

def check_model(module, cfg, workers="4", heap="4g", timeout=1500, expect_error=False):
    """Exhaustive check.  Returns (ok, distinct states, transitions, output)."""
    rc, out = _tlc(["-workers", workers, "-config", cfg, module + ".tla"], heap=heap, timeout=timeout)
    d, g = _stats(out)
    if "No error has been found" in out and rc == 0:
        return True, d, g, out
    if re.search(r"^Error: .*\bviolated", out, re.M) or "Deadlock reached" in out:
        return False, d, g, out
    raise TlcError("TLC failed on %s/%s:\n%s" % (module, cfg, out[-4000:]))

def validate(module, cfg, trace, heap="2g", timeout=1500):
    """Walks a recorded trace.  Returns (accepted, line (1-based) of the first unexplained event or 0, states)."""
    rc, out = _tlc(["-workers", "1", "-config", cfg, module + ".tla"], env={"TRACE": trace}, heap=heap, timeout=timeout)
    d, g = _stats(out)
    m = re.search(r'<<"REJECTED-AT", (\d+)>>', out)
    if m:
        return False, int(m.group(1)), d, out
    if "No error has been found" in out and rc == 0:
        return True, 0, d, out
    m = re.search(r"Invariant (\w+) is violated", out)
    if m:
        k = None
        for k in re.finditer(r"^/?\\?\s*/?\\? ?l = (\d+)", out, re.M):
            pass
        return False, int(k.group(1)) - 1 if k else 1, d, out
    raise TlcError("TLC failed on %s with %s:\n%s" % (module, trace, out[-4000:]))

def scripts(module, cfg, num, depth, seed, path, heap="2g"):
    """Behaviours generated by TLC's simulator, one line of calls each, written to path.  Returns their number."""
    rc, out = _tlc(["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed), "-config", cfg, module + ".tla"], heap=heap)
    n = 0
    with open(path, "w") as f:
        for m in re.finditer(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', out, re.S):
            f.write(";".join(re.findall(r'"([^"]*)"', m.group(1))) + "\n")
            n += 1
    if n == 0:
        raise TlcError("no behaviours from %s:\n%s" % (cfg, out[-3000:]))
    return n
