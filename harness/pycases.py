"""Runs Python cases in children of their own and collects their trace lines."""
import argparse, json, os, random, select, shutil, signal, sys, tempfile, time

def args():
    p = argparse.ArgumentParser()
    p.add_argument("--out")
    p.add_argument("--first", type=int, default=0)
    p.add_argument("--count", type=int, default=1)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--mode", default="")
    p.add_argument("--verbose", action="store_true")
    return p.parse_args()

class Log:
    """Lines of one case; lists are appended to under the interpreter lock."""
    def __init__(self, path):
        self.path, self.lines = path, []
    def __call__(self, **kw):
        self.lines.append(kw)
    def save(self):
        with open(self.path, "w") as f:
            for x in self.lines:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")

class Child(Exception):
    pass

def child_stack(pid):
    try:
        return [open("/proc/%d/task/%s/stat" % (pid, t)).read().split()[2] for t in os.listdir("/proc/%d/task" % pid)]
    except OSError:
        return []

def run(case, finish, timeout=60):
    """case(rng, scratch, log, mode) runs in the child, which then ends by itself;
    finish(scratch, emit, lines) runs in the parent once the child is gone."""
    a = args()
    base = tempfile.mkdtemp(prefix="py", dir=os.environ.get("SCRATCH", "/tmp"))
    out = open(a.out, "w")
    try:
        for n in range(a.first, a.first + a.count):
            d = os.path.join(base, "c%d" % n)
            os.mkdir(d)
            out.flush(); sys.stdout.flush(); sys.stderr.flush()
            rng = random.Random("%d/%s/%d" % (a.seed, a.mode, n))
            pid = os.fork()
            if pid == 0:
                out.close()
                os.setpgid(0, 0)
                fd = os.open(os.path.join(d, "stderr"), os.O_WRONLY | os.O_CREAT, 0o600)
                os.dup2(fd, 1); os.dup2(fd, 2)
                os.chdir(d)
                log = Log(os.path.join(d, "log"))
                try:
                    case(rng, d, log, a.mode)
                except BaseException as e:
                    import traceback
                    traceback.print_exc()
                    log(e="Broken", what=repr(e))
                log.save()
                return            # the interpreter ends as usual
            end = time.time() + timeout
            rc = None
            while rc is None:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    rc = os.waitstatus_to_exitcode(st)
                    break
                if time.time() > end:
                    break
                time.sleep(0.002)
            out.write(json.dumps({"e": "Case", "n": n, "mode": a.mode}, separators=(",", ":")) + "\n")
            emit = lambda **kw: out.write(json.dumps(kw, separators=(",", ":")) + "\n")
            if rc is None:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            lines = []
            if os.path.exists(os.path.join(d, "log")):
                lines = [json.loads(x) for x in open(os.path.join(d, "log"))]
            for x in lines:
                out.write(json.dumps(x, separators=(",", ":")) + "\n")
            if rc is None:
                emit(e="Hang")
            elif rc != 0 or not lines:
                emit(e="Crash", rc=rc)
            else:
                finish(d, emit, lines)
                emit(e="End")
            if a.verbose or ((rc is None or rc != 0) and not os.environ.get("PYQUIET")):
                sys.stderr.write(open(os.path.join(d, "stderr"), errors="replace").read()[-6000:] + "\n")
            shutil.rmtree(d, ignore_errors=True)
    finally:
        if not out.closed:
            out.close()
            shutil.rmtree(base, ignore_errors=True)
