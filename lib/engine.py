"""Decides one property: builds what it needs from /repo, model-checks the
specifications, runs the real code, and validates the recorded traces."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, time, traceback
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, tlc

VERIF = vbuild.VERIF
OUT = tlc.OUT
NPROC = 8
ABNORMAL = {"Crash", "Hang", "Deadlock", "Livelock", "BadMem", "BadFree", "BadUnlock", "BadJoin", "SigPipe", "TraceFull", "Unsupported"}

class Violation(Exception):
    def __init__(self, replay, what):
        self.replay, self.what = replay, what

def log(*a):
    print(*a, flush=True)

def case_bounds(lines, idx):
    """Lines [a,b) of the case that contains line idx (0-based)."""
    a = min(idx, len(lines) - 1)
    while a > 0 and '"e":"Case"' not in lines[a]:
        a -= 1
    b = a + 1
    while b < len(lines) and '"e":"Case"' not in lines[b]:
        b += 1
    return a, b

class Run:
    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.states = self.transitions = self.traces = self.events = 0
        self.kinds = Counter()
        self.samples, self.details = [], []
        self.viol = []
        self.knowns = [k for k in load_known() if k.get("kind") == "known" and k["property"] == pid]
        self.found = False          # a confirmed violation: the rest need not be explored
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    # ------------------------------------------------------------ models
    def model(self, m):
        if m.get("tier") == "thorough" and self.tier != "thorough":
            return None
        t = time.time()
        ok, d, g, out = tlc.check_model(m["module"], m["cfg"], workers=str(m.get("workers", 4)), heap=m.get("heap", "4g"))
        exp = m.get("expect", "ok")
        if exp == "ok" and not ok:
            raise tlc.TlcError("the design model %s violates its own properties:\n%s" % (m["cfg"], out[-3000:]))
        if exp == "error" and ok:
            raise tlc.TlcError("the broken variant %s was not detected" % m["cfg"])
        return dict(model=m["module"], cfg=m["cfg"], expect=exp, states=d, transitions=g, seconds=round(time.time() - t, 1))

    # ------------------------------------------------------------ traces
    def drive(self, exe, t, first, count, path, extra=()):
        cmd = list(t.get("wrap", [])) + [exe, "--out", path, "--first", str(first), "--count", str(count), "--seed", str(self.seed)]
        if t.get("mode"):
            cmd += ["--mode", t["mode"]]
        if t.get("script"):
            cmd += ["--script", t["script"]]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=99", SCRATCH=self.dir, REPO=vbuild.REPO)
        env.update(t.get("env", {}))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=self.dir, timeout=t.get("timeout", 700))
        if r.returncode != 0:
            raise RuntimeError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:]))

    def one_chunk(self, exe, t, first, count):
        if self.found:
            return dict(cases=0, events=0, kinds=Counter(), states=0, sample=None, viol=[])
        tag = "%s-%s-%s-%d" % (t["variant"], t["driver"], t.get("mode", "x"), first)
        path = os.path.join(self.dir, tag + ".ndjson")
        self.drive(exe, t, first, count, path)
        return self.judge(exe, t, path)

    def judge(self, exe, t, path):
        res = dict(cases=0, events=0, kinds=Counter(), states=0, sample=None, viol=[])
        lines = open(path, errors="replace").read().splitlines()
        starts = [i for i, x in enumerate(lines) if '"e":"Case"' in x]
        res["cases"] = len(starts)
        res["events"] = len(lines)
        for x in lines:
            k = x.find('"e":"')
            res["kinds"][x[k + 5:x.find('"', k + 5)]] += 1
        if starts:
            a, b = case_bounds(lines, starts[len(starts) // 2])
            res["sample"] = lines[a:min(b, a + 40)]
        todo = lines
        rejected = 0
        while todo and rejected < 3 and not (rejected and self.found):
            work = path + ".work"
            with open(work, "w") as f:
                f.write("\n".join(todo) + "\n")
            ok, at, d, out = tlc.validate(t["spec"], t.get("cfg", t["spec"] + ".cfg"), work, heap=t.get("heap", "3g"))
            res["states"] += d
            os.unlink(work)
            if ok:
                break
            rejected += 1
            a, b = case_bounds(todo, max(at - 1, 0))
            case = todo[a:b]
            v = self.confirm(exe, t, case, at - 1 - a)
            if v:
                res["viol"].append(v)
                if not any(k["signature"] in v["event"] for k in self.knowns):
                    self.found = True
            todo = todo[b:]
        if not res["viol"]:
            os.unlink(path)
        return res

    def confirm(self, exe, t, case, rel):
        """Re-run the case from scratch; only a rejection that shows again counts."""
        n = json.loads(case[0]).get("n", 0)
        for k in range(2):
            p = os.path.join(self.dir, "confirm-%s-%s-%s-%d.ndjson" % (t["variant"], t["driver"], t.get("mode", "x"), n))
            try:
                self.drive(exe, t, n, 1, p)
            except Exception as e:
                log("NOTE: re-run failed: %s" % e)
                continue
            ok, at, d, out = tlc.validate(t["spec"], t.get("cfg", t["spec"] + ".cfg"), p, heap=t.get("heap", "3g"))
            if not ok:
                ls = open(p, errors="replace").read().splitlines()
                bad = ls[at - 1] if 0 < at <= len(ls) else "(end of trace)"
                rp = os.path.join(self.dir, "replay-%s-%s-%s-%d.ndjson" % (t["variant"], t["driver"], t.get("mode", "x"), n))
                os.rename(p, rp)
                with open(rp + ".txt", "w") as f:
                    f.write("property %s, driver %s (%s), mode %s, VERIF_SEED %d, case %d\nspec %s rejects line %d:\n%s\n"
                            "re-run: %s --out T --first %d --count 1 --seed %d %s\n" % (
                        self.pid, t["driver"], t["variant"], t.get("mode", "-"), self.seed, n, t["spec"], at, bad, exe, n, self.seed,
                        ("--mode " + t["mode"]) if t.get("mode") else ""))
                return dict(replay=rp, case=n, event=bad, spec=t["spec"], lines=ls, at=at)
            os.unlink(p)
        log("NOTE: case %d of %s was rejected once but not when run again; not reported" % (n, t["driver"]))
        return None

    # -------------------------------------------------------------- main
    def go(self):
        t0 = time.time()
        cfg = self.cfg
        traces = [t for t in cfg.get("traces", []) if not (t.get("tier") == "thorough" and self.tier != "thorough")]
        byvar = {}
        for t in traces:
            byvar.setdefault(t["variant"], set()).add(t["driver"])
        models = []
        with cf.ThreadPoolExecutor(2) as mp, cf.ThreadPoolExecutor(NPROC) as ex:
            mfut = [mp.submit(self.model, m) for m in cfg.get("models", [])]
            exes = {}
            for v, ds in byvar.items():
                if v == "py":
                    for d in ds:
                        exes[(v, d)] = os.path.join(VERIF, "harness", d)
                    continue
                for d, e in vbuild.build(v, sorted(ds)).items():
                    exes[(v, d)] = e
            for pre in cfg.get("prepare", []):
                pre(self)
            futs = []
            for t in traces:
                n = t["thorough" if self.tier == "thorough" else "quick"]
                if "gen" in t:      # behaviours of the specification, replayed into the real code
                    t = dict(t, script=os.path.join(self.dir, "script-%s.txt" % t["gen"]["cfg"]))
                    n = tlc.scripts(t["gen"]["module"], t["gen"]["cfg"], n, t["gen"].get("depth", 300), self.seed, t["script"])
                chunks = t.get("chunks", NPROC if n >= NPROC else 1)
                if self.tier == "thorough":
                    chunks = max(chunks, min(64, n // t.get("chunk_max", 4000)))
                per = (n + chunks - 1) // chunks
                for c in range(chunks):
                    k = min(per, n - c * per)
                    if k > 0:
                        futs.append((t, ex.submit(self.one_chunk, exes[(t["variant"], t["driver"])], t, c * per, k)))
            for t, f in futs:
                r = f.result()
                self.traces += r["cases"]
                self.events += r["events"]
                self.kinds.update(r["kinds"])
                self.states += r["states"]
                self.transitions += max(0, r["states"] - 1)
                if r["sample"] and len(self.samples) < 3:
                    self.samples.append(dict(driver=t["driver"], spec=t["spec"], trace=r["sample"]))
                self.viol += r["viol"]
            for f in mfut:
                m = f.result()
                if m:
                    models.append(m)
                    self.states += m["states"]
                    self.transitions += m["transitions"]
        self.models = models
        self.wall = time.time() - t0

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                 coverage=dict(states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples,
                               trace_events=self.events, event_kinds=dict(self.kinds), models=self.models),
                 assumptions=self.cfg.get("assumptions", []), wall_s=round(self.wall, 2), violations=len(self.viol))
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.rename(p + ".tmp", p)

def load_known():
    """Known findings: {"property", "event_contains", "what"} per line of known-findings.jsonl (kind known)."""
    res = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for x in open(p):
            if x.strip():
                res.append(json.loads(x))
    return res

def run(pid, cfg, tier, seed):
    os.makedirs(OUT, exist_ok=True)
    r = Run(pid, cfg, tier, seed)
    try:
        r.go()
    except Exception as e:
        log("ERROR: %s: %s" % (type(e).__name__, e))
        return 2
    known = r.knowns
    rest, hit = [], set()
    for v in r.viol:
        k = next((k for k in known if k["signature"] in v["event"]), None)
        if k:
            hit.add(k["what"])
        else:
            rest.append(v)
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    r.viol = rest
    r.evidence()
    log("%s %s: %d traces (%d events) validated, %d states, %d models, %.1f s" % (pid, tier, r.traces, r.events, r.states, len(r.models), r.wall))
    if rest:
        for v in rest[:3]:
            log("  rejected by %s: %s" % (v["spec"], v["event"][:400]))
        log("VIOLATION property=%s replay=%s" % (pid, rest[0]["replay"]))
        return 1
    return 0
