"""Running harnesses, merging rank traces, validating them with TLC, evidence and verdicts."""
import json, os, re, subprocess, sys, time, shutil, hashlib, random
from concurrent.futures import ThreadPoolExecutor
from build import VERIF, WORK, REPO, JOBS, Config, build_all, BuildError, start_lib, start_prog

JARS = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """the check itself failed (neither held nor violated)"""


def brief(x, n=24):
    """an event with its long arrays shortened"""
    if isinstance(x, list): return [brief(y, n) for y in x[:n]] + ([f"... {len(x)}"] if len(x) > n else [])
    if isinstance(x, dict): return {k: brief(v, n) for k, v in x.items()}
    return x


class TlcResult:
    pass


def tlc(spec, cfg, trace=None, env=None, simulate=None, depth=None, timeout=600, workers=1, heap="2g", tag="x", dumpdir=None, coverage=False):
    """runs TLC on spec/<spec>.tla with a config text"""
    md = os.path.join(WORK, "tlc", f"{spec}-{tag}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(md)
    cfgp = os.path.join(md, spec + ".cfg")
    with open(cfgp, "w") as f: f.write(cfg)
    e = dict(os.environ)
    if trace: e["TRACE"] = trace
    if env: e.update(env)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-cp", JARS,
           "-Djava.io.tmpdir=" + md, "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfgp]
    if simulate: cmd += ["-simulate", f"num={simulate}", "-seed", str(SEED)]
    if depth: cmd += ["-depth", str(depth)]
    if coverage: cmd += ["-coverage", "1"]
    cmd.append(os.path.join(VERIF, "spec", spec + ".tla"))
    r = TlcResult()
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=md)
        r.rc, r.out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        r.rc, r.out = -999, (ex.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    r.wall = time.time() - t0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    r.transitions, r.states = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    m = re.search(r'<<"PREFIX", (\d+), (\d+)>>', r.out)
    r.prefix = (int(m.group(1)), int(m.group(2))) if m else None
    shutil.rmtree(md, ignore_errors=True)
    return r


TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


class Run:
    """one execution of a harness program"""
    def __init__(self, exe, args=(), ranks=0, env=None, label="", timeout=60, expect_rc=None, post=None, stdin=None):
        self.exe, self.args, self.ranks, self.env = exe, list(args), ranks, dict(env or {})
        self.label, self.timeout, self.expect_rc, self.post, self.stdin = label, timeout, expect_rc, post, stdin


def merge(paths, rc, expect_rc=None):
    """rank logs -> one event list; a divergence of replicated values becomes a DIVERGED event"""
    logs = []
    for p in paths:
        lines = []
        if os.path.exists(p):
            with open(p, encoding="latin-1") as f:
                for ln in f:
                    try: lines.append(json.loads(ln))
                    except ValueError:
                        lines.append({"a": {"e": "GARBLED"}, "l": {}}); break
        logs.append(lines)
    out = []
    n = max([len(x) for x in logs] or [0])
    for i in range(n):
        if any(len(x) <= i for x in logs):
            if rc == 0 or rc == expect_rc:
                out.append({"e": "DIVERGED", "why": "some ranks have fewer events", "have": [len(x) for x in logs]})
            break
        a = [x[i]["a"] for x in logs]
        if any(y != a[0] for y in a[1:]):
            out.append({"e": "DIVERGED", "why": "ranks differ", "ranks": [json.dumps(y)[:2000] for y in a]})
            break
        ev = dict(a[0])
        if any(x[i]["l"] for x in logs): ev["loc"] = [x[i]["l"] for x in logs]
        out.append(ev)
    if rc != 0 and rc != expect_rc:
        out.append({"e": "ABORT", "rc": rc})
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run", prop)
        if os.path.isdir(self.dir): shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.states = self.transitions = self.validated = self.events = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.violations = []     # (signature, replay, text)
        self.known = load_known(prop)
        self.notes = {}
        self.rng = random.Random(SEED * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16))
        self.pool = ThreadPoolExecutor(max_workers=JOBS)
        self.nrun = 0
        self.counts = {}

    # ---- design models -------------------------------------------------
    def model(self, spec, cfg, timeout=300, workers=4, expect_violation=None, heap="3g"):
        """exhaustive TLC run of a design model; any error here is an error of the specification"""
        r = tlc(spec, cfg, timeout=timeout, workers=workers, tag="model", heap=heap)
        self.states += r.states; self.transitions += r.transitions
        ok = r.rc == 0 and "No error has been found" in r.out
        if expect_violation:
            ok = expect_violation in r.out and "is violated" in r.out
        self.models.append({"spec": spec, "states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1),
                            **({"expected_violation": expect_violation} if expect_violation else {})})
        if not ok:
            raise CheckError(f"design model {spec} failed:\n" + r.out[-3000:])
        return r

    def generate(self, spec, cfg, num, depth, timeout=120, env=None):
        """histories produced by TLC -simulate: the specification prints each as JSON"""
        r = tlc(spec, cfg, simulate=num, depth=depth, timeout=timeout, tag="gen", env=env)
        out = []
        for ln in r.out.splitlines():
            if ln.startswith('"['):
                out.append(json.loads(json.loads(ln)))
        seen, keep = set(), []      # TLC prints every successor of the last step: keep one per behaviour
        for h in out:
            key = json.dumps(h[:-1])
            if key not in seen: seen.add(key); keep.append(h)
        out = keep[:num]
        if not out: raise CheckError(f"{spec} generated nothing:\n" + "\n".join(x for x in r.out.splitlines() if "rror" in x or "xception" in x)[:1500] + "\n".join(x for x in r.out.splitlines() if not x.startswith(("Pars", "Semantic")))[:3000])
        self.notes["generated_histories"] = self.notes.get("generated_histories", 0) + len(out)
        return out

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f: f.write(text)
        return p

    # ---- running the real code -----------------------------------------
    def execute(self, run, tag):
        d = os.path.join(self.dir, tag)
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        env = dict(os.environ)
        env.update({"VT_OUT": os.path.join(d, "t"), "VERIF_SEED": str(SEED), "MQMP_OUT": os.path.join(d, "out")})
        if run.ranks: env["MQMP_N"] = str(run.ranks)
        env.update(run.env)
        env = {k: v.replace("@D@", d) for k, v in env.items()}
        args = [a.replace("@D@", d) for a in run.args]
        with open(os.path.join(d, "log"), "wb") as lf:
            try:
                p = subprocess.run([run.exe] + args, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=d, timeout=run.timeout,
                                   stdin=open(run.stdin) if run.stdin else subprocess.DEVNULL)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 124
                subprocess.run(["pkill", "-9", "-f", os.path.join(d, "t") + "$"], check=False)
        n = max(run.ranks, 1)
        ev = merge([os.path.join(d, f"t.{r}") for r in range(n)], rc, run.expect_rc)
        if run.post: ev = run.post(ev, d, rc)
        if ev: ev = [{"e": "begin", "label": run.label, "ranks": n}] + ev
        tp = os.path.join(d, "trace.ndjson")
        with open(tp, "w") as f:
            for e in ev: f.write(json.dumps(e) + "\n")
        return tp, ev, rc

    def validate(self, spec, tp, timeout=600, heap="2g", env=None, cfg=TRACE_CFG):
        r = tlc(spec, cfg, trace=tp, timeout=timeout, tag="trace", heap=heap, env=env)
        return r

    def conform(self, run, spec, tag=None, heap="2g", timeout=600, cfg=TRACE_CFG, signature=None):
        """execute + validate, confirming a rejection by a second execution; returns the trace events"""
        self.nrun += 1
        tag = tag or f"r{self.nrun}"
        tp, ev, rc = self.execute(run, tag)
        if not ev:
            raise CheckError(f"{run.label}: empty trace (rc={rc})\n" + open(os.path.join(self.dir, tag, "log"), errors="replace").read()[-2000:])
        r = self.validate(spec, tp, timeout, heap, cfg=cfg)
        acc, pre = self.judge(r, ev)
        if acc:
            self.note_ok(r, ev, run)
            return ev
        # again
        tp2, ev2, rc2 = self.execute(run, tag + "-again")
        r2 = self.validate(spec, tp2, timeout, heap, cfg=cfg)
        acc2, pre2 = self.judge(r2, ev2)
        if acc2:
            # not repeatable: try a third time before calling it an error of the check
            tp3, ev3, rc3 = self.execute(run, tag + "-third")
            r3 = self.validate(spec, tp3, timeout, heap, cfg=cfg)
            acc3, pre3 = self.judge(r3, ev3)
            if acc3:
                raise CheckError(f"{run.label}: rejection not repeatable at event {pre} of {len(ev)}: {json.dumps(ev[pre])[:800] if pre < len(ev) else ''}\n{r.out[-1500:]}")
            ev2, pre2, r2, tp2 = ev3, pre3, r3, tp3
        bad = ev2[pre2] if pre2 < len(ev2) else {"e": "END"}
        log = open(os.path.join(os.path.dirname(tp2), "log"), errors="replace").read()[-1500:]
        self.violation(run, spec, tp2, pre2, bad, log, r2, signature)
        return ev2

    @staticmethod
    def judge(r, ev):
        if r.rc == -999: raise CheckError("TLC timed out\n" + r.out[-1500:])
        if "Parsing or semantic analysis failed" in r.out or "java.lang.OutOfMemory" in r.out or "Could not find" in r.out or "ConfigFileException" in r.out:
            raise CheckError("TLC failed:\n" + r.out[-3000:])
        if r.prefix is None:
            # evaluation error while processing the trace: the event after the last state
            m = re.findall(r"State (\d+):", r.out)
            m2 = re.findall(r"\bl = (\d+)", r.out)
            if "rror" not in r.out: raise CheckError("TLC gave no verdict:\n" + r.out[-3000:])
            pre = (int(m2[-1]) - 1) if m2 else (int(m[-1]) - 1 if m else 0)
            return False, pre
        done, total = r.prefix
        if total != len(ev): raise CheckError(f"TLC read {total} of {len(ev)} events")
        return done == total, done

    def conform_batched(self, items, spec, size=10, heap="2g", timeout=600, cfg=TRACE_CFG):
        """execute all runs, validate their traces in groups (one TLC each); a group that is rejected is redone run by run"""
        runs = [it[0] if isinstance(it, tuple) else it for it in items]
        tags = []
        for r in runs:
            self.nrun += 1; tags.append(f"r{self.nrun}")
        res = list(self.pool.map(lambda a: self.execute(a[0], a[1]), zip(runs, tags)))
        groups = [list(range(i, min(i + size, len(runs)))) for i in range(0, len(runs), size)]

        def one(g):
            if any(not res[i][1] for i in g): return False
            tp = os.path.join(self.dir, f"group-{tags[g[0]]}.ndjson")
            with open(tp, "w") as f:
                for i in g: f.write(open(res[i][0]).read())
            evs = [e for i in g for e in res[i][1]]
            r = self.validate(spec, tp, timeout, heap, cfg=cfg)
            acc, pre = self.judge(r, evs)
            if acc:
                for i in g: self.validated += 1
                self.validated -= 1
                self.note_ok(r, evs, runs[g[0]])
            else:
                # which runs? every later run is unexamined: redo all of them from the failing one on
                k, at = 0, 0
                for j, i in enumerate(g):
                    if pre < at + len(res[i][1]): k = j; break
                    at += len(res[i][1])
                return [g[j] for j in range(k, len(g))]
            return []
        bad = []
        for g, r in zip(groups, self.pool.map(one, groups)):
            if r is False: bad += g
            else: bad += r
        if bad: self.conform_all([(runs[i], spec, {"tag": tags[i] + "x", "heap": heap, "timeout": timeout, "cfg": cfg}) for i in bad[:24]])

    def note_ok(self, r, ev, run):
        self.states += r.states; self.transitions += r.transitions
        self.validated += 1
        self.events += len(ev)
        for e in ev: self.counts[e["e"]] = self.counts.get(e["e"], 0) + 1
        if len(self.samples) < 3 and len(ev) > 2:
            self.samples.append({"run": run.label, "args": run.args, "ranks": run.ranks,
                                 "events": [json.dumps(x)[:300] for x in ev[1:4]]})

    def violation(self, run, spec, tp, idx, bad, log, r=None, signature=None):
        sig = {"label": run.label, "event": {k: v for k, v in bad.items() if k != "loc"}}
        for k in self.known:
            if known_match(k, run, bad):
                if k["what"] in self.notes.get("known_findings", []): return
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                self.notes.setdefault("known_findings", []).append(k["what"])
                return
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{self.prop}-{len(self.violations) + 1}.json")
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "what": run.label, "exe": run.exe, "args": run.args, "ranks": run.ranks, "env": run.env,
                       "spec": spec, "trace": tp, "rejected_event_index": idx, "rejected_event": bad, "log": log,
                       "tlc": r.out[-2500:] if r else ""}, f, indent=1)
        self.violations.append((sig, rp))

    def conform_all(self, items, stop_after=3):
        """items: list of (Run, spec[, kwargs]); run in parallel; errors propagate"""
        futs = []
        for it in items:
            run, spec = it[0], it[1]
            kw = it[2] if len(it) > 2 else {}
            self.nrun += 1
            kw.setdefault("tag", f"r{self.nrun}")
            futs.append(self.pool.submit(self.conform, run, spec, **kw))
        out, err = [], None
        for f in futs:
            try: out.append(f.result())
            except CheckError as e: err = err or e; out.append(None)
        if err and not self.violations: raise err
        return out

    # ---- finish ---------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "events_validated": self.events,
               "events_by_kind": self.counts, "design_models": self.models, "samples": self.samples or ["none"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for sig, rp in self.violations[:5]:
                print("rejected:", json.dumps(brief(sig))[:1500])
                print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"{self.prop}: held; {self.validated} traces / {self.events} events validated, "
              f"{self.states} states, {time.time() - self.t0:.1f} s")
        return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or not ln.startswith("{"): continue
            d = json.loads(ln)
            if d.get("property") == prop and d.get("status") == "known": out.append(d)
    return out


def known_match(k, run, bad):
    m = k.get("match", {})
    if not m: return False
    if "label" in m and not re.search(m["label"], run.label): return False
    for kk, vv in m.get("event", {}).items():
        if bad.get(kk) != vv: return False
    return True


def dims(d): return ",".join(str(x) for x in d)
