"""Shared machinery: building the driver, running TLC, running the driver, evidence."""
import json, os, re, shutil, subprocess, sys, time, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed; never a verdict about the code."""


class Ctx:
    """One check run."""

    def __init__(self, pid):
        self.pid = pid
        self.thorough = TIER == "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "tlc_runs": [], "driver_runs": 0}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.drivers = {}
        self._caps = None
        self.lock = threading.RLock()
        self.ntlc = 0
        self.graphs = {}

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.dir, file=sys.stderr)
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def elapsed(self):
        return time.time() - self.t0

    # ---------------------------------------------------------------- building
    def driver(self, keysize=8, race=False):
        with self.lock:
            return self._driver(keysize, race)

    def _driver(self, keysize, race):
        key = (keysize, race)
        if key in self.drivers:
            return self.drivers[key]
        out = self.path("bin", "x")[:-2]
        env = dict(os.environ)
        if race:
            env["VERIF_RACE"] = "1"
        p = subprocess.run(["bash", os.path.join(VERIF, "harness/build.sh"), out, str(keysize)],
                           capture_output=True, text=True, timeout=800, env=env)
        exe = os.path.join(out, "drive%d%s" % (keysize, "r" if race else ""))
        if p.returncode != 0 or not os.path.exists(exe):
            raise ToolError("driver build failed:\n" + p.stdout[-3000:] + p.stderr[-6000:])
        self.drivers[key] = exe
        return exe

    def caps(self):
        if self._caps is None:
            f = self.path("caps.json")
            subprocess.run([self.driver(), "caps", f], check=True, timeout=60,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self._caps = json.load(open(f))
        return self._caps

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="4g",
            expect_violation=False, label=None, cfg_text=None):
        """Runs TLC on spec/<module>.tla; returns dict(states, distinct, depth, out, violated)."""
        with self.lock:
            self.ntlc += 1
            meta = self.path("tlc", "%s-%d" % (module, self.ntlc), "x")[:-2]
        if cfg_text is not None:
            cfgp = os.path.join(meta, module + ".cfg")
            open(cfgp, "w").write(cfg_text)
        else:
            cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
               "-config", cfgp, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
        out = p.stdout
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        st = [int(x) for x in m[-1]] if m else [0, 0]
        d = re.search(r"depth of the complete state graph search is (\d+)", out)
        ok = "Model checking completed. No error has been found" in out
        violated = p.returncode in (10, 11, 12, 13)
        res = dict(generated=st[0], distinct=st[1], depth=int(d.group(1)) if d else 0,
                   out=out, ok=ok, rc=p.returncode, violated=violated)
        if not ok and not (expect_violation and violated) and "-simulate" not in extra:
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-6000:] + p.stderr[-2000:]))
        shutil.rmtree(meta, ignore_errors=True)
        if "-simulate" in extra:
            m = re.findall(r"The number of states generated: (\d+)", out)
            st = [int(m[-1]) if m else 0] * 2
        if workers > 1 and env and os.path.exists(env.get("OUT", "")):
            ls = sorted(open(env["OUT"]))         # the workers write in any order
            with open(env["OUT"], "w") as f:
                f.writelines(ls)
        self.cov["states"] += st[1]
        self.cov["transitions"] += st[0]
        self.cov["tlc_runs"].append(dict(spec=module, label=label or "", generated=st[0], distinct=st[1],
                                         depth=res["depth"], wall_s=round(time.time() - t, 1)))
        return res

    def expect(self, module, plan, name, timeout=600):
        """Runs a deterministic replay specification over a plan; returns (plan, expectation) files."""
        pf, of = self.path(name, "plan.json"), self.path(name, "exp.ndjson")
        json.dump(plan, open(pf, "w"))
        self.tlc(module, env={"PLAN": pf, "OUT": of}, timeout=timeout, label=name)
        return pf, of

    def validate(self, module, trace, name, timeout=600, what="trace", show=None, workers=1):
        """Is the recorded trace a behaviour of spec/<module>?  Rejection is a violation."""
        res = self.tlc(module, env={"TRACE": trace}, timeout=timeout, label=name, expect_violation=True, workers=workers)
        if res["ok"]:
            self.cov["traces_validated_against_impl"] += 1
            return True
        m = re.search(r"(Postcondition \w+ .* is false|Invariant \w+ is violated)", res["out"])
        if not m:
            raise ToolError("trace validation failed on %s:\n%s" % (module, res["out"][-4000:]))
        lines = open(trace).read().splitlines()
        n = res["depth"] + 1 if show is None else show(res)
        ctxl = lines[max(0, n - 6):n + 2]
        self.violation(name, dict(kind="violation", what="trace-rejected", at="%s line %d" % (os.path.basename(trace), n),
                                  detail="%s accepts no further event; last lines: %s" % (module, " | ".join(x[:300] for x in ctxl))))
        return False

    # ---------------------------------------------------------------- driver
    def drive(self, args, name, timeout=600, env=None, keysize=8, race=False, crash_is_violation=True, wrap=()):
        """Runs the driver; collects its report.  Returns the summary (or None)."""
        exe = self.driver(keysize, race)
        repf = self.path(name, "report.ndjson")
        work = self.path(name, "work", "x")[:-2]
        e = dict(os.environ)
        e.update(env or {})
        e["VERIF_REPORT"] = repf
        e["TMPDIR"] = work
        try:
            p = subprocess.run(list(wrap) + [exe] + [a if a != "@WORK" else work for a in args], cwd=work,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError("driver timed out (%s) after %ds" % (name, timeout))
        self.cov["driver_runs"] += 1
        lines = []
        if os.path.exists(repf):
            for l in open(repf):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        at = next((l for l in lines if l["kind"] == "at"), {})
        viol = [l for l in lines if l["kind"] == "violation"]
        base = [l for l in lines if l["kind"] == "base"]
        summ = next((l for l in lines if l["kind"] == "summary"), None)
        for v in viol:
            self.violation(name, v, args)
        if base:
            self.cov.setdefault("deviations_before_feature", []).append(base[0])
        if p.returncode not in (0, 10):
            err = p.stderr
            if "HARNESS-ERROR" in err or p.returncode in (-9, 137):
                raise ToolError("driver error (%s, rc %s):\n%s" % (name, p.returncode, err[-6000:]))
            crashed = ("panic:" in err or "fatal error:" in err or "SIGSEGV" in err or "SIGABRT" in err
                       or "WARNING: DATA RACE" in err or p.returncode in (-6, -11, 134, 139))
            if not crashed or not crash_is_violation:
                raise ToolError("driver ended with rc %s (%s):\n%s" % (p.returncode, name, err[-6000:]))
            v = dict(kind="violation", what="crash", at=at.get("where"),
                     detail=crash_summary(err))
            if at.get("armed"):
                self.violation(name, v, args)
            else:
                self.cov.setdefault("deviations_before_feature", []).append(v)
        elif summ is None:
            raise ToolError("driver wrote no summary (%s): %s" % (name, p.stderr[-3000:]))
        if summ:
            self.add_counts(summ["counts"])
            for s in summ.get("samples") or []:
                if len(self.cov["samples"]) < 8:
                    self.cov["samples"].append({"run": name, "case": s})
        return summ

    def cleanup(self, name):
        """Drops the database directory of a run (and its expectations when nothing was found)."""
        shutil.rmtree(self.path(name, "work"), ignore_errors=True)
        if not any(v[0] == name for v in self.violations):
            shutil.rmtree(os.path.dirname(self.path(name, "x")), ignore_errors=True)

    def add_counts(self, c):
        d = self.cov.setdefault("counts", {})
        for k, v in c.items():
            d[k] = d.get(k, 0) + v

    # ---------------------------------------------------------------- verdicts
    def violation(self, name, v, args=()):
        for kf in known_findings():
            if kf["property"] == self.pid and kf.get("match") and re.search(kf["match"], json.dumps(v)):
                self.known.append(kf)
                return
        self.violations.append((name, v, list(args)))

    def finish(self, level="model_checking"):
        cov = self.cov
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        while len(s) > 60000 and cov["samples"]:
            cov["samples"].pop()
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")
        for kf in known_findings():
            if kf["property"] == self.pid:
                print("KNOWN-FINDING: property=%s %s%s" % (self.pid, kf["text"], " (seen in this run)" if kf in self.known else ""))
        if not self.violations:
            return 0
        rd = os.path.join(VERIF, "evidence", "replay-" + self.pid)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        name, v, args = self.violations[0]
        for f in ("plan.json", "exp.ndjson", "report.ndjson", "trace.ndjson", "../plan.json", "../exp.ndjson", "../rec.trace"):
            p = os.path.join(self.dir, name, f)
            if os.path.exists(p) and os.path.getsize(p) < 20e6:
                shutil.copy(p, rd)
        json.dump({"property": self.pid, "run": name, "seed": self.seed, "driver_args": args,
                   "violations": [x[1] for x in self.violations[:20]]},
                  open(os.path.join(rd, "violation.json"), "w"), indent=1)
        for n, x, _ in self.violations[:5]:
            print("  [%s] %s at %s: %s" % (n, x.get("what"), x.get("at"), str(x.get("detail"))[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, rd))
        return 1


def crash_summary(err):
    i = min([x for x in (err.find("panic:"), err.find("fatal error:"), err.find("SIGSEGV"),
                         err.find("WARNING: DATA RACE")) if x >= 0] or [0])
    return err[i:i + 1500]


_kf = None


def known_findings():
    global _kf
    if _kf is None:
        p = os.path.join(VERIF, "known-findings.json")
        _kf = json.load(open(p)) if os.path.exists(p) else []
    return [k for k in _kf if k.get("status") == "known"]
