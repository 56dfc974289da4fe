"""Plumbing shared by all checks: building the harness from /repo's working
tree, running TLC, known findings, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Crash(CheckError):
    """The code under test took the harness down: a finding, not a failure of the machinery."""


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.stages = []
        self.quick = tier == "quick"
        self._h = {}
        self.dl = self.t0 + (600 if self.quick else 6 * 3600)

    def path(self, name):
        return os.path.join(self.dir, name)

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ------------------------------------------------------------- harness
    def build(self, race=False):
        key = "hr" if race else "h"
        if key in self._h:
            return self._h[key]
        out = self.path(key)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else [])
        if REPO != "/repo":     # development only: another copy of the repository
            mod = self.path("go.mod")
            with open(mod, "w") as f:
                f.write(open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO))
            shutil.copy(os.path.join(VERIF, "harness", "go.sum"), self.path("go.sum"))
            cmd += ["-modfile=" + mod]
        cmd += ["."]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=go_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stderr[-3000:])
        self._h[key] = out
        if "params" not in self._h:
            self._h["params"] = self.path("params.ndjson")
            self.harness("params", out=self._h["params"])
        return out

    def harness(self, cmd, race=False, timeout=700, ok=(0,), env=None, **kw):
        h = self.build(race)
        args = [h, cmd]
        for k, v in kw.items():
            args += ["-" + k, str(v)]
        e = go_env()
        if env:
            e.update(env)
        try:
            p = subprocess.run(args, cwd=self.dir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out" % cmd)
        if p.returncode == 2 and re.search(r"^(panic|fatal error): ", p.stderr, re.M) and "out of memory" not in p.stderr:
            i = re.search(r"^(panic|fatal error): ", p.stderr, re.M).start()
            raise Crash("harness %s crashed: %s" % (" ".join(args[1:]), p.stderr[i:i + 3000]))
        if p.returncode not in ok:
            raise CheckError("harness %s failed (%d):\n%s" % (cmd, p.returncode, (p.stderr or p.stdout)[-3000:]))
        return p

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, heap="6g", extra=(), timeout=3000, start=False):
        md = tempfile.mkdtemp(prefix="md", dir=self.dir)
        e = dict(os.environ)
        if "params" in self._h:
            e["VERIF_PARAMS"] = self._h["params"]
        e["VERIF_TIER"] = self.tier
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "-Djava.io.tmpdir=" + md, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        out = open(os.path.join(md, "out.txt"), "w")
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
        run = TLCRun(self, module, p, os.path.join(md, "out.txt"), time.time() + timeout)
        return run if start else run.wait()

    def tlc_par(self, module, files, **kw):
        """Validate several record files with one TLC each."""
        runs = [self.tlc(module, env={"VERIF_IN": f}, start=True, **kw) for f in files]
        return [r.wait() for r in runs]


class TLCRun:
    def __init__(self, ctx, module, p, path, deadline):
        self.ctx, self.module, self.p, self.path, self.deadline = ctx, module, p, path, deadline

    def wait(self):
        try:
            self.p.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise CheckError("TLC on %s timed out" % self.module)
        txt = open(self.path).read()
        return TLCResult(self.module, self.p.returncode, txt)


class TLCResult:
    def __init__(self, module, rc, txt):
        self.module, self.rc, self.txt = module, rc, txt
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0
        m = re.search(r"number of states generated: (\d+)", txt)       # simulation
        if m and not self.states:
            self.states = self.transitions = int(m.group(1))

    def lines(self, tag):
        """JSON values printed by the model as "TAG {json}"."""
        for l in self.txt.splitlines():
            if l.startswith('"' + tag + " "):
                yield json.loads(json.loads(l)[len(tag) + 1:])

    def require_ok(self):
        if self.rc != 0 or "Error:" in self.txt:
            i = self.txt.find("Error:")
            raise CheckError("TLC on %s failed (%s): %s" % (self.module, self.rc, self.txt[i:i + 3000] if i >= 0 else self.txt[-3000:]))
        return self


# ------------------------------------------------------------------ findings
def known_findings(prop):
    """signature -> description of the recorded findings of a property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Stage:
    """What one stage of a check explored and found."""

    live = []       # all stages of the running check, finished or not

    def __init__(self, name):
        Stage.live.append(self)
        self.name = name
        self.states = self.transitions = self.traces = 0
        self.info = {}
        self.samples = []
        self.mismatches = []        # dicts: sig, what, replay (any JSON)

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def mismatch(self, sig, what, replay):
        self.mismatches.append(dict(sig=re.sub(r"\s+", "_", sig), what=what, replay=replay))


def finish(ctx, level, assumptions):
    """Writes the evidence, prints the verdict, returns the exit code."""
    known = known_findings(ctx.prop)
    seen, new = {}, []
    for st in ctx.stages:
        for m in st.mismatches:
            if m["sig"] in known:
                seen.setdefault(m["sig"], m)
            else:
                new.append((st, m))
    cov = {
        "states": sum(s.states for s in ctx.stages),
        "transitions": sum(s.transitions for s in ctx.stages),
        "traces_validated_against_impl": sum(s.traces for s in ctx.stages),
        "samples": [x for s in ctx.stages for x in s.samples][:6],
        "stages": {s.name: dict(states=s.states, transitions=s.transitions, traces=s.traces, **s.info) for s in ctx.stages},
        "known_findings_seen": sorted(seen),
    }
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[s]))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for st, m in new:
            if m["sig"] in done:
                continue
            done.add(m["sig"])
            if len(done) > 10:
                break
            path = os.path.join(rd, "%s-%d.json" % (ctx.prop, len(done)))
            with open(path, "w") as f:
                json.dump(dict(property=ctx.prop, stage=st.name, sig=m["sig"], what=m["what"], case=m["replay"]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  [%s] %s: %s" % (st.name, m["sig"], str(m["what"])[:600]))
        return 1
    print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (ctx.prop, ctx.tier, cov["states"], cov["traces_validated_against_impl"], ev["wall_s"]))
    if cov["states"] == 0 and cov["traces_validated_against_impl"] == 0:
        raise CheckError("nothing was explored")
    return 0
