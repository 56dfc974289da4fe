"""Generic conformance: records of executions of the real code judged by a
*Conform.tla module that prints, per record, disagreements and a class."""
import collections, json, os, re

from . import core
from .core import Stage, CheckError, SPEC
from .tx import split


def model(ctx, stage, module, cfg=None, out=None, tag="CASE", constants=None, **kw):
    """Checks a model with TLC (its invariants are about the specification) and
    collects the cases it emits."""
    name = cfg or module
    if constants:           # other bounds than those in the .cfg
        txt = open(os.path.join(SPEC, name + ".cfg")).read()
        for k, v in constants.items():
            txt, n = re.subn(r"\b%s\s*=\s*\S+" % k, "%s = %s" % (k, v), txt)
            if n != 1:
                raise CheckError("constant %s not in %s.cfg" % (k, name))
        cfg = ctx.path("%s_%d" % (name, len(os.listdir(ctx.dir))))
        with open(cfg + ".cfg", "w") as f:
            f.write(txt)
    r = ctx.tlc(module, cfg, **kw)
    if "is violated" in r.txt:
        raise CheckError("the specification breaks its own laws: " + module + r.txt[r.txt.find("is violated") - 100:][:2500])
    r.require_ok()
    stage.add_tlc(r)
    stage.info.setdefault("models", {})[name] = dict(states=r.states, transitions=r.transitions)
    if out:
        seen = set()
        with open(out, "w") as f:
            for c in r.lines(tag):
                l = json.dumps(c, sort_keys=True)
                if l not in seen:
                    seen.add(l)
                    f.write(l + "\n")
        if not seen:
            raise CheckError("no cases from " + module)
        stage.info["models"][name]["cases"] = len(seen)
    return r


def judge(ctx, stage, module, path, params=None, jvms=4, workers=2, what=None, sig=None, keep=None, after=None):
    """keep: function (rec, d) -> subset of d that belongs to this property"""
    files = split(ctx, path, jvms)
    env = {"VERIF_PARAMS": params} if params else {}
    runs = [ctx.tlc(module, env=dict(env, VERIF_IN=f), start=True, workers=workers, heap="4g") for f in files]
    classes = collections.Counter()
    other = collections.Counter()
    for f, run in zip(files, runs):
        r = run.wait().require_ok()
        stage.add_tlc(r)
        lines = open(f).readlines()
        n = 0
        if after:
            after(r)
        for v in r.lines("REC"):
            n += 1
            if isinstance(v["c"], list):
                for c in v["c"]:
                    classes[c] += 1
            else:
                classes[v["c"]] += 1
            if v.get("l"):
                raise CheckError("the specification breaks its own laws %s on %s" % (v["l"], lines[v["i"] - 1][:2000]))
            d = list(v["d"])
            if d and keep:
                rec = json.loads(lines[v["i"] - 1])
                k = keep(rec, d)
                for x in d:
                    if x not in k:
                        other[x] += 1
                d = k
            for x in sorted(d):
                rec = json.loads(lines[v["i"] - 1])
                stage.mismatch(sig(rec, x) if sig else x, what(rec, x) if what else "%s: %s" % (rec.get("op", rec.get("kind", "")), json.dumps(rec)[:400]), rec)
            if len(stage.samples) < 2 and not v["d"]:
                s = lines[v["i"] - 1]
                if len(s) < 6000:
                    stage.samples.append(dict(judged=module, verdict=v["c"], record=json.loads(s)))
        if n != len(lines):
            raise CheckError("TLC judged %d of %d records of %s" % (n, len(lines), f))
        stage.traces += n
    c = collections.Counter(stage.info.get("classes", {}))
    c.update(classes)
    stage.info["classes"] = dict(sorted(c.items()))
    if other:
        stage.info["disagreements_of_other_properties"] = dict(other)
    return classes


def fresh(ctx, stage):
    """Whether the stage saw a violation that is not a known finding."""
    known = core.known_findings(ctx.prop)
    return any(m["sig"] not in known for m in stage.mismatches)


def require(stage, classes, names):
    """Classes of behaviour that must have been exercised: a check that missed them tested nothing."""
    miss = [x for x in names if not any(c == x or c.startswith(x + ":") for c in classes)]
    if miss:
        raise CheckError("not exercised: %s" % miss)


def race(ctx, stage, cmd, what, timeout=700, **kw):
    """Runs a harness command built with the race detector; True if it found no race."""
    p = ctx.harness(cmd, race=True, ok=(0, 66), timeout=timeout, env={"GORACE": "halt_on_error=1 exitcode=66"}, **kw)
    if p.returncode == 66:
        i = p.stderr.find("WARNING: DATA RACE")
        stage.mismatch("data race", "%s: %s" % (what, p.stderr[i:i + 3000]), dict(cmd=cmd, args=kw))
        return False
    return True


def replayed(stage, path, require_classes=()):
    """Reads the report of a harness command that replayed cases generated by TLC."""
    stats = None
    for l in open(path):
        m = json.loads(l)
        if "sig" in m:
            stage.mismatch(m["sig"], m["what"], m["case"])
        else:
            stats = m
    if not stats or not stats["n"]:
        raise CheckError("the replay reported nothing: " + path)
    stage.traces += stats["n"]
    c = collections.Counter(stage.info.get("classes", {}))
    c.update(stats["classes"])
    stage.info["classes"] = dict(sorted(c.items()))
    require(stage, c, require_classes)
    return stats
