#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01   (VERIF_TIER=quick|thorough, VERIF_SEED)

Exit 0: the property held on everything explored; 1: VIOLATION line; 2: the check itself failed.
check.py --replay FILE plays a saved counterexample again.
"""
import json
import os
import random
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
RUN_DIR = os.path.join("/tmp", f"verif-{os.getpid()}")
os.environ["VERIF_RUN_DIR"] = RUN_DIR
import scenario
import tlc
from driver import ToolError


def build():
    """The shim and the program from /repo's working tree, with the compiler's output outside /repo."""
    os.makedirs(os.path.join(ROOT, ".build"), exist_ok=True)
    src = os.path.join(HERE, "shim.c")
    if not os.path.exists(scenario.SHIM) or os.path.getmtime(scenario.SHIM) < os.path.getmtime(src):
        tmp = scenario.SHIM + f".{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-Wall", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.rename(tmp, scenario.SHIM)
    if os.environ.get("VERIF_BINARY"):
        return
    cmd = ". /opt/vp/env.sh; CARGO_TARGET_DIR=%s/.build/target cargo build --quiet --offline --manifest-path /repo/Cargo.toml --bins" % ROOT
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError("build failed\n" + p.stdout.decode("utf-8", "replace")[-3000:])


class Violation(Exception):
    pass


def brief(trace, upto=None):
    """A recording in a few lines, for the evidence file."""
    ev = trace["ev"][:upto] if upto else trace["ev"]
    out = []
    for e in ev[-40:]:
        e = dict(e)
        n = e.pop("e")
        if n == "qe":
            out.append("qe %s c=%s st=%s %s" % (e["kind"], e["c"], e["st"], json.dumps(e["r"])[:80]))
        elif n != "qs":
            out.append(n + " " + " ".join(f"{k}={v}" for k, v in e.items()))
    return {"name": trace["name"], "K": trace["K"], "transactions": len(trace["txs"]), "blocks": len(trace["blks"]), "events": len(trace["ev"]), "last_events": out[-25:]}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "100" if self.quick else "3000"))
        self.states = self.transitions = self.traces = self.events = self.scenarios = 0
        self.models, self.samples, self.notes, self.known = [], [], [], []
        self.stats = {}
        self.cov = {}
        self.drift = []
        self.failures = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    # -- the specification by itself
    def model(self, module, cfg, **kw):
        t = time.time()
        (gen, distinct), out = tlc.check(module, cfg, **kw)
        self.states += distinct
        self.transitions += gen
        self.models.append({"module": module, "config": cfg if cfg.endswith(".cfg") else "inline", "states": distinct, "transitions": gen, "secs": round(time.time() - t, 1)})
        return out

    # -- against the program
    def play(self, name, jobs, judge=None, module="ServiceTrace", batch=96):
        """jobs: list of (script, opts, seed).  Plays and validates them in batches; the first rejection ends the check."""
        played = 0
        if os.environ.get("VERIF_ONLY", name) != name:      # for working on one campaign
            return 0
        for i in range(0, len(jobs), batch):
            if self.left() < 5 and played:
                self.notes.append(f"{name}: {len(jobs) - i} of {len(jobs)} scenarios not played within the time budget")
                break
            part = jobs[i:i + batch]
            out = scenario.play_all(part, deadline=time.time() + max(240, self.left()))
            broken = [i for i, o in enumerate(out) if o is not None and o[0] is None]
            if broken:      # once more; if that fails too, the others are judged first
                for i, o in zip(broken, scenario.play_all([part[i] for i in broken[:8]], procs=2)):
                    out[i] = o
                self.failures += [o[1]["error"] for o in out if o is not None and o[0] is None]
                out = [None if o is not None and o[0] is None else o for o in out]
            lost = sum(o is None for o in out)
            if lost:
                self.notes.append(f"{name}: {lost} scenarios not played to their end in time, and not judged")
            part, out = [p for p, o in zip(part, out) if o is not None], [o for o in out if o is not None]
            self.judge(name, part, out, module)
            played += len(out)
        return played

    def judge(self, name, jobs, out, module="ServiceTrace"):
        verdicts, (gen, distinct) = tlc.validate([o[0] for o in out], module=module)
        self.transitions += gen
        self.states += distinct
        self.traces += len(out)
        self.scenarios += len(out)
        for (trace, info) in out:
            self.events += len(trace["ev"])
            for k, v in info.get("stats", {}).items():
                self.stats[k] = self.stats.get(k, 0) + v
            for e in trace["ev"]:
                self.count("event " + e["e"])
            self.drift += [f"{name}: {d}" for d in info.get("drift", [])]
        for want in (0, len(out) // 2):
            if len(self.samples) < 5 and out:
                self.samples.append(dict(brief(out[want][0]), campaign=name))
        bad = [(j, o, v) for j, o, v in zip(jobs, out, verdicts) if not v[0]]
        if not bad:
            return
        # what depends on how busy the machine is, is believed when it happens again
        slow = ("no progress", "updates are not made at the configured interval")
        bad.sort(key=lambda x: x[2][2] in slow)
        j, o, v = bad[0]
        if v[2] in slow:
            again = scenario.play_all([j] * 3, procs=1)
            v2, _ = tlc.validate([x[0] for x in again], module=module)
            if all(x[0] for x in v2):
                self.notes.append(f"{name}: a scenario was too slow once and was not in three further runs")
                return
        self.violation(name, j, o, v, module)

    def violation(self, name, job, out, verdict, module):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "campaign": name, "why": verdict[2], "line": verdict[1], "module": module,
                       "script": job[0], "opts": job[1], "seed": job[2], "trace": out[0], "output": out[1].get("tail", "")[-3000:]}, f)
        print(f"{name}: recording rejected at event {verdict[1]}: {verdict[2]}")
        for line in brief(out[0], verdict[1])["last_events"][-12:]:
            print("   ", line[:220])
        tail = out[1].get("tail", "")
        if tail:
            print("    program output:", tail[-400:].replace("\n", "\n      "))
        raise Violation(path)

    # -- result
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples,
               "models": self.models, "scenarios": self.scenarios, "events_validated": self.events, "counters": self.cov, "driver": self.stats,
               "requests_differing_from_Indexer_tla": len(self.drift), "notes": self.notes[:20]}
        if self.drift:
            cov["drift_examples"] = self.drift[:5]
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": ["the driver (harness/driver.py, harness/shim.c) records requests, replies and answers in the order they happened",
                             "harness/world.py serialises blocks and transactions as the Bitcoin wire format defines them"],
             "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        text = json.dumps(e, indent=1)
        while len(text) > 60000 and self.samples:
            self.samples.pop()
            text = json.dumps(e, indent=1)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            f.write(text + "\n")


def replay(path):
    with open(path) as f:
        d = json.load(f)
    out = scenario.play_all([(d["script"], d["opts"], d["seed"])], procs=1)
    v, _ = tlc.validate([out[0][0]], module=d["module"])
    print("accepted" if v[0][0] else f"rejected at event {v[0][1]}: {v[0][2]}")
    return 0 if v[0][0] else 1


def main():
    os.makedirs(RUN_DIR, exist_ok=True)
    try:
        build()
        if sys.argv[1] == "--build":
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        import campaigns
        prop = sys.argv[1]
        ctx = Ctx(prop, "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        try:
            getattr(campaigns, prop)(ctx)
        except Violation as v:
            ctx.evidence(1)
            print(f"VIOLATION property={prop} replay={os.path.relpath(str(v), ROOT)}")
            return 1
        if ctx.failures:
            raise scenario.ToolError(f"{len(ctx.failures)} scenarios could not be played:\n" + ctx.failures[0])
        ctx.evidence(0)
        for k in ctx.known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        print(f"{prop}: held; {ctx.states} states, {ctx.scenarios} recordings of {ctx.events} events accepted, {len(ctx.drift)} deviations from Indexer.tla, {time.time() - ctx.t0:.0f} s")
        for n in ctx.notes[:5]:
            print("note:", n)
        return 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(RUN_DIR, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
