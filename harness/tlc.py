"""Calling TLC: exhaustive runs, simulation (scenario generation), trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg, env=None, args=(), timeout=600, workers="auto", heap="6g", opts=()):
    """Run TLC in a scratch directory -> (exit code, output)."""
    d = tempfile.mkdtemp(prefix="vtlc-", dir=os.environ.get("VERIF_RUN_DIR"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        if not cfg.endswith(".cfg"):
            with open(os.path.join(d, "_run.cfg"), "w") as f:
                f.write(cfg)
            cfg = "_run.cfg"
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *opts, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-lncheck", "final", "-config", cfg, *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError(f"TLC on {module} took more than {timeout} s\n" + (x.stdout or b"").decode("utf-8", "replace")[-2000:])
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def errors(out, n=1500):
    """The part of the output that says what is wrong."""
    i = out.find("Error:")
    return out[i:i + n] if i >= 0 else out[-n:]


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m[-1].replace(",", "")), 0) if m else (0, 0)
    return tuple(int(x.replace(",", "")) for x in m[-1])


def check(module, cfg, **kw):
    """Exhaustive run that must find nothing -> (generated, distinct)."""
    code, out = run(module, cfg, **kw)
    if code != 0 or "No error has been found" not in out:
        raise TlcError(f"TLC on {module} ended with {code}\n" + errors(out))
    return counts(out), out


def validate(traces, timeout=600, module="ServiceTrace", heap="8g", depth=0):
    """Step the specification through recordings -> list of (ok, line, why)."""
    if not traces:
        return [], (0, 0)
    fd, path = tempfile.mkstemp(prefix="vtraces-", suffix=".json", dir=os.environ.get("VERIF_RUN_DIR"))
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        code, out = run(module, module + ".cfg", env={"TRACES": path}, timeout=timeout, heap=heap)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", path)
        else:
            os.unlink(path)
    verdict = {}
    for m in re.finditer(r'<<\s*"(ACCEPT|REJECT)",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
        verdict.setdefault(int(m.group(2)), (m.group(1) == "ACCEPT", int(m.group(3)), m.group(4)))
    missing = [i for i in range(len(traces)) if i + 1 not in verdict]
    size = counts(out)
    if (code != 0 or missing) and depth < 9 and "Error: " in out and "OutOfMemory" not in out:
        # TLC could not evaluate the specification on one of the recordings: find it
        if len(traces) == 1:
            return [(False, 1, "the specification has no meaning for this recording: " + errors(out, 300))], size
        missing = missing or list(range(len(traces)))
        for part in ([missing[:len(missing) // 2], missing[len(missing) // 2:]] if len(missing) > 1 else [missing]):
            v, n = validate([traces[i] for i in part], timeout, module, heap, depth + 1)
            size = (size[0] + n[0], size[1] + n[1])
            verdict.update({i + 1: x for i, x in zip(part, v)})
    elif code != 0 or missing:
        raise TlcError(f"trace validation ended with {code}, {len(verdict)} verdicts for {len(traces)} traces\n" + errors(out))
    return [verdict[i + 1] for i in range(len(traces))], size
