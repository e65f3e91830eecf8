"""Run a Quint specification and read back the behaviours (ITF) it generates."""
import json
import os
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class SpecError(Exception):
    pass


def decode(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(decode(x) for x in v["#tup"])
        if "#set" in v:
            return [decode(x) for x in v["#set"]]
        if "#map" in v:
            out = {}
            for k, x in v["#map"]:
                k = decode(k)
                out[tuple(k) if isinstance(k, list) else k] = decode(x)
            return out
        return {k: decode(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


def run(spec, *, main=None, init="init", step="step", steps=50, seed=1,
        invariant=None, timeout=800, traces=1, env=None):
    """Simulate ``spec`` and return a list of traces (lists of decoded states)."""
    tmp = tempfile.mkdtemp(prefix="vtq")
    try:
        out = os.path.join(tmp, "t_{seq}.itf.json" if traces > 1 else "t.itf.json")
        cmd = ["quint", "run", "--backend=typescript", f"--max-steps={steps}",
               f"--max-samples={traces}", f"--n-traces={traces}", f"--seed={seed}",
               f"--init={init}", f"--step={step}", f"--out-itf={out}", "--verbosity=1"]
        if main:
            cmd.append(f"--main={main}")
        if invariant:
            cmd.append(f"--invariant={invariant}")
        cmd.append(os.path.join(SPEC, spec))
        e = dict(os.environ)
        e.setdefault("HOME", "/root")
        e.update(env or {})
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC)
        res = []
        files = sorted(os.listdir(tmp), key=lambda s: (len(s), s))
        if p.returncode != 0 or not files:
            raise SpecError(f"quint run {spec} ({main or ''}, {init}/{step}, seed {seed}) failed "
                            f"(exit {p.returncode}):\n{p.stdout[-3000:]}\n{p.stderr[-3000:]}")
        for f in files:
            with open(os.path.join(tmp, f)) as fh:
                d = json.load(fh)
            res.append([decode(s) for s in d["states"]])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
