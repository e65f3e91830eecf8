#!/usr/bin/env python3
"""Confirm planted bugs: python3 tools/seed.py DIR... (development only; no check uses it).

For each seeded directory: in a scratch copy of /repo, the demo passes without the patch
and fails with it, and the stable tests pass with it.  Prints one line per directory."""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def confirm(d, tests=True):
    d = os.path.abspath(d)
    work = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = work + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        env = {"PYTHONPATH": repo + "/src"}
        ok = sh(f"bash {d}/demo.sh", repo, env)
        if ok.returncode != 0:
            return "DEMO FAILS UNPATCHED " + (ok.stdout + ok.stderr)[-600:]
        p = sh(f"git apply {d}/patch.diff", repo)
        if p.returncode:
            return "PATCH DOES NOT APPLY " + p.stderr
        bad = sh(f"bash {d}/demo.sh", repo, env)
        if bad.returncode == 0:
            return "DEMO PASSES PATCHED"
        why = (bad.stdout + bad.stderr).strip().splitlines()[-1:] 
        if not tests:
            return f"demo ok: {why}"
        failed = []
        for pre, x in (("float32", "0"), ("x64", "1")):
            e = dict(env); e["JAX_ENABLE_X64"] = x
            sh(f"{PY} -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 "
               f"--junit-prefix={pre} --junitxml={work}/{pre}.xml", repo, e, 900)
            good = set()
            for c in ET.parse(f"{work}/{pre}.xml").getroot().iter("testcase"):
                if not any(ch.tag in ("failure", "error", "skipped") for ch in c):
                    good.add(f'{c.get("classname")}::{c.get("name")}')
            failed += [t for t in stable if t.startswith(pre + ".") and t not in good]
        return (f"TESTS FAIL {len(failed)} {failed[:4]}" if failed else "CONFIRMED") + f" {why}"
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    args = sys.argv[1:]
    tests = "--demo" not in args
    for d in [a for a in args if not a.startswith("--")]:
        print(os.path.basename(d.rstrip("/")), confirm(d, tests), flush=True)
