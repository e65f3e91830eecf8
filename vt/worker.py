import importlib
import os
import pickle
import sys
import types
import warnings

warnings.filterwarnings("ignore")


def bootstrap():
    """import the package from /repo's working tree, whatever is installed"""
    if "/repo/src" in sys.path:
        sys.path.remove("/repo/src")
    sys.path.insert(0, "/repo/src")
    if not os.path.exists("/repo/src/jaxoplanet/jaxoplanet_version.py"):
        m = types.ModuleType("jaxoplanet.jaxoplanet_version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["jaxoplanet.jaxoplanet_version"] = m
    import jaxoplanet
    assert os.path.realpath(jaxoplanet.__file__).startswith("/repo/src/"), jaxoplanet.__file__


def main():
    prop, inp, out = sys.argv[1:4]
    with open(inp, "rb") as f:
        jobs = pickle.load(f)
    bootstrap()
    from vt.core import Recorder, replay_trace, run_job
    mod = importlib.import_module(f"checks.{prop.lower()}")
    rec = Recorder(prop)
    for job in jobs:
        if "replay_trace" in job:
            tr = job.pop("replay_trace")
            replay_trace(mod, job, tr, rec)
        else:
            run_job(mod, job, rec)
    with open(out, "wb") as f:
        pickle.dump({"violations": rec.violations, "by": rec.by, "maxerr": rec.maxerr,
                     "digests": rec.digests, "samples": rec.samples, "steps": rec.steps,
                     "traces": rec.traces, "findings": rec.findings}, f)


if __name__ == "__main__":
    main()
