"""P10 expected transit times (spec/transit_mc.qnt, stepWindow)"""
import numpy as np

from checks.orbits import seeded
from vt.core import exact, fx

ID = "P10"
LEVEL = "model_checking"
RULE = ("1-4 planets, windows anywhere relative to the ephemeris, a fifth of them starting, a fifth ending and a fifth "
        "both starting and ending exactly on a transit, some of zero length; distinct by expected times")


def jobs(tier, seed):
    n, k = (120, 8) if tier == "quick" else (2000, 32)
    return [dict(spec="transit_mc.qnt", step="stepWindow", steps=n, seed=seed * 900 + i, invariant="inv") for i in range(k)]


def run_state(job, st, chk):
    import jax.numpy as jnp
    from jaxoplanet.orbits.ttv import compute_expected_transit_times
    if st["act"] != "window":
        return
    i = chk.ctx[2]
    rng = seeded(job, i)
    lo, hi = exact(st["window"][0]), exact(st["window"][1])
    p = [exact(q["lin"]) for q in st["planets"]]
    t0 = [exact(q["t0"]) for q in st["planets"]]
    conv = rng.choice([list, np.array, jnp.asarray]) if len(p) > 1 else rng.choice([lambda v: v[0], np.array, list])
    if conv is list:
        # (a plain list is accepted where an array is)
        conv = np.asarray
    d = f"window [{lo}, {hi}] period {p} t0 {t0}"
    with chk.code("call", d):
        got = compute_expected_transit_times(lo, hi, conv(p), conv(t0))
    chk.equal("one-entry-per-planet", len(got), len(p), d)
    for m in range(min(len(got), len(p))):
        want = fx(st["expected"][m])
        g = np.asarray(getattr(got[m], "magnitude", got[m]), float)
        chk.close("times", g.reshape(-1) if g.ndim else g, np.array(want, float).reshape(-1), rtol=1e-13, atol=1e-11, detail=f"planet {m}: {d}")
    chk.sample({"window": [lo, hi], "period": p, "t0": t0, "expected": [fx(e) for e in st["expected"]][:1]})
