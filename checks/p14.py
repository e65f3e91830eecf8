"""P14 interpolated light curves (spec/timefn_mc.qnt stepInterpolate)"""
from checks import timefns

ID = "P14"
LEVEL = "model_checking"
RULE = ("functions polynomial, sinusoidal or kinked, interpolated over a whole period or part of it with 2-40 samples, possibly of "
        "or under an exposure integration; times on the grid, off it, in the gap, up to 300 periods away; distinct by expected values")


def jobs(tier, seed):
    n, k = (104, 8) if tier == "quick" else (3000, 32)
    return [dict(spec="timefn_mc.qnt", step="stepInterpolate", steps=n, seed=seed * 640 + i, invariant="inv", history=True) for i in range(k)]


def run_trace(job, trace, chk):
    timefns.run(job, trace, chk)
