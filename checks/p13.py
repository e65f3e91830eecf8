"""P13 exposure integration (spec/timefn_mc.qnt stepIntegrate)"""
from checks import timefns

ID = "P13"
LEVEL = "model_checking"
RULE = ("functions polynomial (degree 0-4), sinusoidal or kinked, scalar or vector valued, with and without units, integrated "
        "once or twice with every rule and 2-13 samples; distinct by expected values")


def jobs(tier, seed):
    n, k = (104, 8) if tier == "quick" else (3000, 32)
    js = [dict(spec="timefn_mc.qnt", step="stepIntegrate", steps=n, seed=seed * 630 + i, invariant="inv", history=True) for i in range(k)]
    js.append(dict(spec="timefn_mc.qnt", step="stepIntegrate", steps=n // 2, seed=seed * 630 + 629, x64=False, history=True))
    return js


def run_trace(job, trace, chk):
    timefns.run(job, trace, chk)
