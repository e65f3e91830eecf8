"""P25 Wigner 3j symbols (spec/wigner_mc.qnt)"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, fx

ID = "P25"
LEVEL = "model_checking"
RULE = ("every request up to degree 5 in order on one calculator (exhaustive); random histories of requests on calculators of "
        "sizes up to 27, orders at the ends, zero, opposite and out of range; distinct by expected coefficients")


def jobs(tier, seed):
    js = [dict(spec="wigner_mc.qnt", init=f"initSweep{i}", step="sweep", steps=324, seed=seed, invariant="inv", history=True)
          for i in range(4)]
    n, k = (400, 4) if tier == "quick" else (5000, 32)
    js += [dict(spec="wigner_mc.qnt", steps=n, seed=seed * 660 + i, invariant="inv", history=True) for i in range(k)]
    return js


def run_trace(job, trace, chk):
    from jaxoplanet.starry.core.wigner3j import Wigner3j, Wigner3jCalculator, clebsch_gordan
    calc = None
    for i, s in enumerate(trace):
        chk.at(job, trace, i)
        rng = seeded(job, i)
        try:
            if s["act"] == "create":
                with chk.code("create"):
                    calc = Wigner3jCalculator(*s["limits"])
                    chk.equal("limits", calc.size, s["limits"][0] + s["limits"][1] + 1)
                continue
            if s["act"] == "single":
                q = s["one"]["q"]
                with chk.code("single", str(q)):
                    chk.close("symbol", Wigner3j(*q), fx(s["one"]["w"]), rtol=0, atol=1e-13, detail=f"3j {q}")
                    j1, j2, j3, m1, m2, m3 = q
                    chk.close("clebsch-gordan", clebsch_gordan(j1, m1, j2, m2, j3, -m3), fx(s["one"]["cg"]), rtol=0,
                              atol=1e-12, detail=f"{q}")
                continue
            q = s["req"]
            want = np.array(fx(s["resp"]))
            with chk.code("calculate", f"limits {s['limits']} request {q}"):
                got = calc.calculate(*q)
                chk.close("coefficients", got, want, rtol=0, atol=2e-13, detail=f"limits {s['limits']} request {q}")
                # the same request on a calculator with no history
                if rng.random() < 0.2:
                    fresh = Wigner3jCalculator(q[0], q[1]).calculate(*q)
                    chk.close("fresh", fresh, want[: len(fresh)], rtol=0, atol=2e-13, detail=f"request {q}")
            chk.sample({"limits": s["limits"], "request": q, "coefficients": want.tolist()})
        except Stop:
            continue
