"""P08 transit-parameterised orbits (spec/transit_mc.qnt, stepTransit)"""
import numpy as np

from checks import transits as T
from checks.orbits import seeded
from vt.core import Stop, fx

ID = "P08"
LEVEL = "model_checking"
RULE = ("orbits of 1-3 planets by duration or by speed, impact parameters of either sign up to beyond grazing, times "
        "anywhere, at transits up to 40 periods away, at the contacts +- 1e-6..1e-3 d, half a period away; distinct by "
        "expected position")


def jobs(tier, seed):
    n, k = (330, 8) if tier == "quick" else (3300, 40)
    js = [dict(spec="transit_mc.qnt", step="stepTransit", steps=n, seed=seed * 500 + i, invariant="inv") for i in range(k)]
    js.append(dict(spec="transit_mc.qnt", step="stepTransit", steps=n // 3, seed=seed * 500 + 499, x64=False))
    return js


def run_trace(job, trace, chk):
    from jaxoplanet.orbits import TransitOrbit
    eps = 2e-15 if job.get("x64", True) else 1e-6
    for i, st, obs in T.groups(trace):
        rng = seeded(job, i)
        d = T.show(st)
        chk.at(job, trace, i)
        n = len(st["planets"])
        try:
            with chk.code("construct", d):
                orb = T.build_transit(st, rng)
            ps = st["planets"]
            half = np.array([fx(p["shape"]["speed"]) * fx(p["shape"]["duration"]) / 2 for p in ps])
            rr = np.array([fx(p["shape"]["ror"]) for p in ps])
            rel = eps * (1 + (1 + rr) ** 2 / np.maximum(half, 1e-9) ** 2)

            def fld(name, q, want, rtol, unit=None):
                with chk.code(name, d):
                    g = np.broadcast_to(T.bare(q, unit), (n,))
                for m in range(n):
                    chk.close(name, g[m], want[m], rtol=float(np.broadcast_to(rtol, (n,))[m]), atol=1e-14 if half[m] else 3e-8 * (eps / 2e-15) ** 0.5, detail=d)

            fld("period", orb.period, [fx(p["shape"]["period"]) for p in ps], eps, "day")
            fld("duration", orb.duration, [fx(p["shape"]["duration"]) for p in ps], rel, "day")
            fld("speed", orb.speed, [fx(p["shape"]["speed"]) for p in ps], rel, "1/day")
            fld("time_transit", orb.time_transit, [fx(p["t0"]) for p in ps], eps, "day")
            fld("impact_param", orb.impact_param, [fx(p["shape"]["b"]) for p in ps], eps)
            fld("radius_ratio", orb.radius_ratio, [fx(p["shape"]["ror"]) for p in ps], eps)
            fld("radius", orb.radius, [fx(p["shape"]["ror"]) for p in ps], eps)
            fld("central_radius", orb.central_radius, [1.0] * n, eps)
            chk.ok("shape", orb.shape in ((n,), ()) and int(np.prod(orb.shape)) == n, f"{orb.shape} {d}", key=d)
            chk.raises("neither", ValueError, lambda: TransitOrbit(period=1.0, time_transit=0.5), "no speed, no duration")
            if obs:
                T.check_positions(chk, job, trace, orb, obs, eps, d, rng, n, False)
            chk.sample({"orbit": d, "t": fx(obs[0][1]["t"]) if obs else None})
        except Stop:
            continue
