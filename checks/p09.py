"""P09 orbits with transit timing variations (spec/transit_mc.qnt, stepTtv)"""
import numpy as np

from checks import transits as T
from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P09"
LEVEL = "model_checking"
RULE = ("1-3 planets with 2-7 transits each, given as times (numbered consecutively or with gaps and offsets) or as "
        "variations, shape period fitted/given/changed by delta_log_period, times anywhere, at the transits, at "
        "contacts, between, before and after; distinct by expected position and ephemeris")


def jobs(tier, seed):
    n, k = (150, 8) if tier == "quick" else (1300, 48)
    return [dict(spec="transit_mc.qnt", step="stepTtv", steps=n, seed=seed * 700 + i, invariant="inv") for i in range(k)]


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.orbits.ttv import TTVOrbit
    for i, st, obs in T.groups(trace):
        if st["kind"] == "transit":
            continue
        rng = seeded(job, i)
        d = T.show(st)
        chk.at(job, trace, i)
        ps = st["planets"]
        n = len(ps)
        try:
            with chk.code("construct", d):
                orb = T.build_ttv(st, rng)
            with chk.code("ephemeris", d):
                t0, per = T.bare(orb.linear_t0), T.bare(orb.linear_period)
                shp = np.broadcast_to(T.bare(orb.period, "day"), (n,))
                chk.equal("planets", (t0.shape, per.shape, len(orb.ttvs), len(orb.transit_times)),
                          ((n,), (n,), n, n), d)
            if t0.shape != (n,) or per.shape != (n,):
                continue
            for m, p in enumerate(ps):
                k = np.array(p["k"], float)
                det = len(k) * np.sum(k ** 2) - np.sum(k) ** 2
                cond = (np.sum(k ** 2) + len(k)) ** 2 / det if st["kind"] == "times" else 1.0
                tmax = max(abs(v) for v in fx(p["tt"]))
                tol = 2e-15 * (tmax + 1) * (10 + cond)
                dd = f"planet {m}; {d}"
                chk.close("reference-time", t0[m], fx(p["t0"]), rtol=0, atol=tol, detail=dd)
                chk.close("linear-period", per[m], fx(p["lin"]), rtol=0, atol=tol, detail=dd)
                chk.close("shape-period", shp[m], fx(p["shape"]["period"]), rtol=0, atol=tol, detail=dd)
                v = np.array(fx(p["v"]))
                if st["kind"] == "variations":
                    v = v - np.mean(v)
                with chk.code("variations", dd):
                    chk.close("variations", T.bare(orb.ttvs[m]), v, rtol=0, atol=tol * (1 + np.max(np.abs(k))), detail=dd)
                    chk.close("transit-times", T.bare(orb.transit_times[m]), fx(p["tt"]), rtol=1e-13, atol=1e-12, detail=dd)
                    chk.equal("transit-numbers", [int(q) for q in orb.transit_inds[m]], list(p["k"]), dd)
            if obs:
                T.check_positions(chk, job, trace, orb, obs, 2e-15, d, rng, n, True)
            tt = tuple(jnp.asarray(fx(p["tt"])) for p in ps)
            dur = np.full(n, 0.1)
            chk.raises("both", ValueError, lambda: TTVOrbit(period=np.ones(n), duration=dur, transit_times=tt, ttvs=tt), "both descriptions")
            chk.raises("neither", ValueError, lambda: TTVOrbit(period=np.ones(n), duration=dur), "neither description")
            chk.raises("no-period", ValueError, lambda: TTVOrbit(duration=dur, ttvs=tt), "variations without a period")
            chk.sample({"orbit": d})
        except Stop:
            continue
