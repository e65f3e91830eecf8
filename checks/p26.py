"""P26 spots (spec/spot_mc.qnt)"""
import numpy as np

from checks import surfaces as S
from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P26"
LEVEL = "model_checking"
RULE = ("spots of degree 0-12 with radii up to 1.6 rad, contrasts of both signs and zero, anywhere including the poles and the far side, several "
        "from one expansion, fits of 300 and 90 points and edges of two sharpnesses; distinct by expected coefficients")

DEGREES_QUICK = [0, 1, 2, 4, 6, 9, 12]


def jobs(tier, seed):
    n, reps = (60, 1) if tier == "quick" else (600, 5)
    js = []
    for rep in range(reps):
        for k, f in enumerate(DEGREES_QUICK):
            js.append(dict(spec="spot_mc.qnt", init=f"init{f}", steps=n, seed=seed * 1500 + 100 * rep + k, invariant="inv", history=True, cost=4 + f))
    js.append(dict(spec="spot_mc.qnt", init="init4", steps=n, seed=seed * 1500 + 90, x64=False, history=True, cost=5))
    return js


def run_trace(job, trace, chk):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry import Surface
    from jaxoplanet.starry.ylm import ylm_spot
    x64 = job.get("x64", True)
    eps = 1e-15 if x64 else 2e-6
    made, fast, eager = {}, {}, 0.03 if job["init"] in ("init9", "init12") else 0.15
    for i, s in enumerate(trace):
        if s["act"] != "place":
            continue
        chk.at(job, trace, i)
        rng = seeded(job, i)
        L = s["deg"]
        c, r, la, lo = (exact(s[k]) for k in ("contrast", "radius", "lat", "lon"))
        d = f"degree {L}, npts={s['points']}, spot_fac={s['sharp']}, contrast={c}, r={r}, lat={la}, lon={lo}"
        want = np.array(fx(s["coef"]))
        # the fit is well conditioned only while the grid resolves the degree
        fit = (2e-9 if x64 else 2e-4) * abs(c)
        try:
            with chk.code("spot", d):
                key = (s["points"], s["sharp"])
                if key not in made:
                    kw = {} if key == (300, 300) and rng.random() < 0.5 else dict(npts=key[0], spot_fac=key[1])
                    made[key] = ylm_spot(L, **kw)
                how = rng.choice(["position", "name", "default", "jit"]) if rng.random() < eager else "jit"
                if how == "default" and la == 0 and lo == 0:
                    y = made[key](c, r)
                elif how == "default" and lo == 0:
                    y = made[key](c, r, la)
                elif how == "name":
                    y = made[key](lon=lo, lat=la, r=r, contrast=c)
                elif how == "jit":
                    if key not in fast:
                        # the expansion may be made inside what is compiled
                        fast[key] = jax.jit(made[key]) if i % 2 else jax.jit(
                            lambda *a, key=key: ylm_spot(L, npts=key[0], spot_fac=key[1])(*a))
                    y = fast[key](c, r, la, lo)
                else:
                    y = made[key](c, r, la, lo)
                dense = np.asarray(y.todense())
            chk.equal("degree", (y.deg, dense.shape), (L, ((L + 1) ** 2,)), d)
            chk.close("coefficients", dense, want, rtol=0, atol=fit + eps * (1 + abs(c)) * (1 + L), detail=d)
            # seen on a map
            pts = np.array([[exact(p[0]), exact(p[1])] for p in s["probes"]])
            val = np.array([fx(p[2]) for p in s["probes"]])
            with chk.code("map", d):
                style = rng.choice(["plain", "normalize", "amplitude"])
                if style == "normalize" and dense[0] > 0.1:
                    surf, unit = Surface(y=y), 1.0
                elif style == "amplitude":
                    surf, unit = Surface(y=y, normalize=False, amplitude=0.5), 0.5
                else:
                    surf, unit = Surface(y=y, normalize=False), 1.0
                got = np.asarray(S.jitted(("point",), lambda: lambda s, a, b: s.intensity(a, b))(S.plain(surf), jnp.asarray(pts[:, 0]), jnp.asarray(pts[:, 1])))
            size = (1 + L) ** 2 * (1 + np.abs(want).sum())
            chk.close("intensity", got * np.pi / unit, val, rtol=0, atol=(fit + eps) * size, detail=f"probes {pts.tolist()}; {d}")
            chk.sample({"spot": d, "coefficients": want.tolist()[:9]})
        except Stop:
            continue
