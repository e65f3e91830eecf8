"""P24 emission light curves (spec/system_mc.qnt stepEmission)"""
import numpy as np

from checks import systems as S
from checks.orbits import seeded
from checks.p11 import budget
from vt.core import Stop, exact, fx

ID = "P24"
LEVEL = "model_checking"
RULE = ("systems of 1-3 shining bodies with laws of 0-4 coefficients and any amplitudes; times in transit, in eclipse, "
        "at conjunctions, anywhere; distinct by expected fluxes")


def jobs(tier, seed):
    n, k = (105, 8) if tier == "quick" else (2000, 32)
    js = [dict(spec="system_mc.qnt", step="stepEmission", steps=n, seed=seed * 620 + i, invariant="inv") for i in range(k)]
    js.append(dict(spec="system_mc.qnt", step="stepEmission", steps=n // 2, seed=seed * 620 + 599, x64=False))
    return js


def surface(amp, u, rng):
    """a limb-darkened disc of amplitude amp, in one of the ways to say so"""
    import jax.numpy as jnp
    from jaxoplanet.starry import Surface, Ylm
    u = rng.choice([tuple(u), list(u), jnp.asarray(u, dtype=float)])
    extra = {}
    if rng.random() < 0.4:
        extra["period"] = 3.0
    if rng.random() < 0.3:
        extra["inc"] = None
    if rng.random() < 0.5:
        return Surface(u=u, amplitude=amp, normalize=False, **extra)
    return Surface(u=u, y=Ylm({(0, 0): amp}), **extra)


def run_trace(job, trace, chk):
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.starry.light_curves import light_curve as mapped
    from jaxoplanet.starry.orbit import SurfaceBody, SurfaceSystem
    from jaxoplanet.units import unit_registry as ureg
    x64 = job.get("x64", True)
    eps = 5e-15 if x64 else 1e-6
    for i, st, obs in S.groups(trace):
        if not obs:
            continue
        rng = seeded(job, i)
        d = S.show(st)
        chk.at(job, trace, i)
        n = len(st["bodies"])
        rc = S.radius(st)
        ls = [exact(st["cu"])] + [exact(b["u"]) for b in st["bodies"]]
        amps = [exact(st["camp"])] + [exact(b["amp"]) for b in st["bodies"]]
        # a star given no surface at all is a uniform disc of amplitude one
        bare = not ls[0] and rng.random() < 0.3
        if bare:
            amps[0] = 1.0
        try:
            with chk.code("construct", d):
                c, bodies = S.parts(st, rng)
                surf = [surface(a, u, rng) for a, u in zip(amps, ls)]
                cs = None if bare else surf[0]
                if rng.random() < 0.5:
                    sysm = SurfaceSystem(c, cs, bodies=list(zip(bodies, surf[1:])))
                else:
                    sysm = SurfaceSystem(c, cs)
                    for b, s in zip(bodies, surf[1:]):
                        sysm = sysm.add_body(b, surface=s)
            ts = S.times(obs)
            order = rng.choice([None, 20, 100])
            kw = {} if order is None else {"order": order}
            want = np.array([fx(s["flux"]) for _, s in obs])
            if bare:
                want[:, 0] /= fx(st["camp"])
            tq = rng.choice([ts, ts * ureg.day, (ts * ureg.day).to("hour")])
            for name, f in (("emission", emission), ("map", mapped)):
                # any entry whose geometry is too close to a change of sides to call is skipped
                with chk.code(name, d):
                    g = np.asarray(f(sysm, **kw)(tq))
                chk.ok(name + "-shape", g.shape == want.shape, f"{g.shape}, specification says {want.shape}; {d}", key=(d, name))
                if g.shape != want.shape:
                    continue
                o = order or (10 if name == "emission" else 20)
                for j, (k, s) in enumerate(obs):
                    chk.at(job, trace, k)
                    err = [S.position_error(st, s, m, eps) for m in range(n)]
                    for m in range(n + 1):
                        who = range(n) if m == 0 else [m - 1]
                        if any(abs(fx(s["seen"][w]["z"])) < 1e-6 * fx(st["bodies"][w]["o"]["a"]) for w in who):
                            continue
                        if m == 0:
                            rel = sum(err) / rc
                            big = max(fx(b["r"]) for b in st["bodies"]) / rc
                        else:
                            rel = err[m - 1] / fx(st["bodies"][m - 1]["r"])
                            big = rc / fx(st["bodies"][m - 1]["r"])
                        if rel > 1e-2 or (not x64 and big > 20):
                            continue
                        base = budget(ls[m], o, 3e-14 if x64 else 3e-6) * (1 if m else n)
                        tol = amps[m] * (base + 4 * rel + (3e-14 if x64 else 3e-6) * (1 + big ** 2))
                        dd = f"t={ts[j]!r} entry {m} order={order}; {d}"
                        chk.close(name, g[j, m], want[j, m], rtol=0, atol=tol, detail=dd)
            chk.sample({"system": d, "t": ts[:2].tolist(), "flux": want[:2].tolist()})
        except Stop:
            continue
