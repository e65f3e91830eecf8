"""P23 velocity of the light of a rotating surface (spec/surface_mc.qnt stepSpeed)"""
import numpy as np

from checks import surfaces as S
from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P23"
LEVEL = "model_checking"
RULE = ("rotating maps of degree 0-10 with 0-3 limb-darkening coefficients, in any orientation, of any radius, period and amplitude; "
        "occultors of any size at the centre, on and next to every contact, in every direction, before and behind, or absent; systems of "
        "1-3 bodies for the motion of the central; distinct by expected velocity")

FORMS_QUICK = ["00", "03", "10", "12", "21", "30", "42"]
FORMS = FORMS_QUICK + ["20", "33", "52", "60", "72", "A1"]


def jobs(tier, seed):
    js = []
    forms, n, reps = (FORMS_QUICK, 50, 1) if tier == "quick" else (FORMS, 250, 3)
    for rep in range(reps):
        for k, f in enumerate(forms):
            js.append(dict(spec="surface_mc.qnt", init="init" + f, step="stepSpeed", steps=n, seed=seed * 1230 + 100 * rep + k, invariant="inv",
                           cost=4 + int(f[0], 16)))
    js.append(dict(spec="surface_mc.qnt", init="init21", step="stepSpeed", steps=n, seed=seed * 1230 + 90, x64=False, cost=5))
    for k in range(2 if tier == "quick" else 16):
        js.append(dict(spec="surface_system_mc.qnt", step="stepMoving", steps=40 if tier == "quick" else 200, seed=seed * 1230 + 900 + k,
                       invariant="inv", history=True, cost=9))
    js.append(dict(spec="surface_system_mc.qnt", step="stepTwo", steps=3, seed=1, invariant="inv", history=True, cost=4))
    return js


def system_trace(job, trace, chk):
    """systems: the rotation signal of every surface, and the motion of the central (spec/surface_system_mc.qnt)"""
    from checks import p22
    from jaxoplanet.starry.doppler import radial_velocity
    from jaxoplanet.units import unit_registry as ureg
    eps = 5e-15
    hist = None
    for kind, obs in p22.visits(trace):
        i, st = obs[0]
        rng = seeded(job, i)
        chk.at(job, trace, i)
        if kind == "begin":
            hist = p22.History(st, rng)
            for b in st["bodies"]:
                hist.add(b, rng)
            continue
        if hist is None:
            continue
        d = p22.show(st, len(st["bodies"]))
        if kind == "add":
            with chk.code("body", d):
                hist.add(st["bodies"][-1], rng)
            continue
        n = st["upto"]
        with chk.code("system", d):
            sysm = hist.make(n, st["made"], rng)
        ts = np.array([exact(s["t"]) for _, s in obs])
        tq = rng.choice([ts, ts * ureg.day, (ts * ureg.day).to("hour")])
        order = rng.choice([None, 60])
        with chk.code("system velocity", d):
            g = np.asarray(radial_velocity(sysm, **({} if order is None else {"order": order}))(tq))
        want = np.array([fx(s["speeds"]) for _, s in obs])
        if not chk.ok("shape", g.shape == want.shape, f"{g.shape}, specification says {want.shape}; {d}", key=(d,)):
            continue
        for j, (k, s) in enumerate(obs):
            chk.at(job, trace, k)
            rc = p22.radius_of(s) if n else 1.0
            front = sum(fx(s["seen"][w]["z"]) > 0 and fx(s["seen"][w]["sep"]) < rc + fx(s["bodies"][w]["r"]) for w in range(n))
            for m, tol in enumerate(p22.tolerances(st, s, n, order or 20, eps)):
                surf = s["csurf"] if m == 0 else p22.shining(s["bodies"][m - 1])
                light = abs(fx(s["lights"][m])) * (1.0 if m else (1.0 if surf["normalize"] else fx(surf["amp"])) / 3.15)
                if tol is None:
                    continue
                name = "central" if m == 0 else "body"
                if surf["kind"] == 0 and m:
                    chk.close("dark body", g[j, m], 0.0, rtol=0, atol=0, detail=d)
                    continue
                veq = 2 * np.pi * fx(surf["radius"]) / fx(surf["period"]) if surf["rotates"] else 0
                orb = sum(fx(b["o"]["m"]) / fx(b["o"]["mtot"]) * fx(v["speed"]) / (1 - fx(b["o"]["e"]))
                          for b, v in zip(s["bodies"][:n], s["seen"])) if m == 0 else 0
                if light < 1e-3 * tol:
                    continue
                tol = tol / light * veq + 1e-9 * orb + 1e-13
                if tol > 1e-3 * (veq + orb) + 1e-12:
                    continue
                dd = f"t={ts[j]!r}, first {n} bodies, entry {m}, order={order}; {d}"
                if m == 0 and front > 1:
                    # the known finding, exactly: anomalies added up instead of averaged
                    if abs(g[j, m] - want[j, m]) > tol and abs(g[j, m] - fx(s["summed"])) <= tol:
                        chk.ok(SUMMED, False, f"got {g[j, m]!r}, specification says {want[j, m]!r}. {dd}")
                        continue
                    name = "central behind several"
                chk.close(name, g[j, m], want[j, m], rtol=0, atol=tol, detail=dd)


SUMMED = "central behind several, anomalies summed"


def finding_of(v):
    return "simultaneous-occultors" if v["clause"] == SUMMED else None


def call(surf, theta, o, order, how, omit=(), **kw):
    import jax.numpy as jnp
    from jaxoplanet.starry.doppler import surface_radial_velocity as f
    if o is None:
        if how == "eager":
            return f(surf, theta=theta, **kw)
        if theta is None:
            return S.jitted(("free", None), lambda: lambda s: f(s))(surf)
        return S.jitted(("free", 1), lambda: lambda s, t: f(s, theta=t))(surf, jnp.asarray(theta))
    r, x, y, z = o
    if omit:
        # what is zero may be left out
        a = {k: jnp.asarray(v, dtype=float) for k, v in zip("rxyz", o) if k not in omit}
        if theta is not None:
            a["theta"] = jnp.asarray(theta)
        return S.jitted(("omit", tuple(sorted(a)), order), lambda: lambda s, a: f(s, order=order, **a))(surf, a)
    if how == "eager":
        return f(surf, r, x, y, z, theta, order, **kw)
    a = [jnp.asarray(v, dtype=float) for v in (r, x, y, z)]
    od = {} if order == 20 else {"order": order}
    if theta is None:
        return S.jitted(("occ", None, order), lambda: lambda s, r, x, y, z: f(s, r=r, x=x, y=y, z=z, **od))(surf, *a)
    return S.jitted(("occ", 1, order), lambda: lambda s, r, x, y, z, t: f(s, r, x, y, z, t, **od))(surf, *a, jnp.asarray(theta))


def run_trace(job, trace, chk):
    if job["spec"] == "surface_system_mc.qnt":
        return system_trace(job, trace, chk)
    x64 = job.get("x64", True)
    eps = 1e-15 if x64 else 2e-6
    for group in S.groups(trace):
        i, st = group[0]
        rng = seeded(job, i)
        chk.at(job, trace, i)
        d = S.show(st)
        order = 20 if rng.random() < 0.3 else 100
        try:
            with chk.code("construct", d):
                surf, sparse = S.build(st, rng)
                flat = S.plain(surf)
            L, U = st["form"]["L"], st["form"]["U"]
            veq = 2 * 3.141592653589793 * fx(st["surf"]["radius"]) / fx(st["surf"]["period"])
            chk.close("equatorial velocity", surf.veq, veq, rtol=1e-14 if x64 else 1e-6, atol=0, detail=d)
            for k, s in group:
                if s["act"] != "occult":
                    continue
                chk.at(job, trace, k)
                rng = seeded(job, k)
                given = s["form"]["theta"]
                th = fx(s["theta"]) if given else None
                o = None if not s["occ"]["there"] else [exact(s["occ"][c]) for c in "rxyz"]
                # what is left to see: hardly any light leaves the velocity undefined
                light = abs(fx(s["light"]))
                tol = S.budget(s, order if o is not None else 1e9, eps) * veq / light if light > 0 else 1
                if tol > 1e-3 * veq:
                    continue
                eager = rng.random() < (0.03 if L <= 3 else 0.005)
                dd = f"theta={th}, occultor r, x, y, z = {o} ({s['kind']}), order={order}; {d}"
                with chk.code("velocity", dd):
                    got = call(surf if eager else flat, th, o, order, "eager" if eager else "jit", S.omitted(o, rng, L))
                chk.close("occulted" if o is not None else "whole", got, fx(s["speed"]), rtol=0, atol=tol, detail=dd)
                if rng.random() < 0.02 and L + U <= 4 and x64 and order == 100:
                    with chk.code("higher precision", dd):
                        got = call(surf, th, o, order, "eager", higher_precision=True)
                    chk.close("higher precision", got, fx(s["speed"]), rtol=0, atol=tol, detail=dd)
            chk.sample({"surface": d, "kinds": [s["kind"] for _, s in group], "velocity": [fx(s["speed"]) for _, s in group]})
        except Stop:
            continue
