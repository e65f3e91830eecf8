"""P04 derived elements against spec/kepler.qnt (descriptions from spec/orbit_mc.qnt)"""
import math

from checks.orbits import build, dress, seeded, show
from vt.core import Stop, exact, fx

ID = "P04"
LEVEL = "model_checking"
RULE = ("descriptions drawn by the specification from all accepted combinations of arguments (5 kinds of central, "
        "period/semi-major axis, mass classes, 4 eccentricity classes, angles or sine/cosine pairs including quarter "
        "turns, inclination/impact parameter of either sign/neither, reference times); distinct by expected elements")


def jobs(tier, seed):
    n, k = (220, 8) if tier == "quick" else (3000, 32)
    js = [dict(spec="orbit_mc.qnt", step="stepDescribe", steps=n, seed=seed * 1000 + i, invariant="inv")
          for i in range(k)]
    js.append(dict(spec="orbit_mc.qnt", step="stepDescribe", steps=n // 4, seed=seed * 1000 + 999, x64=False))
    return js


def run_state(job, st, chk):
    from jaxoplanet.orbits.keplerian import Central
    from jaxoplanet.units import unit_registry as ureg
    i = chk.ctx[2]
    rng = seeded(job, i)
    eps = 1.0 if job.get("x64", True) else 4e8
    d = show(st)
    o = {k: (fx(v) if isinstance(v, int) and not isinstance(v, bool) else v) for k, v in st["orb"].items()}
    out = {k: fx(v) for k, v in st["out"].items()}
    with chk.code("construct", d):
        c, b, ob = build(st, rng)
    # everything that was supplied is kept
    for k, v in st["desc"].items():
        tol = 1e-14 * eps
        if hasattr(ob, k) and k not in ("inclination", "omega_peri", "asc_node", "time_peri"):
            chk.close("supplied-kept", getattr(ob, k).magnitude, exact(v), rtol=tol, atol=1e-300, detail=f"{k}: {d}")
        chk.close("body-kept", getattr(b, k).magnitude, exact(v), rtol=tol, atol=1e-300, detail=f"{k}: {d}")

    def close(name, q, want, unit, rtol=1e-12, atol=0.0):
        with chk.code(name, d):
            got = q.to(ureg(unit).units).magnitude
        chk.close(name, got, want, rtol=rtol * eps, atol=(atol + 1e-300) * eps, detail=d)

    mc, rc, rho = out["central"]
    close("central-mass", c.mass, mc, "M_sun")
    close("central-radius", c.radius, rc, "R_sun")
    close("central-density", c.density, rho, "M_sun/R_sun**3")
    close("central-of-body", ob.central.mass, mc, "M_sun")
    close("central_radius", ob.central_radius, rc, "R_sun")
    p, a, mt = out["kepler"]
    close("period", ob.period, p, "day")
    close("semimajor", ob.semimajor, a, "R_sun")
    close("total_mass", ob.total_mass, mt, "M_sun")
    sw, cw, so, co = out["angles"]
    if o["ecc"]:
        close("eccentricity", ob.eccentricity, o["e"], "dimensionless")
        close("sin_omega_peri", ob.sin_omega_peri, sw, "dimensionless", atol=1e-14)
        close("cos_omega_peri", ob.cos_omega_peri, cw, "dimensionless", atol=1e-14)
        w = ob.omega_peri.magnitude
        chk.close("omega_peri", [math.sin(w), math.cos(w)], [sw, cw], rtol=0, atol=1e-13 * eps, detail=d)
    else:
        chk.ok("circular", ob.eccentricity is None and ob.omega_peri is None, d, key=d)
    if "asc_node" in st["desc"] or "sin_asc_node" in st["desc"]:
        close("sin_asc_node", ob.sin_asc_node, so, "dimensionless", atol=1e-14)
        close("cos_asc_node", ob.cos_asc_node, co, "dimensionless", atol=1e-14)
    si, ci, imp = out["incl"]
    close("cos_inclination", ob.cos_inclination, ci, "dimensionless", atol=1e-14)
    amp = abs(ci) / max(abs(si), 1e-7)
    close("sin_inclination", ob.sin_inclination, si, "dimensionless", atol=1e-14 * (1 + amp))
    inc = ob.inclination.magnitude
    chk.close("inclination", [math.sin(inc), math.cos(inc)], [si, ci], rtol=0, atol=(1 + amp) * 1e-13 * eps, detail=d)
    # cos i is only as good as the (declared) inclination, and the ratio a/R scales that up
    close("impact_param", ob.impact_param, imp, "dimensionless", atol=1e-14 * a / rc)
    tt, tp, dt = out["times"]
    scale = 1e-12 * (abs(tt) + abs(tp) + p)
    got_dt = float((ob.time_peri - ob.time_transit).magnitude)
    if abs(abs(dt) - p / 2) < 1e-6 * p and abs(got_dt + dt) < 1e-4 * p:
        # half an orbit apart: half an orbit before is as right as half an orbit after
        tp, tt, dt = ((tp - 2 * dt, tt, -dt) if "time_peri" not in st["desc"] else (tp, tt + 2 * dt, -dt))
    close("time_transit", ob.time_transit, tt, "day", atol=scale)
    close("time_peri", ob.time_peri, tp, "day", atol=scale)
    chk.close("peri-minus-transit", got_dt, dt, rtol=0, atol=scale * eps, detail=d)
    # the same central from the orbital properties of its body
    kw = dict(period=dress("period", p, rng.randrange(4), ureg), semimajor=dress("semimajor", a, rng.randrange(4), ureg))
    r = rng.choice([None, rc])
    if r is not None:
        kw["radius"] = dress("radius", r, rng.randrange(4), ureg)
    if "mass" in st["desc"]:
        kw["body_mass"] = dress("mass", exact(st["desc"]["mass"]), rng.randrange(4), ureg)
    with chk.code("from_orbital_properties", d):
        c2 = Central.from_orbital_properties(**kw)
    close("from-orbit-mass", c2.mass, out["fromorb"][0], "M_sun", atol=1e-12 * mt)
    close("from-orbit-radius", c2.radius, 1.0 if r is None else r, "R_sun")
    want = 3 * out["fromorb"][0] / (4 * math.pi * (1.0 if r is None else r) ** 3)
    close("from-orbit-density", c2.density, want, "M_sun/R_sun**3", rtol=1e-12 * (1 + mt / out["fromorb"][0]))
    chk.sample({"description": d, "period": p, "a": a, "b": imp, "t_peri": tp})
