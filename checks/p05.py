"""P05 positions against spec/kepler.qnt (behaviours of spec/orbit_mc.qnt)"""
import math

import numpy as np

from checks.orbits import build, groups, in_unit, seeded, show
from vt.core import Stop, exact, fx

ID = "P05"
LEVEL = "model_checking"
RULE = ("behaviours describe the orbit, then ask at times drawn by the specification: anywhere, at transits, at "
        "periastron, in transit, around half an orbit after transit, up to 30 orbits away; distinct by expected vectors")
RT2 = 1.4142135623730951


def jobs(tier, seed):
    n, k = (260, 8) if tier == "quick" else (3000, 32)
    js = [dict(spec="orbit_mc.qnt", steps=n, seed=seed * 2000 + i, invariant="inv") for i in range(k)]
    js.append(dict(spec="orbit_mc.qnt", steps=n // 3, seed=seed * 2000 + 999, x64=False))
    return js


def tol_time(o, ts, eps):
    """uncertainty of the time since periastron"""
    return 8 * eps * (np.abs(ts) + abs(fx(o["tTransit"])) + fx(o["period"]) * 7)


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg
    x64 = job.get("x64", True)
    eps = 5e-15 if x64 else 1e-6
    for i, st, obs in groups(trace):
        if not obs:
            continue
        rng = seeded(job, i)
        d = show(st)
        o = st["orb"]
        chk.at(job, trace, i)
        if not x64 and (fx(o["e"]) > 0.8 or abs(fx(o["ci"])) > 0.9):
            continue
        try:
            with chk.code("construct", d):
                c, b, ob = build(st, rng)
            idx = [k for k, _ in obs]
            ts = np.array([exact(s["inp"]["t"]) for _, s in obs])
            E = {k: np.array([fx(s["out"][k]) for _, s in obs]) for k in obs[0][1]["out"]}
            speed = np.linalg.norm(E["vrel"], axis=1)
            a = fx(o["a"])
            amp = abs(fx(o["ci"])) / max(abs(fx(o["si"])), 1e-6)
            tol = speed * tol_time(o, ts, eps) + E["r"][:, 0] * eps * (60 + 4 * amp) + a * eps * 30 / (1 - fx(o["e"]))

            def cmp(name, got, want, tol, shape=None):
                got = np.stack([in_unit(g, unit, ureg) for g in got], axis=-1).reshape(len(ts), -1) if shape is None else got
                for n in range(len(ts)):
                    chk.at(job, trace, idx[n])
                    chk.close(name, got[n], want[n], rtol=0, atol=float(tol[n]), detail=f"t={ts[n]!r} {d}")

            unit = "R_sun"
            tq = rng.choice([jnp.asarray(ts), ts, ts * ureg.day, (ts * ureg.day).to("hour"), jnp.asarray(ts) * ureg.day])
            with chk.code("relative_position", d):
                cmp("relative_position", ob.relative_position(tq), E["rel"], tol)
            with chk.code("position", d):
                cmp("position", ob.position(tq), E["body"], tol)
            if ob.mass is not None:
                with chk.code("central_position", d):
                    cmp("central_position", ob.central_position(tq), E["cen"], tol)
            with chk.code("relative_angles", d):
                rho, th = ob.relative_angles(tq)
                rho, th = in_unit(rho, "R_sun", ureg), in_unit(th, "radian", ureg)
                wr, wt = E["rho"][:, 0], E["rho"][:, 1]
                cmp("separation", rho[:, None], wr[:, None], 3 * tol, shape=0)
                xy = np.stack([rho * np.cos(th), rho * np.sin(th)], -1)
                cmp("position-angle", xy, E["rel"][:, :2], 3 * tol + 1e-15 * wr, shape=0)
            # parallax turns lengths into angles, whether given per call or with the body
            plx = np.array([exact(s["inp"]["parallax"]) for _, s in obs])
            rad = 1 / 215.03215567054764
            unit = "arcsec"
            k = rng.randrange(len(ts))
            pv = float(plx[k])
            with chk.code("parallax-call", d):
                pq = rng.choice([pv, pv * ureg.arcsec, (pv * ureg.arcsec).to("milliarcsecond")])
                cmp("parallax-relative", ob.relative_position(tq, parallax=pq), E["rel"] * pv * rad, tol * pv * rad * 2)
                chk.at(job, trace, idx[k])
                got = [in_unit(g, "arcsec", ureg) for g in ob.relative_position(ts[k], parallax=pq)]
                chk.close("parallax-angle", got, E["angrel"][k], rtol=0, atol=float(2 * tol[k] * pv * rad), detail=d)
            with chk.code("parallax-body", d):
                _, _, ob2 = build(st, rng, extra={"parallax": pv * ureg.arcsec})
                cmp("parallax-attr", ob2.position(tq), E["body"] * pv * rad, 2 * tol * pv * rad)
                if ob.mass is not None:
                    cmp("parallax-attr-central", ob2.central_position(tq), E["cen"] * pv * rad, 2 * tol * pv * rad)
                # the call has the last word
                chk.at(job, trace, idx[k])
                twice = rng.choice([2 * pv, 2 * pv * ureg.arcsec])
                cmp("parallax-both", ob2.relative_position(tq, parallax=twice), E["rel"] * 2 * pv * rad, 4 * tol * pv * rad)
                cmp("parallax-both-position", ob2.position(tq, parallax=twice), E["body"] * 2 * pv * rad, 4 * tol * pv * rad)
                if ob.mass is not None:
                    cmp("parallax-both-central", ob2.central_position(tq, parallax=twice), E["cen"] * 2 * pv * rad, 4 * tol * pv * rad)
                    cmp("parallax-call-central", ob.central_position(tq, parallax=pq), E["cen"] * pv * rad, 2 * tol * pv * rad)
                cmp("parallax-call-position", ob.position(tq, parallax=pq), E["body"] * pv * rad, 2 * tol * pv * rad)
                both = rng.random() < 0.5
                rho, th = ob2.relative_angles(tq, parallax=twice) if both else ob2.relative_angles(tq)
                rho = in_unit(rho, "arcsec", ureg) / (2 if both else 1)
                cmp("parallax-separation", rho[:, None], wr[:, None] * pv * rad, 4 * tol * pv * rad, shape=0)
            # one time at a time
            unit = "R_sun"
            n = rng.randrange(len(ts))
            with chk.code("scalar-time", d):
                chk.at(job, trace, idx[n])
                got = [in_unit(g, "R_sun", ureg) for g in ob.relative_position(float(ts[n]))]
                chk.close("scalar-time", got, E["rel"][n], rtol=0, atol=float(tol[n]), detail=f"t={ts[n]!r} {d}")
            # the supplied angular elements may be turned by whole turns
            chk.sample({"description": d, "t": float(ts[0]), "relative position": E["rel"][0].tolist()})
        except Stop:
            continue
