"""P06 velocities against spec/kepler.qnt (behaviours of spec/orbit_mc.qnt)"""
import numpy as np

from checks.orbits import build, groups, in_unit, seeded, show
from checks.p05 import tol_time
from vt.core import Stop, exact, fx

ID = "P06"
LEVEL = "model_checking"
RULE = ("as P05; amplitudes come from the masses, from a semi-amplitude drawn by the specification (per call, on the "
        "body, with and without units) and from the semi-amplitude the masses imply; distinct by expected vectors. "
        "The invariant of the specification requires its velocities to be the derivatives of its positions")


def jobs(tier, seed):
    n, k = (220, 8) if tier == "quick" else (3000, 32)
    js = [dict(spec="orbit_mc.qnt", steps=n, seed=seed * 3000 + i, invariant="inv") for i in range(k)]
    js.append(dict(spec="orbit_mc.qnt", steps=n // 3, seed=seed * 3000 + 999, x64=False))
    return js


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg
    x64 = job.get("x64", True)
    eps = 5e-15 if x64 else 1e-6
    V = "R_sun/day"
    for i, st, obs in groups(trace):
        if not obs:
            continue
        rng = seeded(job, i)
        d = show(st)
        o = st["orb"]
        chk.at(job, trace, i)
        if not x64 and (fx(o["e"]) > 0.8 or abs(fx(o["ci"])) > 0.9):
            continue
        try:
            with chk.code("construct", d):
                c, b, ob = build(st, rng)
            idx = [k for k, _ in obs]
            ts = np.array([exact(s["inp"]["t"]) for _, s in obs])
            E = {k: np.array([fx(s["out"][k]) for _, s in obs]) for k in obs[0][1]["out"]}
            K = np.array([exact(s["inp"]["K"]) for _, s in obs])
            r = E["r"][:, 0]
            a, e, p, m, mc, mt = (fx(o[k]) for k in ("a", "e", "period", "m", "mc", "mtot"))
            gm = 4 * np.pi ** 2 * a ** 3 / p ** 2
            vmax = 2 * np.pi * a / p / np.sqrt(1 - e * e)
            amp = abs(fx(o["ci"])) / max(abs(fx(o["si"])), 1e-6)
            dt = tol_time(o, ts, eps)
            # acceleration times the time uncertainty, plus rounding
            tol = gm / r ** 2 * dt + vmax * eps * (60 + 4 * amp + 10 / (1 - e))

            def cmp(name, got, want, tol):
                got = np.asarray(got, float).reshape(np.shape(want))
                for n in range(len(ts)):
                    chk.at(job, trace, idx[n])
                    chk.close(name, got[n], want[n], rtol=0, atol=float(tol[n]), detail=f"t={ts[n]!r} {d}")

            def vec(v, unit=V):
                return np.stack([in_unit(g, unit, ureg) for g in v], axis=-1)

            tq = rng.choice([jnp.asarray(ts), ts * ureg.day, (ts * ureg.day).to("hour")])
            with chk.code("relative_velocity", d):
                cmp("relative_velocity", vec(ob.relative_velocity(tq)), E["vrel"], tol)
            with chk.code("velocity", d):
                cmp("velocity", vec(ob.velocity(tq)), E["vbody"], tol)
            if ob.mass is not None:
                with chk.code("central_velocity", d):
                    cmp("central_velocity", vec(ob.central_velocity(tq)), E["vcen"], tol)
                with chk.code("radial_velocity", d):
                    cmp("radial_velocity", in_unit(ob.radial_velocity(tq), V, ureg), E["rv"][:, 0], tol * m / mt)
                # the same signal from the semi-amplitude that the masses imply
                kk = float(E["semiamp"][0, 0])
                with chk.code("equivalent-semiamplitude", d):
                    g = ob.radial_velocity(tq, semiamplitude=kk * ureg(V).units)
                    cmp("equivalent-semiamplitude", in_unit(g, V, ureg), E["rv"][:, 0], 2 * tol * m / mt)
            # a semi-amplitude given per call
            k = rng.randrange(len(ts))
            kv = float(K[k])
            rvk = E["rvk"] * kv / K[:, None]
            t1 = tol / vmax
            how = rng.randrange(3)
            kq = [kv, kv * ureg(V).units, (kv * ureg(V).units).to("m/s")][how]

            def get(q):
                if how == 0:
                    chk.ok("bare-in-bare-out", not hasattr(q, "magnitude"), d, key=d)
                    return np.asarray(getattr(q, "magnitude", q), float)
                return in_unit(q, V, ureg)

            with chk.code("semiamplitude-call", d):
                cmp("semiamplitude-rv", get(ob.radial_velocity(tq, semiamplitude=kq)), rvk[:, 0], t1 * kv)
                cmp("semiamplitude-central", get(ob.central_velocity(tq, semiamplitude=kq)[2]), -rvk[:, 0], t1 * kv)
                chk.at(job, trace, idx[k])
                g = get(ob.radial_velocity(float(ts[k]), semiamplitude=kq))
                chk.close("semiamplitude-scalar", g, E["rvk"][k, 0], rtol=0, atol=float(t1[k] * kv), detail=f"t={ts[k]!r} {d}")
            if ob.mass is not None:
                with chk.code("semiamplitude-call-body", d):
                    q, q2 = ob.velocity(tq, semiamplitude=kq)[2], ob.relative_velocity(tq, semiamplitude=kq)[2]
                    if how:
                        # (without units the ratio of masses makes these quantities)
                        q, q2 = in_unit(q, V, ureg), in_unit(q2, V, ureg)
                    else:
                        q, q2 = (np.asarray(getattr(z, "magnitude", z), float) for z in (q, q2))
                    cmp("semiamplitude-body", q, -rvk[:, 1], t1 * kv * mt / m)
                    cmp("semiamplitude-relative", q2, -rvk[:, 2], t1 * kv * mt / m)
            # ... or with the body
            with chk.code("semiamplitude-attr", d):
                _, _, ob2 = build(st, rng, extra={"radial_velocity_semiamplitude": kv * ureg(V).units if how else kv})
                cmp("semiamplitude-attr-rv", in_unit(ob2.radial_velocity(tq), V, ureg), rvk[:, 0], t1 * kv)
                if ob.mass is not None:
                    cmp("semiamplitude-attr-body", in_unit(ob2.velocity(tq)[2], V, ureg), -rvk[:, 1], t1 * kv * mt / m)
                    cmp("semiamplitude-attr-relative", in_unit(ob2.relative_velocity(tq)[2], V, ureg), -rvk[:, 2], t1 * kv * mt / m)
                # a semi-amplitude given per call wins over the body's
                cmp("semiamplitude-override", in_unit(ob2.radial_velocity(tq, semiamplitude=2 * kv * ureg(V).units), V, ureg),
                    2 * rvk[:, 0], 2 * t1 * kv)
            # parallax turns velocities into proper motions
            pv = exact(obs[k][1]["inp"]["parallax"])
            sc = pv / 215.03215567054764
            with chk.code("parallax-attr", d):
                _, _, ob3 = build(st, rng, extra={"parallax": pv})
                v3 = vec(ob3.relative_velocity(tq), "arcsec/day")
                cmp("parallax-velocity", v3, E["vrel"] * sc, 2 * tol * sc)
                chk.at(job, trace, idx[k])
                # ... but a radial velocity stays a velocity
                if ob.mass is not None:
                    cmp("parallax-rv", in_unit(ob3.radial_velocity(tq), V, ureg), E["rv"][:, 0], tol * m / mt)
                cmp("parallax-semiamplitude", get(ob3.radial_velocity(tq, semiamplitude=kq)), rvk[:, 0], t1 * kv)
                chk.at(job, trace, idx[k])
                chk.close("parallax-velocity-spec", v3[k], E["angvrel"][k], rtol=0, atol=float(2 * tol[k] * sc), detail=d)
            chk.sample({"description": d, "t": float(ts[0]), "relative velocity": E["vrel"][0].tolist()})
        except Stop:
            continue
