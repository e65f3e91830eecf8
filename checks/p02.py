"""P02 acceptance of descriptions: spec/describe.qnt enumerates every form"""
import random

import numpy as np

from vt.core import Stop

ID = "P02"
LEVEL = "model_checking"
RULE = ("spec/describe.qnt enumerates all 2^17 subsets of the body's arguments (every subset is one state, all are "
        "constructed for real) and adds random forms with arrays and every central form; distinct by the form")
VALS = dict(period=3.25, semimajor=11.5, inclination=1.5, impact_param=0.375, eccentricity=0.25, omega_peri=-0.75,
            sin_omega_peri=0.6, cos_omega_peri=-0.8, asc_node=2.25, sin_asc_node=-0.28, cos_asc_node=0.96,
            time_transit=-1.75, time_peri=4.5, mass=0.125, radius=0.0625, radial_velocity_semiamplitude=0.03125,
            parallax=0.015625, density=1.75)
UNIT = dict(period="day", semimajor="R_sun", inclination="radian", omega_peri="radian", asc_node="radian",
            time_transit="day", time_peri="day", mass="M_sun", radius="R_sun", parallax="arcsec",
            radial_velocity_semiamplitude="R_sun/day", density="M_sun/R_sun**3")
OTHER = dict(period=("hour", 24.0), inclination=("degree", 180 / np.pi), time_peri=("hour", 24.0),
             mass=("g", None), radius=("km", None), semimajor=("au", None))


def jobs(tier, seed):
    js = [dict(spec="describe.qnt", init=f"init{i}", step="advance", steps=8191, seed=seed, invariant="inv",
               tag=f"all{i}", cost=8) for i in range(16)]
    n = 8 if tier == "quick" else 80
    js += [dict(spec="describe.qnt", step="fill", steps=800, seed=seed * 77 + i, invariant="inv", tag="fill",
                cost=3) for i in range(n)]
    return js


def value(name, style, ureg, arr, rng):
    v = VALS[name]
    if arr:
        v = np.full(rng.choice([(1,), (2,), (1, 1)]), v)
    if style == 0 or name not in UNIT:
        return v, VALS[name]
    if style == 1:
        return v * ureg(UNIT[name]).units, VALS[name]
    return (v * ureg(UNIT[name]).units).to(OTHER[name][0] if name in OTHER else UNIT[name]), VALS[name]


def run_trace(job, trace, chk):
    from jaxoplanet.orbits.keplerian import Body, Central
    from jaxoplanet.units import unit_registry as ureg
    exhaustive = job.get("step") == "advance"
    for i, st in enumerate(trace):
        chk.at(job, trace, i)
        names = list(st["given"])
        rng = random.Random(st["n"] * 1000003 + i)
        rng.shuffle(names)
        kw = {}
        for k in names:
            kw[k] = value(k, 0 if exhaustive and st["n"] % 7 else rng.randrange(3), ureg, k in st["arrays"], rng)[0]
        cls = Body if st["who"] == "body" else Central
        form = f"{cls.__name__}({', '.join(sorted(names))}; arrays: {sorted(st['arrays'])})"
        # an argument given as None is an argument left out
        if rng.random() < 0.2:
            for k in (VALS if cls is Body else ("mass", "radius", "density")):
                if k not in kw and k != "density" and rng.random() < 0.5:
                    kw[k] = None
            if cls is Body:
                kw.pop("density", None)
        if not st["accepted"]:
            chk.raises("rejected", ValueError, lambda: cls(**kw), form)
            continue
        try:
            with chk.code("accepted", form):
                b = cls(**kw)
                chk.ok("accepted", True, key=form)
            for k in names:
                got = getattr(b, k)
                chk.close("kept", got.magnitude, VALS[k], rtol=1e-14, atol=0, detail=f"{form}: {k}")
            if cls is Body and (i % 17 == 0 or not exhaustive):
                for k in VALS:
                    if k not in names and k != "density":
                        chk.ok("absent-stays-absent", getattr(b, k) is None, f"{form}: {k} = {getattr(b, k)!r}")
        except Stop:
            pass
    chk.sample({"form": sorted(trace[-1]["given"]), "accepted": trace[-1]["accepted"]})
