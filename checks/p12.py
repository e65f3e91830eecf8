"""P12 light curves of orbits (spec/system_mc.qnt stepLight; spec/light_transit_mc.qnt)"""
import numpy as np

from checks import systems as S
from checks import transits as T
from checks.orbits import seeded
from checks.p11 import budget
from vt.core import Stop, exact, fx

ID = "P12"
LEVEL = "model_checking"
RULE = ("systems of 1-3 bodies (described alike or differently), transit orbits and orbits with timing variations, "
        "stars of any radius; times in transit, in eclipse, at conjunctions, anywhere; distinct by expected flux")


def jobs(tier, seed):
    n, k = (92, 6) if tier == "quick" else (2000, 24)
    js = [dict(spec="system_mc.qnt", step="stepLight", steps=n, seed=seed * 610 + i, invariant="inv", tag="kepler")
          for i in range(k)]
    js += [dict(spec="light_transit_mc.qnt", init="initLight", step=s, steps=n, seed=seed * 610 + 300 + i, tag=s)
           for i in range(k // 3) for s in ("stepTransitLight", "stepTtvLight")]
    js.append(dict(spec="system_mc.qnt", step="stepLight", steps=n // 2, seed=seed * 610 + 599, x64=False, tag="kepler"))
    return js


def laws(u, rng, jnp):
    """ways to pass the coefficients"""
    if not u:
        return rng.choice([(), ([],)])
    k = rng.randrange(5)
    if k == 0:
        return tuple(u)
    if k == 1:
        return (u,)
    if k == 2:
        return (jnp.asarray(u),)
    if k == 3:
        return (u[0], u[1:]) if len(u) > 1 else (u[0],)
    return tuple(jnp.asarray(v) for v in u)


def check(chk, job, trace, orbit, u, obs, n, want, tol, skip, d, rng, flat=False):
    """compare the light curve at all times in several call styles"""
    import jax
    import jax.numpy as jnp
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.units import unit_registry as ureg
    ts = S.times(obs)
    order = rng.choice([None, 10, 20, 50, 100])
    kw = {} if order is None else {"order": order}
    with chk.code("light_curve", d):
        f = light_curve(orbit, *laws(u, rng, jnp), **kw)
        shape = (-1, 1) if rng.random() < 0.3 else (2, -1) if len(ts) % 2 == 0 and rng.random() < 0.5 else (-1,)
        tq = ts.reshape(shape)
        tq = rng.choice([tq, jnp.asarray(tq), tq * ureg.day, (tq * ureg.day).to("hour"), jnp.asarray(tq) * ureg.day])
        got = f(tq)
        got = np.asarray(getattr(got, "magnitude", got))
    wshape = ts.reshape(shape).shape + tuple(orbit.shape)
    chk.ok("shape", got.shape == wshape, f"{got.shape}, specification says {wshape}; {d}", key=(d, wshape))
    if got.size != len(ts) * n:
        return
    got = got.reshape(len(ts), n)
    base = budget(u, order or 10, 3e-14 if job.get("x64", True) else 3e-6)
    k = rng.randrange(len(ts))
    with chk.code("scalar", d):
        one = np.asarray(f(rng.choice([float(ts[k]) * ureg.day, jnp.asarray(ts[k]), jnp.asarray(ts[k] * 24) * ureg.hour])))
        one = one.reshape(-1)
    chk.ok("scalar-shape", one.shape == (n,), f"{one.shape} {d}", key=d)
    for j, (i, s) in enumerate(obs):
        for m in range(n):
            if skip[j][m]:
                continue
            chk.at(job, trace, i)
            dd = f"t={ts[j]!r} body {m} order={order}; {d}"
            if want[j][m] == 0:
                chk.close("nothing", got[j, m], 0.0, rtol=0, atol=base * 1e-3 + tol[j][m] if tol[j][m] > 1e-9 else 1e-9, detail=dd)
            chk.close("flux", got[j, m], want[j][m], rtol=0, atol=base + tol[j][m], detail=dd)
            if j == k and one.size == n:
                chk.close("flux-scalar", one[m], want[j][m], rtol=0, atol=base + tol[j][m], detail=dd)


def run_trace(job, trace, chk):
    x64 = job.get("x64", True)
    eps = 5e-15 if x64 else 1e-6
    if job["tag"] != "kepler":
        return run_transit(job, trace, chk)
    from jaxoplanet.orbits.keplerian import System
    for i, st, obs in S.groups(trace):
        if not obs:
            continue
        rng = seeded(job, i)
        d = S.show(st)
        chk.at(job, trace, i)
        n = len(st["bodies"])
        u = exact(st["cu"])
        rc = S.radius(st)
        try:
            with chk.code("construct", d):
                c, bodies = S.parts(st, rng)
                orb = System(c, bodies=bodies)
                single = rng.randrange(n)
                ob = orb.bodies[single]
            want = [fx(s["flux"]) for _, s in obs]
            err = [[S.position_error(st, s, m, eps) / rc for m in range(n)] for _, s in obs]
            tol = [[min(1.0, 4 * e) for e in row] for row in err]
            skip = [[abs(fx(s["seen"][m]["z"])) < 1e-6 * fx(st["bodies"][m]["o"]["a"]) or (not x64 and err[j][m] > 1e-2)
                     for m in range(n)] for j, (_, s) in enumerate(obs)]
            check(chk, job, trace, orb, u, obs, n, want, tol, skip, d, rng)
            if n == 1 or rng.random() < 0.5:
                continue
            # a body on its own
            pick = lambda rows: [[r[single]] for r in rows]
            check(chk, job, trace, ob, u, obs, 1, pick(want), pick(tol), pick(skip), d + f" body {single} alone", rng)
            chk.sample({"system": d, "t": S.times(obs)[:2].tolist(), "flux": want[:2]})
        except Stop:
            continue


def run_transit(job, trace, chk):
    eps = 5e-15
    groups = []
    for i, st in enumerate(trace):
        if st["act"] == "describe":
            groups.append((i, st, []))
        elif st["act"] == "measure" and groups:
            groups[-1][2].append((i, st))
    for i, st, obs in groups:
        if not obs:
            continue
        rng = seeded(job, i)
        u = exact(st["law"])
        d = f"u={u} " + T.show(st)
        chk.at(job, trace, i)
        n = len(st["planets"])
        try:
            with chk.code("construct", d):
                orb = (T.build_transit if st["kind"] == "transit" else T.build_ttv)(st, rng)
            want = [fx(s["flux"]) for _, s in obs]
            tol, skip = [], []
            for _, s in obs:
                a, b = [], []
                for m, p in enumerate(s["planets"]):
                    dt = 400 * eps * (abs(fx(s["t"])) + abs(fx(p["t0"])) + 2 * fx(p["shape"]["period"])
                                      + max([abs(v) for v in fx(p["tt"])] or [0]))
                    half = fx(p["shape"]["speed"]) * fx(p["shape"]["duration"]) / 2
                    a.append(4 * dt * fx(p["shape"]["speed"]) + 1e-12 / max(half, 1e-6))
                    b.append(fx(s["seen"][m]["margin"]) < 4 * dt + 1e-9)
                tol.append(a)
                skip.append(b)
            if st["kind"] == "transit" or n == 1:
                check(chk, job, trace, orb, u, obs, n, want, tol, skip, d, rng)
            else:
                check(chk, job, trace, orb, u, obs, n, want, tol, skip, d, rng)
        except Stop:
            continue
