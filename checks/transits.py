"""Build TransitOrbit / TTVOrbit from the descriptions of spec/transit_mc.qnt"""
import numpy as np

from vt.core import exact, fx

UNIT = dict(period="day", duration="day", speed="1/day", time_transit="day")
ALT = dict(period="hour", duration="minute", speed="1/hour", time_transit="hour")


def dress(name, v, style, ureg):
    import jax.numpy as jnp
    if style == 0 or name not in UNIT:
        return v
    if style == 1:
        return v * ureg(UNIT[name]).units
    if style == 2:
        return jnp.asarray(v)
    return (v * ureg(UNIT[name]).units).to(ureg(ALT[name]).units)


def build_transit(st, rng):
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.units import unit_registry as ureg
    ps, o = st["planets"], st["opt"]
    n = len(ps)

    def col(f, shared):
        v = [float(f(p)) for p in ps]
        if n == 1:
            return v[0] if o["scalar"] % 2 else np.array(v)
        return v[0] if shared else np.array(v)

    sh = o["scalar"] == 0
    kw = dict(period=col(lambda p: exact(p["shape"]["period"]), False))
    how = ps[0]["how"]
    if how == "duration":
        # durations are fractions of each planet's own period
        kw["duration"] = col(lambda p: fx(p["shape"]["duration"]), False)
    else:
        kw["speed"] = col(lambda p: fx(p["shape"]["speed"]), False)
    if o["omit"] % 2 == 0:
        kw["time_transit"] = col(lambda p: exact(p["t0"]), sh)
    if (o["omit"] // 2) % 2 == 0:
        kw["impact_param"] = col(lambda p: exact(p["shape"]["b"]), sh)
    if (o["omit"] // 4) % 2 == 0:
        kw["radius_ratio"] = col(lambda p: exact(p["shape"]["ror"]), sh)
    kw = {k: dress(k, v, rng.randrange(4), ureg) for k, v in kw.items()}
    items = list(kw.items())
    rng.shuffle(items)
    return TransitOrbit(**dict(items))


def build_ttv(st, rng):
    import jax.numpy as jnp
    from jaxoplanet.orbits.ttv import TTVOrbit
    from jaxoplanet.units import unit_registry as ureg
    ps, o = st["planets"], st["opt"]
    n = len(ps)
    scalar = n == 1 and rng.random() < 0.5

    def col(f):
        v = [float(f(p)) for p in ps]
        return v[0] if scalar else np.array(v)

    kw = {}
    how = ps[0]["how"]
    kw[how] = dress(how, col(lambda p: fx(p["shape"][how])), rng.randrange(4), ureg)
    kw["impact_param"] = col(lambda p: exact(p["shape"]["b"]))
    kw["radius_ratio"] = col(lambda p: exact(p["shape"]["ror"]))
    seq = rng.choice([tuple, list])
    style = rng.randrange(3)

    def times(v):
        v = jnp.asarray(np.array(v))
        return [v, v * ureg.day, (v * ureg.day).to("hour")][style]

    if st["kind"] == "times":
        kw["transit_times"] = seq(times(exact(p["tt"])) for p in ps)
        if o["pk"] == 1:
            kw["period"] = dress("period", col(lambda p: exact(p["shape"]["period"])), rng.randrange(4), ureg)
        if o["dlp"]:
            kw["delta_log_period"] = exact(o["dlp"])
    else:
        kw["ttvs"] = seq(times(exact(p["v"])) for p in ps)
        kw["period"] = dress("period", col(lambda p: exact(p["lin"])), rng.randrange(4), ureg)
        if o["t0given"]:
            kw["time_transit"] = dress("time_transit", col(lambda p: exact(p["t0"])), rng.randrange(4), ureg)
    if o["labels"]:
        kw["transit_inds"] = seq(jnp.asarray(p["k"]) for p in ps)
    return TTVOrbit(**kw)


def show(st):
    return f"{st['kind']} {st['opt']} " + "; ".join(
        f"{p['how']} P={fx(p['shape']['period'])} D={fx(p['shape']['duration'])} v={fx(p['shape']['speed'])} "
        f"b={fx(p['shape']['b'])} r={fx(p['shape']['ror'])} t0={fx(p['t0'])} k={p['k']} tt={fx(p['tt'])}"
        for p in st["planets"])


def groups(trace):
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "describe":
            out.append((i, st, []))
        elif out:
            out[-1][2].append((i, st))
    return out


def bare(q, unit=None):
    if hasattr(q, "magnitude"):
        q = q.to(unit).magnitude if unit is not None else q.magnitude
    return np.asarray(q, dtype=float)


def check_positions(chk, job, trace, orbit, obs, eps, d, rng, n, squeeze):
    """compare positions at every observed time with the specification"""
    import jax
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg
    ts = np.array([exact(s["t"]) for _, s in obs])

    def strip(t):
        return [bare_traced(q) for q in orbit.relative_position(t)]

    def bare_traced(q):
        return q.magnitude if hasattr(q, "magnitude") else q

    with chk.code("positions", d):
        X, Y, Z = (np.asarray(v, float).reshape(len(ts), -1) for v in jax.vmap(strip)(jnp.asarray(ts)))
        X, Y, Z = (np.broadcast_to(v, (len(ts), n)) for v in (X, Y, Z))
    results = [(X, Y, Z, "vmap")]
    # and one time at a time, with the time given in some unit
    k = rng.randrange(len(ts))
    with chk.code("positions-scalar", d):
        t1 = rng.choice([float(ts[k]), ts[k] * ureg.day, (ts[k] * ureg.day).to("hour")])
        r = [np.broadcast_to(bare(q).reshape(-1), (n,)) for q in orbit.relative_position(t1)]
        S = [np.full((len(ts), n), np.nan) for _ in range(3)]
        for a, b in zip(S, r):
            a[k] = b
        results.append((*S, "scalar"))
    if n == 1:
        with chk.code("positions-array", d):
            r = [np.broadcast_to(bare(q).reshape(-1, 1), (len(ts), 1)) for q in orbit.relative_position(ts * ureg.day)]
            results.append((*r, "array"))
    for X, Y, Z, how in results:
        for j, (i, s) in enumerate(obs):
            if np.isnan(X[j]).any() and how == "scalar" and j != k:
                continue
            chk.at(job, trace, i)
            for m in range(n):
                w = s["seen"][m]
                p = s["planets"][m]
                dt_tol = 100 * eps * (abs(ts[j]) + abs(fx(p["t0"])) + 2 * fx(p["shape"]["period"])
                                     + max([abs(v) for v in fx(p["tt"])] or [0]))
                dd = f"t={ts[j]!r} planet {m} ({how}); {d}"
                chk.close("impact", Y[j, m], fx(w["y"]), rtol=10 * eps, atol=10 * eps, detail=dd)
                if fx(w["margin"]) < 4 * dt_tol + 1e-9:
                    continue
                sp = fx(p["shape"]["speed"])
                chk.close("path", X[j, m], fx(w["x"]), rtol=40 * eps, atol=dt_tol * sp + 1e-13 * eps / 2e-16, detail=dd)
                chk.ok("front", (Z[j, m] > 0) == w["front"] and Z[j, m] != 0,
                       f"z={Z[j, m]} but in front is {w['front']}, dt={fx(w['dt'])}; {dd}", key=(dd,))
