"""Replay behaviours of spec/timefn_mc.qnt: functions of time, wrapped and called"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, exact, fx

UNITS = ["m/s", "dimensionless", "percent", "R_sun"]


def histories(trace):
    """[(index of pick, fn, [(index, state)] of the wraps and calls that follow)]"""
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "pick":
            out.append((i, st, []))
        elif out:
            out[-1][2].append((i, st))
    return out


def original(fn, unit, scalar_only, calls):
    """the function of time; its coefficients arrive as an extra (array) argument"""
    import jax.numpy as jnp
    comps = exact(fn["comps"])
    kind = fn["kind"]

    def f(time, c, a, k=0.0):
        calls.append(np.shape(getattr(time, "magnitude", time)))
        if scalar_only and np.shape(getattr(time, "magnitude", time)) != ():
            raise AssertionError(f"a whole array {calls[-1]} of times was passed on")
        if c.shape != (len(fn["c"]),):
            raise AssertionError(f"the extra argument was split: {c.shape}")
        x = time.to("day").magnitude if hasattr(time, "magnitude") else time
        if kind == 0:
            y = 0.0
            for i in reversed(range(len(fn["c"]))):
                y = y * (x / 16) + c[i]
        elif kind == 1:
            y = c[0] + c[1] * jnp.sin(c[2] * x + c[3])
        else:
            y = c[0] + c[1] * jnp.abs(x - 4 * c[2]) / 16
        y = a * y + k
        if comps:
            y = jnp.asarray(y)[..., None] * jnp.asarray(comps)
        return y * unit if unit is not None else y

    return f


def tolerance(st, eps):
    c, ts = [abs(v) for v in fx(st["fn"]["c"])], [abs(v) for v in fx(st["times"])]
    T = max(ts)
    dt = eps * (T + 1)
    grain = 0.0
    for w in reversed(st["wraps"]):
        if w["op"] == "integrate":
            T += fx(w["exposure"])
        else:
            p, d = fx(w["period"]), fx(w["dur"])
            dt += 4 * eps * (T + abs(fx(w["t0"])) + p)
            T = abs(fx(w["t0"])) + p
            grain = max(grain, 1 / (d / (w["n"] - 1)), 1 / (p - d) if p > d else 0)
        dt += eps * T
    x, kind = T / 16, st["fn"]["kind"]
    if kind == 0:
        b, s = sum(v * x ** i for i, v in enumerate(c)), sum(i * v * x ** (i - 1) for i, v in enumerate(c) if i) / 16
    elif kind == 1:
        b, s = c[0] + c[1] * (1 + eps * c[2] * T * 10), c[1] * c[2]
    else:
        b, s = c[0] + c[1] * (T + 4 * c[2]) / 16, c[1] / 16
    a, k = abs(fx(st["args"]["a"])), abs(fx(st["args"]["k"]))
    m = max([abs(v) for v in fx(st["fn"]["comps"])] or [1])
    return m * (a * (s + 2 * b * grain) * dt * 4 + 40 * eps * (a * b + k))


def show(st):
    ws = [f"integrate({fx(w['exposure'])}, order={w['order']}, num_samples={w['n']})" if w["op"] == "integrate" else
          f"interpolate(period={fx(w['period'])}, time_transit={fx(w['t0'])}, duration={fx(w['dur'])}, num_samples={w['n']})"
          for w in st["wraps"]]
    return (f"g kind {st['fn']['kind']} c={fx(st['fn']['c'])} comps={fx(st['fn']['comps'])} args {fx(st['args']['a'])}, "
            f"{fx(st['args']['k'])}; {' then '.join(ws)}")


def day(v, rng, ureg):
    """a duration or instant, in days, bare or with units"""
    k = rng.randrange(4)
    if k == 0:
        return v
    if k == 1:
        return v * ureg.day
    return (v * ureg.day).to(["hour", "minute"][k - 2])


def run(job, trace, chk, arrays=False):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.light_curves.utils import vectorize
    from jaxoplanet.units import quantity_input
    from jaxoplanet.units import unit_registry as ureg
    x64 = job.get("x64", True)
    eps = 4e-16 if x64 else 3e-7
    for i, st0, rest in histories(trace):
        rng = seeded(job, i)
        unit = None if rng.random() < 0.5 else ureg(rng.choice(UNITS)).units
        calls = []
        plain = not any(s["wraps"] for _, s in rest)
        # functions inside an integration only ever see one time
        first = rest[0][1]["wraps"][0]["op"] if rest and rest[0][1]["wraps"] else None
        F = original(st0["fn"], unit, first != "interpolate", calls)
        if plain and first is None:
            F = vectorize(F)
            if rng.random() < 0.5:
                F = quantity_input(time=ureg.day)(F)
        coefs = jnp.asarray(exact(st0["fn"]["c"]))
        applied = 0
        try:
            for j, s in rest:
                chk.at(job, trace, j)
                d = show(s)
                if s["act"] == "wrap":
                    w = s["wraps"][-1]
                    with chk.code("wrap", d):
                        if w["op"] == "integrate":
                            e = day(exact(w["exposure"]), rng, ureg)
                            kw = dict(order=w["order"], num_samples=w["n"])
                            if w["order"] == 0 and rng.random() < 0.5:
                                del kw["order"]
                            if w["n"] == 7 and rng.random() < 0.5:
                                del kw["num_samples"]
                            G = integrate(F, e, **kw) if rng.random() < 0.5 else integrate(F, exposure_time=e, **kw)
                            chk.raises("order-refused", ValueError, lambda: integrate(F, e, order=rng.choice([3, -1, 4])), d)
                            chk.raises("vector-exposure-refused", ValueError,
                                       lambda: integrate(F, np.array([0.1, 0.2]) * ureg.day), d)
                            chk.ok("no-exposure", integrate(F) is F and integrate(F, None, order=1) is F, d, key=d)
                            F = G
                        else:
                            a, k = exact(s["args"]["a"]), exact(s["args"]["k"])
                            kw = dict(period=day(exact(w["period"]), rng, ureg), num_samples=w["n"],
                                      time_transit=day(exact(w["t0"]), rng, ureg))
                            if w["dur"] != w["period"] or rng.random() < 0.3:
                                kw["duration"] = day(exact(w["dur"]), rng, ureg)
                            kw.update(rng.choice([dict(args=(coefs, a), kwargs={"k": k}), dict(args=(coefs, a, k))]))
                            F = interpolate(F, **kw)
                    continue
                a, k = exact(s["args"]["a"]), exact(s["args"]["k"])
                if s["frozen"]:
                    extra, ekw = rng.choice([((), {}), ((1e6, "ignored"), {}), ((), {"nothing": None})])
                    if any(w["op"] == "integrate" for w in s["wraps"][1:]):
                        extra, ekw = rng.choice([((), {}), ((1e6,), {}), ((), {"nothing": 3.0})])
                else:
                    extra, ekw = rng.choice([((coefs, a), {"k": k}), ((coefs, a, k), {}), ((coefs,), {"a": a, "k": k})])
                ts = np.array(exact(s["times"])).reshape(s["shape"])
                if s["shape"] == [] or s["shape"] == ():
                    tq = rng.choice([jnp.asarray(float(ts)), float(ts) * ureg.day, jnp.asarray(ts) * ureg.day,
                                     (float(ts) * ureg.day).to("hour")])
                else:
                    tq = rng.choice([ts, jnp.asarray(ts), ts * ureg.day, (ts * ureg.day).to("hour"),
                                     (jnp.asarray(ts) * ureg.day).to("minute")])
                want = np.array([fx(v) for v in s["vals"]])
                wshape = tuple(s["shape"]) + ((len(s["fn"]["comps"]),) if s["fn"]["comps"] else ())
                want = want.reshape(wshape)
                with chk.code("call", d):
                    got = F(tq, *extra, **ekw)
                dd = f"times {ts.tolist()} {d}"
                got_unit = str(got.units) if hasattr(got, "units") else None
                chk.ok("unit", got_unit == (str(unit) if unit is not None else None),
                       f"result in {got_unit}, the function is in {unit}; {d}", key=(d, j))
                g = np.asarray(getattr(got, "magnitude", got))
                tol = tolerance(s, eps)
                # an interpolated function may jump where its window closes on itself
                if fx(s["margin"]) > 2e-9 * (1 if x64 else 1e6) or not s["frozen"]:
                    chk.close("values", g, want, rtol=0, atol=tol, detail=dd)
                if arrays:
                    with chk.code("compiled", d):
                        def bare(t):
                            r = F(t * ureg.day if rng.random() < 0.5 else t, *extra, **ekw)
                            return getattr(r, "magnitude", r)
                        c1 = np.asarray(jax.jit(bare)(jnp.asarray(ts)))
                        c2 = np.asarray(jax.vmap(bare)(jnp.asarray(ts)[None]))[0]
                    if fx(s["margin"]) > 2e-9 or not s["frozen"]:
                        chk.close("compiled", c1, want, rtol=0, atol=tol, detail=dd)
                        chk.close("batched", c2, want, rtol=0, atol=tol, detail=dd)
                chk.sample({"function": d, "times": ts.tolist(), "values": want.tolist()})
        except Stop:
            continue
