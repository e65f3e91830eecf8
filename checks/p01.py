"""P01 functions and fields that declare units (spec/units_mc.qnt)"""
from fractions import Fraction

import numpy as np

from checks.orbits import seeded
from vt.core import Stop

ID = "P01"
LEVEL = "model_checking"
RULE = ("signatures of 1-4 inputs of every kind (positional only, keyword only, defaults, *args, **kwargs), plain, methods and fields, declared over "
        "plain, list, tuple, dict and nested inputs, strict and not; calls in every style with bare numbers, arrays and quantities in 38 units, of the "
        "right dimension and not, also traced; every declared input of the library in any unit; distinct by expected values")

NAMES = ("m cm km AU R_sun R_jupiter R_earth parsec s ms minute hour day week year kg g M_sun M_jupiter M_earth dimensionless percent "
         "radian degree arcminute arcsecond mas turn m/s km/s R_sun/day km/hour 1/s 1/day 1/hour kg/m**3 g/cm**3 M_sun/R_sun**3").split()
PARAMS = ["alpha_in", "beta_in", "gamma_in", "delta_in"]


def jobs(tier, seed):
    n, k, m = (150, 8, 60) if tier == "quick" else (1500, 24, 600)
    js = [dict(spec="units_mc.qnt", steps=n, seed=seed * 1600 + i, invariant="inv", history=True, tag="generic") for i in range(k)]
    js += [dict(spec="units_mc.qnt", step="stepLibrary", steps=m, seed=seed * 1600 + 100 + i, invariant="inv", tag="library", cost=3) for i in range(k)]
    js.append(dict(spec="units_mc.qnt", steps=n, seed=seed * 1600 + 99, x64=False, history=True, tag="generic"))
    return js


def unit(i, rng=None):
    """a unit as an object, or spelled out"""
    from jaxoplanet.units import unit_registry as ureg
    u = ureg.Unit("mas" if NAMES[i] == "mas" else NAMES[i])
    return NAMES[i] if rng is not None and rng.random() < 0.4 else u


def is_q(v):
    return hasattr(v, "_magnitude") and hasattr(v, "_units")


def rtol(i, j):
    # parsecs are defined through the tangent of an arcsecond or the arcsecond itself
    return 1e-10 if "parsec" in (NAMES[i], NAMES[j]) else 2e-15


def pack(shape, leaves):
    if shape == "leaf":
        return leaves[0]
    if shape == "list":
        return list(leaves)
    if shape == "tuple":
        return tuple(leaves)
    if shape == "dict":
        return {"one": leaves[0], "two": leaves[1]}
    if shape == "nested":
        return {"one": leaves[0], "more": [leaves[1], leaves[2]]}
    return [{"one": leaves[0]}, (leaves[1], leaves[2])]


def unpack(shape, v):
    if shape == "leaf":
        return [v]
    if shape in ("list", "tuple"):
        assert type(v) is (list if shape == "list" else tuple)
        return list(v)
    if shape == "dict":
        assert sorted(v) == ["one", "two"]
        return [v["one"], v["two"]]
    if shape == "nested":
        return [v["one"], *v["more"]]
    return [v[0]["one"], *v[1]]


def value(leaf, declared, rng):
    """a leaf to pass and the factors of its elements"""
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg
    x, form = leaf["x"] / 2 ** 20, leaf["form"]
    k = np.array(1.0)
    if declared < 0 and not leaf["quantity"]:
        return rng.choice([x, "a word", True, np.array([x, 1.0]), object()]), k
    if form == 1 and leaf["x"] % 2 ** 20 == 0:
        x = leaf["x"] // 2 ** 20
    elif form == 2:
        k = np.array([1.0, 2.0, -0.5])
        x = x * k
    elif form == 3:
        k = np.array([[1.0], [4.0]])
        x = jnp.asarray(x * k)
    if leaf["quantity"]:
        u = ureg.Unit(NAMES[leaf["unit"]])
        return (x * u if rng.random() < 0.5 and not isinstance(x, np.ndarray) else ureg.Quantity(x, u)), k
    return x, k


def default(p):
    from jaxoplanet.units import unit_registry as ureg
    x = p["dval"]["x"] / 2 ** 20
    return {1: None, 2: x, 3: ureg.Quantity(x, NAMES[p["dval"]["unit"]]) if p["default"] == 3 else None}[p["default"]]


class Seen(Exception):
    pass


def make(st, rng):
    """the function declared: (call it, what it saw)"""
    from jaxoplanet import units
    sig, n = st["sig"], len(st["sig"])
    declared = {}
    for i, p in enumerate(sig):
        if all(u < 0 for u in p["units"]) and (p["shape"] == "leaf" or rng.random() < 0.5):
            if p["kind"] and rng.random() < 0.5:
                declared[PARAMS[i]] = None
            continue
        declared[PARAMS[i]] = pack(p["shape"], [None if u < 0 else unit(u, rng) for u in p["units"]])
    if rng.random() < 0.3:
        keys = list(declared)
        rng.shuffle(keys)
        declared = {k: declared[k] for k in keys}
    strict = {"_strict": True} if st["strict"] else ({"_strict": False} if rng.random() < 0.3 else {})
    parts, env = [], {"seen": [], "defaults": [default(p) if p["default"] else None for p in sig]}
    star = False
    for i, p in enumerate(sig):
        if p["kind"] == 2 and not star:
            parts.append("*rest" if st["extras"][0] else "*")
            star = True
        parts.append(PARAMS[i] + (f"=defaults[{i}]" if p["default"] else ""))
        if p["kind"] == 0 and (i + 1 == n or sig[i + 1]["kind"] != 0):
            parts.append("/")
    if not star and st["extras"][0]:
        parts.append("*rest")
    if st["extras"][1]:
        parts.append("**others")
    method = st["target"] == "method"
    body = "(dict(" + ", ".join(f"{PARAMS[i]}={PARAMS[i]}" for i in range(n)) + "), " + \
        ("rest" if st["extras"][0] else "()") + ", " + ("others" if st["extras"][1] else "{}") + ")"
    src = f"def f({', '.join((['self'] if method else []) + parts)}):\n    seen.append({'self' if method else '1'})\n    return {body}\n"
    exec(src, env)
    f = env["f"]
    if rng.random() < 0.5:
        g = units.quantity_input(**strict, **declared)(f)
    else:
        g = units.quantity_input(f, **strict, **declared)
    if method:
        class Thing:
            act = g
        thing = Thing()
        return thing.act, env["seen"], thing
    return g, env["seen"], 1


def make_field(st, rng):
    import equinox as eqx
    from jaxoplanet import units
    ns, ann = {}, {}
    calls = []
    for i, p in enumerate(st["sig"]):
        kw = {"strict": True} if st["strict"] else {}
        if all(u < 0 for u in p["units"]) and (p["shape"] == "leaf" or rng.random() < 0.5):
            pass
        else:
            kw["units"] = pack(p["shape"], [None if u < 0 else unit(u, rng) for u in p["units"]])
        if p["default"]:
            d = default(p)
            if is_q(d):
                kw["default_factory"] = lambda d=d: d
            else:
                kw["default"] = d
        ann[PARAMS[i]] = object
        if rng.random() < 0.2 and "units" in kw:
            # a converter of one's own comes first, and sees what was given
            def conv(v):
                calls.append(v)
                return v
            kw["converter"] = conv
        ns[PARAMS[i]] = units.field(**kw)
    ns["__annotations__"] = ann
    return type("Thing", (eqx.Module,), ns)


def check_generic(job, trace, chk):
    import jax
    from pint import DimensionalityError
    x64 = job.get("x64", True)
    cur = None
    for i, s in enumerate(trace):
        if s["act"] == "declare":
            rng = seeded(job, i)
            chk.at(job, trace, i)
            cur = None
            d = f"{s['target']} strict={s['strict']} {s['sig']}"
            try:
                with chk.code("declare", d):
                    cur = (make_field(s, rng), None, None) if s["target"] == "field" else make(s, rng)
            except Stop:
                pass
            continue
        if s["act"] != "call" or cur is None:
            continue
        rng = seeded(job, i)
        chk.at(job, trace, i)
        sig = s["sig"]
        args, kwargs, sent, ks = [], {}, [], []
        opaque = False
        for p, g, nm in zip(sig, s["given"], PARAMS):
            vals = [value(leaf, u, rng) for leaf, u in zip(g["leaves"], p["units"])]
            opaque |= any(not (is_q(v) or isinstance(v, (int, float, np.ndarray, jax.Array))) or isinstance(v, bool) for v, _ in vals)
            v = None if not vals else pack(p["shape"], [v for v, _ in vals])
            sent.append([v for v, _ in vals])
            ks.append([k for _, k in vals])
            if g["how"] in ("positional", "none"):
                args.append(v)
            elif g["how"] in ("keyword", "none-keyword"):
                kwargs[nm] = v
        direct = all(g["how"] in ("positional", "none") for p, g in zip(sig, s["given"]) if p["kind"] < 2)
        rest = [rng.choice(["x", 1.5, None, (1, 2)]) for _ in range(s["extras"][0])] if direct else []
        others = {f"other_{k}": rng.choice(["x", 1.5, None, [1, 2]]) for k in range(s["extras"][1])}
        args += rest
        kwargs.update(others)
        keys = list(kwargs)
        rng.shuffle(keys)
        kwargs = {k: kwargs[k] for k in keys}
        d = (f"{s['target']} strict={s['strict']} declared {[(p['kind'], p['shape'], [NAMES[u] if u >= 0 else None for u in p['units']], p['default']) for p in sig]}"
             f" called with {args} {kwargs}")
        f, seen, me = cur
        bad = {(PARAMS[j], g["why"]) for j, gs in enumerate(s["got"]) for g in gs if g["why"]}
        n0 = len(seen) if seen is not None else 0
        traced = not opaque and not rest and not others and s["target"] != "field" and rng.random() < 0.15
        try:
            try:
                if traced:
                    out = jax.jit(lambda a, k: f(*a, **k))(tuple(args), kwargs)
                else:
                    out = f(*args, **kwargs)
                err = None
            except Exception as e:  # noqa: BLE001
                err = e
            if bad:
                ran = seen is not None and len(seen) != n0
                chk.ok("refused", err is not None, f"accepted although {sorted(bad)} ; {d}", key=(i, d[:80]))
                if err is None:
                    continue
                chk.ok("not run", not ran, f"the wrapped code ran before {err!r}; {d}", key=(i, d[:80]))
                if isinstance(err, DimensionalityError):
                    who = {n for n, w in bad if w == "dimension"}
                    named = s["target"] == "field" or any(f"'{n}'" in str(err) or n in str(err) for n in who)
                    chk.ok("named", bool(who) and named, f"{err}: specification says {sorted(bad)}; {d}", key=(i, d[:80]))
                else:
                    chk.ok("strict", isinstance(err, ValueError) and any(w == "bare" for _, w in bad),
                           f"{err!r}: specification says {sorted(bad)}; {d}", key=(i, d[:80]))
                continue
            with chk.code("call", d):
                if err is not None:
                    raise err
            if s["target"] == "field":
                saw = {n: getattr(out, n) for n in PARAMS[: len(sig)]}
            else:
                saw, gr, go = out
                chk.ok("extras", list(gr) == rest and go == others and (traced or seen[-1] is me), f"extra arguments {gr}, {go}; {d}", key=(i, d[:80]))
                if not traced:
                    chk.equal("runs", len(seen) - n0, 1, d)
            for j, (p, g, nm) in enumerate(zip(sig, s["given"], PARAMS)):
                want = s["got"][j]
                if not want:
                    chk.ok("left out", saw[nm] is None, f"{nm} = {saw[nm]!r}, None given; {d}", key=(nm, i, d[:80]))
                    continue
                with chk.code("structure", d):
                    got = unpack(p["shape"], saw[nm])
                for m, w in enumerate(want):
                    w = w["got"]
                    given = g["how"] != "omitted"
                    u = p["units"][m]
                    if u < 0:
                        src = sent[j][m] if given else None
                        if traced:
                            same = is_q(got[m]) == is_q(src) if given else True
                        elif given:
                            same = got[m] is src
                        elif p["default"] == 2:
                            same = not is_q(got[m]) and got[m] == p["dval"]["x"] / 2 ** 20
                        else:
                            same = is_q(got[m]) and str(got[m].units) == str(unit(p["dval"]["unit"]))
                        chk.ok("untouched", same, f"{nm}: {got[m]!r} for {src!r}; {d}", key=(nm, i, d[:80]))
                        continue
                    chk.ok("unit", is_q(got[m]) and got[m].units == unit(u), f"{nm}: {got[m]!r}, specification says in {NAMES[u]}; {d}", key=(nm, i, m, d[:80]))
                    if not is_q(got[m]):
                        continue
                    val = float(Fraction(w["num"], w["den"]))
                    k = ks[j][m] if given else np.array(1.0)
                    src = (s["given"][j]["leaves"][m]["unit"] if given and s["given"][j]["leaves"][m]["quantity"] else u) if given else \
                        (p["dval"]["unit"] if p["default"] == 3 else u)
                    rt = max(rtol(src, u), 0 if x64 else 1e-6)
                    if src == u and x64:
                        rt = 0
                    if not x64 and not (1e-30 < abs(val) < 1e30 or val == 0):
                        continue
                    chk.close("value", got[m].magnitude, val * k, rtol=rt, atol=1e-300 if x64 else 1e-36,
                              detail=f"{nm} leaf {m}; {d}")
            chk.sample({"call": d})
        except Stop:
            continue


# -------------------------------------------------------------------- the library
def library():
    """name -> (inputs besides the one examined, what to observe of a value of it, named in the message of a refusal?)"""
    import jax.numpy as jnp
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.limb_dark import light_curve as limb_dark
    from jaxoplanet.light_curves.transforms import integrate, interpolate
    from jaxoplanet.orbits import TransitOrbit, TTVOrbit
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.doppler import radial_velocity
    from jaxoplanet.starry.light_curves import light_curve as mapped
    from jaxoplanet.starry.orbit import SurfaceSystem

    def num(v):
        return np.ravel(np.asarray(v.magnitude if is_q(v) else v, dtype=float))

    def fields(o, names):
        return np.concatenate([num(getattr(o, k)) for k in names if getattr(o, k) is not None])

    def central(**kw):
        return fields(Central(**kw), ["mass", "radius", "density"])

    def body(**kw):
        o = OrbitalBody(Central(), Body(**kw))
        pos = [num(v) for v in o.relative_position(jnp.linspace(-1.0, 1.0, 7))]
        vel = [num(v) for v in o.velocity(0.3)] if kw.get("eccentricity") is not None or True else []
        return np.concatenate([fields(o, ["time_transit", "time_ref", "period", "semimajor", "impact_param", "mass", "radius", "eccentricity", "parallax",
                                          "sin_omega_peri", "cos_omega_peri", "sin_asc_node", "cos_asc_node",
                                          "radial_velocity_semiamplitude"]), *pos, *vel])

    # (nothing declares its units twice, so an angle may be given where its sine is not)
    basic = dict(period=5.0, time_transit=0.1, radius=0.1, mass=0.01, impact_param=0.2, eccentricity=0.2, omega_peri=0.4, asc_node=0.3)

    def orbital(**kw):
        return body(**{**basic, **kw})

    def without(*names, **more):
        return {**{k: v for k, v in basic.items() if k not in names}, **more}

    one = OrbitalBody(Central(), Body(**basic))
    system = System(Central(), bodies=[Body(**basic), Body(period=9.0, radius=0.05, time_transit=1.0)])
    stars = SurfaceSystem(Central(), Surface(y=Ylm({(0, 0): 1.0, (1, 0): 0.3}), u=(0.2,), inc=1.2, period=6.0),
                          bodies=[(Body(**basic), Surface(y=Ylm({(0, 0): 0.1, (1, 1): 0.05}), period=3.0))])
    plain = SurfaceSystem(Central(), Surface(u=(0.2,)), bodies=[(Body(**basic), Surface(amplitude=0.1, normalize=False))])
    transit = dict(period=5.0, duration=0.2, time_transit=0.1, impact_param=0.2, radius_ratio=0.1)
    ttvs = dict(ttvs=(np.array([0.0, 0.01, -0.01]),), **transit)
    orbit, ttv = TransitOrbit(**transit), TTVOrbit(**{**ttvs})

    def simple(cls, base, drop=()):
        def f(**kw):
            args = {k: v for k, v in {**base, **kw}.items() if k not in drop}
            o = cls(**args)
            x = [num(v) for v in o.relative_position(jnp.linspace(-0.15, 0.35, 9))]
            return np.concatenate([fields(o, ["period", "duration", "speed", "time_transit", "impact_param", "radius_ratio"]), *x])
        return f

    def of(fn):
        return lambda **kw: np.concatenate([num(v) for v in (lambda r: r if isinstance(r, tuple) else (r,))(fn(**kw))])

    lc = limb_dark(system, (0.3, 0.1))
    soft = lambda time: 1 + 0.1 * jnp.cos(time.magnitude)  # noqa: E731
    L = {
        "Central": (lambda **kw: central(**({"mass": 0.9, "radius": 1.1} | kw)), True),
        "CentralDensity": (lambda **kw: central(radius=1.1, **kw), True),
        "Central.from_orbital_properties": (
            lambda **kw: fields(Central.from_orbital_properties(**({"period": 5.0, "semimajor": 12.0, "radius": 1.1} | kw)), ["mass", "radius", "density"]), True),
        "Body": (lambda **kw: orbital(**kw), False),
        "BodyPeri": (lambda **kw: body(**without("time_transit"), **kw), False),
        "BodyAxis": (lambda **kw: body(**without("period"), **kw), False),
        "BodyInc": (lambda **kw: body(**without("impact_param"), **kw), False),
        "BodyRV": (lambda **kw: body(**without("mass"), **kw), False),
        "BodyTrig": (lambda **kw: body(**{**without("omega_peri", "asc_node", sin_omega_peri=0.2, cos_omega_peri=0.2, sin_asc_node=0.2, cos_asc_node=0.2), **kw}), False),
        "position": (of(one.position), True),
        "velocity": (of(one.velocity), True),
        "relative_position": (of(one.relative_position), True),
        "radial_velocity": (of(one.radial_velocity), True),
        "relative_angles": (of(lambda **kw: one.relative_angles(**({"t": 0.3, "parallax": 0.02} | kw))), True),
        "system_position": (of(lambda t: system.position(t)), True),
        "TransitOrbit": (simple(TransitOrbit, transit), True),
        "TransitOrbitSpeed": (simple(TransitOrbit, transit, ("duration",)), True),
        "transit_position": (of(lambda **kw: orbit.relative_position(**({"t": 0.12} | kw))), True),
        "TTVOrbit": (simple(TTVOrbit, ttvs), True),
        "TTVOrbitSpeed": (simple(TTVOrbit, ttvs, ("duration",)), True),
        "ttv_position": (of(lambda **kw: ttv.relative_position(**({"t": 0.12} | kw))), True),
        "limb_dark_light_curve": (of(lc), True),
        "emission_light_curve": (of(emission(plain)), True),
        "surface_light_curve": (of(mapped(stars)), True),
        "surface_radial_velocity": (of(radial_velocity(stars)), True),
        "integrate": (of(lambda exposure_time: integrate(lc, exposure_time, num_samples=5)(0.11)), True),
        "integrated": (of(integrate(lc, 0.1, num_samples=5)), True),
        "interpolate": (of(lambda **kw: interpolate(soft, **({"period": 5.0, "time_transit": 0.1, "num_samples": 20} | kw))(np.array([0.2, -0.3, 3.0]))), True),
        "interpolated": (of(interpolate(soft, period=5.0, time_transit=0.1, num_samples=20)), True),
    }
    return L


LIB = {}


def check_library(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.units import unit_registry as ureg
    from pint import DimensionalityError
    if not LIB:
        try:
            chk.at(job, trace, 0)
            with chk.code("library"):
                LIB.update(library())
        except Stop:
            return
    seen = set()
    for i, s in enumerate(trace):
        if s["act"] != "library":
            continue
        chk.at(job, trace, i)
        rng = seeded(job, i)
        e, leaf, g = s["lib"], s["given"][0]["leaves"][0], s["got"][0][0]
        fn, named = LIB[e["name"]]
        x = float(Fraction(g["got"]["num"], g["got"]["den"]))
        bare = leaf["x"] / 2 ** 20
        scalar = e["input"] not in ("t", "time") or leaf["form"] != 2 or e["name"].startswith("integrate")
        wrap = (lambda v: v) if scalar else (lambda v: jnp.asarray([v, 2 * v]))
        d = f"{e['name']}({e['input']} = {x} {NAMES[leaf['unit']]})"
        q = ureg.Quantity(wrap(x), NAMES[leaf["unit"]])
        try:
            if g["why"]:
                err = None
                try:
                    fn(**{e["input"]: q})
                except Exception as ex:  # noqa: BLE001
                    err = ex
                chk.ok("library-refused", isinstance(err, DimensionalityError), f"{err!r}: specification says refused, {NAMES[e['unit']]} declared; {d}", key=d)
                if isinstance(err, DimensionalityError) and named:
                    chk.ok("library-named", f"'{e['input']}'" in str(err), f"{err}; {d}", key=d)
                continue
            with chk.code("library-unit", d):
                got = fn(**{e["input"]: q})
            with chk.code("library-bare", d):
                ref = fn(**{e["input"]: wrap(bare)})
            rt = 1e-9 if rtol(leaf["unit"], e["unit"]) < 1e-14 else 1e-7
            chk.close("library-unit", got, ref, rtol=rt, atol=rt, detail=f"{d} against {bare} in {NAMES[e['unit']]}")
            if (e["name"], e["input"]) not in seen or rng.random() < 0.3:
                seen.add((e["name"], e["input"]))
                with chk.code("library-declared", d):
                    own = fn(**{e["input"]: ureg.Quantity(wrap(bare), NAMES[e["unit"]])})
                chk.close("library-declared", own, ref, rtol=1e-13, atol=1e-13, detail=f"{e['name']}({e['input']} = {bare} {NAMES[e['unit']]}) against bare")
            chk.sample({"call": d, "got": ref.tolist()[:6]})
        except Stop:
            continue


def run_trace(job, trace, chk):
    (check_library if job["tag"] == "library" else check_generic)(job, trace, chk)
