"""P07 systems of many bodies (spec/stack_mc.qnt)"""
import numpy as np

from checks.orbits import dress, in_unit, seeded
from vt.core import Stop, exact, fx

ID = "P07"
LEVEL = "model_checking"
RULE = ("behaviours make systems, add bodies to any system made so far, observe any of them and map functions over any "
        "of them with every kind of input and output axes (front, back, none, nested); distinct by expected result")
NOAXIS = 99


def jobs(tier, seed):
    n, k = (3, 24) if tier == "quick" else (12, 96)
    return [dict(spec="stack_mc.qnt", steps=42, traces=n, seed=seed * 400 + i, invariant="inv", history=True)
            for i in range(k)]


def axes(a):
    return None if a == NOAXIS else a


def tensor(x):
    return np.array(x["data"], dtype=float).reshape(x["shape"])


def new_body(sysm, b, rng, central, ureg):
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    kw = {k: dress(k, exact(v), rng.randrange(4), ureg) for k, v in b["d"].items()}
    own = Central(**{k: exact(v) for k, v in b["c"].items()}) if b["own"] else None
    how = rng.randrange(4)
    if how == 0:
        return sysm.add_body(central=own, **kw)
    if how == 1:
        return sysm.add_body(Body(**kw), central=own)
    if how == 2:
        return sysm.add_body(OrbitalBody(own if own is not None else sysm.central, Body(**kw)))
    return System(sysm.central, bodies=[*sysm.bodies, OrbitalBody(own, Body(**kw)) if own is not None else Body(**kw)])


def run_trace(job, trace, chk):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.orbits.keplerian import Central, System
    from jaxoplanet.units import unit_registry as ureg
    real = []

    def verify(j, st, when):
        """the real system j still has exactly the specification's bodies"""
        want = st["systems"][j]
        d = f"system {j} after {when}"
        with chk.code("bodies", d):
            s = real[j]
            chk.equal("number-of-bodies", (len(s.bodies), tuple(s.shape)), (len(want), (len(want),)), d)
            got = [(float(b.period.magnitude), float(b.radius.magnitude), float(b.central.mass.magnitude)) for b in s.bodies]
        chk.close("bodies-in-order", np.array(got).reshape(-1), np.array([(b["w"], fx(b["d"]["radius"]), fx(b["orb"]["mc"])) for b in want]).reshape(-1),
                  rtol=1e-13, atol=0, detail=d)

    for i, st in enumerate(trace):
        chk.at(job, trace, i)
        rng = seeded(job, i)
        try:
            if st["act"] == "create":
                c = {k: exact(v) for k, v in st["centrals"][st["who"]].items()}
                with chk.code("create"):
                    real.append(System(Central(**c)) if c else System(*rng.choice([[], [None], [Central()]])))
                verify(len(real) - 1, st, "create")
            elif st["act"] == "add":
                b = st["systems"][st["who"]][-1]
                with chk.code("add_body", str({k: fx(v) for k, v in b["d"].items()})):
                    real.append(new_body(real[st["from"]], b, rng, st["centrals"][st["from"]], ureg))
                verify(len(real) - 1, st, "add")
                verify(st["from"], st, "add (the system it was made from)")
            elif st["act"] == "observe":
                s = real[st["who"]]
                bodies = st["systems"][st["who"]]
                t = exact(st["t"])
                masses = all("mass" in b["d"] for b in bodies)
                names = ["relative_position", "position", "relative_velocity", "velocity"]
                if masses:
                    names += ["central_position", "central_velocity", "radial_velocity"]
                d = f"bodies {[sorted(b['d']) for b in bodies]} t={t}"
                for nm in rng.sample(names, 3):
                    want = np.array([fx(x[nm]) for x in st["seen"]])
                    unit = "R_sun" if "position" in nm else "R_sun/day"
                    tq = rng.choice([t, t * ureg.day, np.array([t, t + 1.0])])
                    with chk.code(nm, d):
                        got = getattr(s, nm)(tq)
                        got = np.stack([in_unit(g, unit, ureg) for g in (got if isinstance(got, tuple) else (got,))], axis=-1)
                    if isinstance(tq, np.ndarray):
                        chk.equal("shape", got.shape, (len(bodies), 2, want.shape[1]), d)
                        got = got[:, 0]
                    scale = np.linalg.norm(np.array([fx(x["relative_position" if unit == "R_sun" else "relative_velocity"]) for x in st["seen"]]), axis=1)
                    chk.close(nm, got / scale[:, None], want / scale[:, None], rtol=0, atol=1e-9, detail=d)
                with chk.code("radius", d):
                    chk.close("radius", in_unit(s.radius, "R_sun", ureg), [fx(b["d"]["radius"]) for b in bodies], rtol=1e-13, atol=0, detail=d)
                    chk.close("central_radius", in_unit(s.central_radius, "R_sun", ureg), [fx(b["orb"]["rc"]) for b in bodies], rtol=1e-13, atol=0, detail=d)
            else:
                s = real[st["who"]]
                bodies = st["systems"][st["who"]]
                xs = [jnp.asarray(tensor(x)) for x in st["args"]]
                ia, oa = [axes(a) for a in st["inAxes"]], [axes(a) for a in st["outAxes"]]
                unit = rng.random() < 0.3 and st["func"] in ("scale", "pair")
                if unit:
                    xs[0] = xs[0] * ureg.day
                f = st["func"]
                if f == "period":
                    fn, args = (lambda b: b.period.magnitude), ()
                    in_axes = rng.choice([0, None, ()])
                elif f == "scale":
                    fn, args = (lambda b, x: b.period.magnitude * x), (xs[0],)
                    in_axes = rng.choice([ia[0], (ia[0],), [ia[0]]])
                elif f == "pair":
                    fn, args = (lambda b, x, y: (b.period.magnitude * x, b.period.magnitude + y)), tuple(xs)
                    in_axes = ia[0] if ia[0] == ia[1] and rng.random() < 0.5 else tuple(ia)
                elif f == "nest":
                    def fn(b, z):
                        w = b.period.magnitude
                        return {"p": w * z["a"] - 1, "q": (z["b"] - w, z["a"] + 2)}
                    args = ({"a": xs[0], "b": xs[1]},)
                    in_axes = ia[0] if ia[0] == ia[1] and rng.random() < 0.5 else ({"a": ia[0], "b": ia[1]},)
                else:
                    fn, args = (lambda b, x, y: (b.period.magnitude * x, 3 * y)), tuple(xs)
                    in_axes = tuple(ia)
                if f in ("period", "scale"):
                    out_axes = oa[0]
                elif f == "nest":
                    out_axes = {"p": oa[0], "q": (oa[1], oa[2])}
                    if oa[1] == oa[2]:
                        out_axes["q"] = oa[1]
                    if oa[0] == oa[1] == oa[2]:
                        out_axes = oa[0]
                else:
                    out_axes = oa[0] if oa[0] == oa[1] and rng.random() < 0.7 else tuple(oa)
                alike = len({tuple(sorted(b["d"])) for b in bodies}) == 1
                d = (f"{f} over {len(bodies)} bodies ({'alike' if alike else 'mixed'}: {[sorted(b['d']) for b in bodies]}) shapes "
                     f"{[x['shape'] for x in st['args']]} in_axes={in_axes} out_axes={out_axes} units={unit}")
                kw = {}
                if not (out_axes == 0 and rng.random() < 0.5):
                    kw["out_axes"] = out_axes
                if not (in_axes == 0 and rng.random() < 0.5):
                    kw["in_axes"] = in_axes
                with chk.code("body_vmap", d):
                    g = s.body_vmap(fn, **kw)
                    if rng.random() < 0.25:
                        g = jax.jit(g)
                    r = g(*args)
                    if f == "nest":
                        chk.equal("nested-result", sorted(r), ["p", "q"], d)
                        r = [r["p"], r["q"][0], r["q"][1]]
                    elif f in ("pair", "const"):
                        chk.equal("tuple-result", (type(r), len(r)), (tuple, 2), d)
                    else:
                        r = [r]
                if unit:
                    chk.ok("units-of-result", hasattr(r[0], "units"), d, key=d)
                for l, w in enumerate(st["result"]):
                    got = getattr(r[l], "magnitude", r[l])
                    chk.close("mapped", got, tensor(w), rtol=1e-12, atol=1e-12, detail=f"output {l}: {d}")
                chk.sample({"map": d})
        except Stop:
            if st["act"] in ("create", "add"):
                return
    for j in range(len(real)):
        chk.at(job, trace, len(trace) - 1)
        try:
            verify(j, trace[-1], "the whole history")
        except Stop:
            return
