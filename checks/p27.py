"""P27 derivatives (spec/slope_disc_mc.qnt, spec/slope_mc.qnt)"""
import numpy as np

from checks.orbits import seeded
from checks.p11 import budget, scale
from vt.core import Stop, exact, fx

ID = "P27"
LEVEL = "model_checking"
RULE = ("surfaces: maps of degree 0-4 with 0-3 limb-darkening coefficients, any orientation, amplitude and occultor, light and velocity; discs: laws of 0-8 coefficients, separations at zero and at, near and away from every contact; orbits: every way to write an orbit, with and without timing variations, "
        "circular, nearly circular and eccentric, edge on and inclined, at conjunction, at contact, in, near and out of transit; forward and "
        "reverse mode; anomalies at any eccentricity below one; distinct by expected derivatives")

ORBITS = ["A", "B", "C", "D", "E", "F", "G", "T", "U", "V", "W", "X", "Y"]


def jobs(tier, seed):
    quick = tier == "quick"
    n, k = (130, 4) if quick else (1300, 32)
    js = [dict(spec="slope_disc_mc.qnt", init="initDisc", step="stepSlopes", steps=n, seed=seed * 700 + i, invariant="invSlopes", tag="disc",
               x64=i != k - 1) for i in range(k)]
    n, k = (170, 1) if quick else (1700, 4)
    js += [dict(spec="slope_mc.qnt", init="init" + f, step="step", steps=n, seed=seed * 710 + 20 * i + j, invariant="inv", tag="orbit", cost=3)
           for i in range(k) for j, f in enumerate(ORBITS)]
    forms, n, k = (SURFACES[:5], 30, 1) if quick else (SURFACES, 200, 3)
    js += [dict(spec="slope_surface_mc.qnt", init="fresh" + f, step="step", steps=n, seed=seed * 720 + 20 * i + j, invariant="invSlopes", tag="surface",
                cost=6) for i in range(k) for j, f in enumerate(forms)]
    js += [dict(spec="kepler_mc.qnt", steps=700 if quick else 5000, seed=seed * 730 + i, invariant="inv", tag="anomaly", x64=i != 1)
           for i in range(2 if quick else 12)]
    js.append(dict(spec="slope_surface_mc.qnt", init="fresh10", step="stepMiddle", steps=3, seed=1, invariant="invSlopes", tag="surface", cost=3))
    return js


SURFACES = ["00", "03", "10", "12", "21", "30", "33", "42"]
JIT = {}


def both(key, fn, args):
    """derivatives of fn by all of its arguments, forwards and backwards, one set of arguments per row"""
    import jax
    if key not in JIT:
        n = tuple(range(len(args)))
        JIT[key] = [jax.jit(jax.vmap(m(fn, argnums=n))) for m in (jax.jacfwd, jax.jacrev)]
    return [("forward", JIT[key][0](*args)), ("reverse", JIT[key][1](*args))]


def disc(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    x64 = job.get("x64", True)
    obs = [(i, s) for i, s in enumerate(trace) if s["act"] == "slopes"]
    if not x64:
        obs = [(i, s) for i, s in obs if scale(exact(s["cu"])) < 12 and len(s["cu"]) <= 4]
    for n in sorted({len(s["cu"]) for _, s in obs}):
        sel = [(i, s) for i, s in obs if len(s["cu"]) == n]
        u = jnp.asarray([exact(s["cu"]) for _, s in sel], dtype=float).reshape(len(sel), n)
        b = jnp.asarray([exact(s["geo"]["b"]) for _, s in sel], dtype=float)
        r = jnp.asarray([exact(s["geo"]["r"]) for _, s in sel], dtype=float)
        for order in (10, 200):
            chk.at(job, trace, sel[0][0])
            with chk.code("disc derivatives"):
                res = both((n, order), lambda u, b, r: light_curve(u, b, r, order=order), (u, b, r))
            for mode, g in res:
                gu, gb, gr = (np.asarray(v, float) for v in g)
                for j, (i, s) in enumerate(sel):
                    chk.at(job, trace, i)
                    law, bb, rr = exact(s["cu"]), abs(exact(s["geo"]["b"])), exact(s["geo"]["r"])
                    d = f"u={law} b={exact(s['geo']['b'])!r} r={rr!r} order={order} {mode}"
                    got = np.array([gb[j], gr[j]])
                    if not chk.ok("finite", bool(np.isfinite(got).all() and np.isfinite(gu[j]).all()), f"by b, r: {got}, by u: {gu[j]}; {d}", key=d):
                        continue
                    sc = scale(law)
                    # the edge of the occultor on the limb everywhere: the derivative jumps there
                    kink = np.hypot(bb, rr - 1)
                    if kink > (1e-9 if x64 else 1e-2):
                        if x64:
                            tol = sc * (1e-6 + 1e-14 / kink + (1e-5 if order == 10 else 0))
                        else:
                            # double contact and grazing lose half of the digits
                            tol = sc * (2e-2 + 1e-4 / kink)
                        chk.close("light by separation, radius", got, fx(s["slopes"]), rtol=0, atol=tol, detail=d)
                    if n:
                        eps = 3e-14 if x64 else 3e-6
                        chk.close("light by law", gu[j], fx(s["byLaw"]), rtol=0, atol=4 * n * budget(law, order, eps) * sc, detail=d)
    chk.sample({"b": exact(obs[0][1]["geo"]["b"]), "r": exact(obs[0][1]["geo"]["r"]), "by b, r": fx(obs[0][1]["slopes"])} if obs else {})


def anomaly(job, trace, chk):
    """the true anomaly, for every eccentricity (spec/kepler_mc.qnt)"""
    import jax.numpy as jnp
    from checks.p03 import tols
    from jaxoplanet.core.kepler import kepler
    x64 = job.get("x64", True)
    eps = 2.3e-16 if x64 else 1.2e-7
    m, e = (np.array([exact(s["inp"][k]) for s in trace]) for k in "Me")
    o = {k: np.array([fx(s["out"][k]) for s in trace]) for k in trace[0]["out"]}
    tol = tols(m, e, o, eps) + (0 if x64 else eps * np.abs(o["fe"]))
    # an error of the anomaly, and how far it throws the derivatives
    ok = (np.abs(o["fm"]) * tol < 1e-3) & (x64 | ((np.abs(m) < 50) & (e < 0.9)))
    chk.at(job, trace, 0)
    with chk.code("anomaly derivatives"):
        res = both(("anomaly", x64), lambda m, e: jnp.stack(kepler(m, e)), (jnp.asarray(m), jnp.asarray(e)))
    for mode, (gm, ge) in res:
        gm, ge = np.asarray(gm, float), np.asarray(ge, float)
        for i in range(len(trace)):
            if not ok[i]:
                continue
            chk.at(job, trace, i)
            d = f"M={m[i]!r} e={e[i]!r} {mode}"
            got = np.array([*gm[i], *ge[i]])
            if chk.ok("finite", bool(np.isfinite(got).all()), f"{got}; {d}", key=d):
                t = tol[i] * (4 * (1 + np.abs([o["fm"][i], o["fm"][i], o["fe"][i], o["fe"][i]])) + np.abs(o["fm"][i]) / (1 - e[i])) \
                    + 1e3 * eps * (1 + np.abs([o["fm"][i], o["fm"][i], o["fe"][i], o["fe"][i]]))
                want = np.array([o[k][i] for k in ("sm", "cm", "se", "ce")])
                chk.close("true anomaly", (got - want) / t, np.zeros(4), rtol=0, atol=1.0, detail=f"got {got}, specification says {want}; {d}")


ELEMENTS = ("period", "semimajor", "sin_inclination", "cos_inclination", "impact_param", "time_transit", "time_peri")
ORDER = 100


def kepler_seen(cen, body, size, u, t):
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits.keplerian import Body, Central, System
    s = System(Central(**cen)).add_body(Body(**body, radius=size))
    o = s.bodies[0]
    p = [v.magnitude for v in o.relative_position(t)]
    if "mass" in body or "radial_velocity_semiamplitude" in body:
        p.append(o.radial_velocity(t).magnitude)
    else:
        p.append(jnp.zeros(()))
    p += [o.central.radius.magnitude] + [getattr(o, k).magnitude for k in ELEMENTS]
    return jnp.stack([*p, limb_dark_light_curve(s, u, order=ORDER)(t)[0]])


def transit_seen(cen, body, size, u, t):
    import jax.numpy as jnp
    from jaxoplanet.light_curves import limb_dark_light_curve
    from jaxoplanet.orbits import TransitOrbit
    from jaxoplanet.orbits.ttv import TTVOrbit
    many = {q: tuple(sorted(k for k in body if k.startswith(q) and k[len(q):].isdigit())) for q in ("ttv", "tt")}
    if any(many.values()):
        # the times of the transits, or variations, one array for the planet
        kw = {k: v for k, v in body.items() if k not in many["ttv"] + many["tt"]}
        for q, name in (("ttv", "ttvs"), ("tt", "transit_times")):
            if many[q]:
                kw[name] = (jnp.stack([body[k] for k in many[q]]),)
        o = TTVOrbit(**kw)
    else:
        o = TransitOrbit(**body)
    p = [v.magnitude for v in o.relative_position(t)]
    p += [jnp.zeros(()), o.central_radius.magnitude, o.period.magnitude, o.speed.magnitude, o.duration.magnitude]
    if any(many.values()):
        p = [jnp.reshape(v, ()) for v in [*p, o.linear_t0, o.linear_period]]
        return jnp.stack([*p, jnp.reshape(limb_dark_light_curve(o, u, order=ORDER)(t), ())])
    return jnp.stack([*p, limb_dark_light_curve(o, u, order=ORDER)(t)])


PAIRS = {"sin_omega_peri": ("sin_omega_peri", "cos_omega_peri"), "cos_omega_peri": ("sin_omega_peri", "cos_omega_peri"),
         "sin_asc_node": ("sin_asc_node", "cos_asc_node"), "cos_asc_node": ("sin_asc_node", "cos_asc_node")}


def orbit(job, trace, chk):
    import jax.numpy as jnp
    obs = [(i, s) for i, s in enumerate(trace) if s["act"] == "measure"]
    fn = kepler_seen if trace[0]["form"]["model"] == "kepler" else transit_seen
    for n in sorted({len(s["law"]) for _, s in obs}):
        sel = [(i, s) for i, s in obs if len(s["law"]) == n]
        ex = lambda k, q: jnp.asarray([exact(s[k][q]) for _, s in sel])  # noqa: E731
        cen = {q: ex("cdesc", q) for q in sel[0][1]["cdesc"]}
        body = {q: ex("desc", q) for q in sel[0][1]["desc"]}
        size = jnp.asarray([exact(s["bodyR"]) for _, s in sel])
        u = jnp.asarray([exact(s["law"]) for _, s in sel], dtype=float).reshape(len(sel), n)
        t = jnp.asarray([exact(s["t"]) for _, s in sel])
        chk.at(job, trace, sel[0][0])
        with chk.code("orbit derivatives", f"{trace[0]['form']}"):
            res = both((job["init"], n), fn, (cen, body, size, u, t))
        for mode, g in res:
            gc, gb, gs, gu, gt = ({k: np.asarray(v) for k, v in x.items()} if isinstance(x, dict) else np.asarray(x) for x in g)
            for j, (i, s) in enumerate(sel):
                chk.at(job, trace, i)
                one(s, {k: v[j] for k, v in gc.items()}, {k: v[j] for k, v in gb.items()}, gs[j], gu[j], gt[j], mode, chk)
    chk.sample({k: {q: fx(v) for q, v in obs[0][1][k].items()} for k in ("cdesc", "desc")})


def one(s, gc, gb, gs, gu, gt, mode, chk):
    d = (f"central { {k: exact(v) for k, v in s['cdesc'].items()} } body { {k: exact(v) for k, v in s['desc'].items()} } radius {exact(s['bodyR'])!r} "
         f"u={exact(s['law'])} t={exact(s['t'])!r} ({s['where']}) {mode}")
    m = len(s["value"])
    noRv = s["form"]["model"] == "kepler" and not {"mass", "radial_velocity_semiamplitude"} & set(s["desc"])
    rows = [("t", gt, s["byTime"], s["lightTime"])]
    rows += [("central " + k, gc[k], s["byCen"][k], s["lightCen"][k]) for k in gc]
    for k in gb:
        if k in PAIRS:
            a, b = PAIRS[k]
            if k == a:
                v = gb[a] * fx(s["desc"][b]) - gb[b] * fx(s["desc"][a])
                rows.append((a + " and " + b, v, s["byBody"][k], s["lightBody"][k]))
        else:
            rows.append((k, gb[k], s["byBody"][k], s["lightBody"][k]))
    sc = scale(exact(s["law"]))
    edge = {k: fx(v) for k, v in s["edgeOf"].items() if k != "front"}
    # at the contacts half of the digits of a separation are lost to its rounding
    kink = min(abs(1 + edge["r"] - edge["b"]), abs(abs(1 - edge["r"]) - edge["b"]))
    far = 1e-7 if kink > 1e-5 else 5e-6
    # the edge of the body on the limb everywhere: the derivative jumps there
    limb = np.hypot(edge["b"], edge["r"] - 1) < 1e-5
    for k, g, w, lw in rows:
        w, g = np.array(fx(w)), np.array(g)
        if not chk.ok("finite", bool(np.isfinite(g).all()), f"derivatives by {k}: {g}; {d}", key=(k, d)):
            continue
        if noRv:
            w[3] = 0
        size = 1 + np.abs(w).max()
        chk.close("orbit by " + k.split()[-1], g[:m], w, rtol=0, atol=1e-10 * size, detail=f"by {k}: {d}")
        if not limb:
            chk.close("light by " + k.split()[-1], g[m], fx(lw), rtol=0, atol=far * sc * size, detail=f"by {k}: {d}")
    if not chk.ok("finite", bool(np.isfinite(gs[m]) and np.isfinite(gu[m]).all()), f"light by radius {gs[m]}, by law {gu[m]}; {d}", key=("u", d)):
        return
    if s["law"]:
        chk.close("light by law", gu[m], fx(s["lightLaw"]), rtol=0, atol=1e-9, detail=d)
    if s["form"]["model"] == "kepler" and not limb:
        chk.close("light by radius", gs[m], fx(s["lightSize"]), rtol=0, atol=far * sc * (1 + 1 / fx(s["value"])[4]), detail=d)


# ------------------------------------------------------------------------------------------ surfaces
def surface_seen(what, keys, kw, args, order, normalize):
    """light or velocity of a surface made of the arrays in args"""
    import jax.numpy as jnp
    from jaxoplanet.starry import Surface, Ylm
    from jaxoplanet.starry.doppler import surface_radial_velocity
    from jaxoplanet.starry.light_curves import surface_light_curve
    a = dict(args)
    amp = {} if normalize else {"amplitude": a["amp"]}
    surf = Surface(y=Ylm.from_dense(a["map"], normalize=False), u=tuple(a["u"]), period=a["period"], radius=a["radius"],
                   inc=a.get("inc"), obl=a.get("obl"), normalize=normalize, **amp)
    f = surface_light_curve if what == "light" else surface_radial_velocity
    occ = {k: a[k] for k in "rxyz" if k in a}
    return f(surf, theta=a.get("theta"), order=order, **occ)


def surface(job, trace, chk):
    import jax.numpy as jnp
    obs = [(i, s) for i, s in enumerate(trace) if s["act"] == "slopes"]
    form = trace[0]["form"]
    for there in (True, False):
        for nrm in (True, False):
            sel = [(i, s) for i, s in obs if s["occ"]["there"] == there and s["surf"]["normalize"] == nrm]
            if not sel:
                continue
            arr = lambda f: jnp.asarray([f(s) for _, s in sel], dtype=float)  # noqa: E731
            args = {"map": arr(lambda s: exact(s["surf"]["y"])), "u": arr(lambda s: exact(s["surf"]["u"])).reshape(len(sel), form["U"])}
            for k in ("period", "radius", "amp"):
                args[k] = arr(lambda s: exact(s["surf"][k]))
            for k in ("inc", "obl"):
                if form[k]:
                    args[k] = arr(lambda s: exact(s["surf"][k]["value"]))
            if form["theta"]:
                args["theta"] = arr(lambda s: exact(s["theta"]))
            if there:
                args.update({k: arr(lambda s: exact(s["occ"][k])) for k in "rxyz"})
            for what in ("light", "velocity"):
                chk.at(job, trace, sel[0][0])
                with chk.code("surface derivatives", f"{form}"):
                    fn = lambda a: surface_seen(what, None, None, a, 100, nrm)  # noqa: E731
                    res = both((job["init"], there, nrm, what), fn, (args,))
                for mode, g in res:
                    g = {k: np.asarray(v) for k, v in g[0].items()}
                    for j, (i, s) in enumerate(sel):
                        chk.at(job, trace, i)
                        seen(s, {k: v[j] for k, v in g.items()}, what, mode, chk)


def seen(s, g, what, mode, chk):
    from checks import surfaces as S
    o = s["occ"]
    x, y, z, r = (exact(o[k]) for k in "xyzr")
    b = float(np.hypot(x, y))
    hid = o["there"] and z > 0 and b < 1 + r
    L = s["form"]["L"]
    d = f"{what}, theta={exact(s['theta'])!r}, occultor {o['there']} r, x, y, z = {[r, x, y, z]} ({s['kind']}) {mode}; {S.show(s)}"
    want = s["light1"] if what == "light" else s["speed1"]
    if what == "velocity" and not want:
        return
    # (bounds of the terms of the map, of the law, and how much is left of the light)
    sc = S.law(s) * S.strength(s) * S.amplitude(s) * (1 + (L + s["form"]["U"]) / 5)
    if what == "velocity":
        veq = 2 * np.pi * fx(s["surf"]["radius"]) / fx(s["surf"]["period"])
        sc *= veq * (1 + 1 / fx(s["surf"]["period"]) + 1 / fx(s["surf"]["radius"])) / abs(fx(s["whole"])) * S.law(s)
        if sc > 1e6 * veq:
            return
    kink = min(abs(1 + r - b), abs(abs(1 - r) - b))
    limb = hid and np.hypot(b, r - 1) < 1e-5
    central = hid and b < CLOSE and (L > 0 or what == "velocity")
    eps = (1e-8 if kink > 1e-6 else 1e-5) + (1e-14 / b if hid and b > 0 else 0)
    for k in sorted(g):
        ok = bool(np.isfinite(g[k]).all())
        if central:
            # the known finding: nothing can be said about an occultor exactly in the middle
            chk.ok("finite" if b else CONCENTRIC, ok, f"derivative by {k}: {g[k]}; {d}", key=(k, d, what, mode))
            continue
        if not chk.ok("finite", ok, f"derivative by {k}: {g[k]}; {d}", key=(k, d, what, mode)) or k == "z" or limb:
            continue
        if k == "map":
            got, w, e = float(g[k] @ np.array(fx(s["sway"]))), fx(want[k]), sum(abs(fx(v)) for v in s["sway"])
        elif k == "u":
            got, w, e = g[k], np.array([fx(v[0 if what == "light" else 1]) for v in s["byLaw"]]), 1
            if not s["byLaw"]:
                continue
        else:
            got, w, e = g[k], fx(want[k]), 1
        chk.close(f"{what} by {k}", got, w, rtol=0, atol=eps * sc * (1 + e / S.strength(s)), detail=d)


CONCENTRIC = "finite, occultor exactly in the middle"
CLOSE = 1e-13


def finding_of(v):
    return "concentric-map-gradient" if v["clause"] == CONCENTRIC else None


def run_trace(job, trace, chk):
    try:
        {"disc": disc, "anomaly": anomaly, "orbit": orbit, "surface": surface}[job["tag"]](job, trace, chk)
    except Stop:
        pass
