"""P22 light curves of systems of surfaces (spec/surface_system_mc.qnt)"""
import numpy as np

from checks import systems as Y
from checks.orbits import dress, seeded
from vt.core import Stop, exact, fx

ID = "P22"
LEVEL = "model_checking"
RULE = ("histories of up to three bodies, plain, carrying a surface, already on an orbit or given by their fields, with and without "
        "surfaces of degree 0-3, added to a system one by one or through the constructor; every system of the history looked at in "
        "transits, eclipses, conjunctions and elsewhere, earlier ones again; distinct by expected fluxes")


def jobs(tier, seed):
    n, k = (44, 8) if tier == "quick" else (400, 32)
    return [dict(spec="surface_system_mc.qnt", step="step", steps=n, seed=seed * 1220 + i, invariant="inv", history=True) for i in range(k)]


def surface(s, rng):
    import jax.numpy as jnp
    from jaxoplanet.starry import Surface, Ylm
    if s["kind"] == 0:
        return None
    y = [exact(v) for v in s["y"]]
    if rng.random() < 0.5:
        m = Ylm.from_dense(np.array(y), normalize=False)
    else:
        keys = [(ell, k) for ell in range(s["L"] + 1) for k in range(-ell, ell + 1)]
        m = Ylm(dict(zip(keys, y)))
    u = [exact(v) for v in s["u"]]
    kw = dict(y=m, u=rng.choice([tuple(u), list(u), jnp.asarray(u, dtype=float)]), radius=exact(s["radius"]))
    if s["rotates"]:
        kw.update(period=exact(s["period"]), phase=exact(s["phase"]))
    if s["kind"] == 1:
        kw.update(inc=None)
    elif s["kind"] >= 3:
        kw.update(inc=exact(s["inc"]))
    if s["kind"] >= 4:
        kw.update(obl=exact(s["obl"]))
    if not s["normalize"]:
        kw.update(normalize=False, amplitude=exact(s["amp"]))
    return Surface(**kw)


class History:
    """the systems made so far, by number of bodies"""

    def __init__(self, st, rng):
        from jaxoplanet.orbits.keplerian import Central
        from jaxoplanet.units import unit_registry as ureg
        self.central = Central(**{k: dress(k, exact(v), rng.randrange(4), ureg) for k, v in st["cdesc"].items()})
        self.surface = surface(st["csurf"], rng)
        self.bodies = []           # (how, arguments)
        self.systems = {}

    def add(self, b, rng):
        from jaxoplanet.orbits.keplerian import Body, OrbitalBody
        from jaxoplanet.starry.orbit import SurfaceBody
        from jaxoplanet.units import unit_registry as ureg
        style = rng.randrange(4)
        kw = {k: dress(k, exact(v), style, ureg) for k, v in b["d"].items()}
        kw["radius"] = dress("radius", exact(b["r"]), style, ureg)
        passed, carried = surface(b["passed"], rng), surface(b["carried"], rng)
        how = b["how"]
        if how == "carrying":
            body = SurfaceBody(surface=carried, **kw)
        elif how == "orbital":
            body = OrbitalBody(self.central, Body(**kw))
        elif how == "fields":
            body = kw
        else:
            body = Body(**kw)
        self.bodies.append((body, passed))

    def make(self, n, made, rng):
        """the system of the first n bodies, the first `made` of them through the constructor"""
        from jaxoplanet.orbits.keplerian import Body
        from jaxoplanet.starry.orbit import SurfaceSystem
        if n in self.systems:
            return self.systems[n]
        if n <= made or n == 0:
            bs = [(Body(**b) if isinstance(b, dict) else b, s) for b, s in self.bodies[:n]]
            s = SurfaceSystem(self.central, self.surface, bodies=bs) if n or rng.random() < 0.5 else SurfaceSystem(self.central, self.surface)
        else:
            prev = self.make(n - 1, made, rng)
            b, surf = self.bodies[n - 1]
            if isinstance(b, dict):
                s = prev.add_body(surface=surf, **b)
            elif surf is None and rng.random() < 0.5:
                s = prev.add_body(b)
            else:
                s = prev.add_body(b, surf) if rng.random() < 0.5 else prev.add_body(b, surface=surf)
        self.systems[n] = s
        return s


def shining(b):
    if b["passed"]["kind"]:
        return b["passed"]
    return b["carried"] if b["how"] == "carrying" else b["passed"]


def strength(s):
    y = np.array(fx(s["y"]))
    w = np.concatenate([np.full(2 * ell + 1, np.sqrt(2 * ell + 1.0)) for ell in range(s["L"] + 1)])
    law = 1 + sum(abs(c) * (i + 2) for i, c in enumerate(fx(s["u"])))
    return float(np.abs(y * w).sum() * law * (1.0 if s["normalize"] else fx(s["amp"])))


def show(st, n):
    f = lambda s: "none" if s["kind"] == 0 else {k: fx(s[k]) if k not in ("kind", "L", "normalize", "rotates") else s[k] for k in s}  # noqa: E731
    return (f"central { {k: fx(v) for k, v in st['cdesc'].items()} } surface {f(st['csurf'])}; first {st['made']} of the constructor; bodies "
            + str([({k: fx(v) for k, v in b["d"].items()}, "r", fx(b["r"]), b["how"], "carried", f(b["carried"]), "passed", f(b["passed"]))
                   for b in st["bodies"][:n]]))


def visits(trace):
    """runs of measurements of the same system: [(kind, [(index, state)])]"""
    out = []
    for i, st in enumerate(trace):
        if st["act"] in ("begin", "add"):
            out.append((st["act"], [(i, st)]))
        elif st["act"] == "measure":
            if out and out[-1][0] == "measure" and out[-1][1][0][1]["upto"] == st["upto"]:
                out[-1][1].append((i, st))
            else:
                out.append(("measure", [(i, st)]))
    return out


def radius_of(st):
    return fx(st["bodies"][0]["o"]["rc"])


def uncertain(st, s, m, eps):
    """uncertainty of the projected position of body m"""
    o = st["bodies"][m]["o"]
    dt = 8 * eps * (abs(fx(s["t"])) + abs(fx(o["tTransit"])) + 7 * fx(o["period"]))
    return fx(s["seen"][m]["speed"]) * dt + fx(o["a"]) * 100 * eps / (1 - fx(o["e"]))


def tolerances(st, s, n, order, eps):
    """one per entry; None where the side of an occultor cannot be told or the ratio of sizes is extreme"""
    out = []
    rc = radius_of(s) if n else 1.0
    err = [uncertain(s, s, m, eps) for m in range(n)]
    quad = 8e-6 * (10 / order) ** 4.5
    for m in range(n + 1):
        surf = s["csurf"] if m == 0 else shining(s["bodies"][m - 1])
        who = range(n) if m == 0 else [m - 1]
        if any(abs(fx(s["seen"][w]["z"])) < 1e-6 * fx(s["bodies"][w]["o"]["a"]) for w in who):
            out.append(None)
            continue
        if m == 0:
            rel = sum(err) / rc
            big = max([fx(b["r"]) for b in s["bodies"][:n]], default=0) / rc
        else:
            rel = err[m - 1] / fx(s["bodies"][m - 1]["r"])
            big = rc / fx(s["bodies"][m - 1]["r"])
        if rel > 1e-2 or big > 1e4:
            out.append(None)
            continue
        turn = 2 * np.pi * abs(fx(s["t"])) / fx(surf["period"]) if surf["rotates"] else 0
        out.append(strength(surf) * ((quad + 3e-14 * (1 + big ** 2)) * (1 + n) + 4 * rel + 4 * eps * turn * (1 + surf["L"])))
    return out


def run_trace(job, trace, chk):
    from jaxoplanet.starry.light_curves import light_curve
    from jaxoplanet.units import unit_registry as ureg
    eps = 5e-15
    hist = None
    for kind, obs in visits(trace):
        i, st = obs[0]
        rng = seeded(job, i)
        chk.at(job, trace, i)
        if kind == "begin":
            hist = History(st, rng)
            continue
        if hist is None:
            continue
        d = show(st, len(st["bodies"]))
        if kind == "add":
            with chk.code("body", d):
                hist.add(st["bodies"][-1], rng)
            continue
        n = st["upto"]
        with chk.code("system", d):
            sysm = hist.make(n, st["made"], rng)
        chk.equal("surfaces", [None if s is None else s.ydeg for s in sysm.body_surfaces],
                  [None if shining(b)["kind"] == 0 else shining(b)["L"] for b in st["bodies"][:n]], d)
        ts = np.array([exact(s["t"]) for _, s in obs])
        tq = rng.choice([ts, ts * ureg.day, (ts * ureg.day).to("hour")])
        order = rng.choice([None, 20, 60])
        with chk.code("light curve", d):
            g = np.asarray(light_curve(sysm, **({} if order is None else {"order": order}))(tq))
        want = np.array([fx(s["fluxes"]) for _, s in obs])
        if not chk.ok("shape", g.shape == want.shape, f"{g.shape}, specification says {want.shape}; {d}", key=(d,)):
            continue
        for j, (k, s) in enumerate(obs):
            chk.at(job, trace, k)
            for m, tol in enumerate(tolerances(st, s, n, order or 20, eps)):
                if tol is not None:
                    surf = s["csurf"] if m == 0 else shining(s["bodies"][m - 1])
                    chk.close("central" if m == 0 else "body" if surf["kind"] else "dark body", g[j, m], want[j, m], rtol=0,
                              atol=tol if surf["kind"] or m == 0 else 0, detail=f"t={ts[j]!r}, first {n} bodies, entry {m}, order={order}; {d}")
        chk.sample({"system": d[:600], "t": ts[:2].tolist(), "flux": want[:2].tolist()})
