"""P29 objects made and carried in every way (spec/carrier_mc.qnt)"""
import io

import numpy as np

from checks.orbits import UNITS, seeded
from vt.core import Stop, exact, fx

ID = "P29"
LEVEL = "model_checking"
RULE = ("families of centrals, bodies, systems, transit orbits, timing orbits, maps, surfaces and systems of surfaces in every form of "
        "description; histories of making (directly, compiled, batched, looped), carrying (rebuilt, copied, saved, stacked, selected, "
        "branched, scanned) and asking (directly, as argument, closed over, batched, differentiated); distinct by expected observations")
U29 = dict(UNITS, speed="1/day", duration="day")


def jobs(tier, seed):
    n, k = (140, 5) if tier == "quick" else (500, 24)
    m, j = (60, 3) if tier == "quick" else (250, 12)
    return ([dict(spec="carrier_mc.qnt", step="step", steps=n, seed=seed * 2900 + i, invariant="inv", history=True) for i in range(k)]
            + [dict(spec="carrier_mc.qnt", step="stepSurfaces", steps=m, seed=seed * 2900 + 500 + i, invariant="inv", history=True,
                    tag="surfaces") for i in range(j)])


def flat(m):
    """the numbers of a member in a fixed order"""
    return np.array([exact(m["cd"][k]) for k in sorted(m["cd"])] + [exact(d[k]) for d in m["ds"] for k in sorted(d)]
                    + [exact(v) for v in m["x"]] + [exact(v) for v in m["u"]])


class Family:
    def __init__(self, st, rng):
        self.form = st["form"]
        self.kind = self.form["kind"]
        m = st["members"][0]
        self.ck = sorted(m["cd"])
        self.dk = [sorted(d) for d in m["ds"]]
        self.nx, self.nu = len(m["x"]), len(m["u"])
        self.units = rng.random() < 0.5
        self.style = rng.randrange(4)
        self.normalize = rng.random() < 0.5
        self.vectors = [flat(m) for m in st["members"]]

    # ---------------------------------------------------------------- making
    def kw(self, keys, v, units=True):
        from jaxoplanet.units import unit_registry as ureg
        out = {}
        for k, x in zip(keys, v):
            out[k] = x * ureg(U29[k]).units if units and self.units and k in U29 else x
        return out

    def unpack(self, v):
        i = len(self.ck)
        cd = dict(zip(self.ck, v[:i]))
        ds = []
        for k in self.dk:
            ds.append(dict(zip(k, v[i:i + len(k)])))
            i += len(k)
        return cd, ds, v[i:i + self.nx], v[i + self.nx:i + self.nx + self.nu]

    def make(self, v):
        """the object (and the limb darkening to look at it with) from a vector of numbers"""
        import jax.numpy as jnp
        from jaxoplanet.orbits import TransitOrbit
        from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
        from jaxoplanet.orbits.ttv import TTVOrbit
        from jaxoplanet.starry import Surface, Ylm
        from jaxoplanet.starry.orbit import SurfaceSystem
        cd, ds, x, u = self.unpack(v)
        U = lambda d: self.kw(d.keys(), d.values())  # noqa: E731
        k = self.kind
        if k in ("central", "orbit", "pair", "system"):
            c = Central(**U(cd))
        if k == "central":
            return dict(it=c)
        if k == "orbit":
            if self.style == 0:
                return dict(it=OrbitalBody(c, Body(**U(ds[0]))), u=u)
            if self.style == 1:
                return dict(it=System(c, bodies=[Body(**U(ds[0]))]).bodies[0], u=u)
            return dict(it=System(c).add_body(**U(ds[0])).bodies[0], u=u)
        if k == "pair":
            if self.style % 2:
                return dict(it=System(c, bodies=[Body(**U(d)) for d in ds]), u=u)
            return dict(it=System(c).add_body(Body(**U(ds[0]))).add_body(**U(ds[1])), u=u)
        if k in ("transit", "timing"):
            col = lambda n: (ds[0][n] if len(ds) == 1 and self.style % 2 else jnp.stack([d[n] for d in ds]))  # noqa: E731
            names = [n for n in self.dk[0] if n not in ("tt0", "tt1", "tt2", "v0", "v1", "v2")]
            kw = self.kw(names, [col(n) for n in names])
            if k == "transit":
                return dict(it=TransitOrbit(**kw), u=u)
            for n, w in (("transit_times", "tt"), ("ttvs", "v")):
                if w + "0" in ds[0]:
                    kw[n] = tuple(jnp.stack([d[w + str(i)] for i in range(3)]) for d in ds)
            return dict(it=TTVOrbit(**kw), u=u)
        if k in ("map", "surface", "system"):
            if self.style % 2:
                y = Ylm.from_dense(x, normalize=False)
            else:
                y = Ylm({(ell, m): x[ell * (ell + 1) + m] for ell in range(self.form["L"] + 1) for m in range(-ell, ell + 1)})
        if k == "map":
            return dict(it=y)
        sk = {n: w for n, w in ds[-1].items()}
        law = tuple(u) if self.style < 2 else u
        sk.setdefault("inc", None)
        if "amplitude" not in sk and self.normalize:
            surf = Surface(y=y, u=law, **sk)          # the same function, written otherwise
        else:
            surf = Surface(y=y, u=law, normalize=False, **sk)
        if k == "surface":
            return dict(it=surf)
        b = Surface(u=law, y=Ylm({(0, 0): x[0]})) if self.normalize else Surface(u=law, normalize=False, amplitude=x[0])
        if self.style % 2:
            return dict(it=SurfaceSystem(c, surf, bodies=[(Body(**U(ds[0])), b)]))
        return dict(it=SurfaceSystem(c, surf).add_body(surface=b, **U(ds[0])))

    # ---------------------------------------------------------------- asking
    def look(self, o, t, place, disc):
        import jax.numpy as jnp
        from jaxoplanet.light_curves import limb_dark
        from jaxoplanet.starry.light_curves import light_curve, surface_light_curve
        it, k = o["it"], self.kind
        M = lambda q: jnp.asarray(getattr(q, "magnitude", q), dtype=float)  # noqa: E731

        def R(qs, parallax=None):
            if parallax is None:
                return [M(q.to("R_sun")) for q in qs]
            au = 215.03215567054764
            return [M(q.to("arcsec")) / M(parallax.to("arcsec")) * au for q in qs]

        if k == "central":
            return jnp.stack([M(it.mass.to("M_sun")), M(it.radius.to("R_sun")), M(it.density.to("M_sun/R_sun**3"))])
        if k == "map":
            return jnp.concatenate([it.todense(), it.normalize().todense(), (it * it).normalize().todense()])
        if k == "surface":
            th = it.rotational_phase(t) if it.period is not None else 0.0
            out = [surface_light_curve(it, *disc, th), surface_light_curve(it, theta=th)]
            return jnp.stack([M(v) for v in out] + [M(it.intensity(*place))])
        if k == "system":
            return jnp.ravel(M(light_curve(it)(t)))
        u = o["u"]
        args = tuple(u) if self.style % 2 else (u,)
        if k == "orbit":
            rv = M(it.radial_velocity(t).to("R_sun/day")) if it.mass is not None else jnp.zeros(())
            light = M(limb_dark.light_curve(it, *args)(t))
            return jnp.stack(R(it.relative_position(t), it.parallax) + [rv, light, M(it.period.to("day")), M(it.semimajor.to("R_sun")),
                                                           M(it.total_mass.to("M_sun"))])
        if k == "pair":
            p = R(it.relative_position(t), it.body_vmap(lambda b: b.parallax)())
            light = M(limb_dark.light_curve(it, *args)(t))
            rv = (M(it.radial_velocity(t).to("R_sun/day")) if all(b.mass is not None for b in it.bodies) else jnp.zeros(2))
            return jnp.ravel(jnp.stack([*p, rv, light], axis=-1))
        p = it.relative_position(t)
        light = M(limb_dark.light_curve(it, *args)(t))
        return jnp.ravel(jnp.stack([jnp.broadcast_to(M(q), light.shape) for q in p[:2]] + [light], axis=-1))

    def tolerances(self, st, want):
        """absolute, per entry, with the uses they are not comparable in masked"""
        k, n = self.kind, len(want)
        big = 1e-9 * (10 + np.max(np.abs(want)))
        if k == "central":
            return np.full(n, 1e-12 * np.max(np.abs(want)) + 1e-12)
        if k == "orbit":
            return np.array([big, big, big, big, 5e-5, big, big, big])
        if k == "pair":
            return np.array([big, big, big, big, 5e-5] * 2)
        if k in ("transit", "timing"):
            return np.array([1e-9, 1e-9, 5e-5] * (n // 3))
        if k == "map":
            return np.full(n, 1e-11 * (1 + np.max(np.abs(want))))
        return np.full(n, 3e-4 * (1 + np.max(np.abs(want))))


def take(tree, i):
    import jax
    return jax.tree.map(lambda x: x[i], tree)


def stack(a, b):
    import jax
    import jax.numpy as jnp
    return jax.tree.map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), a, b)


def make(fam, how, i):
    import jax
    import jax.numpy as jnp
    v = jnp.asarray(fam.vectors[i])
    w = jnp.stack([v, jnp.asarray(fam.vectors[(i + 1) % 3])])
    if how == "direct":
        return fam.make(v)
    if how == "compiled":
        return jax.jit(fam.make)(v)
    if how == "batched":
        return take(jax.vmap(fam.make)(w), 0)
    return take(jax.lax.map(fam.make, w), 0)


def carry(how, a, b, second):
    import copy

    import jax
    import jax.numpy as jnp
    if how == "rebuild":
        leaves, tree = jax.tree.flatten(a)
        return jax.tree.unflatten(tree, leaves)
    if how == "copy":
        return copy.deepcopy(a)
    if how == "identity":
        return jax.jit(lambda x: x)(a)
    if how == "numpy":
        return jax.tree.map(np.asarray, a)
    if how == "saved":
        # its numbers in a file, its structure at hand
        f = io.BytesIO()
        leaves, tree = jax.tree.flatten(a)
        np.savez(f, *leaves)
        f.seek(0)
        z = np.load(f)
        return jax.tree.unflatten(tree, [z[n] for n in z.files])
    if how == "stack":
        return take(stack(a, b), 1 if second else 0)
    if how == "select":
        return jax.jit(lambda x, y, c: jax.tree.map(lambda p, q: jnp.where(c, p, q), x, y))(a, b, not second)
    if how == "branch":
        return jax.jit(lambda x, y, c: jax.lax.cond(c, lambda: x, lambda: y))(*jax.tree.map(jnp.asarray, (a, b)), not second)
    last, seen = jax.lax.scan(lambda c, x: (x, c), jax.tree.map(jnp.asarray, a), stack(a, b))
    return last if second else take(seen, 0)


def ask(fam, how, a, b, ts, place, disc):
    """what is seen of a at the first time, and of b then or of a at the second time"""
    import jax
    import jax.numpy as jnp
    look = fam.look
    f = lambda o: look(o, ts[0], place, disc)  # noqa: E731
    if how == "direct":
        return f(a), f(b)
    if how == "argument":
        g = jax.jit(look)
        return g(a, ts[0], place, disc), g(b, ts[0], place, disc)
    if how == "closure":
        return jax.jit(lambda t: look(a, t, place, disc))(ts[0]), jax.jit(lambda t: look(b, t, place, disc))(ts[0])
    if how == "batch":
        r = jax.vmap(f)(stack(a, b))
        return r[0], r[1]
    if how == "times":
        r = jax.vmap(lambda t: look(a, t, place, disc))(jnp.asarray(ts))
        return r[0], r[1]

    def primal(o):
        leaves, tree = jax.tree.flatten(o)
        at = [n for n, v in enumerate(leaves) if jnp.issubdtype(jnp.result_type(v), jnp.floating)]

        def g(x):
            every = list(leaves)
            for n, v in zip(at, x):
                every[n] = v
            return f(jax.tree.unflatten(tree, every))
        x = [jnp.asarray(leaves[n]) for n in at]
        if how == "forward":
            return jax.jvp(g, (x,), ([jnp.ones_like(v) for v in x],))[0]
        y, back = jax.vjp(g, x)
        back(jnp.ones_like(y))
        return y
    return primal(a), primal(b)


def run_trace(job, trace, chk):
    fam = None
    for i, st in enumerate(trace):
        chk.at(job, trace, i)
        if st["act"] == "start":
            fam, shelf, dead = Family(st, seeded(job, i)), [], False
            d0 = f"{st['form']}"
            continue
        if fam is None or dead:
            continue
        if st["act"] in ("make", "carry"):
            g = st["log"][-1]
            d = f"{d0} {g} of {[(x['how'], x['src'], x['other']) for x in st['log'][:-1]]}"
            try:
                with chk.code(g["how"], d):
                    if g["src"] < 0:
                        o = make(fam, g["how"], g["member"])
                    else:
                        o = carry(g["how"], shelf[g["src"]], shelf[g["other"]], g["second"])
                    kind = type(o["it"])
            except Stop:
                dead = True
                continue
            shelf.append(o)
            if len(shelf) > 1:
                chk.equal("kind", kind.__name__, type(shelf[0]["it"]).__name__, d)
            continue
        if st["act"] != "ask":
            continue
        who, other = st["who"], st["other"]
        d = f"{d0} member {flat(st['members'][st['shelf'][who]]).tolist()}, {[(x['how'], x['src'], x['other']) for x in st['log']]}"
        try:
            with chk.code("ask " + st["how"], d):
                got = ask(fam, st["how"], shelf[who], shelf[other], exact(st["ts"]), tuple(exact(st["place"])), tuple(exact(st["disc"])))
                got = [np.asarray(g, dtype=float) for g in got]
        except Stop:
            continue
        for j, (g, w) in enumerate(zip(got, st["out"])):
            w = np.array(fx(w))
            m = st["members"][st["shelf"][who if j == 0 or st["how"] == "times" else other]]
            keep = len(w)
            if fam.kind in ("orbit", "pair"):
                # without a mass there is no velocity of the central to speak of
                w = w.copy()
                if not all("mass" in x for x in m["ds"][:1 if fam.kind == "orbit" else 2]):
                    w[3::5] = np.where(np.arange(3, len(w), 5) < (5 if fam.kind == "orbit" else 10), 0, w[3::5])
            if fam.kind == "system" and fx(m["ds"][0]["radius"]) * 500 < 1:
                keep = 1
            chk.close(st["how"], g[:keep], w[:keep], rtol=0, atol=fam.tolerances(st, w)[:keep], detail=d)
        chk.sample({"family": st["form"], "log": [x["how"] for x in st["log"]], "seen": fx(st["out"][0])})
