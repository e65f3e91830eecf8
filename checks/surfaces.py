"""Driver shared by the checks of surfaces (spec/surface_mc.qnt)"""
import numpy as np

from vt.core import exact, fx

CACHE = {}


def groups(trace):
    """a behaviour cut at every new surface: [(index, state)...]"""
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "describe":
            out.append([])
        if out:
            out[-1].append((i, st))
    return out


def build(st, rng):
    """the surface, written in one of the ways to write it"""
    import jax.numpy as jnp
    from jaxoplanet.starry import Surface, Ylm
    s, L = st["surf"], st["form"]["L"]
    y = [exact(v) for v in s["y"]]
    style = rng.choice(["dense", "list", "dict", "sparse"])
    if style in ("dense", "list"):
        m = Ylm.from_dense(np.array(y) if style == "dense" else y, normalize=False)
    else:
        keys = [(ell, k) for ell in range(L + 1) for k in range(-ell, ell + 1)]
        data = dict(zip(keys, y))
        if style == "sparse":
            # zeros left out, but the degree stays
            data = {k: v for k, v in data.items() if v != 0 or k in ((0, 0), (L, 0))}
        items = list(data.items())
        rng.shuffle(items)
        m = Ylm(dict(items))
    u = [exact(v) for v in s["u"]]
    kw = dict(y=m, u=rng.choice([tuple(u), list(u), jnp.asarray(u, dtype=float)]), period=exact(s["period"]), phase=exact(s["phase"]),
              radius=exact(s["radius"]))
    for k in ("inc", "obl"):
        kw[k] = exact(s[k]["value"]) if s[k]["given"] else None
        if k == "obl" and not s[k]["given"] and rng.random() < 0.5:
            del kw[k]
    if s["normalize"]:
        if rng.random() < 0.5:
            kw["normalize"] = True
        if rng.random() < 0.5:
            kw["amplitude"] = 7.0        # overruled
    else:
        kw.update(normalize=False, amplitude=exact(s["amp"]))
    surf = Surface(**kw)
    return surf, style == "sparse"


def plain(surf):
    """the same with the same structure whatever the way it was written, for compiled calls"""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from jaxoplanet.starry import Ylm
    y = Ylm.from_dense(surf.y.todense(), normalize=False)
    surf = eqx.tree_at(lambda s: (s.y, s.u), surf, (y, tuple(surf.u)))
    leaves, tree = jax.tree.flatten(surf)
    # (flags: whether it is to be normalised has been dealt with)
    return jax.tree.unflatten(tree, [True if isinstance(v, bool) else jnp.asarray(v, dtype=float) for v in leaves])


def jitted(key, make):
    import equinox as eqx
    if key not in CACHE:
        CACHE[key] = eqx.filter_jit(make())
    return CACHE[key]


def omitted(o, rng, L):
    """one of the coordinates that are zero, now and then"""
    zero = [k for k, v in zip("rxyz", o or ()) if v == 0 and k != "r"]
    return () if not zero or L > 3 or rng.random() < 0.6 else (rng.choice(zero),)


def show(st):
    s, f = st["surf"], st["form"]
    a = lambda k: repr(exact(s[k]["value"])) if s[k]["given"] else "None"  # noqa: E731
    return (f"degree {f['L']}, u={[exact(v) for v in s['u']]}, inc={a('inc')}, obl={a('obl')}, amplitude={exact(s['amp'])}, "
            f"normalize={s['normalize']}, period={exact(s['period'])}, phase={exact(s['phase'])}, radius={exact(s['radius'])}, "
            f"y={[exact(v) for v in s['y']]}")


def amplitude(st):
    return 1.0 if st["surf"]["normalize"] else exact(st["surf"]["amp"])


def strength(st):
    """a bound of the size of the map's terms"""
    y = np.array(fx(st["surf"]["y"]))
    w = np.concatenate([np.full(2 * ell + 1, np.sqrt(2 * ell + 1.0)) for ell in range(st["form"]["L"] + 1)])
    return float(np.abs(y * w).sum())


def law(st):
    return float(1 + sum(abs(c) * (i + 2) for i, c in enumerate(fx(st["surf"]["u"]))))


def budget(st, order, eps):
    """accuracy of the quadrature at a given order, plus rounding of the change of basis (measured, with a margin)"""
    deg = st["form"]["L"] + st["form"]["U"]
    return law(st) * strength(st) * amplitude(st) * (2e-6 * (10 / order) ** 4.5 * (1 + deg / 5) + eps * (1 + deg) ** 2)
