"""P20 what a surface looks like (spec/surface_mc.qnt stepLook)"""
import numpy as np

from checks import surfaces as S
from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P20"
LEVEL = "model_checking"
RULE = ("maps of degree 0-10 with 0-3 limb-darkening coefficients, in any orientation, any amplitude, normalised or not, turned by an angle "
        "or by waiting; points at the poles, the equator, the meridians and anywhere on the near side; images of 2, 5, 8 and 17 pixels a side, of intensity and of velocity; drawings of surfaces, bodies, maps and arrays with their graticule; "
        "distinct by expected intensities")

FORMS_QUICK = ["00", "03", "10", "12", "20", "33", "52", "60"]
FORMS = FORMS_QUICK + ["21", "30", "42", "72", "A1"]


def jobs(tier, seed):
    js = []
    forms, n, reps = (FORMS_QUICK, 48, 1) if tier == "quick" else (FORMS, 240, 3)
    for rep in range(reps):
        for k, f in enumerate(forms):
            js.append(dict(spec="surface_mc.qnt", init="init" + f, step="stepLook", steps=n, seed=seed * 1200 + 100 * rep + k, invariant="inv",
                           cost=4 + int(f[0], 16)))
    js.append(dict(spec="surface_mc.qnt", init="init21", step="stepLook", steps=n, seed=seed * 1200 + 90, x64=False, cost=5))
    return js


def picture(chk, surf, s, rng, theta, tol, tol0, d):
    """the drawing of a surface: the image and the graticule, both where things are on the sky"""
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    from jaxoplanet.starry import Surface, Ylm, show_surface
    from jaxoplanet.starry.core.basis import A1
    from jaxoplanet.starry.core.polynomials import Pijk
    from jaxoplanet.starry.orbit import SurfaceBody
    R, n = s["res"], s["ruled"]
    kind = rng.choice(["surface"] * 4 + ["velocity", "body", "map", "vector", "polynomial"])
    if kind in ("map", "vector", "polynomial") and R > 5:
        kind = "surface"
    if kind == "velocity" and surf.period is None:
        kind = "surface"
    rad, kw, what, col = 1.0, {}, surf, 2
    theta_arg = theta
    phased = rng.random() < 0.5
    if kind == "velocity":
        kw["rv"], col = True, 3
    elif kind == "body":
        # (a larger body has more lines)
        rad = rng.choice([1.0, 8.0])
        what = SurfaceBody(radius=rad, period=3.0, surface=surf)
    elif kind != "surface":
        col = 4
        dense = np.array([exact(v) for v in s["surf"]["y"]])
    if kind == "map":
        what = Ylm.from_dense(dense, normalize=False)
    elif kind == "vector":
        what = rng.choice([np.asarray, jnp.asarray])(dense)
    elif kind == "polynomial":
        what = Pijk.from_dense(A1(s["form"]["L"]).todense() @ np.asarray(dense), degree=s["form"]["L"])
    if kind in ("surface", "velocity", "body"):
        if phased:
            theta_arg = theta - exact(s["surf"]["phase"])
        else:
            kw["include_phase"] = False
    d = f"{kind} of radius {rad}, {n} lines; {d}"
    fig, (ax, other) = plt.subplots(1, 2)
    try:
        use = rng.random() < 0.5
        plt.sca(ax if not use else other)
        kw["n"] = n
        with chk.code("show", d):
            show_surface(what, theta=theta_arg, res=R, **({"ax": ax} if use else {}), **kw)
        chk.equal("drawn on the axes given", (len(ax.images), len(other.images) + len(other.lines)), (1, 0), d)
        im = ax.images[0]
        got = np.asarray(im.get_array().filled(np.nan) if hasattr(im.get_array(), "filled") else im.get_array(), float)
        chk.equal("picture size", got.shape, (R, R), d)
        left, right, bottom, top = im.get_extent()
        up = 1 if im.origin == "lower" else -1
        chk.close("picture extent", [left, right, bottom, top], [-rad, rad, -rad, rad], rtol=1e-12, atol=0, detail=d)
        for row, c, *v in s["image"]:
            y = row if up > 0 else R - 1 - row
            w = fx(v[col - 2])
            scale = 1.0 if col != 3 else 2 * np.pi * fx(s["surf"]["radius"]) / fx(s["surf"]["period"])
            if np.isfinite(got[y, c]):
                chk.close("picture", got[y, c], w, rtol=0, atol=max(tol[row, c], tol0) * scale * 10, detail=f"pixel {row}, {c} of {R}; {d}")
        # every point of the parallels and meridians facing us lies on a curve that is drawn
        if kind in ("map", "vector", "polynomial"):
            return
        curves = [np.array(ln.get_data(), float).T for ln in ax.lines]
        if not curves:
            return
        seg = np.concatenate([np.stack([c[:-1], c[1:]], 1) for c in curves])
        seg = seg[np.isfinite(seg).all((1, 2))]
        limb = np.abs(np.hypot(seg[..., 0], seg[..., 1]) - rad).max(1) < 1e-9
        seg = seg[~limb]
        for parallel, p in s["lines"]:
            p = np.array(fx(p))
            # (the last stretch before the horizon may be missing)
            if p[2] < 0.15:
                continue
            a, b = seg[:, 0], seg[:, 1] - seg[:, 0]
            t = np.clip(((rad * p[:2] - a) * b).sum(1) / np.maximum((b * b).sum(1), 1e-300), 0, 1)
            gap = np.hypot(*(a + t[:, None] * b - rad * p[:2]).T).min()
            chk.ok("graticule", gap < 4e-3 * rad, f"{'parallel' if parallel else 'meridian'} through {p.tolist()} (sky) is not drawn, nearest "
                   f"curve at {gap}; {d}", key=(p.tobytes(), n))
        chk.ok("limb drawn", any(np.allclose(np.hypot(*c.T), rad, atol=1e-9) for c in curves), d)
    finally:
        plt.close(fig)


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    pictures = 6
    x64 = job.get("x64", True)
    eps = 1e-15 if x64 else 1e-6
    for group in S.groups(trace):
        i, st = group[0]
        rng = seeded(job, i)
        chk.at(job, trace, i)
        d = S.show(st)
        L, U = st["form"]["L"], st["form"]["U"]
        size = S.law(st) * S.strength(st) * S.amplitude(st) * (1 + L + U) ** 2
        turned = None
        try:
            with chk.code("construct", d):
                surf, sparse = S.build(st, rng)
                flat = S.plain(surf)
            chk.equal("degrees", (surf.ydeg, surf.udeg, surf.deg), (L, U, L + U), d)
            chk.close("amplitude", surf.amplitude, fx(st["surf"]["y"][0]) if st["surf"]["normalize"] else fx(st["surf"]["amp"]),
                      rtol=1e-15 if x64 else 1e-6, atol=0, detail=d)
            for k, s in group:
                chk.at(job, trace, k)
                rng = seeded(job, k)
                theta = fx(s["theta"])
                if s["act"] == "wait":
                    turned = s
                    t = exact(s["time"])
                    with chk.code("phase", d):
                        ph = surf.rotational_phase(jnp.asarray([t, t]) if rng.random() < 0.3 else t)
                    ph = np.ravel(ph)[0]
                    if s["form"]["theta"]:
                        chk.close("phase", ph, theta, rtol=eps, atol=eps, detail=f"t={t}; {d}")
                elif s["act"] in ("turn", "describe"):
                    turned = s
                if s["act"] != "look":
                    continue
                given = s["form"]["theta"]
                if not given:
                    ang = None
                elif turned is not None and turned["act"] == "wait" and rng.random() < 0.5:
                    ang = ph
                else:
                    ang = theta
                # the angle in floating point
                aerr = eps * (1 + abs(theta))
                dd = f"theta={ang}; {d}"
                # ------------------------------------------------ points, as seen before any rotation
                pts = [(exact(p[0]), exact(p[1])) for p in s["points"]]
                z, want = np.array(fx(s["behindLimb"])), np.array(fx(s["atPoints"]))
                # (limb darkening has no meaning on the far side, and the root at the limb loses half of the digits)
                ok = np.ones(len(z), bool) if U == 0 else z > (1e-9 if x64 else 1e-2)
                lat, lon = np.array(pts).T
                with chk.code("intensity", d):
                    if rng.random() < 0.3:
                        got = np.array([np.ravel(surf.intensity(a, b))[0] for a, b in zip(lat[:2], lon[:2])])
                        got = np.concatenate([got, np.full(4, np.nan)])
                        ok &= np.arange(6) < 2
                    elif rng.random() < 0.05:
                        got = np.asarray(surf.intensity(jnp.asarray(lat), jnp.asarray(lon)))
                    else:
                        got = np.asarray(S.jitted(("point",), lambda: lambda s, a, b: s.intensity(a, b))(flat, jnp.asarray(lat), jnp.asarray(lon)))
                if ok.any():
                    chk.close("intensity", got[ok], want[ok], rtol=0, atol=size * eps, detail=f"lat, lon = {np.array(pts)[ok].tolist()}; {d}")
                # ------------------------------------------------ the image
                R = s["res"]
                want = np.full((R, R), np.nan)
                edge = np.zeros((R, R), bool)
                full = R != 17
                for row, col, v, *_ in s["image"]:
                    want[row, col] = fx(v)
                a = 2 * np.arange(R) - (R - 1)
                gap = (R - 1) ** 2 - a[:, None] ** 2 - a[None, :] ** 2
                with chk.code("render", dd):
                    if rng.random() < 0.04 and L <= 3:
                        got = np.asarray(surf.render(theta=ang, res=R))
                    elif ang is None:
                        got = np.asarray(S.jitted(("image", None, R), lambda R=R: lambda s: s.render(res=R))(flat))
                    else:
                        got = np.asarray(S.jitted(("image", R), lambda R=R: lambda s, t: s.render(theta=t, res=R))(flat, jnp.asarray(ang)))
                if not chk.equal("image size", got.shape, (R, R), dd):
                    continue
                # undefined exactly outside the disc (on the limb itself rounding decides)
                chk.ok("outside", bool(np.isnan(got[gap < 0]).all()), f"pixels outside the disc: {got[gap < 0]}; {dd}", key=(R, k))
                chk.ok("inside", bool(np.isfinite(got[gap > 0]).all()), f"pixels inside the disc: {got[gap > 0]}; {dd}", key=(R, k))
                seen = (gap > 0) & np.isfinite(want)
                # pixels are at rounded places
                near = np.sqrt(np.maximum(gap, 1)) / (R - 1)
                tol = size * (eps + aerr) * (1 + 1 / near)
                for row, col in zip(*np.nonzero(seen)):
                    if not chk.close("image", got[row, col], want[row, col], rtol=0, atol=tol[row, col],
                                     detail=f"pixel {row}, {col} of {R}; {dd}"):
                        break
                if L <= 3 and R <= 8 and given and x64 and pictures > 0:
                    pictures -= 1
                    picture(chk, surf, s, rng, theta, tol, size * (eps + aerr), dd)
            chk.sample({"surface": d, "intensity": [fx(v) for v in group[1][1]["atPoints"]] if len(group) > 1 else []})
        except Stop:
            continue
