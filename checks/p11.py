"""P11 limb-darkened transits (spec/system_mc.qnt, stepDisc)"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P11"
LEVEL = "model_checking"
RULE = ("laws of 0-8 coefficients; separations at zero, at each contact +- 2^-10..2^-50, limb over centre, anywhere; "
        "radius ratios tiny, planetary, equal, larger; distinct by expected flux and order")


def jobs(tier, seed):
    n, k = (230, 8) if tier == "quick" else (2500, 48)
    js = [dict(spec="system_mc.qnt", step="stepDisc", steps=n, seed=seed * 600 + i, invariant="inv") for i in range(k)]
    js.append(dict(spec="system_mc.qnt", step="stepDisc", steps=n // 2, seed=seed * 600 + 599, x64=False))
    return js


def scale(u):
    disc = abs(1 - sum(2 * c / ((i + 2) * (i + 3)) for i, c in enumerate(u)))
    return (1 + sum(abs(c) * (i + 2) for i, c in enumerate(u))) / disc


def budget(u, order, eps):
    """accuracy of the quadrature at a given order (measured), plus rounding of the change of basis"""
    s = scale(u)
    return s * (4e-7 * (10 / order) ** 4.5) + eps * s * 2.0 ** len(u)


def groups(trace):
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "law":
            out.append((st, []))
        elif out:
            out[-1][1].append((i, st))
    return out


def run_trace(job, trace, chk):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.limb_dark import light_curve
    x64 = job.get("x64", True)
    eps = 3e-14 if x64 else 3e-6
    for law, obs in groups(trace):
        if not obs:
            continue
        i = obs[0][0]
        rng = seeded(job, i)
        u = exact(law["cu"])
        if not x64 and scale(u) > 12:
            continue
        chk.at(job, trace, i)
        d = f"u={u}"
        b = np.array([exact(s["geo"]["b"]) for _, s in obs])
        r = np.array([exact(s["geo"]["r"]) for _, s in obs])
        want = np.array([fx(s["flux"][0]) for _, s in obs])
        try:
            for order in rng.sample([None, 20, 120, 50] if rng.random() < 0.2 else [None, 20, 120], 2):
                kw = {} if order is None else {"order": order}
                uu = jnp.asarray(u, dtype=float)
                shape = (-1,) if len(b) % 2 or rng.random() < 0.8 else (2, -1)
                with chk.code("call", d):
                    got = np.asarray(light_curve(uu, jnp.asarray(b).reshape(shape), jnp.asarray(r).reshape(shape), **kw))
                chk.ok("shape", got.shape == b.reshape(shape).shape, f"{got.shape} for {b.reshape(shape).shape}; {d}",
                       key=(d, shape, order))
                if got.size != b.size:
                    continue
                got = got.reshape(-1)
                tol = budget(u, order or 10, eps)
                for j, (k, s) in enumerate(obs):
                    chk.at(job, trace, k)
                    dd = f"b={b[j]!r} r={r[j]!r} order={order} {d}"
                    t = tol + eps * (1 + r[j] ** 2)
                    # rounding of b near the outer contact
                    chk.close(f"flux-{order or 'default'}", got[j], want[j], rtol=0, atol=t, detail=dd)
                    rounding = eps * scale(u) * 2.0 ** len(u)
                    if x64 and abs(b[j]) >= 1 + r[j]:
                        chk.close("apart", got[j], 0.0, rtol=0, atol=rounding, detail=dd)
                    if x64 and 1 + abs(b[j]) <= r[j]:
                        chk.close("total", got[j], -1.0, rtol=0, atol=0, detail=dd)
            if rng.random() < 0.6:
                continue
            # the sign of the separation does not matter; one at a time
            j = rng.randrange(len(obs))
            chk.at(job, trace, obs[j][0])
            with chk.code("scalar", d):
                s1 = float(light_curve(np.array(u), -b[j], r[j], order=20))
                s2 = float(light_curve(np.array(u), float(b[j]), float(r[j]), order=20))
                s3 = float(jax.jit(lambda bb: light_curve(jnp.asarray(u, dtype=float), bb, r[j], order=20))(b[j]))
            dd = f"b={b[j]!r} r={r[j]!r} {d}"
            chk.close("separation-sign", s1, s2, rtol=0, atol=0, detail=dd)
            chk.close("scalar", [s2, s3], [want[j]] * 2, rtol=0, atol=budget(u, 20, eps) + eps * (1 + r[j] ** 2), detail=dd)
            # broadcasting of separations against radii
            with chk.code("broadcast", d):
                g = np.asarray(light_curve(np.array(u), b[:, None], r[None, :]))
                chk.ok("broadcast", g.shape == (len(b), len(b)), f"{g.shape} {d}", key=d)
                g = np.diag(g)
            chk.close("broadcast", g, want, rtol=0, atol=float(budget(u, 10, eps) + eps * (1 + np.max(r) ** 2)), detail=d)
            chk.sample({"law": u, "b": b[:3].tolist(), "r": r[:3].tolist(), "flux": want[:3].tolist()})
        except Stop:
            continue
