"""P16 spherical-harmonic maps as vectors and functions (spec/map_mc.qnt)"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P16"
LEVEL = "model_checking"
RULE = ("histories of up to 11 operations (make in any insertion order, from vector, normalise, scale, multiply) on a shelf of "
        "maps up to degree 12, every member rechecked as operand; distinct by expected coefficients")


def jobs(tier, seed):
    n, k = (170, 8) if tier == "quick" else (3000, 32)
    js = [dict(spec="map_mc.qnt", steps=n, seed=seed * 710 + i, invariant="inv", history=True) for i in range(k)]
    js.append(dict(spec="map_mc.qnt", steps=n // 2, seed=seed * 710 + 699, history=True, x64=False))
    return js


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.starry.ylm import Ylm
    x64 = job.get("x64", True)
    eps = 1e-13 if x64 else 3e-5
    shelf, kept = [], []
    # the constant of the product rule
    with chk.code("constant"):
        const = float((Ylm({(0, 0): 1.0}) * Ylm({(0, 0): 1.0}))[(0, 0)])
        chk.ok("constant", const > 0, f"1 x 1 = {const}")
        d0 = Ylm()
        chk.close("default map", d0.todense(), [1.0], rtol=0, atol=0)
    for i, s in enumerate(trace):
        chk.at(job, trace, i)
        rng = seeded(job, i)
        act = s["act"]
        if act == "start":
            shelf, kept = [], []
            continue
        a, b = s["from"]
        c = fx(s["factor"])
        want = np.array(fx(s["vec"]))
        d = f"{act} {s['from']} {c}"
        num = rng.choice([float, np.float64, jnp.asarray])
        try:
            with chk.code(act, d):
                if act == "make":
                    src = {(t[0], t[1]): num(exact(t[2])) for t in s["given"]}
                    new = Ylm(src)
                    chk.equal("terms", [tuple(k) for k in new.indices], list(src), d)
                    for key in list(src):
                        src[key] = 99.0
                elif act.startswith("vector"):
                    v = [exact(t[2]) for t in s["given"]]
                    v = rng.choice([np.asarray, jnp.asarray, list])(v)
                    if act == "vector":
                        new = Ylm.from_dense(v, normalize=False)
                    else:
                        new = Ylm.from_dense(v) if rng.random() < 0.5 else Ylm.from_dense(v, normalize=True)
                elif act == "scale":
                    new = shelf[a] * num(c)
                elif act == "rscale":
                    new = (float(c) if rng.random() < 0.7 else int(c) if c == int(c) else np.float64(c).item()) * shelf[a]
                elif act == "normalise":
                    new = shelf[a].normalize()
                else:
                    new = shelf[a] * shelf[b]
                tol = eps
                if act == "multiply":
                    want = want * const
                    # terms of size |f| |g| cancel
                    tol = eps * (1 + const * 10 * np.abs(kept[a]).sum() * np.abs(kept[b]).sum())
                scale = np.abs(want).max() if len(want) else 1.0
                shelf.append(new)
                # later operations start from the specification's function
                kept.append(np.array(fx(s["vec"])))
                got = np.asarray(new.todense(), dtype=float)
                chk.close("coefficients", got, want, rtol=eps, atol=tol * max(scale, 1.0), detail=d)
                chk.close("sparse", np.asarray(new.tosparse().todense()), got, rtol=0, atol=0, detail=d)
                chk.equal("degree", int(new.deg), s["degr"], d)
                chk.equal("shape", tuple(new.shape), ((s["degr"] + 1) ** 2,), d)
                if act in ("make", "scale", "rscale", "normalise"):
                    chk.equal("zonal", bool(new.diagonal), s["zonal"], d)
                # position of every term
                for l, m in rng.sample(list(new.indices), min(3, len(new.indices))):
                    chk.close("index", new[(l, m)], got[l * (l + 1) + m], rtol=0, atol=0, detail=f"{d} {(l, m)}")
                    chk.equal("position", int(Ylm.index(l, m)), l * (l + 1) + m, d)
                l = rng.randrange(s["degr"] + 1)
                m = rng.randrange(-l, l + 1)
                chk.close("index any", new[(l, m)], got[l * (l + 1) + m], rtol=0, atol=0, detail=f"{d} {(l, m)}")
                l = s["degr"] + 1 + rng.randrange(2)
                chk.close("index absent", new[(l, rng.randrange(-l, l + 1))], 0.0, rtol=0, atol=0, detail=d)
                # there and back
                back = Ylm.from_dense(got, normalize=False)
                chk.close("round trip", back.todense(), got, rtol=0, atol=0, detail=d)
                chk.equal("round trip terms", back.indices[-1], (s["degr"], s["degr"]), d)
                if act == "multiply":
                    # products accumulate rounding: replace the code's result by the exact map
                    shelf[-1] = Ylm.from_dense(np.array(fx(s["vec"])), normalize=False)
                elif act in ("scale", "rscale", "normalise") or act.startswith("vector"):
                    pass
                # operands are as they were
                if act in ("scale", "rscale", "normalise", "multiply"):
                    for k in {a, b}:
                        chk.close("operand unchanged", shelf[k].todense(), kept[k], rtol=10 * eps,
                                  atol=10 * eps * max(1.0, np.abs(kept[k]).max()), detail=d)
            chk.sample({"act": act, "from": s["from"], "coefficients": want.tolist()[:12]})
        except Stop:
            if len(shelf) < len(s["shelf"]):
                kept.append(np.array(fx(s["vec"])))
                shelf.append(Ylm.from_dense(kept[-1], normalize=False))
