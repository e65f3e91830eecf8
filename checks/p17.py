"""P17 surface polynomials (spec/poly_mc.qnt)"""
import math

import numpy as np

from checks.orbits import seeded
from vt.core import Stop

ID = "P17"
LEVEL = "model_checking"
RULE = ("index maps for every position below 900 (exhaustive); histories of up to 15 operations (make, from vector, add, "
        "multiply, scale, product matrix, evaluate) on a shelf of integer polynomials up to degree 10; distinct by expected "
        "coefficients, which are exact")


def jobs(tier, seed):
    n, k = (240, 8) if tier == "quick" else (6000, 32)
    js = [dict(spec="poly_mc.qnt", steps=n, seed=seed * 410 + i, invariant="inv", history=True) for i in range(k)]
    js.append(dict(spec="poly_mc.qnt", init="initIndex", step="stepIndex", steps=900 if tier == "quick" else 10000,
                   seed=seed, invariant="inv", tag="index"))
    js.append(dict(spec="poly_mc.qnt", steps=n // 3, seed=seed * 410 + 399, history=True, x64=False))
    return js


def vector(p):
    """dense coefficients without trailing zeros above the degree"""
    return np.asarray(p.todense(), dtype=float)


def same(chk, name, p, want, d, x64=True):
    v = vector(p)
    w = np.zeros(max(len(v), len(want)))
    w[: len(want)] = want
    g = np.zeros(len(w))
    g[: len(v)] = v
    chk.close(name, g, w, rtol=1e-12 if x64 else 1e-6, atol=1e-14 + (0 if x64 else 1e-5 * np.abs(w).max()), detail=d)


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.starry.core.basis import poly_basis, ptilde
    from jaxoplanet.starry.core.polynomials import Pijk, polynomial_product_matrix
    shelf, kept, degs = [], [], []
    x64 = job.get("x64", True)
    rtol = 1e-12 if x64 else 2e-5
    for i, s in enumerate(trace):
        chk.at(job, trace, i)
        rng = seeded(job, i)
        act = s["act"]
        if act == "start":
            shelf, kept, degs = [], [], []
            continue
        try:
            if act == "index":
                g = s["given"][0]
                n, l, m, ijk = g["c"], *s["from"], (g["i"], g["j"], g["k"])
                with chk.code("index", f"position {n}"):
                    chk.equal("n2lm", tuple(Pijk.n2lm(n)), (l, m), f"position {n}")
                    chk.equal("lm2n", Pijk.lm2n(l, m), n, f"({l}, {m})")
                    chk.equal("n2ijk", tuple(Pijk.n2ijk(n)), ijk, f"position {n}")
                    chk.equal("lm2ijk", tuple(Pijk.lm2ijk(l, m)), ijk, f"({l}, {m})")
                    chk.equal("ijk2lm", tuple(Pijk.ijk2lm(*ijk)), (l, m), f"{ijk}")
                    chk.equal("ptilde", tuple(ptilde(n)), ijk, f"position {n}")
                    chk.equal("index", Pijk({ijk: 1.0}).index(*ijk), n, f"{ijk}")
                    if n < 60 or n % 37 == 0:
                        p = Pijk({ijk: 2.5})
                        chk.equal("degree", p.degree, l, f"{ijk}")
                        w = np.zeros((l + 1) ** 2)
                        w[n] = 2.5
                        chk.close("unit vector", p.todense(), w, rtol=0, atol=1e-14, detail=f"{ijk}")
                continue
            a, b = s["from"]
            d = f"{act} {s['from']}"
            new = None
            with chk.code(act, d):
                if act == "make":
                    conv = rng.choice([int, float, np.float64, jnp.asarray]) if x64 else float
                    src = {(t["i"], t["j"], t["k"]): conv(t["c"]) for t in s["given"]}
                    new = Pijk(src, degree=s["degr"] + 1) if rng.random() < 0.2 else Pijk(src)
                    chk.equal("terms", sorted(new.indices), sorted(src), d)
                    for key in list(src):
                        src[key] = 99.0            # the caller's dictionary is not the polynomial's
                elif act == "vector":
                    v = rng.choice([np.asarray, jnp.asarray, list])([float(c) for c in s["vec"]])
                    new = Pijk.from_dense(v) if rng.random() < 0.5 else Pijk.from_dense(v, degree=s["degr"])
                    chk.close("dense round trip", new.todense(), [float(c) for c in s["vec"]], rtol=0, atol=1e-14, detail=d)
                elif act == "add":
                    new = shelf[a] + shelf[b]
                elif act == "mul":
                    new = shelf[a] * shelf[b]
                elif act == "scale":
                    new = shelf[a] * rng.choice([int, float, jnp.asarray])(b)
                elif act == "rscale":
                    new = rng.choice([int, float])(b) * shelf[a]
                elif act == "matrix":
                    p = s["vec"]
                    src = rng.choice([np.asarray, jnp.asarray])([float(c) for c in p])
                    m = np.asarray(polynomial_product_matrix(src, b))
                    w = np.array(s["matrix"], dtype=float).T
                    chk.close("product matrix", m, w, rtol=rtol, atol=1e-14, detail=f"multiply by {p} up to degree {b}")
                elif act == "value":
                    x, y, z, den = s["pt"]
                    want = s["val1"] / den ** s["degr"]
                    bound = sum(abs(c) for c in s["vec"])
                    p = shelf[a]
                    f = poly_basis(p.degree)
                    pt = np.array([x, y, z]) / den
                    if rng.random() < 0.5:
                        row = f(*pt)
                    else:
                        # several points at once
                        row = f(*[np.array([0.1, c, 0.2]) for c in pt])[1]
                    got = float(np.asarray(row) @ vector(p))
                    chk.close("value", got, want, rtol=rtol, atol=4 * rtol * bound, detail=f"{d} at {x, y, z}/{den}")
                    mon = [pt[0] ** e[0] * pt[1] ** e[1] * pt[2] ** e[2] for e in map(ptilde_ref, range(len(row)))]
                    chk.close("monomials", row, mon, rtol=20 * rtol, atol=0, detail=f"{x, y, z}/{den}")
                    if s["vec"]:
                        k = rng.randrange(len(s["vec"]))
                        e = ptilde_ref(k)
                        chk.close("coefficient", p[e], s["vec"][k], rtol=1e-6 if not x64 else 1e-14, atol=1e-14, detail=f"{d} {e}")
                    # a power that the polynomial does not have
                    l = p.degree + 1 + rng.randrange(2)
                    e = ptilde_ref(l * l + rng.randrange(2 * l + 1))
                    chk.close("absent coefficient", p[e], 0.0, rtol=0, atol=1e-14, detail=f"{d} {e} of degree {p.degree}")
                if new is not None:
                    shelf.append(new)
                    kept.append([float(c) for c in s["vec"]])
                    same(chk, "coefficients", new, s["vec"], d, x64)
                    chk.ok("degree bound", new.degree >= s["degr"] or not any(s["vec"][(new.degree + 1) ** 2:]),
                           f"degree {new.degree}, specification {s['degr']}. {d}")
                    chk.equal("size", len(vector(new)), (new.degree + 1) ** 2, d)
            # operations do not change the operands
            if act in ("add", "mul", "scale", "rscale"):
                for k in {a, b} if act in ("add", "mul") else {a}:
                    with chk.code("operand", d):
                        same(chk, "operand unchanged", shelf[k], kept[k], d, x64)
            chk.sample({"act": act, "from": s["from"], "expected": [int(c) for c in s["vec"]]})
        except Stop:
            # keep the shelf aligned with the specification's
            if len(shelf) < len(s["shelf"]):
                shelf.append(Pijk({(0, 0, 0): 0.0}))
                kept.append([0.0])


def ptilde_ref(n):
    l = math.isqrt(n)
    q = n - l * l
    return l - q // 2 - q % 2, q // 2, q % 2
