"""P03 the Kepler solver against exact solutions computed by spec/kepler_mc.qnt"""
import numpy as np

from vt.core import fx, exact

ID = "P03"
LEVEL = "model_checking"
RULE = ("requests (mean anomaly, eccentricity) are drawn by the specification from classes that include "
        "multiples of pi, many revolutions, zero, near-parabolic and near-circular cases; a request is distinct "
        "by its exact expected answer")
EPS = 2.3e-16


def jobs(tier, seed):
    n, k = (400, 8) if tier == "quick" else (4000, 64)
    js = [dict(spec="kepler_mc.qnt", steps=n, seed=seed * 1000 + i, invariant="inv", tag="x64") for i in range(k)]
    js += [dict(spec="kepler_mc.qnt", steps=n, seed=seed * 1000 + 500 + i, x64=False, tag="f32") for i in range(k // 8)]
    return js


def tols(m, e, o, eps):
    """how far rounding of the inputs and of the wrapped anomaly can move the answer"""
    dm = np.where((m >= 0) & (m <= 3.141592653589793), np.abs(m), np.abs(m) + 7.0) * eps
    df = dm * np.abs(o["fm"])
    # an absolute rounding error in the eccentric anomaly, times df/dE
    dfde = (1 + e * o["c"]) / np.sqrt(1 - e * e)
    return 6 * df + 8 * eps * dfde + 40 * eps


def run_trace(job, trace, chk):
    import jax
    import jax.numpy as jnp
    from jaxoplanet.core.kepler import kepler
    x64 = job.get("x64", True)
    eps = EPS if x64 else 1.2e-7
    st = trace
    m = np.array([exact(s["inp"]["M"]) for s in st])
    e = np.array([exact(s["inp"]["e"]) for s in st])
    if not x64:
        # single precision: inputs are rounded, so only the requests whose answer is insensitive count
        keep = (np.abs(m) < 50) & (e < 0.9)
        st = [s for s, k in zip(st, keep) if k]
        m, e = m[keep], e[keep]
    o = {k: np.array([fx(s["out"][k]) for s in st]) for k in st[0]["out"]}
    chk.sample({"M": m[1], "e": e[1], "sin f": o["s"][1], "cos f": o["c"][1]})
    tol = tols(m, e, o, eps)
    if not x64:
        tol = tol + eps * np.abs(o["fe"])
    chk.at(job, trace, 0)
    with chk.code("kepler-array", "array of requests"):
        s, c = kepler(jnp.asarray(m), jnp.asarray(e))
        s, c = np.asarray(s, float), np.asarray(c, float)

    def cmp(name, got, want, tol):
        got = np.asarray(got, float)
        for i in range(len(want)):
            chk.at(job, trace, trace.index(st[i]) if len(st) != len(trace) else i)
            chk.close(name, got[i], want[i], rtol=0, atol=tol[i], detail=f"M={m[i]!r} e={e[i]!r}")

    cmp("true-anomaly-sin", s, o["s"], tol)
    cmp("true-anomaly-cos", c, o["c"], tol)
    cmp("unit-norm", s * s + c * c, np.ones_like(s), np.full_like(s, 64 * eps))
    # derivatives
    chk.at(job, trace, 0)
    with chk.code("kepler-derivatives"):
        ms, mc = jax.jvp(lambda q: kepler(q, jnp.asarray(e)), (jnp.asarray(m),), (jnp.ones_like(jnp.asarray(m)),))[1]
        es, ec = jax.jvp(lambda q: kepler(jnp.asarray(m), q), (jnp.asarray(e),), (jnp.ones_like(jnp.asarray(m)),))[1]
    ok = np.abs(o["fm"]) * tol < 1e-3
    # d2f/dM2 is bounded by about 3 (df/dM)^2/(1-e)
    cond = np.abs(o["fm"]) ** 1 / (1 - e)
    for nm, g, w, fac in (("dsin/dM", ms, o["sm"], o["fm"]), ("dcos/dM", mc, o["cm"], o["fm"]),
                          ("dsin/de", es, o["se"], o["fe"]), ("dcos/de", ec, o["ce"], o["fe"])):
        g = np.where(ok, np.asarray(g, float), 0)
        w = np.where(ok, w, 0)
        cmp(nm, g, w, 1e3 * eps * (1 + np.abs(fac)) + 4 * tol * (1 + np.abs(fac)) + tol * cond)
    # scalars, broadcasting against arrays, jit and batching must not matter
    chk.at(job, trace, 1)
    for i in range(1, min(len(st), 12)):
        chk.at(job, trace, i)
        with chk.code("kepler-scalar"):
            s1, c1 = kepler(float(m[i]), float(e[i]))
            chk.close("scalar-call", [float(s1), float(c1)], [s[i], c[i]], rtol=0, atol=8 * eps + tol[i])
    n = len(st) // 6 * 6
    with chk.code("kepler-2d"):
        s2, c2 = kepler(jnp.asarray(m[:n]).reshape(2, 3, -1), jnp.asarray(e[:n]).reshape(2, 3, -1))
        chk.close("2d-call", np.asarray(s2).ravel(), s[:n], rtol=0, atol=float(np.max(tol)) + 1e-15)
        s3, c3 = jax.vmap(kepler)(jnp.asarray(m), jnp.asarray(e))
        chk.close("vmap-call", s3, s, rtol=0, atol=float(np.max(tol)) + 1e-15)
        s4, _ = kepler(jnp.asarray(m[:7]), jnp.asarray(e[3]))
        w4, _ = kepler(jnp.asarray(m[:7]), jnp.full(7, e[3]))
        chk.close("broadcast-call", s4, np.asarray(w4), rtol=0, atol=8 * eps)
