"""P18 changes of basis (spec/basis_mc.qnt)"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P18"
LEVEL = "model_checking"
RULE = ("every column of the harmonic and Green's matrices up to degree 16 (quick) or 20, every limb-darkening row up to 20 "
        "(exhaustive), laws of 0-6 coefficients as maps; distinct by expected coefficients")


def jobs(tier, seed):
    cuts = [0, 64, 121, 169, 225, 289] if tier == "quick" else [0, 64, 121, 169, 225, 289, 361, 441]
    js = [dict(spec="basis_mc.qnt", init=f"init{a}", steps=b - a, seed=seed, invariant="inv", tag="columns", cost=3)
          for a, b in zip(cuts, cuts[1:])]
    n, k = (60, 3) if tier == "quick" else (900, 16)
    js += [dict(spec="basis_mc.qnt", step="stepLaw", steps=n, seed=seed * 810 + i, tag="law") for i in range(k)]
    return js


def run_trace(job, trace, chk):
    if job["tag"] == "law":
        return laws(job, trace, chk)
    from jaxoplanet.starry.core import basis as B
    cols = [s for s in trace if s["act"] == "column"]
    top = cols[-1]["lm"][0]
    sizes = sorted({top, max(cols[0]["lm"][0], 0), (top + cols[0]["lm"][0]) // 2} | ({0, 1, 2, 3, 4, 5} if cols[0]["lm"] == (0, 0) else set()))
    mats = {}
    chk.at(job, trace, 0)
    for L in sizes:
        try:
            with chk.code("matrices", f"degree {L}"):
                a1 = np.asarray(B.A1(L).todense())
                g = np.asarray(B.A2_inv(L).todense())
                full = np.asarray(B.basis(L).todense())
                N = (L + 1) ** 2
                for name, m in (("A1", a1), ("A2_inv", g), ("basis", full)):
                    chk.equal("shape", m.shape, (N, N), f"{name}({L})")
                mats[L] = a1, g, full
        except Stop:
            continue
    for i, s in enumerate(trace):
        if s["act"] != "column":
            continue
        chk.at(job, trace, i)
        l, m = s["lm"]
        n = l * l + l + m
        y = np.array(fx(s["ycol"]))
        g = np.array([float(v) for v in s["gcol"]])
        try:
            for L, (a1, ginv, full) in mats.items():
                if l > L:
                    continue
                with chk.code("column", f"({l}, {m}) of degree {L}"):
                    pad = np.zeros((L + 1) ** 2 - len(y))
                    chk.close("harmonic", a1[:, n], np.concatenate([y, pad]), rtol=1e-10, atol=1e-11 * np.abs(y).max(),
                              detail=f"A1({L}) column ({l}, {m})")
                    chk.close("green", ginv[:, n], np.concatenate([g, pad]), rtol=1e-12, atol=1e-12,
                              detail=f"A2_inv({L}) column ({l}, {m})")
                    # harmonic -> Green's -> polynomial
                    chk.close("full", ginv @ full[:, n], np.concatenate([y, pad]), rtol=1e-9, atol=1e-10 * np.abs(y).max(),
                              detail=f"A2_inv @ basis({L}) column ({l}, {m})")
            if s["urow"]:
                k = n
                for d in {k, k + 1, min(k + 4, 20)}:
                    if d < k:
                        continue
                    with chk.code("limb darkening", f"U({d})"):
                        U = np.asarray(B.U(d))
                        chk.equal("shape", U.shape, (d + 1, (d + 1) ** 2), f"U({d})")
                        w = np.zeros((d + 1) ** 2)
                        w[: len(s["urow"])] = [float(v) for v in s["urow"]]
                        chk.close("law row", U[k], w, rtol=1e-13, atol=1e-13, detail=f"U({d}) row {k}")
            chk.sample({"lm": [l, m], "harmonic": y.tolist()[:10], "green": g.tolist()[:10]})
        except Stop:
            continue


def laws(job, trace, chk):
    from jaxoplanet.starry.core import basis as B
    from jaxoplanet.starry.ylm import Ylm
    for i, s in enumerate(trace):
        if s["act"] != "law" or not s["u"]:
            continue
        chk.at(job, trace, i)
        rng = seeded(job, i)
        u = exact(s["u"])
        z = np.array(fx(s["zs"]))
        want = np.array(fx(s["vals"]))
        d = f"law {u}"
        try:
            with chk.code("from_limb_darkening", d):
                y = Ylm.from_limb_darkening(rng.choice([tuple, list, np.array])(u))
                chk.equal("degree", int(y.deg), len(u), d)
                L = y.deg
                dense = np.asarray(y.todense(), dtype=float)
                phi = rng.random() * 6.28
                r = np.sqrt(1 - z**2)
                P = np.asarray(B.poly_basis(L)(r * np.cos(phi), r * np.sin(phi), z))
                val = P @ (np.asarray(B.A1(L).todense()) @ dense)
                scale = (1 + np.abs(u).sum()) * max(1.0, np.abs(want).max())
                chk.close("law as a map", val, want, rtol=1e-10, atol=1e-11 * scale, detail=f"{d} at heights {z.tolist()}")
                # U @ u is the same law
                pu = np.asarray(np.array([1.0, *u]) @ B.U(L))
                chk.close("law as a polynomial", P @ pu, want * (P @ pu)[0] / want[0], rtol=1e-10, atol=1e-11 * scale, detail=d)
                chk.close("law at the centre", (P @ pu)[0], 1.0, rtol=1e-10, atol=1e-10, detail=d)
        except Stop:
            continue
        chk.sample({"u": u, "z": z.tolist(), "brightness": want.tolist()})
