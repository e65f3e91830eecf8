"""P28 arbitrary precision (spec/precise_mc.qnt)"""
import contextlib
import io
from collections import defaultdict

import numpy as np

from checks.orbits import seeded
from vt.core import SC, Stop, exact, fx

ID = "P28"
LEVEL = "model_checking"
RULE = ("fluxes of maps of degree 0-4 and laws of 0-3 coefficients in six inclinations, four obliquities and four phases behind occultors of six sizes, "
        "turned already or not; columns of the bases, moments, rotations and projections; asked in random order through default, shared and fresh "
        "caches; distinct by expected values")


def jobs(tier, seed):
    n, k = (80, 8) if tier == "quick" else (800, 32)
    return [dict(spec="precise_mc.qnt", steps=n, seed=seed * 1700 + i, invariant="inv", history=True) for i in range(k)]


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.core import limb_dark as LD
    from jaxoplanet.starry.multiprecision import basis, flux, mp, rotation, solution, utils

    def big(v):
        return mp.mpf(v) / SC

    def gap(a, b):
        """largest difference of two vectors, in full precision"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            return float("inf")
        return float(max([abs(mp.mpf(p) - q) for p, q in zip(a, b)] or [0]))

    def cachetype():
        return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})

    shared = cachetype()
    quiet = io.StringIO()

    def precise(name, got, want, tol, detail):
        e = gap(got, want)
        chk._count(name, repr([float(w) for w in want][:6]))
        chk.maxerr[name] = max(chk.maxerr.get(name, 0), e / tol)
        if not e <= tol:
            chk.fail(name, f"differs by {e} from the specification's {[float(w) for w in want][:9]} (tolerance {tol:.2g}); {detail}")

    funcs = {}
    for i, s in enumerate(trace):
        if s["act"] == "start":
            continue
        chk.at(job, trace, i)
        rng = seeded(job, i)
        sc = s["scene"]
        where = rng.choice(["default", "shared", "shared", "fresh"])
        cache = {"default": None, "shared": shared, "fresh": cachetype()}[where]
        kw = {} if cache is None else {"cache": cache}
        L = sc["L"]
        y = np.array([exact(v) for v in sc["y"]])
        size = float(1 + np.abs(y).sum() * (2 * L + 1))
        try:
            with contextlib.redirect_stdout(quiet):
                if s["act"] == "light":
                    b, r = exact(sc["b"]), exact(sc["r"])
                    u = [exact(v) for v in sc["u"]]
                    half = sc["inc"] == HALFPI
                    inc = mp.pi / 2 if half else exact(sc["inc"])
                    obl, phi = exact(sc["obl"]), exact(sc["phi"])
                    d = f"ydeg={L} udeg={sc['U']} inc={inc} obl={obl} b={b} r={r} y={y.tolist()} phi={phi} u={u} rotate={sc['rotate']} {where} cache"
                    with chk.code("flux", d):
                        key = (L, sc["U"], float(inc), obl, where)
                        if where == "fresh" or key not in funcs or rng.random() < 0.3:
                            a = dict(ydeg=L, udeg=sc["U"])
                            if sc["tilted"] or rng.random() < 0.5:
                                a.update(inc=inc, obl=obl)
                            funcs[key] = flux.flux(**a, **kw)
                        m = dict(phi=phi, u=u, rotate=sc["rotate"])
                        if L > 0:
                            m["y"] = y
                        if phi == 0 and rng.random() < 0.5:
                            del m["phi"]
                        if sc["rotate"] and rng.random() < 0.5:
                            del m["rotate"]
                        args = (mp.mpf(b), mp.mpf(r)) if rng.random() < 0.3 else (b, r)
                        got = funcs[key](*args, **m)
                    precise("flux", [got], [big(s["light"])], 1e-19 * size, d)
                    if rng.random() < 0.3 and abs(b) < 1 + r and not (r > 1 and abs(b) < r - 1):
                        # the vectors themselves: harmonics -> polynomials -> Green's functions -> light
                        with chk.code("solution", d):
                            st = solution.get_sT(L, b, r, **kw) if rng.random() < 0.5 else solution.sT(L, b, r)
                            c = mp.matrix([big(v) for v in s["sky"]]) if b > 0 and sc["U"] == 0 else None
                            if c is not None:
                                v = (st.T @ basis.A2(L, **kw) @ (basis.A1(L, **kw) @ c))[0]
                        if c is not None:
                            precise("solution", [v], [big(s["light"])], 1e-19 * size, f"sT({L}, {b}, {r}); {d}")
                    if L == 0 and abs(abs(b) - 1 - r) > 0.01 and abs(b) < 1 + r and not (r > 1 and abs(b) < r - 1):
                        with chk.code("limb darkening", d):
                            v = solution.solution_limb_dark(len(u), abs(b), r)
                            g = np.asarray(LD.greens_basis_transform(jnp.asarray(u))) if u and hasattr(LD, "greens_basis_transform") else None
                        chk.equal("limb darkening size", len(v), len(u) + 1, d)
                        if g is not None:
                            lc = float(sum(mp.mpf(float(p)) * q for p, q in zip(g, v))) / (np.pi * (g[0] + 2 * (g[1] if len(g) > 1 else 0) / 3))
                            chk.close("limb darkening", lc, fx(s["light"]), rtol=0, atol=1e-13, detail=f"solution_limb_dark({len(u)}, {abs(b)}, {r}); {d}")
                elif s["act"] == "column":
                    ell, m = s["lm"]
                    top = ell + rng.choice([0, 0, 1, 2]) if ell < 4 else ell
                    n = ell * ell + ell + m
                    d = f"({ell}, {m}) of degree {top}, {where} cache"
                    N = (top + 1) ** 2
                    with chk.code("basis", d):
                        a1 = basis.A1(top, **kw)
                        a2 = basis.A2(top, **kw)
                        rt = solution.rT(top)
                        inv = basis.A2_inv(top)
                    chk.equal("shape", ((a1.rows, a1.cols), (a2.rows, a2.cols), (inv.rows, inv.cols), len(rt)), ((N, N), (N, N), (N, N), N), d)
                    pad = [0] * (N - len(s["ycol"]))
                    yc = [big(v) for v in s["ycol"]] + pad
                    g = [mp.mpf(v) for v in s["gcol"]] + pad
                    precise("harmonic", a1[:, n], yc, 1e-25 * float(max(1, max(abs(v) for v in yc))), d)
                    precise("green", inv[:, n], g, 1e-25 * float(max(abs(v) for v in g)), d)
                    # A2 undoes the polynomials of Green's functions
                    precise("green-inverse", a2 * mp.matrix(g), [1 if k == n else 0 for k in range(N)], 1e-22 * float(max(abs(v) for v in g)), d)
                    precise("moment", [rt[n]], [big(s["moment"])], 1e-26, f"rT({top})[{n}]; {d}")
                    # the working precision agrees
                    with chk.code("utilities", d) if N > 1 else contextlib.nullcontext():
                        if N == 1:
                            continue
                        chk.close("to numpy", utils.to_numpy(a1), [[float(a1[p, q]) for q in range(N)] for p in range(N)], rtol=1e-15, atol=0, detail=d)
                        chk.close("difference", utils.diff_mp(a1, utils.to_numpy(a1)), np.zeros((N, N)), rtol=0, atol=1e-14, detail=d)
                elif s["act"] == "turn":
                    ax = [exact(v) for v in s["axis"]]
                    th = exact(s["angles"][0])
                    d = f"degree {L}, axis {ax}, angle {th}, y={y.tolist()}"
                    want = [big(v) for v in s["sky"]]
                    with chk.code("rotation", d):
                        ym = mp.matrix(y.tolist())
                        if rng.random() < 0.3:
                            got = rotation.dot_rotation_matrix(L, None, None, rotation.R(L, ax, th))(ym)
                        else:
                            got = rotation.dot_rotation_matrix(L, tuple(ax), th)(ym)
                    precise("rotation", got, want, 1e-18 * size, d)
                    if ax[0] == 0 and ax[1] == 0:
                        with chk.code("rotation about z", d):
                            got = rotation.dot_rz(L, -th if ax[2] > 0 else th)(ym)
                        precise("rotation about z", got, want, 1e-24 * size, d)
                    # the matrices of a pole
                    if rng.random() < 0.3:
                        inc, obl = float(rng.choice([0.5, 1.25, 2.0])), float(rng.choice([0.25, -1.0]))
                        with chk.code("get_R", d):
                            for name, u, t in (("R_px", (1, 0, 0), -mp.pi / 2), ("R_mx", (1, 0, 0), mp.pi / 2)):
                                p = rotation.get_R(name, L, **kw)
                                precise("get_R", [v for m in p for v in m], [v for m in rotation.R(L, u, t) for v in m], 1e-24, f"{name}; {d}")
                            for name, u, t in (("R_obl", (0, 0, 1), -obl), ("R_inc", (-mp.cos(obl), -mp.sin(obl), 0), mp.pi / 2 - inc)):
                                p = rotation.get_R(name, L, obl=obl, inc=inc, **kw)
                                precise("get_R", [v for m in p for v in m], [v for m in rotation.R(L, u, t) for v in m], 1e-24, f"{name} inc={inc} obl={obl}; {d}")
                else:
                    p = [exact(v) for v in s["angles"]]
                    d = f"degree {L}, inc, obl, theta, theta_z = {p}, y={y.tolist()}"
                    with chk.code("projection", d):
                        got = rotation.left_project(L, *p, mp.matrix(y.tolist()))
                    precise("projection", got, [big(v) for v in s["sky"]], 1e-18 * size, d)
            chk.sample({"act": s["act"], "request": d})
        except Stop:
            continue


HALFPI = 8156040833015188200833743081374136
