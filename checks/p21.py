"""P21 light of an occulted surface (spec/surface_mc.qnt stepFlux, spec/moments_mc.qnt)"""
from checks import surfaces as S
from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P21"
LEVEL = "model_checking"
RULE = ("maps of degree 0-10 with 0-3 limb-darkening coefficients, in any orientation, any amplitude, normalised or not; occultors of "
        "any size at the centre, on and next to every contact, in every direction, before and behind, or absent; the light of every term of the polynomial basis up to degree 20; distinct by expected flux")

FORMS_QUICK = ["00", "03", "10", "12", "21", "30", "42", "52"]
FORMS = FORMS_QUICK + ["20", "33", "60", "72", "A1"]


def jobs(tier, seed):
    js = []
    forms, n, reps = (FORMS_QUICK, 60, 1) if tier == "quick" else (FORMS, 300, 3)
    for rep in range(reps):
        for k, f in enumerate(forms):
            js.append(dict(spec="surface_mc.qnt", init="init" + f, step="stepFlux", steps=n, seed=seed * 1210 + 100 * rep + k, invariant="inv",
                           cost=4 + int(f[0], 16)))
    js.append(dict(spec="surface_mc.qnt", init="init21", step="stepFlux", steps=n, seed=seed * 1210 + 90, x64=False, cost=5))
    js.append(dict(spec="moments_mc.qnt", steps=440 if tier == "quick" else 960, seed=seed, invariant="inv", cost=1))
    return js


def moments(job, trace, chk):
    """the whole disc, term by term of the polynomial basis"""
    import numpy as np
    from jaxoplanet.starry.core import solution
    N = len(trace)
    top = int(np.sqrt(N)) - 1
    whole = None
    for i, s in enumerate(trace):
        chk.at(job, trace, i)
        n = s["n"]
        ell = int(np.sqrt(n))
        if n == ell * ell:
            # (what a term gives does not depend on the degree asked for)
            with chk.code("disc", f"rT({ell})"):
                row = np.asarray(solution.rT(ell), dtype=float)
                whole = np.asarray(solution.rT(top), dtype=float) if whole is None else whole
            if not chk.equal("disc size", row.shape, ((ell + 1) ** 2,), f"rT({ell})"):
                continue
        if len(row) != (ell + 1) ** 2:
            continue
        d = f"x^{s['term'][0]} y^{s['term'][1]} z^{s['term'][2]}"
        tol = 2e-14 * (1e-30 + abs(fx(s["moment"]))) * (1 + ell)
        chk.close("disc", row[n], fx(s["moment"]), rtol=0, atol=tol, detail=f"rT({ell})[{n}]: {d}")
        if n < len(whole):
            chk.close("disc", whole[n], fx(s["moment"]), rtol=0, atol=tol, detail=f"rT({top})[{n}]: {d}")


def call(surf, theta, o, order, how, omit=(), **kw):
    import jax.numpy as jnp
    from jaxoplanet.starry.light_curves import surface_light_curve as f
    if o is None:
        if how == "eager":
            return f(surf, theta=theta, **kw)
        if theta is None:
            return S.jitted(("free", None), lambda: lambda s: f(s))(surf)
        return S.jitted(("free", 1), lambda: lambda s, t: f(s, theta=t))(surf, jnp.asarray(theta))
    r, x, y, z = o
    if omit:
        # what is zero may be left out
        a = {k: jnp.asarray(v, dtype=float) for k, v in zip("rxyz", o) if k not in omit}
        if theta is not None:
            a["theta"] = jnp.asarray(theta)
        return S.jitted(("omit", tuple(sorted(a)), order), lambda: lambda s, a: f(s, order=order, **a))(surf, a)
    if how == "eager":
        return f(surf, r, x, y, z, theta, order, **kw)
    a = [jnp.asarray(v, dtype=float) for v in (r, x, y, z)]
    # (20 is the default)
    od = {} if order == 20 else {"order": order}
    if theta is None:
        return S.jitted(("occ", None, order), lambda: lambda s, r, x, y, z: f(s, r=r, x=x, y=y, z=z, **od))(surf, *a)
    return S.jitted(("occ", 1, order), lambda: lambda s, r, x, y, z, t: f(s, r, x, y, z, t, **od))(surf, *a, jnp.asarray(theta))


def run_trace(job, trace, chk):
    if job["spec"] == "moments_mc.qnt":
        try:
            return moments(job, trace, chk)
        except Stop:
            return None
    x64 = job.get("x64", True)
    eps = 2e-15 if x64 else 2e-6
    for group in S.groups(trace):
        i, st = group[0]
        rng = seeded(job, i)
        chk.at(job, trace, i)
        d = S.show(st)
        order = 20 if rng.random() < 0.3 else 100
        try:
            with chk.code("construct", d):
                surf, sparse = S.build(st, rng)
                flat = S.plain(surf)
            L, U = st["form"]["L"], st["form"]["U"]
            for k, s in group:
                chk.at(job, trace, k)
                rng = seeded(job, k)
                given = s["form"]["theta"]
                th = exact(s["theta"]) if given else None
                o = None if s["act"] != "occult" or not s["occ"]["there"] else [exact(s["occ"][c]) for c in "rxyz"]
                eager = rng.random() < (0.03 if L <= 3 else 0.005)
                dd = f"theta={th}, occultor r, x, y, z = {o} ({s['kind']}), order={order}; {d}"
                with chk.code("flux", dd):
                    got = call(surf if eager else flat, th, o, order, "eager" if eager else "jit", S.omitted(o, rng, L))
                want = fx(s["light"] if s["act"] == "occult" else s["dark"])
                tol = S.budget(s, order if o is not None else 1e9, eps)
                chk.close("occulted" if o is not None else "whole", got, want, rtol=0, atol=tol, detail=dd)
                if o is not None and not x64:
                    continue
                if rng.random() < 0.02 and L + U <= 4 and (o is None or order == 100):
                    with chk.code("higher precision", dd):
                        got = call(surf, th, o, order, "eager", higher_precision=True)
                    chk.close("higher precision", got, want, rtol=0, atol=tol, detail=dd)
            chk.sample({"surface": d, "kinds": [s["kind"] for _, s in group], "flux": [fx(s["light"]) for _, s in group]})
        except Stop:
            continue
