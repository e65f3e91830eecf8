"""P15 arrays of times (spec/timefn_mc.qnt stepArrays, spec/system_mc.qnt stepEmission)"""
import numpy as np

from checks import systems as S
from checks import timefns
from checks.orbits import seeded
from checks.p11 import budget
from vt.core import Stop, exact, fx

ID = "P15"
LEVEL = "model_checking"
RULE = ("time arrays of ten shapes (scalar, ones, up to four axes) through vectorised, integrated and interpolated functions with "
        "array arguments; limb-darkened, emission and map light curves of systems of 1-3 bodies on arrays of eight shapes; "
        "plain, compiled, batched; distinct by expected values")
SHAPES = [(), (1,), (2,), (6,), (2, 3), (3, 2), (1, 6), (6, 1), (3, 1, 2), (1, 1, 1), (2, 1)]


def jobs(tier, seed):
    n, k = (60, 4) if tier == "quick" else (2000, 16)
    js = [dict(spec="timefn_mc.qnt", step="stepArrays", steps=n, seed=seed * 650 + i, invariant="inv", tag="functions", history=True)
          for i in range(k)]
    js += [dict(spec="system_mc.qnt", step="stepEmission", steps=53 if tier == "quick" else 1000, seed=seed * 650 + 300 + i,
                invariant="inv", tag="systems") for i in range(k)]
    return js


def run_trace(job, trace, chk):
    if job["tag"] == "functions":
        return timefns.run(job, trace, chk, arrays=True)
    import jax
    import jax.numpy as jnp
    from checks.p24 import surface
    from jaxoplanet.light_curves.emission import light_curve as emission
    from jaxoplanet.light_curves.limb_dark import light_curve
    from jaxoplanet.starry.light_curves import light_curve as mapped
    from jaxoplanet.starry.orbit import SurfaceSystem
    from jaxoplanet.units import unit_registry as ureg
    for i, st, obs in S.groups(trace):
        if len(obs) < 6:
            continue
        rng = seeded(job, i)
        d = S.show(st)
        chk.at(job, trace, i)
        n = len(st["bodies"])
        ls = [exact(st["cu"])] + [exact(b["u"]) for b in st["bodies"]]
        amps = [exact(st["camp"])] + [exact(b["amp"]) for b in st["bodies"]]
        rc = S.radius(st)
        try:
            with chk.code("construct", d):
                c, bodies = S.parts(st, rng)
                surf = [surface(a, u, rng) for a, u in zip(amps, ls)]
                sysm = SurfaceSystem(c, surf[0], bodies=list(zip(bodies, surf[1:])))
            ts = S.times(obs[:6])
            want = np.array([fx(s["flux"]) for _, s in obs[:6]])
            dim = np.array([[(fx(s["flux"][0]) / amps[0] - 1)] for _, s in obs[:6]])
            ok = np.ones((6, n + 1), bool)
            tol = np.zeros((6, n + 1))
            for j, (k, s) in enumerate(obs[:6]):
                err = [S.position_error(st, s, m, 5e-15) for m in range(n)]
                for m in range(n + 1):
                    who = range(n) if m == 0 else [m - 1]
                    ok[j, m] = all(abs(fx(s["seen"][w]["z"])) > 1e-6 * fx(st["bodies"][w]["o"]["a"]) for w in who)
                    rr = rc if m == 0 else fx(st["bodies"][m - 1]["r"])
                    big = max([fx(b["r"]) for b in st["bodies"]]) / rc if m == 0 else rc / rr
                    tol[j, m] = amps[m] * (4 * sum(err) / rr + budget(ls[m], 20, 3e-14) * n + 3e-14 * (1 + big ** 2))
            f0 = light_curve(sysm, ls[0], order=20)
            for name, f in (("limb-darkened", f0), ("emission", emission(sysm, order=20)), ("map", mapped(sysm, order=20))):
                shape = rng.choice(SHAPES)
                size = int(np.prod(shape))
                pick = rng.sample(range(6), size)
                arr = ts[pick].reshape(shape)
                tq = rng.choice([jnp.asarray(arr), arr * ureg.day, (arr * ureg.day).to("hour")])
                with chk.code(name, d):
                    g = np.asarray(f(tq))
                    gj = np.asarray(jax.jit(f)(jnp.asarray(arr)))
                    gv = np.asarray(jax.vmap(f)(jnp.asarray(arr)[None]))[0] if rng.random() < 0.5 else gj
                w, o, t = want[pick], ok[pick], tol[pick]
                if name == "limb-darkened":
                    # bodies one by one; the specification's total is their sum
                    wshape = shape + (n,)
                    chk.ok(name + "-shape", g.shape == wshape == gj.shape == gv.shape, f"{g.shape}, {gj.shape}, {gv.shape}; "
                           f"specification says {wshape}; {d}", key=(d, shape))
                    if not g.shape == wshape == gj.shape == gv.shape:
                        continue
                    g, gj, gv = (v.sum(-1).reshape(size, 1) for v in (g, gj, gv))
                    w, o, t = dim[pick], o[:, :1], t[:, :1] / amps[0] * 2
                else:
                    wshape = shape + (n + 1,)
                    chk.ok(name + "-shape", g.shape == wshape == gj.shape == gv.shape, f"{g.shape}, {gj.shape}, {gv.shape}; "
                           f"specification says {wshape}; {d}", key=(d, shape))
                    if not g.shape == wshape == gj.shape == gv.shape:
                        continue
                    g, gj, gv = (v.reshape(size, n + 1) for v in (g, gj, gv))
                for how, v in (("", g), ("-compiled", gj), ("-batched", gv)):
                    for a in range(size):
                        chk.at(job, trace, obs[pick[a]][0])
                        for m in range(w.shape[1]):
                            if o[a, m]:
                                chk.close(name + how, v[a, m], w[a, m], rtol=0, atol=float(t[a, m]),
                                          detail=f"entry {m} at t={ts[pick[a]]!r}, position {a} of an array of shape {shape}; {d}")
        except Stop:
            continue
