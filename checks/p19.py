"""P19 rotations of maps (spec/rotate_mc.qnt)"""
import numpy as np

from checks.orbits import seeded
from vt.core import Stop, exact, fx

ID = "P19"
LEVEL = "model_checking"
RULE = ("histories of up to 7 turns about any axis, undone turns, sky projections (any angle omitted) and their inverses, applied to "
        "a batch of coefficient vectors of degree 0-12; the rotated functions are compared with the specification's harmonics at "
        "rotated points; distinct by expected values")

DEGREES = [0, 1, 2, 3, 5, 8, 12]


def jobs(tier, seed):
    n, extra = (70, 0) if tier == "quick" else (900, 4)
    js = []
    for rep in range(1 + extra):
        for d in DEGREES:
            m = n // 3 if d == 12 else n
            js.append(dict(spec="rotate_mc.qnt", init=f"init{d}", steps=m, seed=seed * 970 + 100 * rep + d, invariant="inv",
                           history=True, cheap=tier == "quick",
                           cost=1 + d / 2))
    js.append(dict(spec="rotate_mc.qnt", init="init3", steps=n, seed=seed * 970 + 50, history=True, x64=False, cost=2))
    return js


CACHE = {}


def jitted(key, make):
    import jax
    if key not in CACHE:
        CACHE[key] = jax.jit(make())
    return CACHE[key]


def turned(L, kind, axis, angle, M, eager):
    """the rotation as the caller of this kind of axis writes it"""
    import jax.numpy as jnp
    from jaxoplanet.starry.core import rotation as R
    x, y, z = axis
    if kind == "only z":
        f = lambda z, t, M: R.dot_rotation_matrix(L, None, None, z, t)(M)  # noqa: E731
        args = (z, angle)
    elif kind == "x":
        f = lambda x, t, M: R.dot_rotation_matrix(L, x, None, None, t)(M)  # noqa: E731
        args = (x, angle)
    elif kind == "y":
        f = lambda y, t, M: R.dot_rotation_matrix(L, None, y, None, t)(M)  # noqa: E731
        args = (y, angle)
    elif kind == "xy":
        f = lambda x, y, t, M: R.dot_rotation_matrix(L, x, y, None, t)(M)  # noqa: E731
        args = (x, y, angle)
    else:
        f = lambda x, y, z, t, M: R.dot_rotation_matrix(L, x, y, z, t)(M)  # noqa: E731
        args = (x, y, z, angle)
        kind = "any"
    if eager:
        return f(*args, M)
    if L >= 8 and kind not in ("any", "only z"):
        # (fewer forms to compile)
        kind, args = "any", (x, y, z, angle)
        f = lambda x, y, z, t, M: R.dot_rotation_matrix(L, x, y, z, t)(M)  # noqa: E731
    return jitted(("turn", L, kind), lambda: f)(*[jnp.asarray(float(a)) for a in args], M)


def run_trace(job, trace, chk):
    import jax.numpy as jnp
    from jaxoplanet.starry.core import rotation as R
    from jaxoplanet.starry.core import s2fft_rotation as S
    x64 = job.get("x64", True)
    eye = batch = fresh = None
    for i, s in enumerate(trace):
        chk.at(job, trace, i)
        rng = seeded(job, i)
        L, act = s["deg"], s["act"]
        N = (L + 1) ** 2
        tol = (2e-14 if x64 else 4e-5) * (1 + L) ** 2
        if act == "start":
            base = np.array(fx(s["base"]))
            nr = np.random.default_rng(abs(hash((job["seed"], i))) % 2**32)
            coefs = nr.normal(size=(2, 3, N))
            ints = nr.integers(-9, 9, size=N)
            batch = coefs.reshape(6, N)
            eye = np.eye(N)
            continue
        if batch is None:
            # a replay of the last step alone
            break
        if not s["rows"]:
            continue
        rows, orows = np.array(fx(s["rows"])), np.array(fx(s["opRows"]))
        eager = rng.random() < 0.04
        axis, angle = [exact(v) for v in s["axis"]], exact(s["angle"])
        d = f"degree {L}, {act} {s['axisKind']} {axis} by {angle!r}; given {s['given']} {[fx(v) for v in s['proj']]}"

        def functions(name, out, want, factor=1.0):
            """out: coefficient vectors of the rotated basis functions (rows); want: those at the rotated points"""
            chk.close(name, np.asarray(out) @ base.T, want.T, rtol=0, atol=factor * tol * (1 + np.abs(want).max()), detail=d)

        try:
            with chk.code(act, d):
                if act in ("turn", "undo"):
                    # the basis functions and the batch in one go (fewer shapes to compile)
                    out = np.asarray(turned(L, s["axisKind"], axis, angle, jnp.asarray(np.concatenate([eye, batch])), eager))
                    functions("rotated basis", out[:N], orows)
                    if rng.random() < 0.1:
                        r = turned(L, s["axisKind"], axis, angle, jnp.asarray(batch).reshape(2, 3, N), True)
                        chk.close("batches", r, out[N:].reshape(2, 3, N), rtol=0, atol=100 * tol, detail=d)
                    batch = out[N:]
                    if rng.random() < (0.3 if L <= 3 else 0.05):
                        r = turned(L, s["axisKind"], axis, angle, jnp.asarray(ints), True)
                        chk.close("integer coefficients", np.asarray(r) @ base.T, orows @ ints, rtol=0, atol=tol * 10 * N, detail=d)
                    if L <= 8 and s["axisKind"] not in ("only z",) and rng.random() < 0.5:
                        blocks = jitted(("s2", L), lambda L=L: lambda *a: S.compute_rotation_matrices(L, *a))(*axis, angle)
                        full = np.zeros((N, N))
                        for ell, b in enumerate(blocks):
                            full[ell * ell:(ell + 1) ** 2, ell * ell:(ell + 1) ** 2] = b
                        functions("blocks", full, orows)
                        if L > 5:
                            blocks = []
                        hom = None if L > 5 else np.asarray(jitted(("s2h", L), lambda L=L: lambda *a: S.compute_rotation_matrices(L, *a, homogeneous=True))(
                            *axis, angle))
                        if L <= 5:
                            chk.equal("homogeneous shape", hom.shape, (L + 1, 2 * L + 1, 2 * L + 1), d)
                        for ell, b in enumerate(blocks):
                            pad = np.zeros((2 * L + 1, 2 * L + 1))
                            pad[L - ell:L + ell + 1, L - ell:L + ell + 1] = b
                            chk.close("homogeneous blocks", hom[ell][L - ell:L + ell + 1, L - ell:L + ell + 1], np.asarray(b), rtol=0,
                                      atol=tol, detail=d)
                    if L <= (3 if job.get("cheap") else 5) and rng.random() < 0.5:
                        core = R.compute_rotation_matrices(L, *[jnp.asarray(v) for v in axis], jnp.asarray(angle))
                        full = np.zeros((N, N))
                        for ell, b in enumerate(core):
                            full[ell * ell:(ell + 1) ** 2, ell * ell:(ell + 1) ** 2] = b
                        # loses half of the digits next to the poles
                        functions("recursive blocks", full, orows, 1e6 if x64 else 300)
                    if s["axisKind"] in ("z", "only z"):
                        sign = 1.0 if axis[2] > 0 else -1.0
                        out = jitted(("rz", L), lambda L=L: lambda t, M: R.dot_rz(L, t)(M))(sign * angle, eye)
                        functions("dot_rz", out, orows)
                    if angle == 0.0:
                        out = R.dot_rotation_matrix(L, *axis, None)(eye)
                        chk.close("no angle", out, np.eye(N), rtol=0, atol=0, detail=d)
                elif act in ("project", "unproject"):
                    g = s["given"]
                    vals = [exact(v) for v in s["proj"]]
                    if (L >= 5 and sum(g) < 3) or L >= 8:
                        # (fewer forms to compile: a zero instead of nothing)
                        g = [True] * 4
                    a = [v if k else None for v, k in zip(vals, g)]
                    which = R.left_project if act == "project" else R.right_project

                    def make(which=which, g=tuple(g), L=L):
                        def f(p, y):
                            it = iter(p)
                            return which(L, *[next(it) if k else None for k in g], y)
                        return f

                    given = [v for v, k in zip(vals, g) if k]
                    fast = jitted((act, L, tuple(g)), make) if rng.random() < 0.9 else make()
                    out = np.asarray(fast([jnp.asarray(v) for v in given], jnp.asarray(np.concatenate([eye, batch]))))
                    functions(act, out[:N], orows)
                    batch = out[N:]
                    if act == "project":
                        if x64 and rng.random() < 0.5:
                            y = np.asarray(coefs)[0, 0]
                            f2 = jitted(("direct", L), lambda L=L: lambda p, y: R.fast_direct_left_project(L, *p, y))
                            v = f2([jnp.asarray(x) for x in vals], jnp.asarray(y))
                            chk.close("direct projection", base @ np.asarray(v), orows @ y, rtol=0, atol=30 * tol * (1 + np.abs(orows).max()) * N, detail=d)
                        if x64 and L > 0:
                            f = R.full_rotation_axis_angle(*a)
                            both = jnp.asarray(np.concatenate([eye, np.eye(max(N, 6), N)[:6]]))
                            functions("axis and angle of the projection", turned(L, "any", f[:3], -f[3], both, False)[:N], orows, 30)
                            p = R.sky_projection_axis_angle(a[0], a[1])
                            sky = np.array(fx(s["sky"]))
                            out = R.dot_rotation_matrix(L, *p)(eye) if rng.random() < 0.1 or None in p else turned(
                                L, "any", p[:3], p[3], both, False)[:N]
                            functions("axis and angle of the tilt", out, sky, 1e6)
                # the whole history
                k = len(s["mats"])
                got = batch.reshape(2, 3, N)
                chk.close("history", got @ base.T, np.einsum("abn,pn->abp", coefs, rows), rtol=0,
                          atol=tol * 3 * k * (1 + np.abs(rows).max()) * np.sqrt(N) * 3, detail=d)
                pw = lambda c: np.stack([(c[..., l * l:(l + 1) ** 2] ** 2).sum(-1) for l in range(L + 1)], -1)  # noqa: E731
                chk.close("power of each degree", pw(got), pw(coefs), rtol=20 * tol * k, atol=20 * tol * k, detail=d)
            chk.sample({"degree": L, "act": act, "axis": axis, "angle": angle, "projection": [fx(v) for v in s["proj"]]})
        except Stop:
            batch = None
            # the coefficients are lost: nothing more to say before the next start
            for j in range(i + 1, len(trace)):
                if trace[j]["act"] == "start":
                    break
            else:
                return
            continue
