"""Build real bodies from the descriptions of spec/orbit_mc.qnt"""
import random

import numpy as np

from vt.core import exact, fx

UNITS = dict(period="day", semimajor="R_sun", inclination="radian", omega_peri="radian", asc_node="radian",
             time_transit="day", time_peri="day", mass="M_sun", radius="R_sun", parallax="arcsec",
             density="M_sun/R_sun**3", t="day")
ALT = dict(period="hour", semimajor="au", inclination="degree", omega_peri="degree", asc_node="degree",
           time_transit="hour", time_peri="minute", mass="M_jup", radius="km", parallax="milliarcsecond",
           density="g/cm**3", t="hour")


def groups(trace):
    """[(index, describe state, [(index, observe state)])]"""
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "describe":
            out.append((i, st, []))
        elif out:
            out[-1][2].append((i, st))
    return out


def dress(name, v, style, ureg):
    """one of the ways to pass the value v (in the declared unit) of the argument name"""
    import jax.numpy as jnp
    if style == 0 or name not in UNITS:
        return v
    if style == 1:
        return v * ureg(UNITS[name]).units
    if style == 2:
        return jnp.asarray(v)
    return (v * ureg(UNITS[name]).units).to(ALT[name])


def build(st, rng, *, extra=None, central=None):
    """(central, body, orbital body) for a describe state; style of the call chosen by rng"""
    from jaxoplanet.orbits.keplerian import Body, Central, OrbitalBody, System
    from jaxoplanet.units import unit_registry as ureg
    ck = {k: dress(k, exact(v), rng.randrange(4), ureg) for k, v in st["cdesc"].items()}
    bk = {k: dress(k, exact(v), rng.randrange(4), ureg) for k, v in st["desc"].items()}
    items = list(bk.items())
    rng.shuffle(items)
    bk = dict(items)
    bk.update(extra or {})
    c = Central(**ck) if ck or rng.random() < 0.5 else None
    b = Body(**bk)
    how = rng.randrange(3)
    if how == 0 and c is not None:
        return c, b, OrbitalBody(c, b)
    if how == 1:
        s = System(c, bodies=[b])
    else:
        s = System(c).add_body(b)
    return s.central, b, s.bodies[0]


def show(st):
    return ("central " + str({k: fx(v) for k, v in st["cdesc"].items()}) + " body "
            + str({k: fx(v) for k, v in st["desc"].items()}))


def seeded(job, i):
    return random.Random(job["seed"] * 100003 + i)


def mag(q):
    return np.asarray(getattr(q, "magnitude", q), dtype=float)


def in_unit(q, unit, ureg):
    return np.asarray(q.to(ureg(unit).units).magnitude, dtype=float)
