"""Build systems from the descriptions of spec/system_mc.qnt"""
import numpy as np

from checks.orbits import dress
from vt.core import exact, fx


def groups(trace):
    """[(describe index, describe state, [(index, measure state)])]"""
    out = []
    for i, st in enumerate(trace):
        if st["act"] == "describe":
            out.append((i, st, []))
        elif st["act"] == "measure" and out:
            out[-1][2].append((i, st))
    return out


def parts(st, rng):
    """(Central, [Body]) for a describe state"""
    from jaxoplanet.orbits.keplerian import Body, Central
    from jaxoplanet.units import unit_registry as ureg
    ck = {k: dress(k, exact(v), rng.randrange(4), ureg) for k, v in st["cdesc"].items()}
    style = rng.randrange(4)
    bodies = []
    for b in st["bodies"]:
        bk = {k: dress(k, exact(v), style, ureg) for k, v in b["d"].items()}
        bk["radius"] = dress("radius", exact(b["r"]), style, ureg)
        bodies.append(Body(**bk))
    return Central(**ck), bodies


def radius(st):
    return fx(st["bodies"][0]["o"]["rc"])


def show(st):
    return ("central " + str({k: fx(v) for k, v in st["cdesc"].items()}) + f" u={fx(st['cu'])} amp={fx(st['camp'])} bodies "
            + str([({k: fx(v) for k, v in b["d"].items()}, "r", fx(b["r"]), "amp", fx(b["amp"]), "u", fx(b["u"]))
                   for b in st["bodies"]]))


def position_error(st, s, n, eps):
    """uncertainty (length) of the projected position of body n in a measure state"""
    o = st["bodies"][n]["o"]
    dt = 8 * eps * (abs(fx(s["t"])) + abs(fx(o["tTransit"])) + 7 * fx(o["period"]))
    return fx(s["seen"][n]["speed"]) * dt + fx(o["a"]) * 100 * eps / (1 - fx(o["e"]))


def times(obs):
    return np.array([exact(s["t"]) for _, s in obs])
