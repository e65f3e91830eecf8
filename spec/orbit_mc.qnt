// -*- mode: Bluespec; -*-
/// P04, P05, P06: one central and one body are described in some accepted way
/// (action `describe`), then observed at times of the specification's choosing
/// (action `observe`).
module orbit_mc {
  import kepler.* from "./kepler"

  var cdesc: str -> Fx          // what was said about the central
  var desc: str -> Fx           // what was said about the body
  var orb: Orbit                // everything that follows from it
  var act: str
  var inp: str -> Fx            // time asked for, semi-amplitude, parallax
  var out: str -> List[Fx]      // what must be seen

  pure val G10: Fx = SC / 2^10
  pure val G20: Fx = SC / 2^20
  pure val G32: Fx = SC / 2^32
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g
  /// nearest double-representable value for numbers of size about one
  pure def dbl(x: Fx): Fx = toGrid(x, SC / 2^52)

  pure def puts(d: Desc, cond: bool, k: str, v: Fx): Desc = if (cond) d.put(k, v) else d

  /// the description of a central: kind selects which quantities are supplied
  pure def centralDesc(kind: int, m: Fx, r: Fx, rho: Fx): Desc =
    if (kind == 0) Map()
    else if (kind == 1) Map("mass" -> m, "radius" -> r)
    else if (kind == 2) Map("mass" -> m, "density" -> rho)
    else if (kind == 3) Map("radius" -> r, "density" -> rho)
    else Map("density" -> rho)

  pure def elements(o: Orbit, cd: Desc): str -> List[Fx] = Map(
    "central" -> List(centralMass(cd), centralRadius(cd), centralDensity(cd)),
    "kepler" -> List(o.period, o.a, o.mtot),
    "angles" -> List(o.sw, o.cw, o.so, o.co),
    "incl" -> List(o.si, o.ci, o.b),
    "times" -> List(o.tTransit, o.tPeri, o.tPeri - o.tTransit),
    // central rebuilt from the orbital properties of this body
    "fromorb" -> List(mul(div(4 * sq(PI), GRAV), div(powi(o.a, 3), sq(o.period))) - o.m))

  pure def seen(o: Orbit, t: Fx, k: Fx, plx: Fx): str -> List[Fx] = {
    pure val f = trueAnom(meanAnom(o, t), o.e)
    pure val r = div(mul(o.a, SC - sq(o.e)), SC + mul(o.e, f._2))
    pure val cu = mul(f._2, o.cw) - mul(f._1, o.sw)
    pure val su = mul(f._1, o.cw) + mul(f._2, o.sw)
    pure val p = toSky(o, -mul(r, cu), -mul(r, su))
    pure val kk = div(div(mul(TWOPI, o.a), o.period), sqrt(SC - sq(o.e)))
    pure val v = toSky(o, mul(kk, su + mul(o.e, o.sw)), -mul(kk, cu + mul(o.e, o.cw)))
    pure val fb = div(o.mc, o.mtot)
    pure val fc = -div(o.m, o.mtot)
    pure val ph = cu + mul(o.e, o.cw)
    Map(
      "rel" -> vlist(p), "body" -> vlist(vscale(fb, p)), "cen" -> vlist(vscale(fc, p)),
      "vrel" -> vlist(v), "vbody" -> vlist(vscale(fb, v)), "vcen" -> vlist(vscale(fc, v)),
      "r" -> List(r),
      "rho" -> List(sqrt(sq(p._1) + sq(p._2)), atan2(p._2, p._1)),
      // line-of-sight velocities for a given semi-amplitude k of the central
      "rvk" -> List(mul(k, ph), if (o.m > 0) -mul(div(mul(k, o.mc), o.m), ph) else 0,
                    if (o.m > 0) -mul(div(mul(k, o.mtot), o.m), ph) else 0),
      "rv" -> List(-mul(fc, v._3)),
      "semiamp" -> List(semiamp(o)),
      // lengths seen as angles: parallax times length in au
      "angrel" -> vlist(vscale(div(plx, AU), p)),
      "angvrel" -> vlist(vscale(div(plx, AU), v)))
  }

  action describe: bool = {
    nondet ck = 0.to(4).oneOf()
    nondet cm = 200.to(3000).oneOf()
    nondet cr = 200.to(3000).oneOf()
    nondet crho = 100.to(2000).oneOf()
    nondet mk = 0.to(3).oneOf()
    nondet mm = 1.to(2000).oneOf()
    nondet byPeriod = Set(true, false).oneOf()
    nondet pk = 300.to(40000).oneOf()
    nondet plong = 0.to(3).oneOf()
    nondet ek = 0.to(4).oneOf()
    nondet em = 1.to(1000).oneOf()
    nondet wk = 0.to(3).oneOf()
    nondet wm = (-6500).to(6500).oneOf()
    nondet quad = 0.to(3).oneOf()
    nondet ik = 0.to(3).oneOf()
    nondet im = 0.to(1200).oneOf()
    nondet nk = 0.to(2).oneOf()
    nondet nm = (-4000).to(4000).oneOf()
    nondet tk = 0.to(2).oneOf()
    nondet tm = (-50000).to(50000).oneOf()
    val cd = centralDesc(ck, cm * G10, cr * G10, crho * G10)
    val wsc = sincos(wm * G10)
    val nsc = sincos(nm * G10)
    val corner = quad * HALFPI
    // e: circular by omission, exactly zero, small, moderate, large
    val e = if (ek == 1) 0 else if (ek == 2) em * G20 else if (ek == 3) em * G10 * 9 / 16 * 1 else em * 2^0 * (SC / 2^10) * 62 / 64
    val eD = toGrid(e, SC / 2^30)
    val d0: Desc = Map()
    val d1 = puts(d0, byPeriod, "period", pk * G10 * (if (plong == 0) 64 else 1))
    val d2 = puts(d1, not(byPeriod), "semimajor", (4 * cr + pk) * G10)
    val d3 = puts(d2, mk == 1, "mass", mm * G20)
    val d4 = puts(d3, mk == 2, "mass", mm * G10)
    val d5 = puts(d4, ek > 0, "eccentricity", eD)
    val d6 = puts(d5, ek > 0 and wk == 0, "omega_peri", wm * G10)
    val d7 = puts(d6, ek > 0 and wk == 1, "omega_peri", toGrid(corner, SC / 2^50))
    val sw = if (wk == 3) dbl(sincos(corner)._1) else dbl(wsc._1)
    val cw = if (wk == 3) dbl(sincos(corner)._2) else dbl(wsc._2)
    val d8 = puts(d7, ek > 0 and wk >= 2, "sin_omega_peri", sw)
    val d9 = puts(d8, ek > 0 and wk >= 2, "cos_omega_peri", cw)
    val d10 = puts(d9, nk == 1, "asc_node", nm * G10)
    val d11 = puts(d10, nk == 2, "sin_asc_node", dbl(nsc._1))
    val d12 = puts(d11, nk == 2, "cos_asc_node", dbl(nsc._2))
    val d13 = puts(d12, ik == 1, "inclination", im * (SC / 2^9))
    // impact parameter, of either sign, only where such an orbit exists
    val bTry = (if (im % 2 == 0) im else -im) * G10
    val d14 = puts(d13, ik == 2 and iabs(orbitOf(cd, d13.put("impact_param", bTry)).ci) <= SC,
                   "impact_param", bTry)
    val d15 = puts(d14, tk == 1, "time_transit", tm * G10)
    val d16 = puts(d15, tk == 2, "time_peri", tm * G10)
    val o = orbitOf(cd, d16)
    all {
      act' = "describe",
      cdesc' = cd, desc' = d16, orb' = o,
      inp' = Map(),
      out' = elements(o, cd)
    }
  }

  action observeAt(t: Fx, k: Fx, plx: Fx): bool = all {
    act' = "observe", cdesc' = cdesc, desc' = desc, orb' = orb,
    inp' = Map("t" -> t, "K" -> k, "parallax" -> plx),
    out' = seen(orb, t, k, plx)
  }
  action observe: bool = {
    nondet tm = (-200000).to(200000).oneOf()
    nondet n = (-30).to(30).oneOf()
    nondet km = 1.to(4000).oneOf()
    nondet pm = 1.to(4000).oneOf()
    nondet kind = 0.to(4).oneOf()
    val t =
      if (kind == 0) tm * G10
      else if (kind == 1) toGrid(orb.tTransit + n * orb.period, G32)
      else if (kind == 2) toGrid(orb.tPeri + n * orb.period, G32)
      else if (kind == 3) toGrid(orb.tTransit + (tm * orb.period) / 200000, G32)
      else toGrid(orb.tTransit + n * orb.period + orb.period / 2 + tm * G20, G32)
    observeAt(t, km * G20 * 16, pm * G20)
  }

  // A described system is observed a few times before the next description.
  var left: int
  action init = all {
    act' = "describe", cdesc' = Map(), desc' = Map("period" -> SC),
    orb' = orbitOf(Map(), Map("period" -> SC)), inp' = Map(),
    out' = elements(orbitOf(Map(), Map("period" -> SC)), Map()), left' = 3
  }
  action step = {
    if (left > 0) all { observe, left' = left - 1 } else all { describe, left' = 8 }
  }
  /// descriptions only (P04)
  action stepDescribe = all { describe, left' = 0 }

  val i1 = thirdLaw(orb)
  val i2 = conjunction(orb)
  val i3 = act != "observe" or velIsDerivative(orb, inp.get("t"))
  val i4 = act != "observe" or energyHolds(orb, inp.get("t"))
  /// barycentre at rest
  val i5 = act != "observe" or {
    val p = centralPos(orb, inp.get("t"))
    val q = bodyPos(orb, inp.get("t"))
    near(mul(orb.mc, p._3) + mul(orb.m, q._3), 0, EPS * 2^20)
  }
  val i6 = near(sq(orb.sw) + sq(orb.cw), SC, SC / 2^50)
  val inv = and { i1, i2, i3, i4, i5, i6 }
}
