// -*- mode: Bluespec; -*-
/// Two-body motion: Kepler's equation and the geometry of an orbit on the sky.
module kepler {
  import fx.* from "./fx"
  export fx.*

  // ---------------------------------------------------------------- constants
  // IAU 2015 nominal values, lengths in R_sun, masses in M_sun, times in days
  /// G in R_sun^3 / (M_sun day^2) = GM_sun * 86400^2 / R_sun^3
  pure val GRAV: Fx = (13271244 * 10^13 * 86400 * 86400 * SC) / (6957 * 10^5)^3
  /// astronomical unit in R_sun
  pure val AU: Fx = (149597870700 * SC) / (6957 * 10^5)

  // ---------------------------------------------------------------- Kepler's equation
  /// E - e sin E = m for 0 <= m <= pi; Newton from pi decreases monotonically to the root
  pure def eccAnomHalf(m: Fx, e: Fx): Fx =
    range(0, 64).foldl({ x: PI, done: false }, (s, i) =>
      if (s.done) s else {
        pure val sc = sincos(s.x)
        pure val f = s.x - (e * sc._1) / SC - m
        pure val fp = SC - (e * sc._2) / SC
        pure val x1 = if (fp <= 0) s.x else s.x - (f * SC) / fp
        // converged once the step is below 2^-104
        { x: imax(x1, 0), done: iabs(x1 - s.x) < 256 }
      }).x

  /// eccentric anomaly in [0, 2 pi) for any mean anomaly
  pure def eccAnom(mAny: Fx, e: Fx): Fx = {
    pure val m = fmodi(mAny, TWOPI)
    if (m <= PI) eccAnomHalf(m, e) else TWOPI - eccAnomHalf(TWOPI - m, e)
  }

  /// (sin f, cos f) of the true anomaly
  pure def trueAnom(m: Fx, e: Fx): (Fx, Fx) = {
    pure val sc = sincos(eccAnom(m, e))
    pure val den = SC - (e * sc._2) / SC
    (div(mul(sqrt(SC - sq(e)), sc._1), den), div(sc._2 - e, den))
  }

  /// mean anomaly in (-pi, pi] of a true anomaly given by its sine and cosine
  pure def meanOfTrue(sf: Fx, cf: Fx, e: Fx): Fx = {
    pure val ea = atan2(mul(sqrt(SC - sq(e)), sf), e + cf)
    ea - mul(e, sin(ea))
  }

  // ---------------------------------------------------------------- vectors
  type Vec = (Fx, Fx, Fx)
  pure def vscale(k: Fx, v: Vec): Vec = (mul(k, v._1), mul(k, v._2), mul(k, v._3))
  pure def vneg(v: Vec): Vec = (-v._1, -v._2, -v._3)
  pure def vadd(a: Vec, b: Vec): Vec = (a._1 + b._1, a._2 + b._2, a._3 + b._3)
  pure def vlist(v: Vec): List[Fx] = List(v._1, v._2, v._3)
  pure def vdot(a: Vec, b: Vec): Fx = (a._1 * b._1 + a._2 * b._2 + a._3 * b._3) / SC
  pure def vnorm(a: Vec): Fx = sqrt(vdot(a, a))

  // ---------------------------------------------------------------- descriptions
  /// A description maps the names of the supplied arguments to their values; a name
  /// that is absent was not supplied.
  type Desc = str -> Fx
  pure def has(d: Desc, k: str): bool = d.keys().contains(k)
  pure def getOr(d: Desc, k: str, v: Fx): Fx = if (d.keys().contains(k)) d.get(k) else v

  /// Everything derived from a central and a body description.
  type Orbit = {
    mc: Fx, rc: Fx,                 // central mass, radius
    m: Fx, mtot: Fx,                // body mass (0 when not given), total mass
    period: Fx, a: Fx, e: Fx, ecc: bool,
    sw: Fx, cw: Fx,                 // periastron argument
    so: Fx, co: Fx,                 // ascending node (0 when not given)
    si: Fx, ci: Fx, b: Fx,          // inclination, impact parameter
    m0: Fx,                         // mean anomaly at conjunction
    tTransit: Fx, tPeri: Fx
  }

  pure def centralMass(c: Desc): Fx =
    if (has(c, "mass")) c.get("mass")
    else if (has(c, "density"))
      (4 * mul(mul(PI, powi(getOr(c, "radius", SC), 3)), c.get("density"))) / 3
    else SC
  pure def centralRadius(c: Desc): Fx =
    if (has(c, "radius")) c.get("radius")
    else if (has(c, "mass") and has(c, "density"))
      cbrt(div(3 * c.get("mass"), 4 * mul(PI, c.get("density"))))
    else SC
  pure def centralDensity(c: Desc): Fx =
    if (has(c, "density")) c.get("density")
    else div(3 * centralMass(c), 4 * mul(PI, powi(centralRadius(c), 3)))

  pure def periodOf(a: Fx, mtot: Fx): Fx = mul(TWOPI, sqrt(div(powi(a, 3), mul(GRAV, mtot))))
  pure def semimajorOf(p: Fx, mtot: Fx): Fx =
    cbrt(div(mul(mul(GRAV, mtot), sq(p)), 4 * sq(PI)))

  pure def orbitOf(c: Desc, d: Desc): Orbit = {
    pure val mc = centralMass(c)
    pure val rc = centralRadius(c)
    pure val m = getOr(d, "mass", 0)
    pure val mtot = mc + m
    pure val period = if (has(d, "period")) d.get("period") else periodOf(d.get("semimajor"), mtot)
    pure val a = if (has(d, "semimajor")) d.get("semimajor") else semimajorOf(period, mtot)
    pure val ecc = has(d, "eccentricity")
    pure val e = getOr(d, "eccentricity", 0)
    pure val w = if (has(d, "omega_peri")) sincos(d.get("omega_peri"))
      else (getOr(d, "sin_omega_peri", 0), getOr(d, "cos_omega_peri", SC))
    pure val n = if (has(d, "asc_node")) sincos(d.get("asc_node"))
      else (getOr(d, "sin_asc_node", 0), getOr(d, "cos_asc_node", SC))
    // distance at conjunction (true anomaly pi/2 - omega)
    pure val rconj = div(mul(a, SC - sq(e)), SC + mul(e, w._1))
    pure val inc =
      if (has(d, "inclination")) sincos(d.get("inclination"))
      else if (has(d, "impact_param")) {
        pure val ci = div(mul(d.get("impact_param"), rc), rconj)
        (sqrt(SC - sq(ci)), ci)
      } else (SC, 0)
    pure val b = if (has(d, "impact_param")) d.get("impact_param") else div(mul(inc._2, rconj), rc)
    pure val m0 = meanOfTrue(w._2, w._1, e)
    pure val dt = div(mul(m0, period), TWOPI)       // conjunction minus periastron
    pure val tt =
      if (has(d, "time_transit")) d.get("time_transit")
      else if (has(d, "time_peri")) d.get("time_peri") + dt
      else 0
    { mc: mc, rc: rc, m: m, mtot: mtot, period: period, a: a, e: e, ecc: ecc,
      sw: w._1, cw: w._2, so: n._1, co: n._2, si: inc._1, ci: inc._2, b: b, m0: m0,
      tTransit: tt, tPeri: tt - dt }
  }

  // ---------------------------------------------------------------- motion
  pure def meanAnom(o: Orbit, t: Fx): Fx = div(mul(TWOPI, t - o.tPeri), o.period)

  /// orbital-plane vector (u, v) to the observer frame: X to the right, Y up,
  /// Z towards the observer; inclined about X, rolled by the node
  pure def toSky(o: Orbit, u: Fx, v: Fx): Vec = {
    pure val x = u
    pure val y = mul(o.ci, v)
    (mul(o.co, x) - mul(o.so, y), mul(o.so, x) + mul(o.co, y), -mul(o.si, v))
  }

  /// body minus central
  pure def relPos(o: Orbit, t: Fx): Vec = {
    pure val f = trueAnom(meanAnom(o, t), o.e)
    pure val r = div(mul(o.a, SC - sq(o.e)), SC + mul(o.e, f._2))
    // cos and sin of f + omega
    pure val cu = mul(f._2, o.cw) - mul(f._1, o.sw)
    pure val su = mul(f._1, o.cw) + mul(f._2, o.sw)
    toSky(o, -mul(r, cu), -mul(r, su))
  }
  pure def relVel(o: Orbit, t: Fx): Vec = {
    pure val f = trueAnom(meanAnom(o, t), o.e)
    pure val k = div(div(mul(TWOPI, o.a), o.period), sqrt(SC - sq(o.e)))
    pure val cu = mul(f._2, o.cw) - mul(f._1, o.sw)
    pure val su = mul(f._1, o.cw) + mul(f._2, o.sw)
    toSky(o, mul(k, su + mul(o.e, o.sw)), -mul(k, cu + mul(o.e, o.cw)))
  }
  pure def bodyPos(o: Orbit, t: Fx): Vec = vscale(div(o.mc, o.mtot), relPos(o, t))
  pure def centralPos(o: Orbit, t: Fx): Vec = vneg(vscale(div(o.m, o.mtot), relPos(o, t)))
  pure def bodyVel(o: Orbit, t: Fx): Vec = vscale(div(o.mc, o.mtot), relVel(o, t))
  pure def centralVel(o: Orbit, t: Fx): Vec = vneg(vscale(div(o.m, o.mtot), relVel(o, t)))
  /// radial velocity shape: rv(t) = K * rvPhase(t) for a semi-amplitude K
  pure def rvPhase(o: Orbit, t: Fx): Fx = {
    pure val f = trueAnom(meanAnom(o, t), o.e)
    mul(f._2, o.cw) - mul(f._1, o.sw) + mul(o.e, o.cw)
  }
  /// semi-amplitude produced by the masses and the inclination
  pure def semiamp(o: Orbit): Fx =
    div(div(mul(mul(TWOPI, o.a), mul(o.m, o.si)), mul(o.mtot, o.period)), sqrt(SC - sq(o.e)))

  // ---------------------------------------------------------------- laws of the model
  // residuals that the specification itself must keep at (fixed-point) zero
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure val EPS: Fx = 2^112 / 2^70

  pure def keplerHolds(m: Fx, e: Fx): bool = {
    pure val ea = eccAnom(m, e)
    near(ea - mul(e, sin(ea)), fmodi(m, TWOPI), EPS)
  }
  pure def thirdLaw(o: Orbit): bool =
    near(div(mul(4 * sq(PI), powi(o.a, 3)), mul(mul(GRAV, o.mtot), sq(o.period))), SC, EPS)
  /// at the reference transit the body crosses the meridian, in front when 0 < i < pi
  pure def conjunction(o: Orbit): bool = {
    pure val p = relPos(o, o.tTransit)
    // undo the node
    pure val x = mul(o.co, p._1) + mul(o.so, p._2)
    pure val y = mul(o.co, p._2) - mul(o.so, p._1)
    and {
      // sine/cosine pairs supplied as doubles are unit vectors only to 2^-52
      near(div(x, o.a), 0, SC / 2^46),
      near(div(y, o.rc), -o.b, mul(SC / 2^46, SC + div(o.a, o.rc))),
      o.si < EPS * 2^20 or p._3 > 0,
    }
  }
  pure def velIsDerivative(o: Orbit, t: Fx): bool = {
    pure val h = 2^112 / 2^36
    pure val dp = relPos(o, t + h)
    pure val dm = relPos(o, t - h)
    pure val v = relVel(o, t)
    pure val scale = imax(vnorm(v), div(o.a, o.period))
    pure val tol = scale / 2^20
    and {
      near(div(dp._1 - dm._1, 2 * h), v._1, tol),
      near(div(dp._2 - dm._2, 2 * h), v._2, tol),
      near(div(dp._3 - dm._3, 2 * h), v._3, tol),
    }
  }
  pure def energyHolds(o: Orbit, t: Fx): bool = {
    pure val r = vnorm(relPos(o, t))
    pure val v = relVel(o, t)
    // vis viva: v^2 = G M (2/r - 1/a)
    pure val lhs = vdot(v, v)
    pure val rhs = mul(mul(GRAV, o.mtot), div(2 * SC, r) - div(SC, o.a))
    near(lhs, rhs, imax(iabs(lhs), div(mul(GRAV, o.mtot), o.a)) / 2^40)
  }
}
