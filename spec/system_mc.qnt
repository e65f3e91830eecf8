// -*- mode: Bluespec; -*-
/// Discs: P11 (stepDisc: one star, one occultor), P12 (stepLight: orbits of up to three bodies in
/// front of a limb-darkened star) and P24 (stepEmission: bodies that shine as well).
module system_mc {
  import kepler as K from "./kepler"
  import limbdark.* from "./limbdark"

  type B = { d: str -> Fx, o: K::Orbit, r: Fx, amp: Fx, u: List[Fx] }
  var act: str
  var cdesc: str -> Fx
  var cu: List[Fx]                   // law of the star
  var camp: Fx
  var bodies: List[B]
  var geo: { b: Fx, r: Fx }          // occultor (P11)
  var t: Fx
  var seen: List[{ x: Fx, y: Fx, z: Fx, sep: Fx, speed: Fx }]
  var flux: List[Fx]
  var left: int

  pure val G10: Fx = SC / 2^10
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol

  // ------------------------------------------------------------ laws
  /// n coefficients, scaled down until the star still shines
  pure def lawOf(n: int, c: int -> int): List[Fx] = {
    pure val u = range(1, n + 1).foldl(List(), (acc, k) => acc.append(c.get(k) * G10))
    if (discFlux(u) >= SC) u
    else range(1, n + 1).foldl(List(), (acc, k) => acc.append(c.get(k) * (G10 / 4)))
  }

  // ------------------------------------------------------------ P11
  action setLaw: bool = {
    nondet n = 0.to(8).oneOf()
    nondet c = 1.to(8).setOfMaps((-1000).to(1000)).oneOf()
    nondet positive = Set(true, false).oneOf()
    val u = lawOf(n, if (positive) 1.to(8).mapBy(k => iabs(c.get(k)) / (if (n == 0) 1 else n)) else c)
    all { act' = "law", cu' = u, geo' = { b: 0, r: 0 }, flux' = List(), cdesc' = cdesc, camp' = camp,
          bodies' = bodies, t' = t, seen' = seen }
  }
  action occult: bool = {
    nondet rk = 0.to(7).oneOf()
    nondet rm = 0.to(1024).oneOf()
    nondet bk = 0.to(8).oneOf()
    nondet bm = 0.to(4096).oneOf()
    nondet fine = 0.to(12).oneOf()
    nondet neg = Set(true, false).oneOf()
    val r = if (rk == 0) rm * (SC / 2^14)            // tiny
      else if (rk <= 3) rm * (SC / 2^12)             // planet
      else if (rk == 4) rm * G10                     // up to equal
      else if (rk == 5) SC                           // equal
      else if (rk == 6) SC + rm * (SC / 2^14)        // slightly larger
      else SC + rm * (SC / 2^9)                      // larger
    // distance from a special position: zero, or 2^-10 .. 2^-50
    val eps = (if (fine == 0) 0 else SC / 2^(5 + 5 * imin(fine, 9))) * (if (bm % 2 == 0) 1 else -1)
    val b = if (bk == 0) 0 + iabs(eps)
      else if (bk == 1) iabs(iabs(SC - r) + eps)     // inner contact
      else if (bk == 2) SC + r + eps                 // outer contact
      else if (bk == 3) iabs(r + eps)                // limb of the occultor at the centre
      else if (bk == 4) SC + eps                     // centre of the occultor on the limb
      else if (bk == 5) (bm * (SC + r)) / 2048       // anywhere, half of them apart
      else if (bk == 6) (bm * iabs(SC - r)) / 4096   // wholly inside or around
      else iabs(SC - r) + (bm * (SC + r - iabs(SC - r))) / 4096   // crossing the limb
    val bb = toGrid(b, SC / 2^52) * (if (neg) -1 else 1)
    all { act' = "occult", geo' = { b: bb, r: r }, flux' = List(dimming(cu, bb, r)), cu' = cu,
          cdesc' = cdesc, camp' = camp, bodies' = bodies, t' = t, seen' = seen }
  }

  // ------------------------------------------------------------ systems
  pure def puts(d: str -> Fx, cond: bool, k: str, v: Fx): str -> Fx = if (cond) d.put(k, v) else d
  /// a body from eight small numbers
  pure def bodyOf(cd: str -> Fx, kind: int, m: int -> int, u: List[Fx]): B = {
    pure val rc = K::centralRadius(cd)
    pure val e = toGrid((m.get(2) * SC) / 2600, SC / 2^30)
    pure val d1 = Map("period" -> (600 + 30 * m.get(1)) * G10)
    pure val d2 = puts(d1, kind % 2 == 1, "eccentricity", e)
    pure val d3 = puts(d2, kind % 2 == 1, "omega_peri", (m.get(3) - 1000) * (SC / 2^8))
    pure val d4 = puts(d3, (kind / 2) % 2 == 1, "mass", m.get(4) * (SC / 2^14))
    pure val d5 = puts(d4, (kind / 4) % 2 == 1, "asc_node", (m.get(5) - 1000) * (SC / 2^8))
    pure val bTry = (m.get(6) - 1000) * (SC * 5 / 2^12)
    pure val d6 = puts(d5, iabs(K::orbitOf(cd, d5.put("impact_param", bTry)).ci) <= SC, "impact_param", bTry)
    pure val d7 = puts(d6, m.get(8) > 200, "time_transit", (m.get(8) - 1000) * (SC / 2^5))
    // a parallax turns positions asked for into angles; the light of the system knows nothing of it
    pure val d8 = puts(d7, m.get(3) % 4 == 0, "parallax", m.get(1) * (SC / 2^16))
    pure val r = imax(SC / 2^16, toGrid((rc * m.get(7) * m.get(7)) / (2000 * 1500), SC / 2^20))
    { d: d8, o: K::orbitOf(cd, d8), r: r, amp: m.get(4) * (SC / 2^9), u: u }
  }
  action describe: bool = {
    nondet n = 1.to(3).oneOf()
    nondet ck = 0.to(3).oneOf()
    nondet cm = 300.to(2500).oneOf()
    nondet cr = 300.to(2500).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet same = Set(true, false).oneOf()     // all bodies described alike
    nondet m1 = 1.to(8).setOfMaps(1.to(2000)).oneOf()
    nondet m2 = 1.to(8).setOfMaps(1.to(2000)).oneOf()
    nondet m3 = 1.to(8).setOfMaps(1.to(2000)).oneOf()
    nondet uc = 1.to(8).setOfMaps((-300).to(600)).oneOf()
    nondet u1 = 1.to(8).setOfMaps((-300).to(600)).oneOf()
    nondet nu = 0.to(4).oneOf()
    nondet nb = 0.to(3).oneOf()
    nondet am = 1.to(4000).oneOf()
    val cd: str -> Fx = if (ck == 0) Map() else if (ck == 1) Map("mass" -> cm * G10, "radius" -> cr * G10)
      else if (ck == 2) Map("mass" -> cm * G10, "density" -> cr * G10) else Map("radius" -> cr * G10, "density" -> cm * G10)
    val shuffled = 1.to(8).mapBy(k => u1.get(9 - k))
    val b1 = bodyOf(cd, kind, m1, lawOf(nb, u1))
    val b2 = bodyOf(cd, if (same) kind else kind + 3, m2, lawOf(if (same) nb else (nb + 1) % 4, shuffled))
    val b3 = bodyOf(cd, if (same) kind else kind + 5, m3, lawOf(if (same) nb else (nb + 2) % 4, u1))
    val bs = if (n == 1) List(b1) else if (n == 2) List(b1, b2) else List(b1, b2, b3)
    all {
      act' = "describe", cdesc' = cd, cu' = lawOf(nu, uc), camp' = am * G10, bodies' = bs,
      geo' = { b: 0, r: 0 }, t' = 0, seen' = List(), flux' = List()
    }
  }
  pure def seenOf(rc: Fx, x: B, at: Fx): { x: Fx, y: Fx, z: Fx, sep: Fx, speed: Fx } = {
    pure val p = K::relPos(x.o, at)
    pure val v = K::relVel(x.o, at)
    { x: p._1, y: p._2, z: p._3, sep: sqrt(sq(p._1) + sq(p._2)), speed: K::vnorm(v) }
  }
  /// transit of each body in turn, zero unless it is in front
  pure def transits(cd: str -> Fx, u: List[Fx], bs: List[B], s: List[{ x: Fx, y: Fx, z: Fx, sep: Fx, speed: Fx }]): List[Fx] = {
    pure val rc = K::centralRadius(cd)
    range(0, bs.length()).foldl(List(), (acc, i) =>
      acc.append(if (s[i].z > 0) dimming(u, div(s[i].sep, rc), div(bs[i].r, rc)) else 0))
  }
  pure def eclipses(cd: str -> Fx, bs: List[B], s: List[{ x: Fx, y: Fx, z: Fx, sep: Fx, speed: Fx }]): List[Fx] = {
    pure val rc = K::centralRadius(cd)
    range(0, bs.length()).foldl(List(), (acc, i) =>
      acc.append(mul(bs[i].amp, SC + (if (s[i].z < 0) dimming(bs[i].u, div(s[i].sep, bs[i].r), div(rc, bs[i].r)) else 0))))
  }
  action look: bool = {
    nondet which = 0.to(bodies.length() - 1).oneOf()
    nondet n = (-20).to(20).oneOf()
    nondet m = (-1000).to(1000).oneOf()
    nondet how = 0.to(7).oneOf()
    val x = bodies[which]
    // half-way across the star in this time
    val half = div(mul(K::centralRadius(cdesc) + x.r, x.o.period), mul(TWOPI, x.o.a))
    // conjunction in front, and roughly the one behind
    val front = x.o.tTransit + n * x.o.period
    val back = front + x.o.period / 2 + mul(div(x.o.period, PI), 2 * mul(x.o.e, x.o.cw))
    val at = if (how <= 3) front + (m * half) / 800
      else if (how <= 5) back + (m * half) / 800
      else if (how == 6) front + (m * x.o.period) / 1000
      else front
    val tt = toGrid(at, SC / 2^36)
    val s = range(0, bodies.length()).foldl(List(), (acc, i) => acc.append(seenOf(K::centralRadius(cdesc), bodies[i], tt)))
    all { act' = "look", t' = tt, seen' = s, cdesc' = cdesc, cu' = cu, camp' = camp, bodies' = bodies,
          geo' = geo, flux' = List() }
  }
  action keep: bool = all { t' = t, seen' = seen, cdesc' = cdesc, cu' = cu, camp' = camp, bodies' = bodies, geo' = geo }
  action measure: bool = all { act' = "measure", flux' = transits(cdesc, cu, bodies, seen), keep }
  /// with bodies that shine
  action measureAll: bool = {
    val tr = transits(cdesc, cu, bodies, seen)
    all { act' = "measure", keep,
      flux' = List(mul(camp, SC + isum(tr))).concat(eclipses(cdesc, bodies, seen)) }
  }

  action init = all {
    act' = "law", cdesc' = Map(), cu' = List(), camp' = SC, bodies' = List(), geo' = { b: 0, r: 0 }, t' = 0,
    seen' = List(), flux' = List(), left' = 0
  }
  action stepDisc = if (left > 0) all { occult, left' = left - 1 } else all { setLaw, left' = 8 }
  // describe, then look / measure alternately
  action stepLight =
    if (left <= 0) all { describe, left' = 12 }
    else if (left % 2 == 0) all { look, left' = left - 1 } else all { measure, left' = left - 1 }
  action stepEmission =
    if (left <= 0) all { describe, left' = 12 }
    else if (left % 2 == 0) all { look, left' = left - 1 } else all { measureAll, left' = left - 1 }
  action step = any { stepDisc, stepLight }

  // ------------------------------------------------------------ laws of the model
  /// a star without limb darkening loses the area of the lens
  val areaLost = not(act == "occult" and cu.length() == 0) or
    near(flux[0], -div(lensArea(geo.b, geo.r), PI), SC / 2^55)
  val bounded = act != "occult" or cu.someIn(v => v < 0) or isum(cu) > SC or
    (flux[0] <= SC / 2^60 and flux[0] >= -SC - SC / 2^60)
  val total = act != "occult" or geo.r < SC + iabs(geo.b) or near(flux[0], -SC, SC / 2^80)
  val apart = act != "occult" or iabs(geo.b) < SC + geo.r or flux[0] == 0
  /// the innermost and outermost parts add up
  val parts = act != "law" or near(innerFlux(cu, SC), discFlux(cu), SC / 2^80)
  pure def someIn(l: List[Fx], f: Fx => bool): bool = l.indices().exists(i => f(l[i]))
  /// not both in front and behind
  val sides = act != "look" or seen.indices().forall(i => near(sq(seen[i].sep), sq(seen[i].x) + sq(seen[i].y), SC / 2^60))
  val inv = and { areaLost, bounded, total, apart, parts, sides }
}
