// -*- mode: Bluespec; -*-
/// P27: how fast what is seen of a body on an orbit changes with time and with every quantity that was
/// written: its position, the reflex of its star, the elements derived from the description, and the
/// light of the star while it is in front.
module slope_mc {
  import kepler as K from "./kepler"
  import transit as T from "./transit"
  import slope.* from "./slope"

  type Desc = str -> Fx
  /// which names are written, and what kind of orbit; fixed for a whole behaviour
  var form: { cen: List[str], body: List[str], model: str }
  var act: str
  var cdesc: Desc
  var desc: Desc
  var law: List[Fx]
  var bodyR: Fx                       // radius of the body, solar radii (transit orbits: ratio, written as radius_ratio)
  var t: Fx
  var where: str
  var value: List[Fx]                // x, y, z, radial velocity, radius of the star, then elements
  var byCen: str -> List[Fx]         // derivatives of the values
  var byBody: str -> List[Fx]
  var byTime: List[Fx]
  var edgeOf: { b: Fx, r: Fx, front: bool, sb: Fx, sr: Fx }  // separation, ratio; derivatives of the light by these
  var light: Fx
  var lightCen: str -> Fx            // derivatives of the light
  var lightBody: str -> Fx
  var lightTime: Fx
  var lightSize: Fx
  var lightLaw: List[Fx]
  var left: int

  pure val G10: Fx = SC / 2^10
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g
  pure val HALFPI_D: Fx = 884279719003555 * (SC / 2^49)
  /// half a step of the difference quotients
  pure val H: Fx = SC / 2^40
  pure def rate(lo: List[Fx], hi: List[Fx]): List[Fx] =
    range(0, lo.length()).foldl(List(), (acc, i) => acc.append(
      // (the times of transit and periastron, items 10 and 11, are defined up to a period, item 5)
      if (i >= 10) (fmodi(hi[i] - lo[i] + lo[5] / 2, lo[5]) - lo[5] / 2) * 2^39 else (hi[i] - lo[i]) * 2^39))

  // ------------------------------------------------------------ what is seen
  pure def keplerSeen(cd: Desc, d: Desc, at: Fx): List[Fx] = {
    pure val o = K::orbitOf(cd, d)
    pure val f = K::trueAnom(K::meanAnom(o, at), o.e)
    pure val r = div(mul(o.a, SC - sq(o.e)), SC + mul(o.e, f._2))
    pure val cu = mul(f._2, o.cw) - mul(f._1, o.sw)
    pure val su = mul(f._1, o.cw) + mul(f._2, o.sw)
    pure val p = K::toSky(o, -mul(r, cu), -mul(r, su))
    // radial velocity of the star: what its mass and the body's make it, or as given
    pure val k = if (K::has(d, "radial_velocity_semiamplitude")) d.get("radial_velocity_semiamplitude") else K::semiamp(o)
    List(p._1, p._2, p._3, mul(k, cu + mul(o.e, o.cw)), o.rc, o.period, o.a, o.si, o.ci, o.b, o.tTransit, o.tPeri)
  }
  /// the n-th passage: transits do not interfere
  pure def transitSeen(d: Desc, at: Fx, n: int): List[Fx] = {
    pure val s = if (K::has(d, "duration")) T::byDuration(d.get("period"), d.get("duration"), K::getOr(d, "impact_param", 0), K::getOr(d, "radius_ratio", 0))
      else T::bySpeed(d.get("period"), d.get("speed"), K::getOr(d, "impact_param", 0), K::getOr(d, "radius_ratio", 0))
    pure val dt = at - K::getOr(d, "time_transit", 0) - n * d.get("period")
    pure val p = T::seenAt(s, dt)
    List(p.x, p.y, if (p.front) SC else -SC, 0, SC, d.get("period"), s.speed, s.duration)
  }
  /// transits that are early or late: the times as written, or variations about equal steps
  pure def ephemeris(d: Desc): { t0: Fx, lin: Fx, times: List[Fx] } =
    if (K::has(d, "ttv0")) {
      pure val v = List("ttv0", "ttv1", "ttv2", "ttv3").foldl(List(), (acc, k) => if (K::has(d, k)) acc.append(d.get(k)) else acc)
      pure val t0 = K::getOr(d, "time_transit", 0)
      { t0: t0, lin: d.get("period"), times: T::timesFromVariations(t0, d.get("period"), range(0, v.length()), v) }
    } else {
      pure val v = List("tt0", "tt1", "tt2", "tt3").foldl(List(), (acc, k) => if (K::has(d, k)) acc.append(d.get(k)) else acc)
      pure val f = T::linearFit(range(0, v.length()), v)
      { t0: f._1, lin: f._2, times: v }
    }
  /// about the nearest transit only; n shape periods after it
  pure def ttvSeen(d: Desc, at: Fx, n: int): List[Fx] = {
    pure val e = ephemeris(d)
    pure val p = if (K::has(d, "period")) d.get("period") else e.lin
    pure val o = d.put("period", p).put("time_transit", e.times[T::nearest(e.times, at)])
    transitSeen(o, at, n).concat(List(e.t0, e.lin))
  }
  pure def passage(model: str, d: Desc, at: Fx): int =
    if (model == "kepler") 0 else if (model == "transit") fdivi(at - K::getOr(d, "time_transit", 0) + d.get("period") / 2, d.get("period"))
    else {
      pure val e = ephemeris(d)
      pure val p = if (K::has(d, "period")) d.get("period") else e.lin
      fdivi(at - e.times[T::nearest(e.times, at)] + p / 2, p)
    }
  pure def observed(model: str, cd: Desc, d: Desc, at: Fx, n: int): List[Fx] =
    if (model == "kepler") keplerSeen(cd, d, at) else if (model == "transit") transitSeen(d, at, n) else ttvSeen(d, at, n)

  /// sine and cosine move together
  pure def turnPair(d: Desc, s: str, c: str, h: Fx): Desc = {
    pure val a = sincos(h)
    d.put(s, mul(d.get(s), a._2) + mul(d.get(c), a._1)).put(c, mul(d.get(c), a._2) - mul(d.get(s), a._1))
  }
  pure def moved(d: Desc, k: str, h: Fx): Desc =
    if (k == "sin_omega_peri" or k == "cos_omega_peri") turnPair(d, "sin_omega_peri", "cos_omega_peri", h)
    else if (k == "sin_asc_node" or k == "cos_asc_node") turnPair(d, "sin_asc_node", "cos_asc_node", h)
    else d.put(k, d.get(k) + h)

  // ------------------------------------------------------------ light
  pure val ZERO = 0
  /// derivative of the light from those of the position and of the radius of the star
  pure def chain(e: { b: Fx, r: Fx, front: bool, sb: Fx, sr: Fx }, v: List[Fx], dv: List[Fx]): Fx =
    if (not(e.front) or e.b == 0) 0 else {
      pure val rc = v[4]
      pure val db = div(div(mul(v[0], dv[0]) + mul(v[1], dv[1]), mul(e.b, rc)), rc) - div(mul(e.b, dv[4]), rc)
      mul(e.sb, db)
    }
  pure def chainSize(e: { b: Fx, r: Fx, front: bool, sb: Fx, sr: Fx }, v: List[Fx], dv: List[Fx]): Fx =
    if (not(e.front)) 0 else -div(mul(mul(e.sr, e.r), dv[4]), v[4])

  // ------------------------------------------------------------ steps
  action begin(model: str, cen: List[str], body: List[str]): bool = all {
    form' = { cen: cen, body: body, model: model }, act' = "begin", cdesc' = Map(), desc' = Map(), law' = List(), bodyR' = 0, t' = 0, where' = "",
    value' = List(), byCen' = Map(), byBody' = Map(), byTime' = List(), edgeOf' = { b: 0, r: 0, front: false, sb: 0, sr: 0 }, light' = 0,
    lightCen' = Map(), lightBody' = Map(), lightTime' = 0, lightSize' = 0, lightLaw' = List(), left' = 0
  }
  action initA = begin("kepler", List(), List("period", "time_transit"))
  action initB = begin("kepler", List("mass", "radius"), List("period", "eccentricity", "omega_peri", "impact_param", "time_transit", "mass"))
  action initC = begin("kepler", List("density"), List("semimajor", "eccentricity", "omega_peri", "inclination", "asc_node", "time_peri"))
  action initD = begin("kepler", List("mass", "density"), List("period", "inclination", "time_transit", "mass"))
  action initE = begin("kepler", List("radius", "density"), List("semimajor", "impact_param", "asc_node", "mass", "time_peri"))
  action initF = begin("kepler", List("mass", "radius"), List("period", "eccentricity", "sin_omega_peri", "cos_omega_peri", "inclination",
    "sin_asc_node", "cos_asc_node", "radial_velocity_semiamplitude"))
  action initG = begin("kepler", List(), List("period", "impact_param", "time_transit", "radial_velocity_semiamplitude"))
  action initT = begin("transit", List(), List("period", "duration", "time_transit", "impact_param", "radius_ratio"))
  action initU = begin("transit", List(), List("period", "speed", "time_transit", "impact_param", "radius_ratio"))
  action initV = begin("transit", List(), List("period", "duration", "radius_ratio"))

  action initW = begin("ttv", List(), List("period", "duration", "time_transit", "impact_param", "radius_ratio", "ttv0", "ttv1", "ttv2"))
  action initX = begin("ttv", List(), List("duration", "impact_param", "radius_ratio", "tt0", "tt1", "tt2", "tt3"))
  action initY = begin("ttv", List(), List("period", "speed", "radius_ratio", "tt0", "tt1", "tt2"))

  action quiet: bool = all {
    value' = List(), byCen' = Map(), byBody' = Map(), byTime' = List(), edgeOf' = { b: 0, r: 0, front: false, sb: 0, sr: 0 }, light' = 0,
    lightCen' = Map(), lightBody' = Map(), lightTime' = 0, lightSize' = 0, lightLaw' = List()
  }
  pure def written(l: List[str], k: str): bool = l.select(x => x == k).length() > 0
  pure def puts(d: Desc, l: List[str], k: str, v: Fx): Desc = if (written(l, k)) d.put(k, v) else d
  action describe: bool = {
    nondet m = 0.to(15).setOfMaps(1.to(2000)).oneOf()
    nondet k = 0.to(4).setOfMaps(0.to(5)).oneOf()
    nondet nu = 0.to(3).oneOf()
    nondet uc = 0.to(2).setOfMaps((-100).to(400)).oneOf()
    val c = form.cen
    val b = form.body
    val c0: Desc = Map()
    val c1 = puts(puts(puts(c0, c, "mass", (300 + m.get(0)) * G10), c, "radius", (300 + m.get(1)) * G10), c, "density", (300 + m.get(2)) * G10)
    val rc = if (form.model != "kepler") SC else K::centralRadius(c1)
    val period = (1200 + 30 * m.get(3)) * G10
    val e = if (k.get(0) == 0) 0 else if (k.get(0) == 1) m.get(4) * (SC / 2^40) else if (k.get(0) == 2) m.get(4) * (SC * 31 / 2^16) else if (k.get(0) == 3) SC - m.get(4) * (SC / 2^13)
      else m.get(4) * (SC / 2^12)
    val wa = if (k.get(1) == 0) 0 else if (k.get(1) == 1) (1 - 2 * (m.get(5) % 2)) * HALFPI_D else (m.get(5) - 1000) * (SC / 2^8)
    val na = if (k.get(2) == 0) 0 else (m.get(6) - 1000) * (SC / 2^8)
    val tt = (m.get(7) - 1000) * (SC / 2^5)
    val d0: Desc = Map()
    val d1 = puts(puts(puts(d0, b, "period", period), b, "semimajor", (4000 + 20 * m.get(3)) * G10), b, "mass", m.get(8) * (SC / 2^14))
    val d2 = puts(puts(d1, b, "eccentricity", toGrid(e, SC / 2^50)), b, "omega_peri", wa)
    val ws = sincos(wa)
    val ns = sincos(na)
    val d3 = puts(puts(d2, b, "sin_omega_peri", toGrid(ws._1, SC / 2^53)), b, "cos_omega_peri", toGrid(ws._2, SC / 2^53))
    val d4 = puts(puts(puts(d3, b, "asc_node", na), b, "sin_asc_node", toGrid(ns._1, SC / 2^53)), b, "cos_asc_node", toGrid(ns._2, SC / 2^53))
    val d5 = puts(puts(d4, b, "time_transit", tt), b, "time_peri", tt)
    val d6 = puts(d5, b, "inclination", if (k.get(3) == 0) HALFPI_D else if (k.get(3) == 1) m.get(9) * (SC / 2^9) else HALFPI_D + (m.get(9) - 1000) * (SC / 2^14))
    val d7 = puts(d6, b, "radial_velocity_semiamplitude", m.get(10) * (SC / 2^10))
    val ror = if (k.get(4) == 0) m.get(11) * (SC / 2^16) else if (k.get(4) <= 3) m.get(11) * (SC / 2^13) else m.get(11) * G10
    val bTry = if (k.get(3) <= 1) 0 else (m.get(12) - 1000) * (SC * 5 / 2^12)
    val t4 = range(0, 4).foldl(List(), (acc, i) => acc.append(toGrid(mul(period, (m.get((5 + i) % 16) - 1000) * (SC / 2^13)), SC / 2^24)))
    val d8 = if (form.model != "kepler")
        puts(puts(puts(d7, b, "impact_param", if (k.get(3) <= 1) 0 else (m.get(12) - 1000) * (SC * 5 / 2^12)), b, "radius_ratio", ror), b, "duration", toGrid(mul(period, m.get(13) * (SC / 2^13)), SC / 2^30))
      else if (written(b, "impact_param") and iabs(K::orbitOf(c1, d7.put("impact_param", bTry)).ci) <= SC) d7.put("impact_param", bTry)
      else puts(d7, b, "impact_param", 0)
    val da = puts(puts(puts(puts(d8, b, "ttv0", t4[0]), b, "ttv1", t4[1]), b, "ttv2", t4[2]), b, "ttv3", t4[3])
    val db = puts(puts(puts(puts(da, b, "tt0", tt + t4[0]), b, "tt1", tt + period + t4[1]), b, "tt2", tt + 2 * period + t4[2]), b, "tt3", tt + 3 * period + t4[3])
    val d9 = puts(db, b, "speed", m.get(14) * (SC / 2^7))
    all {
      act' = "describe", form' = form, cdesc' = c1, desc' = d9,
      law' = range(0, nu).foldl(List(), (acc, i) => acc.append(uc.get(i) * G10)),
      bodyR' = if (form.model != "kepler") ror else imax(SC / 2^16, toGrid(mul(rc, ror), SC / 2^24)), t' = 0, where' = "", quiet
    }
  }
  /// the middle of a transit and the time it takes
  pure def crossing(model: str, cd: Desc, d: Desc, s: Fx, n: int): (Fx, Fx, Fx) =
    if (model == "kepler") {
      pure val o = K::orbitOf(cd, d)
      (o.tTransit + n * o.period, o.period, div(mul(o.rc + s, o.period), mul(TWOPI, o.a)))
    } else if (model == "transit") {
      pure val o = transitSeen(d, 0, 0)
      (K::getOr(d, "time_transit", 0) + n * o[5], o[5], imin(o[7] / 2, o[5] / 2))
    } else {
      pure val e = ephemeris(d)
      pure val o = ttvSeen(d, 0, 0)
      (if (iabs(n) <= 6) e.times[iabs(n) % e.times.length()] else e.t0 + n * e.lin, o[5], imin(o[7] / 2, o[5] / 2))
    }
  action look: bool = {
    nondet n = (-9).to(9).oneOf()
    nondet m = (-1000).to(1000).oneOf()
    nondet how = 0.to(8).oneOf()
    nondet snap = 0.to(9).oneOf()
    val c = crossing(form.model, cdesc, desc, bodyR, n)
    val at = if (how <= 1) c._1
      else if (how <= 5) c._1 + (m * c._3) / 900
      else if (how == 6) c._1 + c._2 / 2 + (m * c._3) / 900
      else if (how == 7) c._1 + (m * c._2) / 100
      else if (form.model == "kepler") K::orbitOf(cdesc, desc).tPeri + n * c._2
      else c._1 + (m * SC) / 2^40
    val tt = if (how == 0 and form.model != "ttv" and not(written(form.body, "time_peri"))) crossing(form.model, cdesc, desc, bodyR, 0)._1
      else toGrid(at, SC / 2^36)
    val v = observed(form.model, cdesc, desc, tt, passage(form.model, desc, tt))
    val sep = sqrt(sq(v[0]) + sq(v[1]))
    // sometimes the body is as large as it must be to touch the limb
    val s = if (form.model != "kepler" or snap > 2 or sep == 0 or sep > 3 * v[4] or toGrid(iabs(sep - v[4]), SC / 2^48) == 0) bodyR
      else toGrid(iabs(sep - v[4]), SC / 2^48)
    all { act' = "look", form' = form, cdesc' = cdesc, desc' = desc, law' = law, bodyR' = s, t' = tt,
          where' = if (s == bodyR) "anywhere" else "contact", quiet }
  }
  action measure: bool = {
    val n = passage(form.model, desc, t)
    val v = observed(form.model, cdesc, desc, t, n)
    val c = cdesc.keys().mapBy(k => rate(observed(form.model, cdesc.put(k, cdesc.get(k) - H), desc, t, n), observed(form.model, cdesc.put(k, cdesc.get(k) + H), desc, t, n)))
    val b = desc.keys().mapBy(k => rate(observed(form.model, cdesc, moved(desc, k, -H), t, n), observed(form.model, cdesc, moved(desc, k, H), t, n)))
    val w = rate(observed(form.model, cdesc, desc, t - H, n), observed(form.model, cdesc, desc, t + H, n))
    val sep = div(sqrt(sq(v[0]) + sq(v[1])), v[4])
    val ror = if (form.model == "kepler") div(bodyR, v[4]) else K::getOr(desc, "radius_ratio", 0)
    val front = v[2] > 0
    val sl = if (front) dimmingSlopes(law, sep, ror) else (0, 0)
    val e = { b: sep, r: ror, front: front, sb: sl._1, sr: sl._2 }
    all {
      act' = "measure", form' = form, cdesc' = cdesc, desc' = desc, law' = law, bodyR' = bodyR, t' = t, where' = where, value' = v,
      byCen' = c, byBody' = b, byTime' = w, edgeOf' = e, light' = if (front) dimming(law, sep, ror) else 0,
      lightCen' = c.keys().mapBy(k => chain(e, v, c.get(k)) + chainSize(e, v, c.get(k))),
      lightBody' = b.keys().mapBy(k => chain(e, v, b.get(k)) + chainSize(e, v, b.get(k)) + if (k == "radius_ratio" and front) e.sr else 0),
      lightTime' = chain(e, v, w), lightSize' = if (front) div(e.sr, v[4]) else 0,
      lightLaw' = if (front) dimmingByLaw(law, sep, ror) else law.foldl(List(), (acc, x) => acc.append(0))
    }
  }
  action step = if (left % 17 == 0) all { describe, left' = left + 1 }
    else if (left % 17 % 2 == 1) all { look, left' = left + 1 } else all { measure, left' = left + 1 }

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def sizeOf(l: List[Fx]): Fx = l.foldl(SC, (a, x) => a + iabs(x))
  /// moving every time together changes nothing that is seen
  val noClock = act != "measure" or {
    val names = desc.keys().filter(k => k == "time_transit" or k == "time_peri")
    names.size() == 0 or {
      val d = byBody.get(names.getOnlyElement())
      0.to(3).forall(i => near(d[i] + byTime[i], 0, sizeOf(byTime) / 2^30))
    }
  }
  /// scaling laws: positions of a body of no mass scale with the bodyR of everything
  /// (period and density fixed, lengths of star and impact parameter in proportion)
  val speedIsSlope = act != "measure" or form.model != "kepler" or {
    val u = K::relVel(K::orbitOf(cdesc, desc), t)
    near(byTime[0], u._1, sizeOf(byTime) / 2^30) and near(byTime[1], u._2, sizeOf(byTime) / 2^30) and near(byTime[2], u._3, sizeOf(byTime) / 2^30)
  }
  /// out of transit nothing matters
  val outside = act != "measure" or (edgeOf.front and edgeOf.b < SC + edgeOf.r) or and {
    lightTime == 0, lightSize == 0, lightBody.keys().forall(k => lightBody.get(k) == 0), light == 0 }
  /// the whole chain is the limit of difference quotients of the light (by time)
  val quotient = act != "measure" or where == "contact" or not(edgeOf.front) or iabs(edgeOf.b - SC - edgeOf.r) < SC / 2^10 or
    iabs(iabs(SC - edgeOf.r) - edgeOf.b) < SC / 2^10 or edgeOf.b < SC / 2^10 or edgeOf.r < SC / 2^10 or {
      val h = SC / 2^44
      val n = passage(form.model, desc, t)
      val p = observed(form.model, cdesc, desc, t + h, n)
      val m = observed(form.model, cdesc, desc, t - h, n)
      near(lightTime, (dimming(law, div(sqrt(sq(p[0]) + sq(p[1])), p[4]), edgeOf.r) - dimming(law, div(sqrt(sq(m[0]) + sq(m[1])), m[4]), edgeOf.r)) * 2^43,
        sizeOf(byTime) / 2^20)
    }
  val inv = and { noClock, speedIsSlope, outside, quotient }
}
