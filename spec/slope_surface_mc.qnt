// -*- mode: Bluespec; -*-
/// P27: how fast the light and the velocity of an occulted, rotating surface change with every quantity
/// that was written: the map, its orientation, its limb darkening, and the place and size of the occultor.
/// Surfaces and occultors are those of P21 and P23.
module slope_surface_mc {
  import surface_mc.* from "./surface_mc"
  import surface.* from "./surface"
  import limbdark as D from "./limbdark"
  import quad as Q from "./quad"

  /// derivatives of light and velocity by name
  var light1: str -> Fx
  var speed1: str -> Fx
  var byLaw: List[(Fx, Fx)]
  /// another map: the direction in which the coefficients move
  var sway: List[Fx]
  var whole: Fx                      // the light before normalisation

  type Sums = { i0: Fx, ix: Fx, iy: Fx, m0: Fx, mx: Fx, my: Fx }
  /// along the part of the edge of the occultor in front of the disc: brightness and momentum of the
  /// surface there, and these times the direction outwards
  pure def edgeSums(c: List[Fx], L: int, u: List[Fx], vx: Fx, vy: Fx, ox: Fx, oy: Fx, r: Fx): Sums = {
    pure val none = { i0: 0, ix: 0, iy: 0, m0: 0, mx: 0, my: 0 }
    pure val b = sqrt(sq(ox) + sq(oy))
    if (r == 0 or b >= SC + r or r >= SC + b) none else {
      pure val e = if (b < SC / 2^60) (SC, 0) else (div(ox, b), div(oy, b))
      pure val full = b + r <= SC
      pure val last = if (full) PI else acos(imax(-SC, imin(SC, div(sq(b) + sq(r) - SC, 2 * mul(b, r)))))
      pure val base = if (full) mul(SC - b - r, SC + b + r) else 0
      // both halves, from both ends
      range(0, 4 * Q::NODES.length()).foldl(none, (s, j) => {
        pure val k = j / 4
        pure val up = if (j % 2 == 0) SC else -SC
        if (k == 0 and j % 4 >= 2) s else {
          pure val d = mul(last, Q::NODES[k]._1)
          pure val a = if (j % 4 < 2) d else last - d
          pure val rest = if (j % 4 < 2) last - d else d
          pure val w = mul(mul(Q::NODES[k]._2, last), r)
          pure val h2 = base + 4 * mul(mul(b, r), mul(sin((2 * last - rest) / 2), sin(rest / 2)))
          pure val z = sqrt(imax(0, h2))
          pure val sc = sincos(a)
          // outwards from the occultor; a = 0 points to the centre of the disc
          pure val nx = -mul(sc._2, e._1) - mul(up, mul(sc._1, e._2))
          pure val ny = -mul(sc._2, e._2) + mul(up, mul(sc._1, e._1))
          pure val p = (ox + mul(r, nx), oy + mul(r, ny), z)
          pure val f = mul(w, mul(valueAt(c, L, p), D::brightness(u, z)))
          pure val v = mul(f, mul(vx, p._1) + mul(vy, p._2))
          { i0: s.i0 + f, ix: s.ix + mul(f, nx), iy: s.iy + mul(f, ny), m0: s.m0 + v, mx: s.mx + mul(v, nx), my: s.my + mul(v, ny) }
        }
      })
    }
  }

  pure val H: Fx = SC / 2^40
  pure def rate(lo: List[Fx], hi: List[Fx]): List[Fx] = range(0, lo.length()).foldl(List(), (acc, i) => acc.append((hi[i] - lo[i]) * 2^39))
  pure def frontOf(s: Surf, L: int, y: List[Fx], th: Fx): List[Fx] =
    if (L == 0) y else turned(y, L, toMap(s.inc.value, s.obl.value, th))
  pure def limbAt(s: Surf): List[Fx] = { pure val v = limbSpeed(s)  List(v._1, v._2) }
  pure def add2(a: (Fx, Fx), b: (Fx, Fx)): (Fx, Fx) = (a._1 + b._1, a._2 + b._2)

  action begun = all { light1' = Map(), speed1' = Map(), byLaw' = List(), sway' = List(), whole' = 0 }
  action slopes: bool = {
    nondet cs = 1.to(40).setOfMaps((-60).to(60)).oneOf()
    val L = form.L
    val b = (occ.x, occ.y, occ.z)
    val v = limbSpeed(surf)
    val up = { ...surf, inc: { ...surf.inc, value: surf.inc.value + H } }
    val down = { ...surf, inc: { ...surf.inc, value: surf.inc.value - H } }
    val left = { ...surf, obl: { ...surf.obl, value: surf.obl.value + H } }
    val right = { ...surf, obl: { ...surf.obl, value: surf.obl.value - H } }
    val dir = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) => acc.append(cs.get(1 + i % 40) * (SC / 2^6)))
    // (light and momentum) of a map in the frame of the sky moving its limb at w
    val d0 = disc(surf, L, front, v._1, v._2)
    val k = seenLight(d0, occ.there, b, occ.r)
    val zero = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) => acc.append(0))
    // how the map seen and the speed of the limb move
    val dc: str -> List[Fx] = Map(
      "map" -> frontOf(surf, L, dir, theta),
      "inc" -> rate(frontOf(down, L, surf.y, theta), frontOf(up, L, surf.y, theta)),
      "obl" -> rate(frontOf(right, L, surf.y, theta), frontOf(left, L, surf.y, theta)),
      "theta" -> rate(frontOf(surf, L, surf.y, theta - H), frontOf(surf, L, surf.y, theta + H)),
      "period" -> zero, "radius" -> zero, "amp" -> zero)
    val dv: str -> List[Fx] = Map(
      "map" -> List(0, 0), "theta" -> List(0, 0), "amp" -> List(0, 0),
      "inc" -> rate(limbAt(down), limbAt(up)), "obl" -> rate(limbAt(right), limbAt(left)),
      "period" -> List(-div(v._1, surf.period), -div(v._2, surf.period)), "radius" -> List(div(v._1, surf.radius), div(v._2, surf.radius)))
    val dk: str -> (Fx, Fx) = dc.keys().mapBy(q => {
      val moving = seenLight({ ...d0, c: dc.get(q) }, occ.there, b, occ.r)
      val faster = if (dv.get(q) == List(0, 0)) (0, 0) else seenLight({ ...d0, vx: dv.get(q)[0], vy: dv.get(q)[1] }, occ.there, b, occ.r)
      (moving._1, moving._2 + faster._2)
    })
    val hides = occ.there and occ.z > 0
    val e = if (hides) edgeSums(front, L, surf.u, v._1, v._2, occ.x, occ.y, occ.r) else { i0: 0, ix: 0, iy: 0, m0: 0, mx: 0, my: 0 }
    val dk2 = dk.put("x", (-e.ix, -e.mx)).put("y", (-e.iy, -e.my)).put("r", (-e.i0, -e.m0))
    val D0 = D::discFlux(surf.u)
    val amp = effAmp(surf)
    val dark1 = iabs(k._1) < SC / 2^20
    all {
      act' = "slopes", form' = form, surf' = surf, time' = time, theta' = theta, front' = front, facing' = facing,
      points' = List(), atPoints' = List(), behindLimb' = List(), image' = List(), ruled' = 0, lines' = List(), res' = 0, kind' = kind, occ' = occ, light' = light,
      dark' = dark, n' = n + 1, sway' = dir, whole' = k._1,
      speed' = if (dark1) 0 else div(k._2, k._1),
      light1' = dk2.keys().mapBy(q => mul(amp, div(dk2.get(q)._1, D0)) + if (q == "amp" and not(surf.normalize)) div(k._1, D0) else 0),
      speed1' = if (dark1) Map() else dk2.keys().mapBy(q => div(dk2.get(q)._2 - mul(div(k._2, k._1), dk2.get(q)._1), k._1)),
      byLaw' = range(0, surf.u.length()).foldl(List(), (acc, i) => {
        val u2 = surf.u.replaceAt(i, surf.u[i] + SC)
        val j = seenLight({ ...d0, u: u2 }, occ.there, b, occ.r)
        val dD = D::discFlux(u2) - D0
        acc.append((mul(amp, div(j._1 - k._1, D0) - mul(div(k._1, D0), div(dD, D0))),
          if (dark1) 0 else div(j._2 - k._2 - mul(div(k._2, k._1), j._1 - k._1), k._1)))
      })
    }
  }
  action fresh10 = all { init10, begun }
  action fresh00 = all { init00, begun }
  action fresh03 = all { init03, begun }
  action fresh12 = all { init12, begun }
  action fresh21 = all { init21, begun }
  action fresh30 = all { init30, begun }
  action fresh33 = all { init33, begun }
  action fresh42 = all { init42, begun }
  action step = if (n % 9 == 0) all { describe, begun }
    else if (n % 9 == 4) all { turn, begun }
    else if (act == "slopes" or act == "describe" or act == "turn") all { occult, begun }
    else slopes

  /// an occultor exactly in the middle
  action stepMiddle = if (n == 0) all { describe, begun }
    else if (n == 1) all { placed({ x: 0, y: 0, z: SC, r: SC / 2^2, there: true }, "centre"), speed' = 0, begun } else slopes

  // ------------------------------------------------------------ laws
  pure def size1(s: str -> Fx): Fx = s.keys().fold(SC, (a, q) => a + iabs(s.get(q)))
  /// turning everything seen about the line of sight changes nothing: rolling the map is turning the occultor back
  val roll = act != "slopes" or not(occ.there) or near(light1.get("obl") + mul(light1.get("x"), -occ.y) + mul(light1.get("y"), occ.x), 0, size1(light1) / 2^30)
  /// the derivatives along the edge are the limits of difference quotients of the light
  val touching = {
    val b = sqrt(sq(occ.x) + sq(occ.y))
    iabs(b - SC - occ.r) < SC / 2^8 or iabs(b - iabs(SC - occ.r)) < SC / 2^8 or occ.r < SC / 2^8
  }
  val quotients = act != "slopes" or not(occ.there) or occ.z <= 0 or touching or {
    val h = SC / 2^44
    val d0 = disc(surf, form.L, front, 0, 0)
    val tol = size1(light1) / 2^20
    and {
      near(light1.get("x"), (flux(d0, true, (occ.x + h, occ.y, occ.z), occ.r) - flux(d0, true, (occ.x - h, occ.y, occ.z), occ.r)) * 2^43, tol),
      near(light1.get("y"), (flux(d0, true, (occ.x, occ.y + h, occ.z), occ.r) - flux(d0, true, (occ.x, occ.y - h, occ.z), occ.r)) * 2^43, tol),
      near(light1.get("r"), (flux(d0, true, (occ.x, occ.y, occ.z), occ.r + h) - flux(d0, true, (occ.x, occ.y, occ.z), occ.r - h)) * 2^43, tol),
    }
  }
  /// seen as it was
  val same = act != "slopes" or near(mul(effAmp(surf), div(whole, D::discFlux(surf.u))), light, SC / 2^60)
  val invSlopes = and { inv, roll, quotients, same }
}
