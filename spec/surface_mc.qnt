// -*- mode: Bluespec; -*-
/// A surface is described, turned, looked at (P20), occulted and measured (P21, P23).
module surface_mc {
  import surface.* from "./surface"
  import limbdark as D from "./limbdark"

  /// what the caller writes: an angle or nothing at all
  type Angle = { given: bool, value: Fx }
  type Surf = { y: List[Fx], inc: Angle, obl: Angle, u: List[Fx], amp: Fx, normalize: bool,
                period: Fx, phase: Fx, radius: Fx }
  /// sizes are fixed for a whole behaviour: degrees of the map and of the law, which angles are written
  var form: { L: int, U: int, inc: bool, obl: bool, theta: bool }
  var act: str
  var surf: Surf
  var time: Fx                       // of the last turn
  var theta: Fx                      // rotation angle now
  var front: List[Fx]                // the map in the frame of the sky
  var facing: Mat3                   // from the sky to the map
  var points: List[(Fx, Fx)]         // latitudes and longitudes looked at
  var atPoints: List[Fx]             // intensity there (at angle zero)
  var behindLimb: List[Fx]           // height of those points above the plane of the sky
  /// pixels (row, column, intensity, times velocity, the map alone seen from its equator) of an image of size res
  var image: List[(int, int, Fx, Fx, Fx)]
  var res: int
  var ruled: int                     // number of parallels of a graticule, less one
  var lines: List[(bool, Vec3)]      // points on its parallels (or else meridians), where they are on the sky
  var kind: str
  var occ: { x: Fx, y: Fx, z: Fx, r: Fx, there: bool }
  var light: Fx
  var dark: Fx                       // the light without occultor
  var speed: Fx
  var n: int

  pure val HALFPI_D: Fx = 884279719003555 * (SC / 2^49)
  pure def angleOf(k: int, v: int): Fx =
    if (k == 0) 0
    else if (k == 1) (v % 5) * HALFPI_D
    else if (k == 2) v * (SC / 2^32)
    else if (k == 3) v * (SC / 2^6)
    else v * (SC / 2^10)
  pure def effAmp(s: Surf): Fx = if (s.normalize) SC else s.amp
  pure def disc(s: Surf, L: int, c: List[Fx], vx: Fx, vy: Fx): Disc =
    { L: L, c: c, u: s.u, amp: effAmp(s), vx: vx, vy: vy }
  /// velocity of the limb: solid rotation of period s.period, positive away from the observer (solar radii per day)
  pure def limbSpeed(s: Surf): (Fx, Fx) = {
    pure val v = div(mul(TWOPI, s.radius), s.period)
    pure val si = mul(v, sin(s.inc.value))
    pure val o = sincos(s.obl.value)
    (mul(si, o._2), mul(si, o._1))
  }

  action begin(L: int, U: int, i: bool, o: bool, t: bool): bool = all {
    form' = { L: L, U: U, inc: i, obl: o, theta: t }, act' = "begin",
    surf' = { y: List(SC), inc: { given: i, value: 0 }, obl: { given: o, value: 0 }, u: List(), amp: SC, normalize: false,
              period: SC, phase: 0, radius: SC },
    time' = 0, theta' = 0, front' = List(), facing' = EYE, points' = List(), atPoints' = List(), behindLimb' = List(),
    image' = List(), res' = 0, ruled' = 0, lines' = List(), kind' = "", occ' = { x: 0, y: 0, z: 0, r: 0, there: false }, light' = 0, dark' = 0, speed' = 0, n' = 0
  }
  action init00 = begin(0, 0, true, true, true)
  action init03 = begin(0, 3, false, true, true)
  action init10 = begin(1, 0, true, true, true)
  action init12 = begin(1, 2, false, true, true)
  action init20 = begin(2, 0, true, false, true)
  action init21 = begin(2, 1, true, true, false)
  action init30 = begin(3, 0, true, true, true)
  action init33 = begin(3, 3, true, true, true)
  action init42 = begin(4, 2, true, false, true)
  action init52 = begin(5, 2, true, true, true)
  action init60 = begin(6, 0, false, false, true)
  action init72 = begin(7, 2, true, true, true)
  action initA1 = begin(10, 1, true, true, true)

  // ------------------------------------------------------------ steps
  action quiet: bool = all {
    points' = List(), atPoints' = List(), behindLimb' = List(), image' = List(), res' = 0, ruled' = 0, lines' = List(), kind' = "",
    occ' = { x: 0, y: 0, z: 0, r: 0, there: false }, light' = 0, speed' = 0
  }
  action facingAt(s: Surf, th: Fx): bool = {
    val m = toMap(s.inc.value, s.obl.value, th)
    val c = if (form.L == 0) s.y else turned(s.y, form.L, m)
    all { facing' = m, front' = c, theta' = th, dark' = flux(disc(s, form.L, c, 0, 0), false, (0, 0, SC), 0) }
  }
  /// a new surface; half of the coefficients may be exactly zero
  action describe: bool = {
    nondet cs = 1.to(120).setOfMaps((-60).to(60)).oneOf()
    nondet drop = 0.to(3).oneOf()
    nondet c0 = 1.to(64).oneOf()
    nondet us = 1.to(4).setOfMaps((-200).to(480)).oneOf()
    nondet amp = 1.to(96).oneOf()
    nondet nrm = Set(true, false).oneOf()
    nondet v = 0.to(3).setOfMaps((-4000).to(4000)).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(9)).oneOf()
    nondet p = 1.to(4000).oneOf()
    nondet rad = 8.to(4000).oneOf()
    val y = range(0, (form.L + 1) * (form.L + 1)).foldl(List(), (acc, i) => acc.append(
      if (i == 0) c0 * (SC / 2^4) else if ((i * 7 + drop) % 4 < drop) 0 else cs.get(i) * c0 * (SC / 2^10)))
    val s: Surf = {
      y: y,
      inc: { given: form.inc, value: if (not(form.inc)) 0 else angleOf(imin(4, k.get(0)), v.get(0)) },
      obl: { given: form.obl, value: if (not(form.obl)) 0 else angleOf(imin(4, k.get(1)), v.get(1)) },
      u: range(1, form.U + 1).foldl(List(), (acc, i) => acc.append(us.get(i) * (SC / 2^10))),
      amp: amp * (SC / 2^5), normalize: nrm, period: p * (SC / 2^7), phase: angleOf(imin(4, k.get(3)), v.get(3)),
      radius: rad * (SC / 2^10) }
    all { act' = "describe", form' = form, surf' = s, time' = 0, facingAt(s, 0), quiet, n' = n + 1 }
  }
  action turn: bool = {
    nondet k = 0.to(9).oneOf()
    nondet v = (-4000).to(4000).oneOf()
    val th = if (form.theta) angleOf(imin(4, k), v) else 0
    all { act' = "turn", form' = form, surf' = surf, time' = 0, facingAt(surf, th), quiet, n' = n + 1 }
  }
  /// a time; whole and half periods are special
  action wait: bool = {
    nondet k = 0.to(5).oneOf()
    nondet v = (-4000).to(4000).oneOf()
    val t = if (k == 0) (v % 4) * surf.period else if (k == 1) ((v % 8) * surf.period) / 2 else v * (SC / 2^6)
    all { act' = "wait", form' = form, surf' = surf, time' = t, facingAt(surf, if (form.theta) mul(TWOPI, div(t, surf.period)) + surf.phase else 0), quiet,
          n' = n + 1 }
  }
  /// intensities of points of the map (angle zero) and of pixels (angle theta)
  action look: bool = {
    nondet v = 0.to(11).setOfMaps((-1600).to(1600)).oneOf()
    nondet k = 0.to(11).setOfMaps(0.to(12)).oneOf()
    nondet px = Set(2, 5, 8, 17).oneOf()
    nondet nl = Set(2, 4, 6, 8).oneOf()
    val pts = range(0, 6).foldl(List(), (acc, i) => acc.append((
      if (k.get(2 * i) < 2) 0 else if (k.get(2 * i) == 2) HALFPI_D else if (k.get(2 * i) == 3) -HALFPI_D else v.get(2 * i) * (SC / 2^10),
      if (k.get(2 * i + 1) < 4) ((k.get(2 * i + 1)) - 1) * HALFPI_D else 2 * v.get(2 * i + 1) * (SC / 2^10))))
    val m0 = toSky(surf.inc.value, surf.obl.value, 0)
    val sky = range(0, pts.length()).foldl(List(), (acc, i) => acc.append(apply(m0, mapPoint(pts[i]._1, pts[i]._2))))
    val ampl = effAmp(surf)
    val limb = limbSpeed(surf)
    val ms = toSky(surf.inc.value, surf.obl.value, theta)
    val rules = range(0, 12).foldl(List(), (acc, i) => {
      // parallels at equal steps from pole to pole, meridians at the same steps from the one facing us
      val parallel = i % 2 == 0
      val step = PI / nl
      val p = if (parallel) mapPoint((v.get(i) % (nl + 1)) * step - PI / 2, v.get((i + 5) % 12) * (SC / 2^8))
        else mapPoint(v.get((i + 5) % 12) * (SC / 2^10), v.get(i) * step)
      acc.append((parallel, apply(ms, p)))
    })
    val R = if (form.L >= 4 and px != 5) 17 else px
    val grid = range(0, R * R).foldl(List(), (acc, j) => {
      val row = j / R
      val col = j % R
      val a = 2 * col - (R - 1)
      val b = 2 * row - (R - 1)
      // exactly inside the unit disc, in units of 1 / (R - 1)
      val gap = (R - 1) * (R - 1) - a * a - b * b
      if (gap < 0 or (R == 17 and (j * 7 + n) % 11 != 0)) acc
      else {
        val p = ((a * SC) / (R - 1), (b * SC) / (R - 1), sqrt((gap * SC) / ((R - 1) * (R - 1))))
        val f = mul(ampl, intensityAt(surf.y, form.L, surf.u, facing, p))
        val alone = if (R > 5) 0 else div(valueAt(surf.y, form.L, apply(toMap(HALFPI, 0, theta), p)), PI)
        acc.append((row, col, f, mul(f, mul(limb._1, p._1) + mul(limb._2, p._2)), alone))
      }
    })
    all {
      act' = "look", form' = form, surf' = surf, time' = time, theta' = theta, front' = front, facing' = facing,
      points' = pts, behindLimb' = range(0, sky.length()).foldl(List(), (acc, i) => acc.append(sky[i]._3)),
      atPoints' = range(0, pts.length()).foldl(List(), (acc, i) => acc.append(
        mul(ampl, mul(div(valueAt(surf.y, form.L, mapPoint(pts[i]._1, pts[i]._2)), PI), D::brightness(surf.u, sky[i]._3))))),
      image' = grid, res' = R, ruled' = nl, lines' = rules, kind' = "", occ' = occ, light' = 0, dark' = dark, speed' = 0, n' = n + 1
    }
  }
  /// an occultor: how big, how far from the centre, in which direction, on which side
  pure def sizeOf(k: int, v: int): Fx =
    if (k == 0) SC / 2^16 + (v % 97) * (SC / 2^16)
    else if (k <= 3) (1 + v % 127) * (SC / 2^9)
    else if (k <= 5) SC / 2 + (v % 256) * (SC / 2^8)
    else if (k == 6) SC
    else if (k == 7) SC + (1 + v % 1024) * (SC / 2^9)
    else (3 + v % 60) * SC
  /// unit directions with exact coordinates: axes, and multiples of (3, 4)/5 and others
  pure val WAYS: List[(int, int, int)] = List((1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5),
    (5, 12, 13), (-12, 5, 13), (8, -15, 17), (-15, -8, 17))
  pure def distOf(k: int, r: Fx, v: int): (str, Fx) = {
    pure val tiny = (if (v % 2 == 0) 1 else -1) * (SC / 2^(10 + v % 38))
    if (k == 0) ("centre", 0)
    else if (k == 1) ("outer contact", SC + r)
    else if (k == 2) ("near outer contact", SC + r + tiny)
    else if (k == 3) ("inner contact", iabs(SC - r))
    else if (k == 4) ("near inner contact", iabs(SC - r + tiny))
    else if (k == 5) ("edge on the centre", r)
    else if (k == 6) ("near edge on the centre", imax(0, r + tiny))
    else if (k == 7) ("centre on the limb", SC)
    else if (k == 8) ("far", SC + r + (1 + v) * (SC / 2^6))
    else if (k <= 11) ("partial", iabs(SC - r) + ((v % 1024) * imin(2 * SC, 2 * r)) / 1024)
    else if (r < SC) ("inside", ((SC - r) * (v % 1024)) / 1024)
    else if (r > SC) ("total", ((r - SC) * (v % 1024)) / 1024)
    else ("almost concentric", SC / 2^(3 + v % 44))
  }
  action placed(o: { x: Fx, y: Fx, z: Fx, r: Fx, there: bool }, name: str): bool = {
    val v = limbSpeed(surf)
    val b = (o.x, o.y, o.z)
    all {
      act' = "occult", form' = form, surf' = surf, time' = time, theta' = theta, front' = front, facing' = facing,
      points' = List(), atPoints' = List(), behindLimb' = List(), image' = List(), res' = 0, ruled' = 0, lines' = List(), kind' = name, occ' = o,
      light' = flux(disc(surf, form.L, front, 0, 0), o.there, b, o.r), dark' = dark, n' = n + 1
    }
  }
  /// nearest double, exact rational of the direction not being one
  pure def grid(x: Fx): Fx = {
    pure val q = if (iabs(x) < 16 * SC) SC / 2^48 else SC / 2^40
    (x / q) * q
  }
  action occultBy(withSpeed: bool): bool = {
    nondet sk = 0.to(8).oneOf()
    nondet dk = 0.to(15).oneOf()
    nondet way = 0.to(15).oneOf()
    nondet v = 0.to(4000).oneOf()
    nondet w = 0.to(4000).oneOf()
    nondet side = 0.to(9).oneOf()
    val r = sizeOf(sk, w)
    val d = distOf(dk, r, v)
    val e = if (way < 12) WAYS[way] else WAYS[0]
    val dir = sincos(w * (SC / 2^9))
    val o = {
      x: grid(if (way < 12) (d._2 * e._1) / e._3 else mul(d._2, dir._2)),
      y: grid(if (way < 12) (d._2 * e._2) / e._3 else mul(d._2, dir._1)),
      z: if (side == 0) -SC else if (side == 1) 0 else if (side == 2) SC / 2^40 else if (side == 3) -SC / 2^40 else (1 + v) * (SC / 2^7),
      r: r, there: side != 9 }
    all {
      placed(o, d._1),
      speed' = if (not(withSpeed)) 0 else {
        val vl = limbSpeed(surf)
        meanVelocity(disc(surf, form.L, front, vl._1, vl._2), o.there, (o.x, o.y, o.z), o.r)
      }
    }
  }
  action occult = occultBy(false)
  action occultSpeed = occultBy(true)
  action stepLook = if (n % 8 == 0) describe else if (n % 2 == 1) look else any { turn, wait }
  action stepFlux = if (n % 10 == 0) describe else if (n % 5 == 0) turn else occult
  action stepSpeed = if (n % 10 == 0) describe else if (n % 5 == 0) any { turn, wait } else occultSpeed

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def sameMat(a: Mat3, b: Mat3): bool = 0.to(2).forall(i => 0.to(2).forall(j => near(a[i][j], b[i][j], SC / 2^80)))
  pure def tilt(inc: Fx, obl: Fx): Mat3 = matmul(rotationMatrix(XAXIS, inc), rotationMatrix(ZAXIS, -obl))
  /// the same, as the sequence of rotations of the documentation
  val sequence = act == "begin" or sameMat(facing,
    matmul(matmul(rotationMatrix(XAXIS, -HALFPI), rotationMatrix(ZAXIS, -theta)), tilt(surf.inc.value, surf.obl.value)))
  /// the pole is where inclination and obliquity say
  val pole = act == "begin" or {
    val p = apply(transpose(facing), YAXIS)
    val i = sincos(surf.inc.value)
    val o = sincos(surf.obl.value)
    near(p._3, i._2, SC / 2^80) and near(p._1, -mul(i._1, o._1), SC / 2^80) and near(p._2, mul(i._1, o._2), SC / 2^80)
  }
  /// turning keeps the power of every degree and the map's values
  pure def power(c: List[Fx], l: int): Fx = range(l * l, (l + 1) * (l + 1)).foldl(0, (a, i) => a + sq(c[i]))
  val turning = front.length() == 0 or and {
    0.to(form.L).forall(l => near(power(front, l), power(surf.y, l), SC / 2^60)),
    act == "occult" or {
      val p = spherePoint(n * 331, (n * 173) % 1000)
      near(valueAt(front, form.L, p), valueAt(surf.y, form.L, apply(facing, p)), SC / 2^60)
    }
  }
  /// uniform maps: the limb-darkened disc
  val uniform = act != "occult" or form.L > 0 or not(occ.there) or occ.z <= 0 or
    near(light, mul(mul(effAmp(surf), surf.y[0]), SC + D::dimming(surf.u, sqrt(sq(occ.x) + sq(occ.y)), occ.r)), SC / 2^50)
  /// an occultor behind or off the disc changes nothing; a total one leaves nothing
  val unseen = act != "occult" or (occ.there and occ.z > 0 and sqrt(sq(occ.x) + sq(occ.y)) < SC + occ.r) or
    near(light, dark, SC / 2^70)
  val total = kind != "total" or not(occ.there) or occ.z <= 0 or near(light, 0, SC / 2^40)
  /// pixels are in the image
  val pixels = 0.to(image.length() - 1).forall(i => image[i]._1 < res and image[i]._2 < res)
  /// parallels keep their height above the equator, meridians the plane of the poles
  val ruledWell = 0.to(lines.length() - 1).forall(i => {
    val q = apply(facing, lines[i]._2)
    near(sq(q._1) + sq(q._2) + sq(q._3), SC, SC / 2^80) and
      0.to(2 * ruled).exists(k => if (lines[i]._1) near(q._2, -cos((k * PI) / ruled), SC / 2^80)
        else near(mul(q._1, cos((k * PI) / ruled)), mul(q._3, sin((k * PI) / ruled)), SC / 2^80))
  })
  val inv = and { sequence, pole, turning, uniform, unseen, total, pixels, ruledWell }
}
