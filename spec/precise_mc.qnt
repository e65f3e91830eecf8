// -*- mode: Bluespec; -*-
/// P28: the arbitrary-precision matrices, rotations, solutions and fluxes, asked for again and again in any
/// order through shared caches. There is no state but the requests: an answer does not depend on the history.
module precise_mc {
  import surface.* from "./surface"
  import limbdark as D from "./limbdark"
  import basis as B from "./basis"
  import poly as P from "./poly"
  import moments as M from "./moments"

  type Scene = { L: int, U: int, rotate: bool, tilted: bool, inc: Fx, obl: Fx, phi: Fx, b: Fx, r: Fx, y: List[Fx], u: List[Fx] }
  pure val NOSCENE: Scene = { L: 0, U: 0, rotate: true, tilted: true, inc: 0, obl: 0, phi: 0, b: 0, r: 0, y: List(), u: List() }

  var act: str
  var scene: Scene
  var light: Fx
  var sky: List[Fx]             // coefficients in the frame of the sky
  var lm: (int, int)
  var ycol: List[Fx]
  var gcol: List[int]
  var moment: Fx                // of the monomial over the disc
  var axis: Vec3
  var angles: List[Fx]
  var n: int

  action nothing = all { scene' = NOSCENE, light' = 0, sky' = List(), lm' = (0, 0), ycol' = List(), gcol' = List(), moment' = 0,
    axis' = ZAXIS, angles' = List() }
  action init = all { act' = "start", n' = 0, nothing }

  pure val INCS = List(HALFPI, SC, (3 * SC) / 2, SC / 4, 2 * SC, 0)
  pure val OBLS = List(0, SC / 2, -(5 * SC) / 4, 3 * SC)
  pure val PHIS = List(0, SC / 2, -2 * SC, 7 * SC)
  pure val RS = List(SC / 16, SC / 4, SC / 2, SC, (5 * SC) / 4, 3 * SC)
  pure val FORMS = List((0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (0, 3), (1, 1), (2, 1), (1, 2))

  /// which: small sets, so that requests meet again with one thing changed
  action ask: bool = {
    nondet f = 0.to(9).oneOf()
    nondet i = 0.to(5).oneOf()
    nondet o = 0.to(3).oneOf()
    nondet p = 0.to(3).oneOf()
    nondet ri = 0.to(5).oneOf()
    nondet bi = 0.to(15).oneOf()
    nondet flip = 0.to(9).oneOf()
    nondet rot = 0.to(5).oneOf()
    nondet cs = 0.to(24).setOfMaps((-512).to(512)).oneOf()
    nondet us = 0.to(2).setOfMaps((-100).to(250)).oneOf()
    val L = FORMS[f]._1
    val U = FORMS[f]._2
    val r = RS[ri]
    // impact parameters that stay off the contacts
    val b0 = if (bi < 12) (2 * bi + 1) * (SC / 16) + SC / 128 else (bi - 10) * SC + SC / 128
    val b = if (flip == 0 and rot > 0) -b0 else b0
    val y = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, k) => acc.append(cs.get(k) * (SC / 2^9)))
    val u = range(0, U).foldl(List(), (acc, k) => acc.append(us.get(k) * (SC / 2^10)))
    val tilted = i != 0 or o != 0 or p == 1
    val s = { L: L, U: U, rotate: rot > 0, tilted: tilted, inc: INCS[i], obl: OBLS[o], phi: PHIS[p], b: b, r: r, y: y, u: u }
    // a map already turned is in the frame of the sky; the occultor is up
    val c = if (L == 0) List(SC) else if (rot == 0) y else turned(y, L, toMap(INCS[i], OBLS[o], PHIS[p]))
    all { act' = "light", scene' = s, sky' = c, light' = flux({ L: L, c: c, u: u, amp: SC, vx: 0, vy: 0 }, true, (0, b, SC), r),
          lm' = (0, 0), ycol' = List(), gcol' = List(), moment' = 0, axis' = ZAXIS, angles' = List(), n' = n + 1 }
  }
  action column: bool = {
    nondet l = 0.to(5).oneOf()
    nondet mm = 0.to(12).oneOf()
    val m = mm % (2 * l + 1) - l
    val g = P::dense(B::green(l, m), l)
    all { act' = "column", lm' = (l, m), ycol' = B::column(l, m), gcol' = g,
          moment' = { val e = P::mono(l * l + l + m)  M::discMoment(e._1, e._2, e._3) },
          scene' = NOSCENE, light' = 0, sky' = List(), axis' = ZAXIS, angles' = List(), n' = n + 1 }
  }
  pure def axisOf(k: int, a: int, b: int, c: int): Vec3 =
    if (k == 0) (SC, 0, 0) else if (k == 1) (0, -SC, 0) else if (k == 2) (0, 0, SC) else if (k == 3) (0, 0, -SC)
    else if (k == 4) ((a + 100) * (SC / 2^4), b * (SC / 2^4), 0) else (a * (SC / 2^4), (b + 100) * (SC / 2^4), c * (SC / 2^4))
  pure def angleOf(k: int, v: int): Fx =
    if (k == 0) 0 else if (k == 1) v * (SC / 2^6) else if (k == 2) v * (SC / 2^20) + SC / 2^21 else if (k == 3) v * (SC / 2^36) else v * (SC / 2^10)
  action turn: bool = {
    nondet L = 0.to(4).oneOf()
    nondet ak = 0.to(7).oneOf()
    nondet a = (-40).to(40).oneOf()
    nondet b = (-40).to(40).oneOf()
    nondet c = (-40).to(40).oneOf()
    nondet tk = 0.to(5).oneOf()
    nondet v = (-4000).to(4000).oneOf()
    nondet cs = 0.to(24).setOfMaps((-512).to(512)).oneOf()
    val y = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, k) => acc.append(cs.get(k) * (SC / 2^9)))
    val ax = axisOf(ak, a, b, c)
    val th = angleOf(tk, v)
    all { act' = "turn", axis' = ax, angles' = List(th), scene' = { ...NOSCENE, L: L, y: y }, sky' = turned(y, L, rotationMatrix(ax, th)),
          light' = 0, lm' = (0, 0), ycol' = List(), gcol' = List(), moment' = 0, n' = n + 1 }
  }
  /// inclination, obliquity, angle about the pole, angle on the sky
  pure def projection(p: List[Fx]): Mat3 =
    matmul(matmul(matmul(rotationMatrix(XAXIS, -HALFPI), rotationMatrix(ZAXIS, -p[2])), matmul(rotationMatrix(XAXIS, p[0]), rotationMatrix(ZAXIS, -p[1]))),
           rotationMatrix(ZAXIS, -p[3]))
  action project: bool = {
    nondet L = 0.to(4).oneOf()
    nondet tk = 0.to(3).setOfMaps(0.to(5)).oneOf()
    nondet vs = 0.to(3).setOfMaps((-4000).to(4000)).oneOf()
    nondet cs = 0.to(24).setOfMaps((-512).to(512)).oneOf()
    val y = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, k) => acc.append(cs.get(k) * (SC / 2^9)))
    val p = range(0, 4).foldl(List(), (acc, k) => acc.append(angleOf(tk.get(k), vs.get(k))))
    all { act' = "project", axis' = ZAXIS, angles' = p, scene' = { ...NOSCENE, L: L, y: y }, sky' = turned(y, L, projection(p)),
          light' = 0, lm' = (0, 0), ycol' = List(), gcol' = List(), moment' = 0, n' = n + 1 }
  }
  action step = any { ask, ask, ask, column, turn, project }

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def power(c: List[Fx]): Fx = c.foldl(0, (a, v) => a + sq(v))
  /// turning keeps the power of a map
  val keepsPower = sky.length() == 0 or act == "light" and scene.L == 0 or near(power(sky), power(scene.y), SC / 2^90)
  /// nothing is seen behind everything, all of a uniform disc is seen when nothing is in front
  val total = act != "light" or not(scene.r > SC and iabs(scene.b) < scene.r - SC) or near(light, 0, SC / 2^70)
  val clear = act != "light" or scene.L > 0 or iabs(scene.b) < SC + scene.r or near(light, SC, SC / 2^70)
  /// an axis and its angle twice over is the identity turned by nothing
  val still = act != "turn" or angles[0] != 0 or range(0, sky.length()).foldl(true, (a, k) => a and near(sky[k], scene.y[k], SC / 2^90))
  val inv = and { keepsPower, total, clear, still }
}
