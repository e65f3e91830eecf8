// -*- mode: Bluespec; -*-
/// P19: a map turned again and again, projected on the sky and back; the state is the rotation
/// accumulated so far (the map's function is p -> f(total p)).
module rotate_mc {
  import harmonics.* from "./harmonics"

  pure val X: Vec3 = (SC, 0, 0)
  pure val Z: Vec3 = (0, 0, SC)

  var act: str
  var deg: int
  var axis: Vec3
  var axisKind: str              // what the caller writes
  var angle: Fx
  var given: List[bool]          // projections: which of inc, obl, theta, theta_z are given
  var proj: List[Fx]             // their values (zero when omitted)
  var op: Mat3                   // this step
  var total: Mat3                // all steps
  var mats: List[Mat3]           // history, for undoing
  var opRows: List[List[Fx]]     // harmonics at op(point)
  var rows: List[List[Fx]]       // harmonics at total(point)
  var base: List[List[Fx]]       // harmonics at the points
  var sky: List[List[Fx]]        // projections: harmonics at (inclination and obliquity only)(point)
  var skyMat: Mat3
  var n: int

  /// the double closest to pi / 2, exactly
  pure val HALFPI_D: Fx = 884279719003555 * (SC / 2^49)
  pure def spots(k: int, L: int): List[Vec3] = range(0, 4).foldl(List(), (acc, i) =>
    acc.append(spherePoint(k * 331 + i * 1117 + 5, ((k * 173 + i * 619) % 2001) - 1000)))
  pure def rowsAt(m: Mat3, k: int, L: int): List[List[Fx]] =
    spots(k, L).foldl(List(), (acc, p) => acc.append(harmonics(L, apply(m, p))))
  /// the angles worth trying: zero, quarter turns as doubles, tiny ones, several turns, anything
  pure def angleOf(kind: int, v: int): Fx =
    if (kind == 0) 0
    else if (kind == 1) (v % 5) * HALFPI_D
    else if (kind == 2) v * (SC / 2^32)
    else if (kind == 3) v * (SC / 2^6)
    else if (kind == 4) v * (SC / 2^20)
    else v * (SC / 2^10)
  /// axes: along the coordinates, generic of any length, next to the poles
  pure def axisOf(kind: int, a: int, b: int, c: int): (str, Vec3) =
    if (kind == 0) ("x", (if (a < 0) -SC else SC, 0, 0))
    else if (kind == 1) ("y", (0, if (a < 0) -SC else SC, 0))
    else if (kind == 2) ("z", (0, 0, if (a < 0) -SC else SC))
    else if (kind == 3) ("only z", (0, 0, if (a < 0) -2 * SC else SC))
    else if (kind == 4) ("near z", (a * (SC / 2^40), b * (SC / 2^40), if (c < 0) -SC else SC))
    else if (kind == 5) ("xy", (a * (SC / 2^4) + SC / 2^9, b * (SC / 2^4), 0))
    else ("any", (a * (SC / 2^4), b * (SC / 2^4) + SC / 2^9, c * (SC / 2^4)))

  action start(L: int, k: int): bool = all {
    act' = "start", deg' = L, axis' = Z, axisKind' = "", angle' = 0, given' = List(), proj' = List(), op' = EYE, total' = EYE,
    mats' = List(), opRows' = List(), rows' = List(), base' = rowsAt(EYE, k, L), sky' = List(), skyMat' = EYE, n' = k
  }
  action init0 = start(0, 0)
  action init1 = start(1, 0)
  action init2 = start(2, 0)
  action init3 = start(3, 0)
  action init5 = start(5, 0)
  action init8 = start(8, 0)
  action init12 = start(12, 0)

  action record(m: Mat3): bool = {
    val t = matmul(total, m)
    all { op' = m, total' = t, mats' = mats.append(m), deg' = deg, base' = base, n' = n + 1,
          opRows' = rowsAt(m, base0, deg), rows' = rowsAt(t, base0, deg) }
  }
  val base0 = n - mats.length()
  action turn: bool = {
    nondet ak = 0.to(6).oneOf()
    nondet a = (-40).to(40).oneOf()
    nondet b = (-40).to(40).oneOf()
    nondet c = (-40).to(40).oneOf()
    nondet tk = 0.to(5).oneOf()
    nondet v = (-4000).to(4000).oneOf()
    val ax = axisOf(ak, a, b, c)
    val th = angleOf(tk, v)
    all { act' = "turn", axisKind' = ax._1, axis' = ax._2, angle' = th, given' = List(), proj' = List(), sky' = List(), skyMat' = EYE,
          record(rotationMatrix(ax._2, th)) }
  }
  /// the last turn again, the other way (opposite angle, or opposite axis)
  action undo: bool = {
    nondet flip = Set(true, false).oneOf()
    all {
      act == "turn",
      act' = "undo",
      axisKind' = axisKind,
      axis' = (if (flip) (-axis._1, -axis._2, -axis._3) else axis),
      angle' = (if (flip) angle else -angle),
      given' = List(), proj' = List(), sky' = List(), skyMat' = EYE,
      record(transpose(op)) }
  }
  pure def tilt(inc: Fx, obl: Fx): Mat3 = matmul(rotationMatrix(X, inc), rotationMatrix(Z, -obl))
  pure def projection(p: List[Fx]): Mat3 =
    matmul(matmul(matmul(rotationMatrix(X, -HALFPI), rotationMatrix(Z, -p[2])), tilt(p[0], p[1])), rotationMatrix(Z, -p[3]))
  action project: bool = {
    nondet v = 0.to(3).setOfMaps((-4000).to(4000)).oneOf()
    nondet k = 0.to(3).setOfMaps(0.to(9)).oneOf()
    // one in ten omitted; zero, quarter turns ...
    val g = range(0, 4).foldl(List(), (acc, i) => acc.append(k.get(i) >= 2))
    val p = range(0, 4).foldl(List(), (acc, i) => acc.append(if (k.get(i) < 2) 0 else angleOf(if (k.get(i) >= 6) 5 else k.get(i) - 2, v.get(i))))
    all { act' = "project", axisKind' = "", axis' = Z, angle' = 0, given' = g, proj' = p,
          sky' = rowsAt(tilt(p[0], p[1]), base0, deg), skyMat' = tilt(p[0], p[1]), record(projection(p)) }
  }
  action unproject: bool = all {
    act == "project",
    act' = "unproject", axisKind' = "", axis' = Z, angle' = 0, given' = given, proj' = proj, sky' = List(), skyMat' = EYE,
    record(transpose(op))
  }
  action again: bool = all { mats.length() >= 5, start(deg, n + 1) }
  action step = if (mats.length() >= 6) again else any { turn, turn, undo, project, unproject }

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def same(a: Mat3, b: Mat3): bool = 0.to(2).forall(i => 0.to(2).forall(j => near(a[i][j], b[i][j], SC / 2^80)))
  /// rotations keep lengths and orientation
  val orthogonal = same(matmul(total, transpose(total)), EYE)
  /// total is the composition of the history
  val composed = act == "start" or same(total, mats.foldl(EYE, (m, a) => matmul(m, a)))
  /// a step undone
  val undone = not(act == "undo" or act == "unproject") or
    same(matmul(mats[mats.length() - 2], mats[mats.length() - 1]), EYE)
  /// undoing is turning by the opposite angle, or about the opposite axis
  val opposite = act != "undo" or same(op, rotationMatrix(axis, angle))
  /// the addition theorem: sum over orders of Y(p)^2 is 2l + 1, whatever the rotation
  val addition = rows.length() == 0 or 0.to(deg).forall(l =>
    near(range(l * l, l * l + 2 * l + 1).foldl(0, (a, i) => a + sq(rows[0][i])), (2 * l + 1) * SC, SC / 2^60))
  pure def kernel(r: List[List[Fx]], l: int): Fx =
    range(l * l, l * l + 2 * l + 1).foldl(0, (a, i) => a + mul(r[0][i], r[1][i]))
  /// the same angular separation, the same correlation: sum Y(p) Y(q) is unchanged by rotation
  val invariantKernel = rows.length() == 0 or 0.to(deg).forall(l =>
    near(kernel(rows, l), kernel(base, l), SC / 2^56))
  val inv = and { orthogonal, composed, undone, opposite, addition, invariantKernel }
}
