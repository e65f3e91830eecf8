// -*- mode: Bluespec; -*-
/// P07: systems grow by adding bodies; functions are mapped over their bodies.
///
/// All systems ever made stay available (adding a body makes a new system), so any
/// of them may be extended or asked again at any later time.
module stack_mc {
  import kepler.* from "./kepler"

  type BodyD = {
    d: Desc, own: bool, c: Desc,      // description; own central or the system's
    w: int,                           // period in whole days
    orb: Orbit
  }
  type Tensor = { shape: List[int], data: List[int] }
  pure val NOAXIS = 99

  var act: str
  var centrals: List[Desc]            // central of each system
  var systems: List[List[BodyD]]      // bodies of each system, in insertion order
  var who: int                        // system concerned by this step
  var from: int                       // system it was made from, or -1
  var t: Fx
  var seen: List[str -> List[Fx]]     // observables per body
  var func: str                       // mapped function
  var args: List[Tensor]
  var inAxes: List[int]
  var outAxes: List[int]
  var result: List[Tensor]

  // ------------------------------------------------------------------ tensors
  pure def prod(l: List[int]): int = l.foldl(1, (a, b) => a * b)
  pure def rank(x: Tensor): int = x.shape.length()
  /// strides of a row-major tensor
  pure def stride(shape: List[int], axis: int): int =
    range(axis + 1, shape.length()).foldl(1, (a, k) => a * shape[k])
  pure def norm(axis: int, r: int): int = if (axis < 0) axis + r else axis
  pure def without(shape: List[int], axis: int): List[int] =
    shape.slice(0, axis).concat(shape.slice(axis + 1, shape.length()))
  /// x[..., i, ...] along axis
  pure def slice_(x: Tensor, axisAny: int, i: int): Tensor =
    if (axisAny == NOAXIS) x else {
      pure val axis = norm(axisAny, rank(x))
      pure val st = stride(x.shape, axis)
      pure val sz = x.shape[axis]
      pure val sh = without(x.shape, axis)
      { shape: sh,
        data: range(0, prod(sh)).foldl(List(), (acc, k) =>
          acc.append(x.data[(k / st) * st * sz + i * st + k % st])) }
    }
  /// the inverse: slices become a new axis
  pure def stack_(xs: List[Tensor], axisAny: int): Tensor =
    if (axisAny == NOAXIS) xs[0] else {
      pure val n = xs.length()
      pure val axis = norm(axisAny, rank(xs[0]) + 1)
      pure val sh0 = xs[0].shape
      pure val sh = sh0.slice(0, axis).append(n).concat(sh0.slice(axis, sh0.length()))
      pure val st = stride(sh, axis)
      { shape: sh,
        data: range(0, prod(sh)).foldl(List(), (acc, k) =>
          acc.append(xs[(k / st) % n].data[(k / (st * n)) * st + k % st])) }
    }
  pure def each(x: Tensor, f: int => int): Tensor =
    { shape: x.shape, data: x.data.foldl(List(), (acc, v) => acc.append(f(v))) }

  // ------------------------------------------------------------------ functions
  /// leaves of what the function returns for one body
  pure def apply(name: str, w: int, a: List[Tensor]): List[Tensor] =
    if (name == "period") List({ shape: List(), data: List(w) })
    else if (name == "scale") List(each(a[0], v => w * v))
    else if (name == "pair") List(each(a[0], v => w * v), each(a[1], v => w + v))
    else if (name == "nest") List(each(a[0], v => w * v - 1), each(a[1], v => v - w), each(a[0], v => v + 2))
    else List(each(a[0], v => w * v), each(a[1], v => 3 * v))       // "const": second output same for all
  pure def arity(name: str): int = if (name == "period") 0 else if (name == "scale") 1 else 2

  pure def mapped(name: str, ws: List[int], a: List[Tensor], ia: List[int], oa: List[int]): List[Tensor] = {
    pure val per = range(0, ws.length()).foldl(List(), (acc, i) =>
      acc.append(apply(name, ws[i], range(0, a.length()).foldl(List(), (q, j) => q.append(slice_(a[j], ia[j], i))))))
    range(0, per[0].length()).foldl(List(), (acc, l) =>
      acc.append(stack_(per.foldl(List(), (q, p) => q.append(p[l])), oa[l])))
  }

  // ------------------------------------------------------------------ bodies
  pure val G10: Fx = SC / 2^10
  pure def puts(d: Desc, cond: bool, k: str, v: Fx): Desc = if (cond) d.put(k, v) else d

  pure def look(o: Orbit, at: Fx): str -> List[Fx] = {
    pure val p = relPos(o, at)
    pure val v = relVel(o, at)
    pure val fb = div(o.mc, o.mtot)
    pure val fc = -div(o.m, o.mtot)
    Map("relative_position" -> vlist(p), "position" -> vlist(vscale(fb, p)), "central_position" -> vlist(vscale(fc, p)),
        "relative_velocity" -> vlist(v), "velocity" -> vlist(vscale(fb, v)), "central_velocity" -> vlist(vscale(fc, v)),
        "radial_velocity" -> List(-mul(fc, v._3)))
  }

  action hold: bool = all { centrals' = centrals, systems' = systems }
  action quietMap: bool = all { func' = "", args' = List(), inAxes' = List(), outAxes' = List(), result' = List() }

  action create: bool = {
    nondet cm = 300.to(3000).oneOf()
    nondet cr = 300.to(2000).oneOf()
    nondet dflt = 0.to(3).oneOf()
    all {
      act' = "create",
      centrals' = centrals.append(if (dflt == 0) Map() else Map("mass" -> cm * G10, "radius" -> cr * G10)),
      systems' = systems.append(List()),
      who' = systems.length(), from' = -1, t' = 0, seen' = List(), quietMap
    }
  }

  /// kinds: 0 every body alike (all with mass), 1 alike (no mass), 2 anything
  action add: bool = {
    nondet s = 0.to(systems.length() - 1).oneOf()
    nondet w = 2.to(30).oneOf()
    nondet style = 0.to(2).oneOf()
    nondet flags = 0.to(63).oneOf()
    nondet em = 10.to(900).oneOf()
    nondet wm = (-3000).to(3000).oneOf()
    nondet im = 700.to(1600).oneOf()
    nondet bm = 0.to(1000).oneOf()
    nondet nm = (-3000).to(3000).oneOf()
    nondet mm = 1.to(1000).oneOf()
    nondet tm = (-5000).to(5000).oneOf()
    nondet own = 0.to(3).oneOf()
    nondet om = 300.to(3000).oneOf()
    // a system tends to continue the style of its first body, so that both
    // homogeneous and mixed systems are common
    val first = if (systems[s].length() > 0) systems[s][0].d.keys() else Set("none")
    val f = if (style == 0) 8 + 32 else if (style == 1) 0 else flags
    val like = style == 2 and systems[s].length() > 0 and flags % 2 == 0
    def bit(k: str, i: int): bool = if (like) first.contains(k) else (f / 2^i) % 2 == 1
    val ecc = bit("eccentricity", 0)
    val incl = bit("inclination", 1)
    val node = bit("asc_node", 2)
    val mass = bit("mass", 3)
    val imp = not(incl) and bit("impact_param", 4)
    val tt = bit("time_transit", 5)
    val d0: Desc = Map("period" -> w * SC, "radius" -> (w + 1) * (SC / 2^8))
    val d = puts(puts(puts(puts(puts(puts(puts(d0, ecc, "eccentricity", em * G10), ecc, "omega_peri", wm * G10),
      incl, "inclination", im * G10), node, "asc_node", nm * G10), mass, "mass", mm * G10 / 4),
      imp, "impact_param", bm * G10), tt, "time_transit", tm * G10)
    val c = if (own == 0) Map("mass" -> om * G10, "radius" -> SC / 2) else centrals[s]
    val body = { d: d, own: own == 0, c: c, w: w, orb: orbitOf(c, d) }
    all {
      act' = "add", centrals' = centrals.append(centrals[s]),
      systems' = systems.append(systems[s].append(body)),
      who' = systems.length(), from' = s, t' = 0, seen' = List(), quietMap
    }
  }

  action observe: bool = {
    nondet s = systems.indices().filter(i => systems[i].length() > 0).oneOf()
    nondet tm = (-60000).to(60000).oneOf()
    all {
      act' = "observe", hold, who' = s, from' = -1, t' = tm * G10,
      seen' = systems[s].foldl(List(), (acc, b) => acc.append(look(b.orb, tm * G10))), quietMap
    }
  }

  action mapOver: bool = {
    nondet s = systems.indices().filter(i => systems[i].length() > 0).oneOf()
    nondet name = Set("period", "scale", "pair", "nest", "const").oneOf()
    nondet dims = 0.to(7).setOfMaps(1.to(3)).oneOf()
    nondet rk = 0.to(1).setOfMaps(0.to(2)).oneOf()        // rank of each argument as one body sees it
    nondet split = 0.to(1).setOfMaps(0.to(3)).oneOf()     // 0: not split
    nondet axis = 0.to(4).setOfMaps(0.to(11)).oneOf()
    nondet neg = 0.to(4).setOfMaps(0.to(2)).oneOf()
    nondet salt = 1.to(50).oneOf()
    val n = systems[s].length()
    val ws = systems[s].foldl(List(), (acc, b) => acc.append(b.w))
    // the axis each argument is split along, as counted from the front or from the back
    val ia = range(0, arity(name)).foldl(List(), (acc, j) => acc.append(
      if (split.get(j) == 0 or (name == "const" and j == 1)) NOAXIS
      else { val r = rk.get(j) + 1  val k = axis.get(j) % r  if (neg.get(j) == 0) k - r else k }))
    val xs = range(0, arity(name)).foldl(List(), (acc, j) => acc.append({
      val own = range(0, rk.get(j)).foldl(List(), (q, k) => q.append(dims.get(3 * j + k)))
      val k = norm(ia[j], rk.get(j) + 1)
      val sh = if (ia[j] == NOAXIS) own else own.slice(0, k).append(n).concat(own.slice(k, own.length()))
      { shape: sh, data: range(0, prod(sh)).foldl(List(), (q, i) => q.append((salt * (i + 3) * 7 + i * i + 5 * j) % 23 - 11)) }
    }))
    val leafRank = if (name == "period") List(0) else if (name == "scale") List(rk.get(0))
      else if (name == "nest") List(rk.get(0), rk.get(1), rk.get(0)) else List(rk.get(0), rk.get(1))
    val oa = range(0, leafRank.length()).foldl(List(), (acc, l) => acc.append(
      if (name == "const" and l == 1) NOAXIS
      else { val r = leafRank[l] + 1  val k = axis.get(2 + l) % r  if (neg.get(2 + l) == 0) k - r else k }))
    all {
      act' = "map", hold, who' = s, from' = -1, t' = 0, seen' = List(),
      func' = name, args' = xs, inAxes' = ia, outAxes' = oa, result' = mapped(name, ws, xs, ia, oa)
    }
  }

  action init = all {
    act' = "create", centrals' = List(Map()), systems' = List(List()), who' = 0, from' = -1, t' = 0, seen' = List(), quietMap
  }
  action step =
    if (systems.indices().forall(i => systems[i].length() == 0)) add
    else {
      nondet what = 0.to(9).oneOf()
      if (what < 4 and systems.length() < 14) add
      else if (what == 4 and systems.length() < 14) create
      else if (what < 6) observe
      else mapOver
    }

  // ------------------------------------------------------------------ laws
  /// splitting the stacked result again gives what each body gives alone
  val unstack = act != "map" or range(0, result.length()).indices().forall(l =>
    outAxes[l] == NOAXIS or systems[who].indices().forall(i => {
      val b = systems[who][i]
      val alone = apply(func, b.w, range(0, args.length()).foldl(List(), (q, j) => q.append(slice_(args[j], inAxes[j], i))))
      slice_(result[l], outAxes[l], i) == alone[l]
    }))
  /// one more body than the system it was made from, and otherwise the same bodies
  val grows = act != "add" or and {
    systems[who].length() == systems[from].length() + 1,
    systems[who].slice(0, systems[from].length()) == systems[from],
  }
  val inv = and { unstack, grows }
}
