// -*- mode: Bluespec; -*-
/// P29: objects are made, carried about and asked. Wherever an object is made (directly, inside a compiled, batched
/// or looped function) and however it gets to where it is asked (rebuilt from its leaves, copied, saved and loaded, selected,
/// stacked with another and taken apart again, handed to or closed over by a transformed function), what is seen of it is
/// what its description says.
/// A family is a form of description with three members of different values; a shelf holds objects of the family.
module carrier_mc {
  import kepler as K from "./kepler"
  import transit as T from "./transit"
  import surface.* from "./surface"
  import limbdark as D from "./limbdark"

  type Form = { kind: str, f: int, n: int, L: int, U: int }
  type Member = { cd: str -> Fx, ds: List[str -> Fx], x: List[Fx], u: List[Fx] }
  /// how an object came to be: from a description (src < 0), or from one or two objects, choosing one of them
  type Origin = { how: str, member: int, src: int, other: int, second: bool }

  var act: str
  var form: Form
  var members: List[Member]
  var shelf: List[int]                 // member each object is
  var log: List[Origin]
  var how: str
  var who: int
  var other: int
  var ts: List[Fx]                     // times asked for
  var place: (Fx, Fx)                  // latitude and longitude asked for
  var disc: (Fx, Fx, Fx, Fx)           // an occultor: radius, x, y, z
  var out: List[List[Fx]]              // seen of the object at the first time, then of the other (same time) or at the second time
  var left: int

  pure val G10: Fx = SC / 2^10
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def puts(d: str -> Fx, cond: bool, k: str, v: Fx): str -> Fx = if (cond) d.put(k, v) else d
  pure def bit(f: int, k: int): bool = (f / 2^k) % 2 == 1

  // ------------------------------------------------------------ descriptions
  /// m holds numbers in 1..2000; every member of a family is described by the same words
  pure def centralOf(f: int, m: int -> int): str -> Fx =
    if (f % 4 == 0) Map("mass" -> (500 + m.get(0)) * G10, "radius" -> (500 + m.get(1) / 2) * G10)
    else if (f % 4 == 1) Map("mass" -> (500 + m.get(0)) * G10, "density" -> (100 + m.get(1) / 4) * G10)
    else if (f % 4 == 2) Map("radius" -> (500 + m.get(0) / 2) * G10, "density" -> (100 + m.get(1) / 4) * G10)
    else Map("density" -> (100 + m.get(1) / 4) * G10)
  pure def bodyOf(f: int, k: int, m: int -> int): str -> Fx = {
    pure def g(i: int): int = m.get((i + 7 * k) % 16)
    pure val ecc = bit(f, 2)
    pure val d0: str -> Fx = Map("radius" -> g(2) * (SC / 2^14))
    pure val d1 = if (bit(f, 3)) d0.put("semimajor", (12000 + 10 * g(3)) * G10) else d0.put("period", (3000 + 20 * g(3)) * G10)
    pure val d2 = puts(d1, bit(f, 4), "mass", g(4) * (SC / 2^14))
    pure val d3 = puts(d2, ecc, "eccentricity", g(5) * (SC / 2^12))
    pure val w = sincos((g(6) - 1000) * (SC / 2^8))
    pure val d4 = puts(d3, ecc and not(bit(f, 5)), "omega_peri", (g(6) - 1000) * (SC / 2^8))
    pure val d5 = puts(d4, ecc and bit(f, 5), "sin_omega_peri", toGrid(w._1, SC / 2^52))
    pure val d6 = puts(d5, ecc and bit(f, 5), "cos_omega_peri", toGrid(w._2, SC / 2^52))
    pure val d7 = if (bit(f, 6)) d6.put("inclination", (1500 + g(7) / 16) * G10) else puts(d6, bit(f, 7), "impact_param", (g(7) - 1000) * G10)
    pure val d8 = puts(d7, bit(f, 8), "asc_node", (g(8) - 1000) * (SC / 2^8))
    pure val d9 = if (bit(f, 9)) puts(d8, true, if (bit(f, 10)) "time_transit" else "time_peri", (g(9) - 1000) * (SC / 2^5)) else d8
    puts(d9, f % 5 == 2, "parallax", (1 + g(10)) * (SC / 2^16))
  }
  pure def planetOf(f: int, k: int, m: int -> int): str -> Fx = {
    pure def g(i: int): int = m.get((i + 5 * k) % 16)
    pure val d = Map("period" -> (3000 + 20 * g(3)) * G10, "time_transit" -> (g(9) - 1000) * (SC / 2^5),
      "impact_param" -> (g(7) - 1000) * G10, "radius_ratio" -> (1 + g(2)) * (SC / 2^13))
    if (bit(f, 2)) d.put("duration", (200 + g(5)) * (SC / 2^12)) else d.put("speed", (2000 + 5 * g(5)) * (SC / 2^9))
  }
  pure def timedOf(f: int, k: int, m: int -> int): str -> Fx = {
    pure def g(i: int): int = m.get((i + 5 * k) % 16)
    pure val d0 = Map("impact_param" -> (g(7) - 1000) * G10, "radius_ratio" -> (1 + g(2)) * (SC / 2^13))
    pure val d1 = if (bit(f, 2)) d0.put("duration", (200 + g(5)) * (SC / 2^12)) else d0.put("speed", (2000 + 5 * g(5)) * (SC / 2^9))
    if (bit(f, 3)) {
      pure val t0 = (g(9) - 1000) * (SC / 2^5)
      pure val p = (6000 + 20 * g(3)) * G10
      d1.put("tt0", t0 + g(10) * (SC / 2^11)).put("tt1", t0 + p + g(11) * (SC / 2^11)).put("tt2", t0 + 2 * p + g(12) * (SC / 2^11))
    } else d1.put("period", (6000 + 20 * g(3)) * G10).put("time_transit", (g(9) - 1000) * (SC / 2^5))
        .put("v0", (g(10) - 1000) * (SC / 2^11)).put("v1", (g(11) - 1000) * (SC / 2^11)).put("v2", (g(12) - 1000) * (SC / 2^11))
  }
  pure def surfaceOf(f: int, m: int -> int): str -> Fx = {
    pure val d0: str -> Fx = Map("radius" -> (500 + m.get(0)) * G10)
    pure val d1 = puts(d0, bit(f, 2), "inc", m.get(1) * (SC / 2^9))
    pure val d2 = puts(d1, bit(f, 3), "obl", (m.get(2) - 1000) * (SC / 2^8))
    pure val d3 = puts(d2, bit(f, 4), "amplitude", (100 + m.get(3)) * G10)
    pure val d4 = puts(d3, bit(f, 5), "period", (500 + m.get(4)) * G10)
    puts(d4, bit(f, 5) and bit(f, 6), "phase", (m.get(5) - 1000) * (SC / 2^8))
  }
  pure def coefs(L: int, m: int -> int): List[Fx] = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) =>
    acc.append(if (i == 0) (1000 + m.get(0)) * G10 else (m.get(i % 16) - 1000) * (SC / 2^12)))
  pure def law(U: int, m: int -> int): List[Fx] = range(0, U).foldl(List(), (acc, i) => acc.append((m.get(12 + i) - 300) * (SC / 2^13)))
  pure def memberOf(q: Form, m: int -> int): Member = {
    pure val k = q.kind
    { cd: if (k == "central" or k == "orbit" or k == "pair" or k == "system") centralOf(q.f, m) else Map(),
      ds: if (k == "orbit" or k == "system") List(bodyOf(q.f, 0, m), surfaceOf(q.f / 8, m))
        else if (k == "pair") List(bodyOf(q.f, 0, m), bodyOf(if (q.n == 1) q.f else q.f + 5, 1, m))
        else if (k == "transit") range(0, q.n).foldl(List(), (acc, i) => acc.append(planetOf(q.f, i, m)))
        else if (k == "timing") range(0, q.n).foldl(List(), (acc, i) => acc.append(timedOf(q.f, i, m)))
        else if (k == "surface") List(surfaceOf(q.f, m))
        else List(),
      x: if (k == "map" or k == "surface" or k == "system") coefs(q.L, m) else List(),
      u: law(q.U, m) }
  }

  // ------------------------------------------------------------ what is seen
  pure def lookBody(cd: str -> Fx, d: str -> Fx, u: List[Fx], t: Fx): List[Fx] = {
    pure val o = K::orbitOf(cd, d)
    pure val p = K::relPos(o, t)
    pure val v = K::relVel(o, t)
    pure val rc = K::centralRadius(cd)
    pure val light = if (p._3 <= 0) 0 else D::dimming(u, div(sqrt(sq(p._1) + sq(p._2)), rc), div(d.get("radius"), rc))
    List(p._1, p._2, p._3, mul(div(o.m, o.mtot), v._3), light)
  }
  pure def lookPlanet(d: str -> Fx, u: List[Fx], t: Fx): List[Fx] = {
    pure val s = if (d.keys().contains("duration")) T::byDuration(SC, d.get("duration"), d.get("impact_param"), d.get("radius_ratio"))
      else T::bySpeed(SC, d.get("speed"), d.get("impact_param"), d.get("radius_ratio"))
    pure val tt = timesOf(d)
    pure val dt = if (tt.length() == 0) T::sinceTransit(t, d.get("time_transit"), d.get("period")) 
      else T::sinceTransit(t, tt[T::nearest(tt, t)], if (d.keys().contains("period")) d.get("period") else T::linearFit(List(0, 1, 2), tt)._2)
    pure val w = T::seenAt(s, dt)
    List(w.x, w.y, if (w.front) D::dimming(u, sqrt(sq(w.x) + sq(w.y)), d.get("radius_ratio")) else 0)
  }
  pure def timesOf(d: str -> Fx): List[Fx] =
    if (d.keys().contains("tt0")) List(d.get("tt0"), d.get("tt1"), d.get("tt2"))
    else if (d.keys().contains("v0"))
      T::timesFromVariations(d.get("time_transit"), d.get("period"), List(0, 1, 2), List(d.get("v0"), d.get("v1"), d.get("v2")))
    else List()
  pure def surfaceDisc(m: Member, d: str -> Fx, L: int, u: List[Fx], t: Fx): Disc = {
    pure val theta = if (d.keys().contains("period")) mul(TWOPI, div(t, d.get("period"))) + K::getOr(d, "phase", 0) else 0
    { L: L, c: if (L == 0) m.x else turned(m.x, L, toMap(K::getOr(d, "inc", 0), K::getOr(d, "obl", 0), theta)),
      u: u, amp: K::getOr(d, "amplitude", SC), vx: 0, vy: 0 }
  }
  /// intensity where the point is seen, at rotation zero
  pure def intensityOf(m: Member, d: str -> Fx, L: int, u: List[Fx], p: (Fx, Fx)): List[Fx] = {
    pure val s = apply(toSky(K::getOr(d, "inc", 0), K::getOr(d, "obl", 0), 0), mapPoint(p._1, p._2))
    if (s._3 < SC / 2^5) List()
    else List(mul(K::getOr(d, "amplitude", SC), intensityAt(m.x, L, u, toMap(K::getOr(d, "inc", 0), K::getOr(d, "obl", 0), 0), s)))
  }
  pure def seenOf(q: Form, m: Member, t: Fx, p: (Fx, Fx), o: (Fx, Fx, Fx, Fx)): List[Fx] =
    if (q.kind == "central") List(K::centralMass(m.cd), K::centralRadius(m.cd), K::centralDensity(m.cd))
    else if (q.kind == "orbit") {
      pure val b = K::orbitOf(m.cd, m.ds[0])
      lookBody(m.cd, m.ds[0], m.u, t).concat(List(b.period, b.a, b.mtot))
    }
    else if (q.kind == "pair") lookBody(m.cd, m.ds[0], m.u, t).concat(lookBody(m.cd, m.ds[1], m.u, t))
    else if (q.kind == "transit" or q.kind == "timing") m.ds.foldl(List(), (acc, d) => acc.concat(lookPlanet(d, m.u, t)))
    else if (q.kind == "map") {
      pure val f = sparsify(m.x)
      pure val v = product(f, f)
      m.x.concat(range(0, m.x.length()).foldl(List(), (acc, i) => acc.append(div(m.x[i], m.x[0]))))
        .concat(range(0, v.length()).foldl(List(), (acc, i) => acc.append(div(v[i], v[0]))))
    }
    else if (q.kind == "surface")
      List(flux(surfaceDisc(m, m.ds[0], q.L, m.u, t), true, (o._2, o._3, o._4), o._1),
        flux(surfaceDisc(m, m.ds[0], q.L, m.u, t), false, (0, 0, 0), 0)).concat(intensityOf(m, m.ds[0], q.L, m.u, p))
    else {
      // the star's surface is the map; the body's is uniform, limb-darkened like the star
      pure val b = K::orbitOf(m.cd, m.ds[0])
      pure val w = K::relPos(b, t)
      pure val rc = K::centralRadius(m.cd)
      pure val r = m.ds[0].get("radius")
      List(flux(surfaceDisc(m, m.ds[1], q.L, m.u, t), true, (div(w._1, rc), div(w._2, rc), w._3), div(r, rc)),
        flux({ L: 0, c: List(SC), u: m.u, amp: m.x[0], vx: 0, vy: 0 }, true, (-div(w._1, r), -div(w._2, r), -w._3), div(rc, r)))
    }

  /// an interesting time for a member: dt in units of a crossing, around a conjunction
  pure def timeFor(q: Form, m: Member, n: int, k: int): Fx =
    if (q.kind == "orbit" or q.kind == "pair" or q.kind == "system") {
      pure val o = K::orbitOf(m.cd, m.ds[0])
      pure val half = div(mul(K::centralRadius(m.cd), o.period), mul(TWOPI, o.a))
      toGrid(o.tTransit + (n - 1) * o.period + (k * half) / 700 + (if (k % 5 == 0) o.period / 2 else 0), SC / 2^36)
    }
    else if (q.kind == "transit") {
      pure val d = m.ds[n % m.ds.length()]
      toGrid(d.get("time_transit") + (n - 1) * d.get("period") + k * (SC / 2^13), SC / 2^36)
    }
    else if (q.kind == "timing") toGrid(timesOf(m.ds[n % m.ds.length()])[n] + k * (SC / 2^13), SC / 2^36)
    else (n * 700 + k) * (SC / 2^9)

  // ------------------------------------------------------------ steps
  action keep: bool = all { form' = form, members' = members }
  action still: bool = all { ts' = List(), place' = (0, 0), disc' = (0, 0, 0, 0), out' = List() }

  pure def sizes(kind: str): int = if (kind == "pair" or kind == "transit" or kind == "timing") 2 else 1
  action startWith(kinds: Set[str]): bool = {
    nondet kind = kinds.oneOf()
    nondet f = 0.to(2047).oneOf()
    nondet n = 1.to(2).oneOf()
    nondet L = 0.to(2).oneOf()
    nondet U = 0.to(2).oneOf()
    nondet m0 = 0.to(15).setOfMaps(1.to(2000)).oneOf()
    nondet m1 = 0.to(15).setOfMaps(1.to(2000)).oneOf()
    nondet m2 = 0.to(15).setOfMaps(1.to(2000)).oneOf()
    val q = { kind: kind, f: f, n: if (sizes(kind) == 1) 1 else n, L: if (kind == "map") imax(1, L) else if (kind == "system") imin(L, 1) else L,
              U: if (kind == "central" or kind == "map") 0 else U }
    all {
      act' = "start", form' = q, members' = List(memberOf(q, m0), memberOf(q, m1), memberOf(q, m2)),
      shelf' = List(), log' = List(), how' = "", who' = 0, other' = 0, still, left' = 14
    }
  }
  action make: bool = {
    nondet h = Set("direct", "compiled", "batched", "mapped").oneOf()
    nondet i = 0.to(2).oneOf()
    all { act' = "make", how' = h, keep, shelf' = shelf.append(i), log' = log.append({ how: h, member: i, src: -1, other: -1, second: false }),
          who' = shelf.length(), other' = 0, still, left' = left - 1 }
  }
  action carry: bool = {
    nondet h = Set("rebuild", "copy", "identity", "numpy", "saved", "stack", "select", "branch", "scan").oneOf()
    nondet a = shelf.indices().oneOf()
    nondet b = shelf.indices().oneOf()
    nondet second = Set(true, false).oneOf()
    val pair = Set("stack", "select", "branch", "scan").contains(h)
    val got = if (pair and second) shelf[b] else shelf[a]
    all { act' = "carry", how' = h, keep, shelf' = shelf.append(got), log' = log.append({ how: h, member: -1, src: a, other: b, second: pair and second }),
          who' = shelf.length(), other' = 0, still, left' = left - 1 }
  }
  action ask: bool = {
    nondet h = Set("direct", "argument", "closure", "batch", "times", "forward", "reverse").oneOf()
    nondet a = shelf.indices().oneOf()
    nondet b = shelf.indices().oneOf()
    nondet n = 0.to(2).oneOf()
    nondet k = (-700).to(700).oneOf()
    nondet k2 = (-700).to(700).oneOf()
    nondet lat = (-1500).to(1500).oneOf()
    nondet lon = (-3000).to(3000).oneOf()
    nondet d = 0.to(3).setOfMaps(1.to(2000)).oneOf()
    val t1 = timeFor(form, members[shelf[a]], n, k)
    val t2 = timeFor(form, members[shelf[a]], n, k2)
    val p = (lat * G10, lon * G10)
    val o = ((20 + d.get(0)) * (SC / 2^12), (d.get(1) - 1000) * G10, (d.get(2) - 1000) * G10, (d.get(3) - 500) * G10)
    all {
      act' = "ask", how' = h, keep, shelf' = shelf, log' = log, who' = a, other' = b, ts' = List(t1, t2), place' = p, disc' = o,
      out' = List(seenOf(form, members[shelf[a]], t1, p, o),
        if (h == "times") seenOf(form, members[shelf[a]], t2, p, o) else seenOf(form, members[shelf[b]], t1, p, o)),
      left' = left - 1
    }
  }
  pure val LIGHT = Set("central", "orbit", "pair", "transit", "timing", "map")
  action init = all { act' = "init", form' = { kind: "central", f: 0, n: 1, L: 0, U: 0 }, members' = List(), shelf' = List(), log' = List(),
                      how' = "", who' = 0, other' = 0, still, left' = 0 }
  action stepOf(kinds: Set[str]): bool =
    if (left <= 0) startWith(kinds)
    else if (left >= 13) make
    else if (act == "ask") { nondet c = 0.to(3).oneOf()  if (c == 0) make else carry }
    else { nondet c = 0.to(2).oneOf()  if (c == 0) carry else ask }
  action step = stepOf(LIGHT)
  action stepSurfaces = stepOf(Set("surface", "system", "surface"))

  // ------------------------------------------------------------ laws
  /// an object is the member its history leads back to
  val lineage = shelf.length() == log.length() and
    log.foldl(List(), (acc, g) => acc.append(if (g.src < 0) g.member else acc[if (g.second) g.other else g.src])) == shelf
  /// equal objects look equal; being carried changed nothing
  val same = act != "ask" or how == "times" or shelf[who] != shelf[other] or out[0] == out[1]
  /// all members of a family are described by the same words
  val alike = range(0, members.length()).foldl(true, (ok, i) => ok and members[i].cd.keys() == members[0].cd.keys()
    and range(0, members[i].ds.length()).foldl(true, (k, j) => k and members[i].ds[j].keys() == members[0].ds[j].keys()))
  /// light is lost, never gained, by discs that shine everywhere
  val dims = act != "ask" or not(Set("pair", "orbit").contains(form.kind)) or out[0][4] <= SC / 2^60
  val inv = and { lineage, same, alike, dims }
}
