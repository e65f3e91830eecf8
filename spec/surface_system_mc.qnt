// -*- mode: Bluespec; -*-
/// P22, and the systems of P23: bodies with and without surfaces are added one after another to a system
/// with a surface of its own; any system ever made can be looked at again. Positions are those of
/// Keplerian orbits; the light is that of surface.qnt.
module surface_system_mc {
  import kepler as K from "./kepler"
  import surface.* from "./surface"
  import limbdark as D from "./limbdark"

  /// a surface; kind says which of its fields the caller writes (0: no surface at all)
  type Surf = { kind: int, L: int, y: List[Fx], inc: Fx, obl: Fx, u: List[Fx], amp: Fx, normalize: bool,
                rotates: bool, period: Fx, phase: Fx, radius: Fx }
  type Body = { d: str -> Fx, o: K::Orbit, r: Fx, how: str, carried: Surf, passed: Surf }
  type Seen = { x: Fx, y: Fx, z: Fx, sep: Fx, speed: Fx, vz: Fx }

  var act: str
  var cdesc: str -> Fx
  var csurf: Surf
  var bodies: List[Body]
  var made: int                      // how many of them were given to the constructor
  var upto: int                      // the system looked at: the first so many bodies
  var t: Fx
  var seen: List[Seen]
  var fluxes: List[Fx]               // central, then bodies
  var speeds: List[Fx]
  var lights: List[Fx]               // light left of each, to judge the velocities
  var summed: Fx                     // the central's velocity if the anomalies of several occultors were simply added up
  var left: int

  pure val G10: Fx = SC / 2^10
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def puts(d: str -> Fx, cond: bool, k: str, v: Fx): str -> Fx = if (cond) d.put(k, v) else d

  pure val NOSURF: Surf = { kind: 0, L: 0, y: List(SC), inc: 0, obl: 0, u: List(), amp: SC, normalize: false,
                            rotates: false, period: SC, phase: 0, radius: SC }
  /// kinds: 0 none, 1 uniform, 2 limb-darkened and not rotating, 3 degree 1 seen from the pole side,
  /// 4 degree 2 limb-darkened, 5 degree 3
  pure def surfOf(kind: int, m: int -> int): Surf = if (kind == 0) NOSURF else {
    pure val L = if (kind <= 2) 0 else kind - 2
    pure val U = if (kind == 2) 2 else if (kind == 4) 1 else 0
    pure val c0 = 1 + (m.get(1) + 2000) / 64
    { kind: kind, L: L,
      y: range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) => acc.append(
        if (i == 0) c0 * (SC / 2^4) else ((m.get(i % 16) * (i + 3)) % 61) * c0 * (SC / 2^10))),
      inc: if (kind == 2) HALFPI else if (kind == 1) 0 else m.get(2) * G10, obl: if (kind <= 3) 0 else m.get(3) * G10,
      u: range(0, U).foldl(List(), (acc, i) => acc.append(m.get(4 + i) * (SC / 2^13))),
      amp: (1 + (m.get(6) + 2000) / 16) * (SC / 2^6), normalize: m.get(7) > 0,
      rotates: kind != 2, period: (2100 + m.get(8)) * (SC / 2^9), phase: if (kind == 2) 0 else m.get(9) * G10,
      radius: (2100 + m.get(10)) * (SC / 2^11) }
  }
  /// which surface a body shines with: the one passed along with it, else the one it carries
  pure def shining(b: Body): Surf = if (b.passed.kind > 0) b.passed else if (b.how == "carrying") b.carried else NOSURF

  pure def bodyOf(cd: str -> Fx, kind: int, m: int -> int, how: str, carried: Surf, passed: Surf): Body = {
    pure val rc = K::centralRadius(cd)
    pure val d1 = Map("period" -> (600 + 30 * m.get(1)) * G10, "mass" -> m.get(4) * (SC / 2^14))
    pure val d2 = puts(d1, kind % 2 == 1, "eccentricity", toGrid((m.get(2) * SC) / 2600, SC / 2^30))
    pure val d3 = puts(d2, kind % 2 == 1, "omega_peri", (m.get(3) - 1000) * (SC / 2^8))
    pure val d4 = puts(d3, (kind / 4) % 2 == 1, "asc_node", (m.get(5) - 1000) * (SC / 2^8))
    pure val bTry = (m.get(6) - 1000) * (SC * 5 / 2^12)
    pure val d5 = puts(d4, iabs(K::orbitOf(cd, d4.put("impact_param", bTry)).ci) <= SC, "impact_param", bTry)
    pure val d6 = puts(d5, m.get(8) > 200, "time_transit", (m.get(8) - 1000) * (SC / 2^5))
    // a parallax turns positions asked for into angles; light and motion of surfaces know nothing of it
    pure val d7 = puts(d6, m.get(3) % 4 == 0, "parallax", m.get(1) * (SC / 2^16))
    pure val r = imax(SC / 2^16, toGrid((rc * (200 + m.get(7)) * m.get(7)) / (2000 * 1500), SC / 2^20))
    { d: d7, o: K::orbitOf(cd, d7), r: r, how: how, carried: carried, passed: passed }
  }

  // ------------------------------------------------------------ steps
  action nothingSeen: bool = all { t' = 0, seen' = List(), fluxes' = List(), speeds' = List(), lights' = List(), summed' = 0 }
  action begin: bool = {
    nondet ck = 0.to(3).oneOf()
    nondet cm = 300.to(2500).oneOf()
    nondet cr = 300.to(2500).oneOf()
    nondet sk = Set(0, 1, 2, 3, 4, 4, 5).oneOf()
    nondet m = 0.to(15).setOfMaps((-2000).to(2000)).oneOf()
    nondet m0 = Set(0, 0, 1).oneOf()
    val cd: str -> Fx = if (ck == 0) Map() else if (ck == 1) Map("mass" -> cm * G10, "radius" -> cr * G10)
      else if (ck == 2) Map("mass" -> cm * G10, "density" -> cr * G10) else Map("radius" -> cr * G10, "density" -> cm * G10)
    all { act' = "begin", cdesc' = cd, csurf' = surfOf(sk, m), bodies' = List(), made' = 0, upto' = 0, nothingSeen, left' = 3 }
  }
  /// one more body; the first ones may be handed to the constructor
  action add: bool = {
    nondet kind = 0.to(7).oneOf()
    nondet m = 1.to(8).setOfMaps(1.to(2000)).oneOf()
    nondet how = Set("plain", "carrying", "orbital", "fields").oneOf()
    nondet ck = 0.to(5).oneOf()
    nondet pk = Set(0, 1, 2, 3, 4, 5, 6, 7).oneOf()
    nondet alike = Set(true, false).oneOf()
    nondet ms = 0.to(15).setOfMaps((-2000).to(2000)).oneOf()
    nondet early = Set(true, false).oneOf()
    // half of the time surfaces of the same kind, described alike
    val kk = if (alike and bodies.length() > 0) shining(bodies[0]).kind else if (pk > 5) 0 else pk
    val carried = if (how == "carrying") surfOf(if (kk == 0) ck else if (ck % 2 == 0) 0 else ck, ms) else NOSURF
    val b = bodyOf(cdesc, if (alike and bodies.length() > 0) 5 else kind, m, how, carried, surfOf(kk, ms))
    all { act' = "add", bodies' = bodies.append(b), cdesc' = cdesc, csurf' = csurf,
          made' = if (early and made == bodies.length()) made + 1 else made, upto' = bodies.length() + 1, nothingSeen, left' = 9 }
  }
  pure def seenOf(rc: Fx, x: Body, at: Fx): Seen = {
    pure val p = K::relPos(x.o, at)
    pure val v = K::relVel(x.o, at)
    { x: p._1, y: p._2, z: p._3, sep: sqrt(sq(p._1) + sq(p._2)), speed: K::vnorm(v), vz: v._3 }
  }
  action look(again: bool): bool = {
    nondet which = 0.to(imax(0, bodies.length() - 1)).oneOf()
    nondet n = (-20).to(20).oneOf()
    nondet m = (-1000).to(1000).oneOf()
    nondet how = 0.to(7).oneOf()
    val tt = if (bodies.length() == 0) n * SC + m * G10 else {
      val x = bodies[which]
      val half = div(mul(K::centralRadius(cdesc) + x.r, x.o.period), mul(TWOPI, x.o.a))
      val front = x.o.tTransit + n * x.o.period
      val back = front + x.o.period / 2 + mul(div(x.o.period, PI), 2 * mul(x.o.e, x.o.cw))
      toGrid(if (how <= 2) front + (m * half) / 800
        else if (how <= 5) back + (m * half) / 800
        else if (how == 6) front + (m * x.o.period) / 1000
        else front, SC / 2^36)
    }
    all { act' = "look", t' = tt, cdesc' = cdesc, csurf' = csurf, bodies' = bodies, made' = made,
          upto' = if (again) made else bodies.length(), left' = left - 1, fluxes' = List(), speeds' = List(), lights' = List(), summed' = 0,
          seen' = range(0, bodies.length()).foldl(List(), (acc, i) => acc.append(seenOf(K::centralRadius(cdesc), bodies[i], tt))) }
  }
  /// a surface at a time, ready to be measured
  pure def discAt(s: Surf, at: Fx): Disc = {
    pure val theta = if (s.rotates) mul(TWOPI, div(at, s.period)) + s.phase else 0
    pure val v = if (s.rotates) div(mul(TWOPI, s.radius), s.period) else 0
    pure val si = mul(v, sin(s.inc))
    pure val o = sincos(s.obl)
    { L: s.L, c: if (s.L == 0) s.y else turned(s.y, s.L, toMap(s.inc, s.obl, theta)), u: s.u,
      amp: if (s.normalize) SC else s.amp, vx: mul(si, o._2), vy: mul(si, o._1) }
  }
  pure def still(d: Disc): Disc = { ...d, vx: 0, vy: 0 }
  /// every occultor in front takes its share
  action measure(moving: bool): bool = {
    val rc = K::centralRadius(cdesc)
    val cd = discAt(csurf, t)
    val whole = seenLight(if (moving) cd else still(cd), false, (0, 0, SC), SC)
    val taken = range(0, upto).foldl((0, 0), (a, i) => {
      val k = seenLight(if (moving) cd else still(cd), true, (div(seen[i].x, rc), div(seen[i].y, rc), seen[i].z), div(bodies[i].r, rc))
      (a._1 + whole._1 - k._1, a._2 + whole._2 - k._2)
    })
    val apart = if (not(moving)) 0 else {
      val v0 = div(whole._2, whole._1)
      range(0, upto).foldl(v0, (a, i) => {
        val k = seenLight(cd, true, (div(seen[i].x, rc), div(seen[i].y, rc), seen[i].z), div(bodies[i].r, rc))
        if (iabs(k._1) < SC / 2^40) a else a + div(k._2, k._1) - v0
      })
    }
    val pull = range(0, upto).foldl(0, (a, i) => a + mul(div(bodies[i].o.m, bodies[i].o.mtot), seen[i].vz))
    val centralLight = whole._1 - taken._1
    val rest = range(0, upto).foldl(List(), (acc, i) => {
      val s = shining(bodies[i])
      val d = discAt(s, t)
      acc.append(if (s.kind == 0) (0, 0) else {
        val k = seenLight(if (moving) d else still(d), true, (-div(seen[i].x, bodies[i].r), -div(seen[i].y, bodies[i].r), -seen[i].z),
          div(rc, bodies[i].r))
        (mul(d.amp, div(k._1, D::discFlux(d.u))), if (iabs(k._1) < SC / 2^40) 0 else div(k._2, k._1))
      })
    })
    all {
      summed' = pull + apart,
      act' = "measure", t' = t, seen' = seen, cdesc' = cdesc, csurf' = csurf, bodies' = bodies, made' = made, upto' = upto, left' = left - 1,
      fluxes' = range(0, upto).foldl(List(mul(cd.amp, div(centralLight, D::discFlux(cd.u)))), (acc, i) => acc.append(rest[i]._1)),
      lights' = range(0, upto).foldl(List(centralLight), (acc, i) => acc.append(rest[i]._1)),
      speeds' = if (not(moving)) List() else range(0, upto).foldl(
        List(pull + (if (iabs(centralLight) < SC / 2^40) 0 else div(whole._2 - taken._2, centralLight))), (acc, i) => acc.append(rest[i]._2))
    }
  }
  action init = all { act' = "init", cdesc' = Map(), csurf' = NOSURF, bodies' = List(), made' = 0, upto' = 0, nothingSeen, left' = 0 }
  /// two bodies that pass in front of a rotating star at the same time
  action begin2: bool = {
    val m = 0.to(15).mapBy(i => 300 + 70 * i)
    val mb = 1.to(8).mapBy(i => 1000 + 10 * i)
    val cd: str -> Fx = Map("mass" -> SC, "radius" -> SC)
    val b = bodyOf(cd, 0, mb.put(1, 100).put(6, 1250).put(8, 100), "plain", NOSURF, NOSURF)
    val c = bodyOf(cd, 0, mb.put(1, 200).put(6, 850).put(8, 100), "plain", NOSURF, NOSURF)
    all { act' = "begin", cdesc' = cd, csurf' = surfOf(4, m), bodies' = List(b, c), made' = 2, upto' = 2, nothingSeen, left' = 3 }
  }
  action look2: bool = all {
    act' = "look", t' = SC / 2^6, cdesc' = cdesc, csurf' = csurf, bodies' = bodies, made' = made, upto' = 2, left' = left - 1,
    fluxes' = List(), speeds' = List(), lights' = List(), summed' = 0,
    seen' = range(0, 2).foldl(List(), (acc, i) => acc.append(seenOf(K::centralRadius(cdesc), bodies[i], SC / 2^6)))
  }
  action stepTwo = if (act == "init") begin2 else if (act == "begin") look2 else measure(true)
  action stepWith(moving: bool, most: int): bool =
    if (act == "init") begin
    else if (act == "look") measure(moving)
    // the systems that were made before are still what they were
    else if (left > 1) look(left <= 3 and made < bodies.length())
    else if (bodies.length() < most) add
    else begin
  action step = stepWith(false, 3)
  action stepMoving = stepWith(true, 2)

  // ------------------------------------------------------------ laws
  /// as many entries as there are surfaces to look at; a body without surface gives no light
  val entries = act != "measure" or fluxes.length() == upto + 1
  val darkBodies = act != "measure" or range(0, upto).foldl(true, (a, i) => a and (shining(bodies[i]).kind > 0 or fluxes[i + 1] == 0))
  /// nothing in front of the star: it shows all its light; nothing hides a body but the star in front of it
  val alone = act != "measure" or moved(speeds) or range(0, upto).foldl(true, (a, i) => a and (seen[i].z <= 0)) == false or
    near(fluxes[0], flux(still(discAt(csurf, t)), false, (0, 0, SC), SC), SC / 2^60)
  pure def moved(s: List[Fx]): bool = s.length() > 0
  val uneclipsed = act != "measure" or range(0, upto).foldl(true, (a, i) => a and (
    seen[i].z < 0 or shining(bodies[i]).kind == 0 or
    near(fluxes[i + 1], flux(still(discAt(shining(bodies[i]), t)), false, (0, 0, SC), SC), SC / 2^60)))
  /// the constructor's bodies come first
  val firsts = made <= bodies.length()
  /// adding up is right as long as no two bodies are in front of the star at once
  val oneAtATime = act != "measure" or speeds.length() == 0 or
    range(0, upto).foldl(0, (a, i) => if (seen[i].z > 0 and seen[i].sep < K::centralRadius(cdesc) + bodies[i].r) a + 1 else a) > 1 or
    iabs(lights[0]) < SC / 2^20 or near(speeds[0], summed, SC / 2^40)
  val inv = and { oneAtATime, entries, darkBodies, alone, uneclipsed, firsts }
}
