// -*- mode: Bluespec; -*-
/// P08 (stepTransit), P09 (stepTtv) and P10 (stepWindow).
module transit_mc {
  import transit.* from "./transit"

  type Planet = {
    shape: Shape, how: str,          // given by "duration" or "speed"
    t0: Fx,                          // reference time (linear ephemeris)
    lin: Fx,                         // linear period
    tt: List[Fx], k: List[int],      // transit times and numbers (timing variations only)
    v: List[Fx]                      // variations as given
  }
  var act: str
  var kind: str                      // "transit", "times", "variations", "window"
  var opt: str -> Fx                 // switches of the description
  var planets: List[Planet]
  var t: Fx
  var seen: List[{ x: Fx, y: Fx, front: bool, dt: Fx, margin: Fx }]
  var window: (Fx, Fx)
  var expected: List[List[Fx]]
  var left: int

  pure val G10: Fx = SC / 2^10
  pure val G16: Fx = SC / 2^16
  pure def toGrid(x: Fx, g: Fx): Fx = fdivi(x + g / 2, g) * g

  pure def observe1(kd: str, p: Planet, at: Fx): { x: Fx, y: Fx, front: bool, dt: Fx, margin: Fx } =
    if (kd == "transit") {
      pure val dt = sinceTransit(at, p.t0, p.shape.period)
      pure val s = seenAt(p.shape, dt)
      { x: s.x, y: s.y, front: s.front, dt: dt, margin: margin(p.shape, dt) }
    } else {
      pure val i = nearest(p.tt, at)
      pure val dt = sinceTransit(at, p.tt[i], p.shape.period)
      pure val s = seenAt(p.shape, dt)
      { x: s.x, y: s.y, front: s.front, dt: dt,
        margin: imin(margin(p.shape, dt), nearMargin(p.tt, at)) }
    }
  pure def observeAll(kd: str, ps: List[Planet], at: Fx): List[{ x: Fx, y: Fx, front: bool, dt: Fx, margin: Fx }] =
    lmap2(ps, p => observe1(kd, p, at))

  pure def shapeOf(how: str, period: Fx, w: Fx, b: Fx, ror: Fx): Shape =
    // w: duration as a fraction of the period, or the speed such a planet would have
    if (how == "duration") byDuration(period, toGrid(mul(period, w), SC / 2^30), b, ror)
    else bySpeed(period, imax(toGrid(div(2 * SC, mul(period, w)), SC / 2^20), SC / 2^20), b, ror)

  action keep: bool = all { kind' = kind, opt' = opt, planets' = planets, window' = window, expected' = expected }

  action putPlanets(kd: str, o: str -> Fx, ps: List[Planet]): bool = all {
    act' = "describe", kind' = kd, opt' = o, planets' = ps, t' = 0, seen' = List(),
    window' = (0, 0), expected' = List()
  }

  // -------------------------------------------------------------- transit orbits
  action describeTransit: bool = {
    nondet n = 1.to(3).oneOf()
    nondet how = Set("duration", "speed").oneOf()
    nondet pm = 1.to(3).setOfMaps(300.to(20000)).oneOf()
    nondet wm = 1.to(3).setOfMaps(5.to(400)).oneOf()
    nondet bm = 1.to(3).setOfMaps((-1500).to(1500)).oneOf()
    nondet rm = 1.to(3).setOfMaps(0.to(600)).oneOf()
    nondet tm = 1.to(3).setOfMaps((-30000).to(30000)).oneOf()
    nondet omit = 0.to(15).oneOf()
    nondet shared = 0.to(3).oneOf()
    // omitted: 1 reference time, 2 impact parameter, 4 radius ratio
    val o = Map("n" -> n, "omit" -> omit, "scalar" -> shared)
    val ps = tab2(n, i => {
      val j = if (shared == 0) 1 else i + 1
      {
        shape: shapeOf(how, pm.get(i + 1) * G10, wm.get(j) * G10,
                       if ((omit / 2) % 2 == 1) 0 else bm.get(j) * G10,
                       if ((omit / 4) % 2 == 1) 0 else rm.get(j) * G10),
        how: how, t0: if (omit % 2 == 1) 0 else tm.get(j) * G10,
        lin: pm.get(i + 1) * G10, tt: List(), k: List(), v: List()
      }
    })
    putPlanets("transit", o, ps)
  }

  // -------------------------------------------------------------- timing variations
  action describeTtv: bool = {
    nondet n = 1.to(3).oneOf()
    nondet how = Set("duration", "speed").oneOf()
    nondet kd = Set("times", "variations").oneOf()
    nondet cnt = 1.to(3).setOfMaps(2.to(7)).oneOf()
    nondet pm = 1.to(3).setOfMaps(1500.to(20000)).oneOf()
    nondet wm = 1.to(3).setOfMaps(5.to(150)).oneOf()
    nondet bm = 1.to(3).setOfMaps((-1100).to(1100)).oneOf()
    nondet rm = 1.to(3).setOfMaps(0.to(300)).oneOf()
    nondet tm = 1.to(3).setOfMaps((-30000).to(30000)).oneOf()
    nondet jit = 1.to(24).setOfMaps((-220).to(220)).oneOf()
    nondet gap = 1.to(24).setOfMaps(0.to(5)).oneOf()
    nondet k0 = 1.to(3).setOfMaps((-20).to(40)).oneOf()
    nondet labels = Set(true, false).oneOf()       // transit numbers supplied, with gaps
    nondet pk = 0.to(3).oneOf()                    // shape period: fitted, given, changed by delta_log_period
    nondet dlp = (-400).to(400).oneOf()
    val d = if (kd == "times" and pk == 2) dlp * (SC / 2^14) else 0
    val o = Map("n" -> n, "labels" -> (if (labels) 1 else 0), "pk" -> pk, "dlp" -> d,
                "t0given" -> (if (kd == "variations" and pk == 3) 0 else 1))
    val ps = tab2(n, i => {
      val p0 = pm.get(i + 1) * G10
      val ref = if (kd == "variations" and pk == 3) 0 else tm.get(i + 1) * G10
      // transit numbers: consecutive from 0 unless labelled
      val ks = range(1, cnt.get(i + 1)).foldl(List(if (labels) k0.get(i + 1) else 0), (acc, j) => {
        val prev = acc[acc.length() - 1]
        acc.append(prev + 1 + (if (labels and gap.get(8 * i + j) == 0) 1
                               else if (labels and gap.get(8 * i + j) == 1) 3 else 0))
      })
      val vg = tab(ks.length(), j => toGrid(mul(p0, jit.get(8 * i + j + 1) * G10), SC / 2^24))
      // observed times: numbered from the reference, whatever labels say
      val obs = tab3(ks.length(), j => ref + (ks[j] - ks[0]) * p0 + vg[j])
      if (kd == "times") {
        val f = linearFit(ks, obs)
        val period =
          if (pk == 1) toGrid(mul(p0, SC + dlp * (SC / 2^13)), G16)
          else mul(f._2, exp(d))
        { shape: shapeOf(how, period, wm.get(i + 1) * G10, bm.get(i + 1) * G10, rm.get(i + 1) * G10),
          how: how, t0: f._1, lin: f._2, tt: obs, k: ks, v: residuals(ks, obs) }
      } else {
        { shape: shapeOf(how, p0, wm.get(i + 1) * G10, bm.get(i + 1) * G10, rm.get(i + 1) * G10),
          how: how, t0: ref, lin: p0, tt: timesFromVariations(ref, p0, ks, vg), k: ks, v: vg }
      }
    })
    putPlanets(kd, o, ps)
  }

  action observeAt(at: Fx): bool = all {
    act' = "observe", t' = at, seen' = observeAll(kind, planets, at), keep
  }
  action observe: bool = {
    nondet which = 0.to(planets.length() - 1).oneOf()
    nondet n = (-40).to(40).oneOf()
    nondet m = 0.to(6).oneOf()
    nondet fine = (-1000).to(1000).oneOf()
    nondet tm = (-200000).to(200000).oneOf()
    nondet how = 0.to(5).oneOf()
    val p = planets[which]
    val base = if (kind == "transit") p.t0 + n * p.shape.period else p.tt[m % p.tt.length()]
    val at =
      if (how == 0) tm * G10
      else if (how == 1) base + fine * (SC / 2^20)
      else if (how == 2) base + mul(p.shape.duration, fine * G10)
      else if (how == 3) base + (if (n % 2 == 0) p.shape.duration / 2 else -p.shape.duration / 2) + fine * (SC / 2^20)
      else if (how == 4) base + mul(p.shape.period, fine * G10) * 2
      else base
    observeAt(toGrid(at, SC / 2^28))
  }

  // -------------------------------------------------------------- windows
  action askWindow: bool = {
    nondet n = 1.to(4).oneOf()
    nondet pm = 1.to(4).setOfMaps(40.to(4000)).oneOf()
    nondet tm = 1.to(4).setOfMaps((-20000).to(20000)).oneOf()
    nondet lo = (-20000).to(20000).oneOf()
    nondet len = 0.to(12000).oneOf()
    nondet snap = 0.to(4).oneOf()
    nondet k1 = (-30).to(30).oneOf()
    nondet k2 = 0.to(20).oneOf()
    val p1 = pm.get(1) * (SC / 2^8)
    val t1 = tm.get(1) * (SC / 2^8)
    // windows that start or end exactly on a transit of the first planet
    val a = if (snap == 1 or snap == 3) t1 + k1 * p1 else lo * (SC / 2^8)
    val b = if (snap == 2) imax(a, t1 + k1 * p1) else if (snap == 3) a + k2 * p1
            else if (snap == 4) a else a + len * (SC / 2^8)
    val ps = tab2(n, i => {
      val p = pm.get(i + 1) * (SC / 2^8)
      { shape: byDuration(p, p, 0, 0), how: "duration", t0: tm.get(i + 1) * (SC / 2^8), lin: p,
        tt: List(), k: List(), v: List() }
    })
    all {
      act' = "window", kind' = "window", opt' = Map(), planets' = ps, t' = 0, seen' = List(),
      window' = (a, b), expected' = lmap2(ps, p => inWindow(a, b, p.lin, p.t0))
    }
  }

  action init = all { putPlanets("transit", Map("n" -> 1, "omit" -> 15, "scalar" -> 1),
      List({ shape: byDuration(SC, SC / 8, 0, 0), how: "duration", t0: 0, lin: SC, tt: List(), k: List(), v: List() })),
    left' = 3 }
  action stepTransit = if (left > 0) all { observe, left' = left - 1 } else all { describeTransit, left' = 10 }
  action stepTtv = if (left > 0) all { observe, left' = left - 1 } else all { describeTtv, left' = 12 }
  action stepWindow = all { askWindow, left' = 0 }
  action step = any { stepTransit, stepTtv }

  // -------------------------------------------------------------- laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  val shapesConsistent = planets.indices().forall(i => {
    val s = planets[i].shape
    near(mul(s.speed, s.duration), 2 * halfChord(s.b, s.ror), SC / 2^60 + iabs(s.speed) / 2^60)
  })
  /// discs touch exactly half a duration away from mid-transit
  val touching = planets.indices().forall(i => {
    val s = planets[i].shape
    val p = seenAt(s, s.duration / 2)
    halfChord(s.b, s.ror) == 0 or near(sq(p.x) + sq(p.y), sq(SC + s.ror), SC / 2^40)
  })
  /// transits happen at the transit times
  val onTime = kind == "window" or kind == "transit" or planets.indices().forall(i => {
    val p = planets[i]
    p.tt.indices().forall(j => { val s = observe1(kind, p, p.tt[j])  iabs(s.x) < SC / 2^60 })
  })
  /// observed transits come in order, about a period apart
  val ordered = planets.indices().forall(i => {
    val p = planets[i]
    p.tt.indices().forall(j => j == 0 or p.tt[j] > p.tt[j - 1] + p.lin / 4)
  })
  /// normal equations of the fit: residuals orthogonal to 1 and k
  val fitted = kind != "times" or planets.indices().forall(i => {
    val p = planets[i]
    and { iabs(isum(p.v)) < SC / 2^90, iabs(range(0, p.k.length()).foldl(0, (a, j) => a + p.k[j] * p.v[j])) < SC / 2^80 }
  })
  /// windows: inside, spaced by the period, and nothing more fits at either end
  val complete = kind != "window" or planets.indices().forall(i => {
    val p = planets[i]
    val l = expected[i]
    and {
      l.indices().forall(j => l[j] >= window._1 and l[j] <= window._2 and fmodi(l[j] - p.t0, p.lin) == 0),
      l.indices().forall(j => j == 0 or l[j] - l[j - 1] == p.lin),
      l.length() == 0 or (l[0] - p.lin < window._1 and l[l.length() - 1] + p.lin > window._2),
      l.length() > 0 or window._2 - window._1 < p.lin,
    }
  })
  val inv = and { shapesConsistent, touching, onTime, ordered, fitted, complete }
}
