// -*- mode: Bluespec; -*-
/// P25: a calculator of some limits gets one request after another.
module wigner_mc {
  import wigner.* from "./wigner"

  var act: str
  var limits: (int, int)
  var req: (int, int, int, int)       // j2, j3, m2, m3
  var resp: List[Fx]                  // by j1
  var one: { q: (int, int, int, int, int, int), w: Fx, cg: Fx }   // a single symbol
  var n: int

  pure val NONE = { q: (0, 0, 0, 0, 0, 0), w: SC, cg: SC }

  action create(a: int, b: int): bool = all {
    act' = "create", limits' = (a, b), req' = (0, 0, 0, 0), resp' = List(), one' = NONE
  }
  action ask(j2: int, j3: int, m2: int, m3: int): bool = all {
    act' = "ask", limits' = limits, req' = (j2, j3, m2, m3),
    resp' = family(limits._1 + limits._2 + 1, j2, j3, m2, m3), one' = NONE
  }
  // random histories
  action new: bool = {
    nondet a = 0.to(9).oneOf()
    nondet b = 0.to(9).oneOf()
    nondet big = 0.to(9).oneOf()
    create(if (big == 0) a * 3 else a, if (big == 0) b * 3 else b)
  }
  action request: bool = {
    nondet fa = 0.to(1000).oneOf()
    nondet fb = 0.to(1000).oneOf()
    nondet ma = 0.to(1000).oneOf()
    nondet mb = 0.to(1000).oneOf()
    nondet special = 0.to(7).oneOf()
    val j2 = (fa * (limits._1 + 1)) / 1001
    val j3 = (fb * (limits._2 + 1)) / 1001
    // orders at the ends, zero, opposite, and just out of range
    val m2 = if (special == 0) j2 else if (special == 1) -j2 else if (special == 2) 0
      else if (special == 3) j2 + 1 else (ma * (2 * j2 + 1)) / 1001 - j2
    val m3 = if (special == 0) -j3 else if (special == 1) -j3 else if (special == 2) 0
      else if (special == 4) -imin(j3, imax(-j3, m2)) else (mb * (2 * j3 + 1)) / 1001 - j3
    ask(j2, j3, m2, m3)
  }
  action single: bool = {
    nondet a = 0.to(8).oneOf()
    nondet b = 0.to(8).oneOf()
    nondet c = 0.to(12).oneOf()
    nondet x = (-8).to(8).oneOf()
    nondet y = (-8).to(8).oneOf()
    nondet off = 0.to(6).oneOf()
    val m1 = if (a == 0) 0 else x % (a + 1)
    val m2 = if (b == 0) 0 else y % (b + 1)
    val j3 = if (c <= 2) c else iabs(a - b) + c % (2 * imin(a, b) + 1)
    val m3 = -m1 - m2 + (if (off == 0) 1 else 0)
    all { act' = "single", limits' = limits, req' = (0, 0, 0, 0), resp' = List(),
          one' = { q: (a, b, j3, m1, m2, m3), w: threeJ(a, b, j3, m1, m2, m3), cg: clebsch(a, m1, b, m2, j3, -m3) } }
  }
  action init = all { create(2, 2), n' = 0 }
  action step = if (n % 12 == 0) all { new, n' = n + 1 }
    else if (n % 6 == 5) all { single, n' = n + 1 }
    else all { request, n' = n + 1 }

  // every request up to degree 5, in order, on one calculator; blocks of the enumeration
  pure val TOP = 5
  pure val ALL: List[(int, int, int, int)] =
    range(0, TOP + 1).foldl(List(), (l1, a) => range(0, TOP + 1).foldl(l1, (l2, b) =>
      range(-a, a + 1).foldl(l2, (l3, x) => range(-b, b + 1).foldl(l3, (l4, y) => l4.append((a, b, x, y))))))
  action initSweep = { nondet block = 0.to(5).oneOf() all { create(TOP, TOP), n' = block * 216 } }
  action initSweep0 = all { create(TOP, TOP), n' = 0 }
  action initSweep1 = all { create(TOP, TOP), n' = 324 }
  action initSweep2 = all { create(TOP, TOP), n' = 648 }
  action initSweep3 = all { create(TOP, TOP), n' = 972 }
  action sweep = { val q = ALL[n]  all { ask(q._1, q._2, q._3, q._4), n' = n + 1 } }

  // laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  val normalised = act != "ask" or iabs(req._3) > req._1 or iabs(req._4) > req._2 or
    near(range(0, resp.length()).foldl(0, (a, j) => a + (2 * j + 1) * sq(resp[j])), SC, SC / 2^90)
  val allowed = act != "ask" or resp.indices().forall(j =>
    resp[j] == 0 or (j >= iabs(req._1 - req._2) and j <= req._1 + req._2 and j >= iabs(req._3 + req._4)))
  val reversed = act != "ask" or {
    val f = family(limits._1 + limits._2 + 1, req._1, req._2, -req._3, -req._4)
    resp.indices().forall(j => f[j] == parity(j + req._1 + req._2) * resp[j])
  }
  val inv = and { normalised, allowed, reversed }
}
