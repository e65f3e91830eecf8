// -*- mode: Bluespec; -*-
/// P12: light curves of transit orbits and of orbits with timing variations.
/// Describe, then look and measure in turn.
module light_transit_mc {
  import transit_mc.* from "./transit_mc"
  import limbdark as L from "./limbdark"

  var law: List[int]
  var flux: List[int]
  var turn: int

  pure def lightOf(u: List[int], s: { x: int, y: int, front: bool, dt: int, margin: int }, r: int): int =
    if (s.front) L::dimming(u, L::sqrt(L::sq(s.x) + L::sq(s.y)), r) else 0

  action measure: bool = all {
    act' = "measure", kind' = kind, opt' = opt, planets' = planets, window' = window, expected' = expected,
    t' = t, seen' = seen, law' = law, left' = left,
    flux' = range(0, planets.length()).foldl(List(), (acc, i) => acc.append(lightOf(law, seen[i], planets[i].shape.ror)))
  }
  action chooseLaw: bool = {
    nondet n = 0.to(4).oneOf()
    nondet c = 1.to(4).setOfMaps((-200).to(500)).oneOf()
    law' = range(1, n + 1).foldl(List(), (acc, k) => acc.append(c.get(k) * (L::SC / 2^10)))
  }
  action initLight = all { init, law' = List(), flux' = List(), turn' = 0 }
  action looking: bool = all { observe, law' = law, flux' = List(), left' = left }
  action stepTransitLight =
    if (turn <= 0) all { describeTransit, chooseLaw, flux' = List(), turn' = 12, left' = left }
    else all { if (turn % 2 == 0) looking else measure, turn' = turn - 1 }
  action stepTtvLight =
    if (turn <= 0) all { describeTtv, chooseLaw, flux' = List(), turn' = 12, left' = left }
    else all { if (turn % 2 == 0) looking else measure, turn' = turn - 1 }
}
