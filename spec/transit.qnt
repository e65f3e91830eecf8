// -*- mode: Bluespec; -*-
/// Orbits described by the shape and the times of their transits.
module transit {
  import fx.* from "./fx"
  export fx.*

  /// a planet's transit: everything in days and stellar radii
  type Shape = { period: Fx, duration: Fx, speed: Fx, b: Fx, ror: Fx }

  pure def halfChord(b: Fx, ror: Fx): Fx = sqrt(imax(0, sq(SC + ror) - sq(b)))
  pure def byDuration(period: Fx, duration: Fx, b: Fx, ror: Fx): Shape =
    { period: period, duration: duration, speed: div(2 * halfChord(b, ror), duration), b: b, ror: ror }
  pure def bySpeed(period: Fx, speed: Fx, b: Fx, ror: Fx): Shape =
    { period: period, duration: div(2 * halfChord(b, ror), speed), speed: speed, b: b, ror: ror }

  /// time since the nearest of the transits t0 + k period, in [-period/2, period/2)
  pure def sinceTransit(t: Fx, t0: Fx, period: Fx): Fx =
    fmodi(t - t0 + period / 2, period) - period / 2

  /// what is seen of the planet dt after a mid-transit
  type Seen = { x: Fx, y: Fx, front: bool, dt: Fx }
  pure def seenAt(s: Shape, dt: Fx): Seen =
    { x: mul(s.speed, dt), y: s.b, front: 2 * iabs(dt) < s.duration, dt: dt }

  /// distance (in time) to the nearest instant where the answer jumps
  pure def margin(s: Shape, dt: Fx): Fx =
    imin(iabs(2 * iabs(dt) - s.duration) / 2, s.period / 2 - iabs(dt))

  // ------------------------------------------------------------------ timing variations
  /// least-squares line through (k, t_k): intercept and slope
  pure def linearFit(k: List[int], t: List[Fx]): (Fx, Fx) = {
    pure val n = t.length()
    pure val sk = isum(k)
    pure val skk = isum(lmap(k, i => i * i))
    pure val st = isum(t)
    pure val skt = range(0, n).foldl(0, (a, i) => a + k[i] * t[i])
    pure val det = n * skk - sk * sk
    ((skk * st - sk * skt) / det, (n * skt - sk * st) / det)
  }
  pure def residuals(k: List[int], t: List[Fx]): List[Fx] = {
    pure val f = linearFit(k, t)
    tab(t.length(), i => t[i] - f._1 - k[i] * f._2)
  }
  /// index of the transit time nearest to t (the earlier one of two equally near)
  pure def nearest(tt: List[Fx], t: Fx): int =
    range(1, tt.length()).foldl(0, (best, i) => if (iabs(tt[i] - t) < iabs(tt[best] - t)) i else best)
  /// how much nearer the nearest transit is than the next nearest
  pure def nearMargin(tt: List[Fx], t: Fx): Fx = {
    pure val b = nearest(tt, t)
    range(0, tt.length()).foldl(2^200, (m, i) => if (i == b) m else imin(m, iabs(tt[i] - t) - iabs(tt[b] - t)))
  }
  pure def timesFromVariations(t0: Fx, period: Fx, k: List[int], v: List[Fx]): List[Fx] = {
    pure val m = isum(v) / v.length()
    tab(v.length(), i => t0 + k[i] * period + v[i] - m)
  }

  // ------------------------------------------------------------------ expected times
  /// all t0 + k period in the closed window
  pure def inWindow(lo: Fx, hi: Fx, period: Fx, t0: Fx): List[Fx] = {
    pure val first = -fdivi(t0 - lo, period)
    pure val last = fdivi(hi - t0, period)
    if (last < first) List() else tab(last - first + 1, i => t0 + (first + i) * period)
  }
}
