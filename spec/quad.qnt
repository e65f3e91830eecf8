// -*- mode: Bluespec; -*-
/// Double-exponential quadrature: spectral accuracy even with algebraic endpoint singularities.
module quad {
  import fx.* from "./fx"
  export fx.*

  /// step 2^-STEPLOG, nodes t = k 2^-STEPLOG
  pure val KMAX = 58
  pure val STEPLOG = 4
  /// for k = 0..KMAX: distance of the node from the nearer end (interval [0,1]) and its weight
  pure val NODES: List[(Fx, Fx)] =
    range(0, KMAX + 1).foldl(List(), (acc, k) => {
      pure val t = (k * SC) / 2^STEPLOG
      pure val et = exp(t)
      pure val emt = div(SC, et)
      pure val s = mul(HALFPI, (et - emt) / 2)
      // 1 - x = 2 / (1 + e^{2s});  half of it is the distance on [0,1]
      pure val e2s = exp(2 * s)
      pure val frac = div(SC, SC + e2s)
      // dx/dt = (pi/2) cosh t / cosh^2 s ; on [0,1] half of that
      // cosh^2 s = (e^{2s} + 2 + e^{-2s}) / 4
      pure val ch2 = (e2s + 2 * SC + div(SC, e2s)) / 4
      pure val w = div(mul(HALFPI, (et + emt) / 2), ch2) / 2 / 2^STEPLOG
      acc.append((frac, w))
    })

  /// integral of f over [a, b]; f gets the point, its distance to a and its distance to b
  pure def integrate(a: Fx, b: Fx, f: (Fx, Fx, Fx) => Fx): Fx =
    if (b <= a) 0 else {
      pure val len = b - a
      mul(len, range(0, NODES.length()).foldl(0, (acc, k) => {
        pure val d = mul(len, NODES[k]._1)
        pure val lo = f(a + d, d, len - d)
        pure val hi = if (k == 0) 0 else f(b - d, len - d, d)
        acc + mul(NODES[k]._2, lo + hi)
      }))
    }
}
