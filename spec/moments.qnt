// -*- mode: Bluespec; -*-
/// Integrals of the terms of the polynomial basis over the disc.
module moments {
  import wigner.* from "./wigner"
  export wigner.*

  pure def odds(k: int): int = range(0, k).foldl(1, (a, j) => a * (2 * j + 1))
  /// integral of x^i y^j z^k over the disc, k = 0 or 1
  pure def discMoment(i: int, j: int, k: int): Fx =
    if (i % 2 == 1 or j % 2 == 1) 0 else {
      pure val p = i / 2
      pure val q = j / 2
      pure val s = p + q + 1
      // angular: 2 pi (2p-1)!! (2q-1)!! / (2p+2q)!!
      pure val ang = (TWOPI * odds(p) * odds(q)) / (FACT[p + q] * 2^(p + q))
      if (k == 0) ang / (2 * s)
      // half B(s, 3/2)
      else (ang * FACT[s - 1] * 2^s) / (2 * range(1, s + 1).foldl(1, (a, t) => a * (2 * t + 1)))
    }
}
