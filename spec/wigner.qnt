// -*- mode: Bluespec; -*-
/// Wigner 3j symbols, exactly: the square is a rational number, the sign that of an integer sum.
module wigner {
  import fx.* from "./fx"
  export fx.*

  pure val FACT: List[int] = range(1, 140).foldl(List(1), (acc, k) => acc.append(acc[k - 1] * k))
  pure def choose(n: int, k: int): int =
    if (k < 0 or k > n) 0 else FACT[n] / (FACT[k] * FACT[n - k])

  pure def threeJ(j1: int, j2: int, j3: int, m1: int, m2: int, m3: int): Fx =
    if (m1 + m2 + m3 != 0 or iabs(m1) > j1 or iabs(m2) > j2 or iabs(m3) > j3
        or j3 > j1 + j2 or j3 < iabs(j1 - j2)) 0
    else {
      pure val a = j1 + j2 - j3
      pure val b = j1 - j2 + j3
      pure val c = j2 + j3 - j1
      // Racah's sum
      pure val s = range(0, a + 1).foldl(0, (acc, k) =>
        acc + parity(k) * choose(a, k) * choose(b, j1 - m1 - k) * choose(c, j2 + m2 - k))
      pure val num = FACT[j1 + m1] * FACT[j1 - m1] * FACT[j2 + m2] * FACT[j2 - m2] * FACT[j3 + m3] * FACT[j3 - m3] * s * s
      pure val den = FACT[j1 + j2 + j3 + 1] * FACT[a] * FACT[b] * FACT[c]
      parity(j1 - j2 - m3) * isign(s) * isqrt((num * SC * SC) / den)
    }
  /// all third degrees for (j1; -m2-m3), as a list indexed by j1
  pure def family(n: int, j2: int, j3: int, m2: int, m3: int): List[Fx] =
    range(0, n).foldl(List(), (acc, j1) => acc.append(threeJ(j1, j2, j3, -m2 - m3, m2, m3)))
  pure def clebsch(j1: int, m1: int, j2: int, m2: int, j3: int, m3: int): Fx =
    mul(parity(j1 - j2 + m3) * sqrt((2 * j3 + 1) * SC), threeJ(j1, j2, j3, m1, m2, -m3))
}
