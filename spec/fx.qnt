// -*- mode: Bluespec; -*-
/// Exact fixed-point real arithmetic on unbounded integers.
///
/// A real number v is represented by the integer round(v * SC), SC = 2^112.
/// IEEE doubles with at most 112 fractional bits are represented exactly, so a
/// value chosen by the specification reaches the implementation unchanged.
module fx {
  type Fx = int

  pure val SC: Fx = 5192296858534827628530496329220096          // 2^112
  pure val PI: Fx = 16312081666030376401667486162748272         // round(pi * 2^112)
  pure val TWOPI: Fx = 32624163332060752803334972325496544
  pure val HALFPI: Fx = 8156040833015188200833743081374136
  pure val ONE: Fx = SC
  pure val TWO: Fx = 2 * SC
  pure val HALF: Fx = SC / 2

  // ------------------------------------------------------------- integers
  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def imax(x: int, y: int): int = if (x < y) y else x
  pure def isign(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  /// floor division and its (non negative) remainder, divisor > 0
  pure def fdivi(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def fmodi(a: int, b: int): int = a - b * fdivi(a, b)
  pure def parity(n: int): int = if (fmodi(n, 2) == 0) 1 else -1
  pure def fact(n: int): int = range(1, n + 1).foldl(1, (a, k) => a * k)
  pure def binom(n: int, k: int): int =
    if (k < 0 or k > n) 0 else fact(n) / (fact(k) * fact(n - k))

  // ------------------------------------------------------------- arithmetic
  pure def fint(n: int): Fx = n * SC
  /// the rational n/d
  pure def rat(n: int, d: int): Fx = (n * SC) / d
  pure def mul(x: Fx, y: Fx): Fx = (x * y) / SC
  pure def div(x: Fx, y: Fx): Fx = (x * SC) / y
  pure def sq(x: Fx): Fx = (x * x) / SC
  pure def powi(x: Fx, n: int): Fx = range(0, n).foldl(SC, (a, k) => (a * x) / SC)

  /// integer square root (floor) by Newton's iteration from above
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      // power-of-two upper bound for the root, found by scaling steps
      pure val g0 = List(1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1).foldl({ b: 0, m: n }, (s, k) =>
        if (s.m >= 2^k) { b: s.b + k, m: s.m / (2^k) } else s).b
      pure val start = 2^(g0 / 2 + 1)
      range(0, 9).foldl(start, (g, i) => { pure val h = (g + n / g) / 2  if (h < g) h else g })
    }
  pure def sqrt(x: Fx): Fx = isqrt(x * SC)

  /// cube root of a non negative number
  pure def cbrt(x: Fx): Fx =
    if (x <= 0) 0 else {
      pure val n = x * SC * SC
      pure val g0 = List(1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1).foldl({ b: 0, m: n }, (s, k) =>
        if (s.m >= 2^k) { b: s.b + k, m: s.m / (2^k) } else s).b
      range(0, 12).foldl(2^(g0 / 3 + 1), (g, i) => (2 * g + n / (g * g)) / 3)
    }

  // ------------------------------------------------------------- trigonometry
  /// sine and cosine for |x| <= pi/4 + eps after four halvings
  pure def sincosCore(x: Fx): (Fx, Fx) = {
    pure val y = x / 16
    pure val y2 = (y * y) / SC
    pure val r = range(1, 11).foldl((y, y, SC, SC), (a, k) => {
      pure val ts = -(((a._2 * y2) / SC) / ((2 * k) * (2 * k + 1)))
      pure val tc = -(((a._4 * y2) / SC) / ((2 * k - 1) * (2 * k)))
      (a._1 + ts, ts, a._3 + tc, tc)
    })
    range(0, 4).foldl((r._1, r._3), (p, i) => ((2 * p._1 * p._2) / SC, (p._2 * p._2 - p._1 * p._1) / SC))
  }
  pure def sincos(x: Fx): (Fx, Fx) = {
    pure val q = fdivi(x + HALFPI / 2, HALFPI)
    pure val p = sincosCore(x - q * HALFPI)
    pure val k = fmodi(q, 4)
    if (k == 0) p
    else if (k == 1) (p._2, -p._1)
    else if (k == 2) (-p._1, -p._2)
    else (-p._2, p._1)
  }
  pure def sin(x: Fx): Fx = sincos(x)._1
  pure def cos(x: Fx): Fx = sincos(x)._2

  /// atan of t, 0 <= t <= 1, by three half-angle reductions and a series
  pure def atanCore(t: Fx): Fx = {
    pure val u = range(0, 4).foldl(t, (v, i) => (v * SC) / (SC + sqrt(SC + (v * v) / SC)))
    pure val u2 = (u * u) / SC
    pure val s = range(1, 17).foldl((u, u), (a, k) => {
      pure val p = -((a._2 * u2) / SC)
      (a._1 + p / (2 * k + 1), p)
    })
    16 * s._1
  }
  pure def atan2(y: Fx, x: Fx): Fx =
    if (x == 0 and y == 0) 0 else {
      pure val ax = iabs(x)
      pure val ay = iabs(y)
      pure val a = if (ay <= ax) atanCore((ay * SC) / ax) else HALFPI - atanCore((ax * SC) / ay)
      pure val b = if (x >= 0) a else PI - a
      if (y >= 0) b else -b
    }
  pure def acos(c: Fx): Fx =
    if (c >= SC) 0 else if (c <= -SC) PI else atan2(sqrt(SC - (c * c) / SC), c)
  pure def asin(s: Fx): Fx = HALFPI - acos(s)

  /// exponential, |x| moderate
  pure def exp(x: Fx): Fx = {
    pure val neg = x < 0
    pure val a = iabs(x)
    pure val n = 1 + a / SC
    // e^(a/(16 n)) then power
    pure val y = a / (16 * n)
    pure val e = range(1, 19).foldl((SC, SC), (s, k) => { pure val t = ((s._2 * y) / SC) / k  (s._1 + t, t) })._1
    pure val r = range(0, 16 * n).foldl(SC, (p, k) => (p * e) / SC)
    if (neg) (SC * SC) / r else r
  }

  // ------------------------------------------------------------- lists
  pure def lmap(l: List[a], f: a => b): List[b] = l.foldl(List(), (acc, v) => acc.append(f(v)))
  pure def tab(n: int, f: int => b): List[b] = range(0, n).foldl(List(), (acc, v) => acc.append(f(v)))
  /// The simulator's user-defined operators are not re-entrant, and `val`s are evaluated when
  /// first used: whatever is (even lazily) evaluated inside a function passed to tab must not
  /// itself use tab.  Hence the numbered copies for outer levels; built-in operators
  /// (foldl, mapBy, ...) have no such limit.
  pure def lmap2(l: List[a], f: a => b): List[b] = l.foldl(List(), (acc2, v2) => acc2.append(f(v2)))
  pure def tab2(n: int, f: int => b): List[b] = range(0, n).foldl(List(), (acc2, v2) => acc2.append(f(v2)))
  pure def tab3(n: int, f: int => b): List[b] = range(0, n).foldl(List(), (acc3, v3) => acc3.append(f(v3)))
  pure def isum(l: List[int]): int = l.foldl(0, (s, v) => s + v)
  pure def dot(u: List[Fx], v: List[Fx]): Fx =
    range(0, imin(u.length(), v.length())).foldl(0, (s, k) => s + u[k] * v[k]) / SC
  pure def lmax(l: List[int]): int = l.foldl(l[0], (s, v) => imax(s, v))
  pure def lmin(l: List[int]): int = l.foldl(l[0], (s, v) => imin(s, v))
  /// polynomial by ascending coefficients
  pure def horner(c: List[Fx], x: Fx): Fx =
    range(0, c.length()).foldl(0, (s, k) => (s * x) / SC + c[c.length() - 1 - k])
}
