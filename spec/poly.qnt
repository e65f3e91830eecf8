// -*- mode: Bluespec; -*-
/// Polynomials on the unit sphere: linear combinations of x^i y^j and x^i y^j z.
/// (z^2 is 1 - x^2 - y^2, so these monomials are a basis of the ring of functions.)
module poly {
  import fx.* from "./fx"
  export fx.*

  /// a monomial and its coefficient
  type Term = { i: int, j: int, k: int, c: int }
  type Poly = (int, int, int) -> int

  pure val ZERO: Poly = Map()
  pure def coef(p: Poly, i: int, j: int, k: int): int =
    if (p.keys().contains((i, j, k))) p.get((i, j, k)) else 0
  pure def plus(p: Poly, key: (int, int, int), c: int): Poly =
    if (p.keys().contains(key)) p.set(key, p.get(key) + c) else p.put(key, c)
  /// collect terms with any power of z
  pure def collect(ts: List[Term]): Poly = ts.foldl(ZERO, (p, t) =>
    if (t.k < 2) p.plus((t.i, t.j, t.k), t.c)
    else p.plus((t.i, t.j, t.k - 2), t.c).plus((t.i + 2, t.j, t.k - 2), -t.c).plus((t.i, t.j + 2, t.k - 2), -t.c))
  pure def terms(p: Poly): List[Term] =
    p.keys().fold(List(), (l, q) => l.append({ i: q._1, j: q._2, k: q._3, c: p.get(q) }))
  pure def add(p: Poly, q: Poly): Poly = q.keys().fold(p, (acc, key) => acc.plus(key, q.get(key)))
  pure def scale(p: Poly, c: int): Poly = p.keys().mapBy(key => c * p.get(key))
  pure def times(p: Poly, q: Poly): Poly =
    p.keys().fold(ZERO, (acc, a) => q.keys().fold(acc, (bcc, b) => {
      pure val c = p.get(a) * q.get(b)
      pure val i = a._1 + b._1
      pure val j = a._2 + b._2
      pure val k = a._3 + b._3
      if (k < 2) bcc.plus((i, j, k), c)
      else bcc.plus((i, j, 0), c).plus((i + 2, j, 0), -c).plus((i, j + 2, 0), -c)
    }))

  // ---------------------------------------------------- positions in the vector
  // by degree l = i + j + k, and within a degree by falling power of x:
  // x^l, x^(l-1) z, x^(l-1) y, x^(l-2) y z, ..., y^l : 2l + 1 of them
  pure def deg(i: int, j: int, k: int): int = i + j + k
  pure def pos(i: int, j: int, k: int): int = { pure val l = i + j + k  l * l + 2 * j + k }
  pure def order(i: int, j: int, k: int): int = 2 * j + k - (i + j + k)
  pure def degOf(n: int): int = isqrt(n)
  pure def mono(n: int): (int, int, int) = {
    pure val l = isqrt(n)
    pure val q = n - l * l
    pure val k = q % 2
    pure val j = (q - k) / 2
    (l - j - k, j, k)
  }
  pure def degree(p: Poly): int = p.keys().fold(0, (a, q) => imax(a, q._1 + q._2 + q._3))
  pure def dense(p: Poly, l: int): List[int] =
    range(0, (l + 1) * (l + 1)).foldl(List(), (acc, n) => { pure val m = mono(n)  acc.append(coef(p, m._1, m._2, m._3)) })

  // ---------------------------------------------------- values
  pure def pw(b: int, e: int): int = if (e == 0) 1 else b^e
  /// at the point (a, b, c)/d of the sphere, times d^l (exact integers); l at least the degree
  pure def value(p: Poly, a: int, b: int, c: int, d: int, l: int): int =
    p.keys().fold(0, (s, q) => s + p.get(q) * pw(a, q._1) * pw(b, q._2) * pw(c, q._3) * pw(d, l - q._1 - q._2 - q._3))
  /// at a point given in fixed point
  pure def at(p: Poly, x: Fx, y: Fx, z: Fx): Fx =
    p.keys().fold(0, (s, q) => s + p.get(q) * mul(mul(powi(x, q._1), powi(y, q._2)), powi(z, q._3)))
}
