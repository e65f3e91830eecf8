// -*- mode: Bluespec; -*-
/// Real spherical harmonics as functions on the sphere, and maps made of them.
/// Normalisation here: orthonormal times sqrt(4 pi), so that Y_00 = 1; m > 0 goes with cos(m phi),
/// m < 0 with sin(|m| phi); the polar axis is z; no (-1)^m phase (Y_11 is proportional to +x).
module harmonics {
  import wigner.* from "./wigner"
  export wigner.*

  type Vec3 = (Fx, Fx, Fx)
  /// coefficient (l, m) is at l(l+1)+m
  pure def where(l: int, m: int): int = l * l + l + m
  pure def degOf(n: int): int = isqrt(n)

  /// sqrt((2 - [m = 0]) (2l+1) (l-m)! / (l+m)!)
  pure val MAXL = 24
  pure val NORM: List[Fx] = range(0, (MAXL + 1) * (MAXL + 1)).foldl(List(), (acc, n) => {
    pure val l = isqrt(n)
    pure val m = iabs(n - l * l - l)
    acc.append(isqrt(((if (m == 0) 1 else 2) * (2 * l + 1) * FACT[l - m] * SC * SC) / FACT[l + m]))
  })
  /// values at a point of the unit sphere (or of the line through it scaled by sin: z and x,y are independent here),
  /// all (l, m) with l <= L, in the order of the vector
  pure def harmonics(L: int, p: Vec3): List[Fx] = {
    pure val x = p._1
    pure val y = p._2
    pure val z = p._3
    // by order m: q_l^m = P_l^m / sin^m (no phase); cs = (Re, Im) of (x + i y)^m
    pure val cols = range(0, L + 1).foldl({ c: SC, s: 0, q: SC, out: Map() }, (a, m) => {
      // q_m^m = (2m-1)!!;  q_{m+1}^m = (2m+1) z q_m^m;  (l-m) q_l = (2l-1) z q_{l-1} - (l+m-1) q_{l-2}
      pure val col = range(m, L + 1).foldl({ q1: 0, q0: 0, out: a.out }, (b, l) => {
        pure val q = if (l == m) a.q
          else ((2 * l - 1) * mul(z, b.q1) - (l + m - 1) * b.q0) / (l - m)
        pure val v = mul(NORM[l * l + l + m], q)
        pure val o1 = b.out.put(l * l + l + m, mul(v, a.c))
        { q1: q, q0: b.q1, out: if (m == 0) o1 else o1.put(l * l + l - m, mul(v, a.s)) }
      })
      { c: mul(a.c, x) - mul(a.s, y), s: mul(a.s, x) + mul(a.c, y), q: a.q * (2 * m + 1), out: col.out }
    })
    range(0, (L + 1) * (L + 1)).foldl(List(), (acc, n) => acc.append(cols.out.get(n)))
  }
  /// the function with dense coefficients c (of degree L) at a point
  pure def valueAt(c: List[Fx], L: int, p: Vec3): Fx = {
    pure val h = harmonics(L, p)
    range(0, c.length()).foldl(0, (a, n) => a + c[n] * h[n]) / SC
  }

  // ------------------------------------------------------------------ maps: (l, m) -> coefficient
  type Ylm = (int, int) -> Fx
  pure def mdeg(f: Ylm): int = f.keys().fold(0, (a, k) => imax(a, k._1))
  pure def get0(f: Ylm, l: int, m: int): Fx = if (f.keys().contains((l, m))) f.get((l, m)) else 0
  pure def densify(f: Ylm): List[Fx] = {
    pure val L = mdeg(f)
    range(0, (L + 1) * (L + 1)).foldl(List(), (acc, n) => { pure val l = isqrt(n)  acc.append(get0(f, l, n - l * l - l)) })
  }
  pure def sparsify(c: List[Fx]): Ylm =
    range(0, c.length()).foldl(Map(), (acc, n) => { pure val l = isqrt(n)  acc.put((l, n - l * l - l), c[n]) })

  // ------------------------------------------------------------------ product of two functions
  // complex coefficients of a real function: c_m = (-1)^m (a_m - i a_-m) / sqrt 2, c_-m = (-1)^m conj c_m
  pure val RT2: Fx = sqrt(2 * SC)
  pure def cplx(f: Ylm, l: int, m: int): (Fx, Fx) =
    if (m == 0) (get0(f, l, 0), 0)
    else if (m > 0) (div(parity(m) * get0(f, l, m), RT2), div(-parity(m) * get0(f, l, -m), RT2))
    else (div(get0(f, l, -m), RT2), div(get0(f, l, m), RT2))
  /// product, as coefficients of degree up to the sum (complex Gaunt coefficients)
  pure def product(f: Ylm, g: Ylm): List[Fx] = {
    pure val lf = mdeg(f)
    pure val lg = mdeg(g)
    pure val L = lf + lg
    // both signs of every order present
    pure val kf = f.keys().union(f.keys().map(k => (k._1, -k._2)))
    pure val kg = g.keys().union(g.keys().map(k => (k._1, -k._2)))
    pure val out: (int, int) -> (Fx, Fx) = kf.fold(Map(), (acc, a) => kg.fold(acc, (bcc, b) => {
      pure val m3 = a._2 + b._2
      pure val ca = cplx(f, a._1, a._2)
      pure val cb = cplx(g, b._1, b._2)
      pure val re = mul(ca._1, cb._1) - mul(ca._2, cb._2)
      pure val im = mul(ca._1, cb._2) + mul(ca._2, cb._1)
      if (m3 < 0) bcc      // the function is real: orders m3 >= 0 suffice
      else range(imax(m3, iabs(a._1 - b._1)), a._1 + b._1 + 1).foldl(bcc, (ccc, l3) =>
        if ((a._1 + b._1 + l3) % 2 == 1) ccc
        else {
          pure val w = parity(m3) * mul(sqrt((2 * a._1 + 1) * (2 * b._1 + 1) * (2 * l3 + 1) * SC),
            mul(threeJ(a._1, b._1, l3, 0, 0, 0), threeJ(a._1, b._1, l3, a._2, b._2, -m3)))
          pure val old = if (ccc.keys().contains((l3, m3))) ccc.get((l3, m3)) else (0, 0)
          ccc.put((l3, m3), (old._1 + mul(w, re), old._2 + mul(w, im)))
        })
    }))
    range(0, (L + 1) * (L + 1)).foldl(List(), (acc, n) => {
      pure val l = isqrt(n)
      pure val m = n - l * l - l
      pure val c = if (out.keys().contains((l, iabs(m)))) out.get((l, iabs(m))) else (0, 0)
      acc.append(if (m == 0) c._1 else if (m > 0) parity(m) * mul(RT2, c._1) else -parity(m) * mul(RT2, c._2))
    })
  }

  // ------------------------------------------------------------------ rotations
  type Mat3 = List[List[Fx]]
  pure val EYE: Mat3 = List(List(SC, 0, 0), List(0, SC, 0), List(0, 0, SC))
  /// rotation by theta about an axis (any length but zero), right handed
  pure def rotationMatrix(ax: Vec3, theta: Fx): Mat3 = {
    pure val n = sqrt(sq(ax._1) + sq(ax._2) + sq(ax._3))
    pure val x = div(ax._1, n)
    pure val y = div(ax._2, n)
    pure val z = div(ax._3, n)
    pure val sc = sincos(theta)
    pure val s = sc._1
    pure val c = sc._2
    pure val d = SC - c
    List(List(c + mul(mul(x, x), d), mul(mul(x, y), d) - mul(z, s), mul(mul(x, z), d) + mul(y, s)),
         List(mul(mul(x, y), d) + mul(z, s), c + mul(mul(y, y), d), mul(mul(y, z), d) - mul(x, s)),
         List(mul(mul(x, z), d) - mul(y, s), mul(mul(y, z), d) + mul(x, s), c + mul(mul(z, z), d)))
  }
  pure def apply(m: Mat3, p: Vec3): Vec3 = {
    pure val a = m[0]
    pure val b = m[1]
    pure val c = m[2]
    ((a[0] * p._1 + a[1] * p._2 + a[2] * p._3) / SC, (b[0] * p._1 + b[1] * p._2 + b[2] * p._3) / SC,
     (c[0] * p._1 + c[1] * p._2 + c[2] * p._3) / SC)
  }
  pure def matmul(a: Mat3, b: Mat3): Mat3 = range(0, 3).foldl(List(), (rows, i) =>
    rows.append(range(0, 3).foldl(List(), (row, j) =>
      row.append(range(0, 3).foldl(0, (s, k) => s + a[i][k] * b[k][j]) / SC))))
  pure def transpose(a: Mat3): Mat3 = range(0, 3).foldl(List(), (rows, i) =>
    rows.append(range(0, 3).foldl(List(), (row, j) => row.append(a[j][i]))))

  // ------------------------------------------------------------------ points of the sphere
  /// longitude-like and height from two integers
  pure def spherePoint(a: int, b: int): Vec3 = {
    pure val z = (b * SC) / 1024
    pure val s = sqrt(SC - sq(z))
    pure val sc = sincos((a * SC) / 512)
    (mul(s, sc._2), mul(s, sc._1), z)
  }
}
