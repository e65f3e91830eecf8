// -*- mode: Bluespec; -*-
/// Changes of basis, built from definitions: harmonics as derivatives of Legendre polynomials,
/// Green's basis as the curl of its vector field, limb-darkening laws as powers of 1 - z.
module basis {
  import poly.* from "./poly"
  import wigner as W from "./wigner"

  // ------------------------------------------------------------ harmonics as polynomials (integers / 2^l)
  /// coefficients of z^k in 2^l P_l(z)
  pure def legendre(l: int): List[int] = range(0, l + 1).foldl(List(), (acc, k) =>
    if ((l - k) % 2 == 1) acc.append(0)
    else { pure val j = (l - k) / 2
           acc.append(parity(j) * W::choose(l, j) * W::choose(2 * l - 2 * j, l)) })
  /// its m-th derivative
  pure def derive(c: List[int], m: int): List[int] = range(0, imax(1, c.length() - m)).foldl(List(), (acc, k) =>
    acc.append(if (k + m >= c.length()) 0 else range(0, m).foldl(c[k + m], (a, i) => a * (k + m - i))))
  /// Re or Im of (x + i y)^m
  pure def azimuth(m: int): Poly = {
    pure val a = iabs(m)
    range(0, a + 1).foldl(ZERO, (p, j) =>
      if ((j % 2 == 0) == (m >= 0)) p.put((a - j, j, 0), parity(j / 2) * W::choose(a, j)) else p)
  }
  /// 2^l Y_lm / normalisation, as a polynomial on the sphere
  pure def harmonicPoly(l: int, m: int): Poly = {
    pure val q = derive(legendre(l), iabs(m))
    pure val zs = collect(range(0, q.length()).foldl(List(), (acc, k) =>
      if (q[k] == 0) acc else reduceZ(k, q[k]).foldl(acc, (a, t) => a.append(t))))
    times(azimuth(m), zs)
  }
  /// z^k: (1 - x^2 - y^2)^(k/2) z^(k%2)
  pure def reduceZ(k: int, c: int): List[Term] = {
    pure val h = k / 2
    range(0, h + 1).foldl(List(), (acc, a) => range(0, a + 1).foldl(acc, (bcc, b) =>
      bcc.append({ i: 2 * (a - b), j: 2 * b, k: k % 2, c: c * parity(a) * W::choose(h, a) * W::choose(a, b) })))
  }
  /// extra digits for the tiny normalisations of high orders
  pure val HEAD = 2^160
  /// normalisation times HEAD, for sqrt(4 pi) Y_lm
  pure def norm(l: int, m: int): Fx =
    isqrt(((if (m == 0) 1 else 2) * (2 * l + 1) * W::FACT[l - iabs(m)] * SC * SC * HEAD * HEAD) / W::FACT[l + iabs(m)])
  /// column of the change of basis: the documented constant makes Y_00 the polynomial 1/pi
  pure def column(l: int, m: int): List[Fx] = {
    pure val k = div(norm(l, m), PI)
    dense(harmonicPoly(l, m), l).foldl(List(), (acc, c) => acc.append((c * k) / (2^l * HEAD)))
  }

  // ------------------------------------------------------------ Green's basis
  /// partial derivatives on the disc of a polynomial without z
  pure def dx(p: Poly): Poly = p.keys().fold(ZERO, (acc, q) => if (q._1 == 0) acc else acc.plus((q._1 - 1, q._2, q._3), q._1 * p.get(q)))
  pure def dy(p: Poly): Poly = p.keys().fold(ZERO, (acc, q) => if (q._2 == 0) acc else acc.plus((q._1, q._2 - 1, q._3), q._2 * p.get(q)))
  pure val Z: Poly = Map((0, 0, 1) -> 1)
  pure val Z2: Poly = Map((0, 0, 0) -> 1, (2, 0, 0) -> -1, (0, 2, 0) -> -1)
  /// d/dx of z^3 p = z (z^2 p_x - 3 x p)
  pure def dxz3(p: Poly): Poly = times(Z, add(times(Z2, dx(p)), scale(times(Map((1, 0, 0) -> 1), p), -3)))
  pure def dyz3(p: Poly): Poly = times(Z, add(times(Z2, dy(p)), scale(times(Map((0, 1, 0) -> 1), p), -3)))
  /// nu even: field x^(mu/2+1) y^(nu/2) along y; odd: z^3 times a monomial; (1, 0) is the function z
  pure def green(l: int, m: int): Poly = {
    pure val mu = l - m
    pure val nu = l + m
    if (nu % 2 == 0) dx(Map((mu / 2 + 1, nu / 2, 0) -> 1))
    else if (l == 1) Z
    else if (mu == 1 and l % 2 == 0) scale(dyz3(Map((l - 2, 0, 0) -> 1)), -1)
    else if (mu == 1) scale(dyz3(Map((l - 3, 1, 0) -> 1)), -1)
    else dxz3(Map(((mu - 3) / 2, (nu - 1) / 2, 0) -> 1))
  }

  // ------------------------------------------------------------ limb darkening
  /// row n: the factor of u_n, -(1 - z)^n; row 0 is the constant
  pure def law(n: int): Poly =
    if (n == 0) Map((0, 0, 0) -> 1)
    else collect(range(0, n + 1).foldl(List(), (acc, k) =>
      reduceZ(k, -parity(k) * W::choose(n, k)).foldl(acc, (a, t) => a.append(t))))
}
