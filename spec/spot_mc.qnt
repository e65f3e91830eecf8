// -*- mode: Bluespec; -*-
/// P26: spots. The profile of a spot is a least-squares fit of Legendre polynomials to a dark disc with a soft
/// edge, smoothed; the map is that profile about the place asked for, times the contrast, on a uniform map.
module spot_mc {
  import surface.* from "./surface"

  var act: str
  var deg: int
  var points: int                    // of the fit
  var sharp: int                     // steepness of the edge
  var contrast: Fx
  var radius: Fx
  var lat: Fx
  var lon: Fx
  var profile: List[Fx]              // coefficient of every degree for contrast one
  var coef: List[Fx]                 // the map
  var probes: List[(Fx, Fx, Fx)]     // latitude, longitude, value of the map there
  var n: int

  pure val MAXDEG = 12
  /// sqrt(2l+1) P_l(cos t) on the grid of the fit
  pure def legendre(x: Fx, L: int): List[Fx] =
    range(1, L + 1).foldl({ q1: SC, q0: 0, out: List(SC) }, (a, l) => {
      pure val q = ((2 * l - 1) * mul(x, a.q1) - (l - 1) * a.q0) / l
      { q1: q, q0: a.q1, out: a.out.append(q) }
    }).out
  pure def gridOf(k: int): List[List[Fx]] = range(0, k).foldl(List(), (acc, i) => {
    pure val p = legendre(cos((i * PI) / (k - 1)), MAXDEG)
    acc.append(range(0, MAXDEG + 1).foldl(List(), (b, l) => b.append(mul(ROOTS[l], p[l]))))
  })
  pure val ROOTS: List[Fx] = range(0, MAXDEG + 1).foldl(List(), (acc, l) => acc.append(sqrt((2 * l + 1) * SC)))
  pure val GRID300 = gridOf(300)
  pure val GRID90 = gridOf(90)
  pure def gram(g: List[List[Fx]]): List[List[Fx]] =
    range(0, MAXDEG + 1).foldl(List(), (acc, i) => acc.append(range(0, MAXDEG + 1).foldl(List(), (bcc, j) => bcc.append(
      if (j < i) acc[j][i] else range(0, g.length()).foldl(0, (s, k) => s + g[k][i] * g[k][j]) / SC))))
  pure val GRAM300 = gram(GRID300)
  pure val GRAM90 = gram(GRID90)
  pure def gridFor(k: int): List[List[Fx]] = if (k == 300) GRID300 else GRID90
  pure def gramFor(k: int): List[List[Fx]] = if (k == 300) GRAM300 else GRAM90

  /// solve a (symmetric, positive) system by elimination
  pure def solve(m: List[List[Fx]], b: List[Fx], N: int): List[Fx] = {
    pure val e = range(0, N).foldl({ m: m, b: b }, (s, p) =>
      range(p + 1, N).foldl(s, (q, i) => {
        pure val f = div(q.m[i][p], s.m[p][p])
        { m: q.m.replaceAt(i, range(0, N).foldl(List(), (acc, j) => acc.append(q.m[i][j] - mul(f, s.m[p][j])))),
          b: q.b.replaceAt(i, q.b[i] - mul(f, s.b[p])) }
      }))
    range(0, N).foldl(b, (x, k) => {
      pure val i = N - 1 - k
      x.replaceAt(i, div(range(i + 1, N).foldl(e.b[i], (a, j) => a - mul(e.m[i][j], x[j])), e.m[i][i]))
    })
  }
  /// -1 inside, 0 outside, a soft edge in between
  pure def edge(t: Fx, r: Fx, f: int): Fx = {
    pure val z = f * (t - r)
    if (z > 100 * SC) 0 else if (z < -100 * SC) -SC else {
      pure val e = exp(iabs(z))
      // 1 / (1 + e^-z) - 1
      if (z >= 0) -div(SC, e + SC) else div(SC, SC + e) - SC
    }
  }
  pure def smoothing(L: int): Fx = if (L < 4) SC / 2 else (2 * SC) / L
  pure def profileOf(L: int, k: int, f: int, r: Fx): List[Fx] = {
    pure val g = gridFor(k)
    pure val b = range(0, k).foldl(List(), (acc, i) => acc.append(edge((i * PI) / (k - 1), r, f)))
    pure val rhs = range(0, L + 1).foldl(List(), (acc, l) => acc.append(range(0, k).foldl(0, (s, i) => s + g[i][l] * b[i]) / SC))
    pure val fit = solve(gramFor(k), rhs, L + 1)
    range(0, L + 1).foldl(List(), (acc, l) => acc.append(mul(fit[l], exp(-(l * (l + 1) * sq(smoothing(L))) / 2))))
  }
  /// the profile at a distance with cosine c from the centre
  pure def profileAt(p: List[Fx], L: int, c: Fx): Fx = {
    pure val q = legendre(c, L)
    range(0, L + 1).foldl(0, (a, l) => a + mul(p[l], mul(ROOTS[l], q[l])))
  }
  /// the same around a point: the addition theorem
  pure def around(p: List[Fx], L: int, c: Vec3): List[Fx] = {
    pure val h = harmonics(L, c)
    range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) => { pure val l = isqrt(i)  acc.append(mul(p[l], div(h[i], ROOTS[l]))) })
  }
  pure val HALFPI_D: Fx = 884279719003555 * (SC / 2^49)

  action start(L: int): bool = all {
    act' = "start", deg' = L, points' = 300, sharp' = 300, contrast' = 0, radius' = SC, lat' = 0, lon' = 0, profile' = List(), coef' = List(), probes' = List(), n' = 0
  }
  action init0 = start(0)
  action init1 = start(1)
  action init2 = start(2)
  action init4 = start(4)
  action init6 = start(6)
  action init9 = start(9)
  action init12 = start(12)
  action init = init4

  /// a size of spot
  action resize: bool = {
    nondet r = 1.to(1600).oneOf()
    nondet k = Set(300, 300, 90).oneOf()
    nondet f = Set(300, 40).oneOf()
    val rr = r * (SC / 2^10)
    all { act' = "size", deg' = deg, points' = k, sharp' = f, contrast' = 0, radius' = rr, lat' = 0, lon' = 0,
          profile' = profileOf(deg, k, f, rr), coef' = List(), probes' = List(), n' = n + 1 }
  }
  /// a spot of that size: how dark and where
  action place: bool = {
    nondet c = (-128).to(128).oneOf()
    nondet cz = 0.to(9).oneOf()
    nondet a = (-1600).to(1600).oneOf()
    nondet b = (-3200).to(3200).oneOf()
    nondet ak = 0.to(9).oneOf()
    nondet bk = 0.to(9).oneOf()
    nondet ps = 0.to(7).setOfMaps((-1600).to(1600)).oneOf()
    val la = if (ak == 0) 0 else if (ak == 1) HALFPI_D else if (ak == 2) -HALFPI_D else a * (SC / 2^10)
    val lo = if (bk == 0) 0 else if (bk == 1) HALFPI_D else if (bk == 2) -HALFPI_D else if (bk == 3) 2 * HALFPI_D else b * (SC / 2^10)
    val ct = if (cz == 0) 0 else c * (SC / 2^7)
    val centre = mapPoint(la, lo)
    // the map is uniform but for the spot
    val at = around(profile, deg, centre)
    val pts = List((la, lo), (la, lo)).concat(range(0, 4).foldl(List(), (acc, i) => acc.append((ps.get(2 * i) * (SC / 2^10), 2 * ps.get(2 * i + 1) * (SC / 2^10)))))
    all { act' = "place", deg' = deg, points' = points, sharp' = sharp, contrast' = ct, radius' = radius, lat' = la, lon' = lo, profile' = profile,
          coef' = range(0, at.length()).foldl(List(), (acc, i) => acc.append((if (i == 0) SC else 0) + mul(ct, at[i]))),
          probes' = range(0, pts.length()).foldl(List(), (acc, i) => {
            val q = mapPoint(pts[i]._1, pts[i]._2)
            acc.append((pts[i]._1, pts[i]._2, SC + mul(ct, profileAt(profile, deg,
              mul(q._1, centre._1) + mul(q._2, centre._2) + mul(q._3, centre._3)))))
          }), n' = n + 1 }
  }
  action step = if (n % 5 == 0) resize else place

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  /// the coefficients and the profile around the centre are the same function
  val sameFunction = act != "place" or range(0, probes.length()).foldl(true, (a, i) =>
    a and near(valueAt(coef, deg, mapPoint(probes[i]._1, probes[i]._2)), probes[i]._3, SC / 2^70))
  /// the centre is darker for positive contrast, and nowhere is the map changed more (up to the ringing of a sharp
  /// edge at finite degree; spots up to a radian)
  pure def deepest(ps: List[(Fx, Fx, Fx)], c: Fx): bool = {
    pure val d0 = ps[0]._3 - SC
    and {
      if (c > 0) d0 < 0 else if (c < 0) d0 > 0 else d0 == 0,
      range(0, ps.length()).foldl(true, (a, i) => a and iabs(ps[i]._3 - SC) <= (iabs(d0) * 11) / 10),
    }
  }
  val darkest = act != "place" or deg < 1 or radius > SC or sharp < 300 or points < 300 or deepest(probes, contrast)
  val uniform = act != "place" or contrast != 0 or near(coef[0], SC, 0)
  val inv = and { sameFunction, darkest, uniform }
}
