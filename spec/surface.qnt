// -*- mode: Bluespec; -*-
/// A surface: a map on a sphere seen from a distance, dimmed towards the limb, perhaps behind a disc.
/// Everything from the definition: where a point of the map is on the sky, and integrals over the disc.
/// Sky frame: x to the right, y up, z towards the observer. In the map's own frame the polar axis is y
/// and z is the meridian of longitude zero.
module surface {
  import harmonics.* from "./harmonics"
  export harmonics.*
  import limbdark as D from "./limbdark"

  pure val XAXIS: Vec3 = (SC, 0, 0)
  pure val YAXIS: Vec3 = (0, SC, 0)
  pure val ZAXIS: Vec3 = (0, 0, SC)

  // ------------------------------------------------------------ where things are
  /// a point of the map by latitude and longitude
  pure def mapPoint(lat: Fx, lon: Fx): Vec3 = {
    pure val a = sincos(lat)
    pure val o = sincos(lon)
    (mul(a._2, o._1), a._1, mul(a._2, o._2))
  }
  /// from the map to the sky: turn by theta about the pole (features move to the right, to the east),
  /// tilt the pole towards the observer (inclination: angle between the pole and the line of sight),
  /// roll by the obliquity (counter-clockwise)
  pure def toSky(inc: Fx, obl: Fx, theta: Fx): Mat3 =
    matmul(rotationMatrix(ZAXIS, obl), matmul(rotationMatrix(XAXIS, HALFPI - inc), rotationMatrix(YAXIS, theta)))
  pure def toMap(inc: Fx, obl: Fx, theta: Fx): Mat3 = transpose(toSky(inc, obl, theta))

  /// intensity at a point of the sphere given in the sky frame, seen face on at height z
  pure def intensityAt(y: List[Fx], L: int, u: List[Fx], m: Mat3, p: Vec3): Fx =
    mul(div(valueAt(y, L, apply(m, p)), PI), D::brightness(u, p._3))

  // ------------------------------------------------------------ the map in the frame of the sky
  /// Gauss-Legendre nodes and weights on [-1, 1]
  pure def gauss(n: int): List[(Fx, Fx)] = range(0, n).foldl(List(), (acc, i) => {
    pure val x0 = cos(((4 * i + 3) * PI) / (4 * n + 2))
    pure val root = range(0, 7).foldl((x0, SC), (s, it) => {
      pure val r = range(1, n).foldl((SC, s._1), (a, k) =>
        (a._2, ((2 * k + 1) * mul(s._1, a._2) - k * a._1) / (k + 1)))
      pure val pn = r._2
      pure val dp = div(n * (r._1 - mul(s._1, pn)), SC - sq(s._1))
      (s._1 - div(pn, dp), dp)
    })
    acc.append((root._1, div(2 * SC, mul(SC - sq(root._1), sq(root._2)))))
  })
  /// coefficients of p -> f(m p), by projection (exact for a map of degree L)
  pure def turned(y: List[Fx], L: int, m: Mat3): List[Fx] = {
    pure val n = 2 * L + 1
    pure val zero = range(0, (L + 1) * (L + 1)).foldl(List(), (acc, i) => acc.append(0))
    pure val tot = gauss(L + 1).foldl(zero, (acc, g) => {
      pure val s = sqrt(SC - sq(g._1))
      range(0, n).foldl(acc, (bcc, j) => {
        pure val sc = sincos((j * TWOPI) / n)
        pure val p = (mul(s, sc._2), mul(s, sc._1), g._1)
        pure val v = mul(valueAt(y, L, apply(m, p)), g._2)
        pure val h = harmonics(L, p)
        range(0, bcc.length()).foldl(List(), (ccc, k) => ccc.append(bcc[k] + mul(v, h[k])))
      })
    })
    range(0, tot.length()).foldl(List(), (acc, k) => acc.append(tot[k] / (2 * n)))
  }

  // ------------------------------------------------------------ integrals over the disc
  /// along a direction phi0 of the sky: sum over degrees for every order m, even and odd about phi0;
  /// c is aligned: (l, m) even, (l, -m) odd
  pure def aligned(c: List[Fx], L: int, b: Vec3): List[Fx] = {
    pure val h = sqrt(sq(b._1) + sq(b._2))
    pure val e = if (h < SC / 2^50) (SC, 0) else (div(b._1, h), div(b._2, h))
    pure val cs = range(1, L + 1).foldl(List((SC, 0)), (acc, m) => {
      pure val q = acc[m - 1]
      acc.append((mul(q._1, e._1) - mul(q._2, e._2), mul(q._2, e._1) + mul(q._1, e._2)))
    })
    range(0, (L + 1) * (L + 1)).foldl(List(), (acc, n) => {
      pure val l = isqrt(n)
      pure val m = n - l * l - l
      pure val k = cs[iabs(m)]
      acc.append(if (m == 0) c[n]
        else if (m > 0) mul(c[n], k._1) + mul(c[l * l + l - m], k._2)
        else mul(c[n], k._1) - mul(c[l * l + l - m], k._2))
    })
  }
  /// for every order m <= M: (even, odd) amplitude on the circle of radius p at height z
  pure def circle(c: List[Fx], L: int, M: int, p: Fx, z: Fx): List[(Fx, Fx)] =
    range(0, M + 1).foldl({ s: SC, q: SC, out: List() }, (a, m) => {
      pure val col = range(m, L + 1).foldl({ q1: 0, q0: 0, e: 0, o: 0 }, (b, l) => {
        pure val q = if (l == m) a.q else ((2 * l - 1) * mul(z, b.q1) - (l + m - 1) * b.q0) / (l - m)
        pure val v = mul(NORM[l * l + l + m], q)
        { q1: q, q0: b.q1, e: b.e + mul(c[l * l + l + m], v), o: if (m == 0) 0 else b.o + mul(c[l * l + l - m], v) }
      })
      { s: mul(a.s, p), q: a.q * (2 * m + 1), out: a.out.append((mul(col.e, a.s), mul(col.o, a.s))) }
    }).out
  /// integral of cos(k psi) over [-kappa, kappa], k = 0..n
  pure def arcs(kappa: Fx, n: int): List[Fx] = {
    pure val sc = sincos(kappa)
    range(1, n + 1).foldl({ s: 0, c: SC, out: List(2 * kappa) }, (a, k) => {
      pure val s = mul(a.s, sc._2) + mul(a.c, sc._1)
      { s: s, c: mul(a.c, sc._2) - mul(a.s, sc._1), out: a.out.append((2 * s) / k) }
    }).out
  }
  /// integrals of (brightness times map) and of (that times the velocity v1 cos psi + v2 sin psi at the
  /// limb, growing linearly from the centre) over an arc, per unit radius; orders up to M count
  pure def onArc(c: List[Fx], L: int, M: int, u: List[Fx], v1: Fx, v2: Fx, p: Fx, z: Fx, kappa: Fx): (Fx, Fx) = {
    pure val s = arcs(kappa, M + 1)
    pure val f = circle(c, L, M, p, z)
    pure val w = mul(p, D::brightness(u, z))
    pure val i0 = range(0, f.length()).foldl(0, (a, m) => a + mul(f[m]._1, s[m]))
    pure val i1 = range(0, f.length()).foldl(0, (a, m) => a + mul(mul(f[m]._1, v1), (s[if (m == 0) 1 else m - 1] + s[m + 1]) / 2)
      + (if (m == 0) 0 else mul(mul(f[m]._2, v2), (s[m - 1] - s[m + 1]) / 2)))
    (mul(w, i0), mul(mul(w, p), i1))
  }
  pure def heightAt(p: Fx): Fx = sqrt(mul(imax(0, SC - p), SC + p))
  /// light and momentum of the disc of radius R <= 1 around the centre (orders 0 and 1 of the map survive)
  pure def inside(c: List[Fx], L: int, u: List[Fx], v1: Fx, v2: Fx, R: Fx): (Fx, Fx) =
    (D::integrate(0, R, (p, da, db) => onArc(c, L, 0, u, 0, 0, p, heightAt(p), PI)._1),
     if (v1 == 0 and v2 == 0) 0 else D::integrate(0, R, (p, da, db) => onArc(c, L, imin(L, 1), u, v1, v2, p, heightAt(p), PI)._2))
  /// of the part of the disc behind an occultor at (bx, by) of radius r; c aligned with it
  pure def behind(c: List[Fx], L: int, u: List[Fx], v1: Fx, v2: Fx, b: Fx, r: Fx): (Fx, Fx) = {
    pure val inner = imax(0, imin(SC, r - b))
    pure val lo = imin(SC, iabs(b - r))
    pure val hi = imin(SC, b + r)
    pure val core = if (inner == 0) (0, 0) else inside(c, L, u, v1, v2, inner)
    if (b < SC / 2^60 or b >= SC + r or hi <= lo) core else {
      pure val a = D::integrate(lo, hi, (p, da, db) => onArc(c, L, L, u, 0, 0, p, heightAt(p), D::halfAngle(p, b, r))._1)
      pure val m = if (v1 == 0 and v2 == 0) 0
        else D::integrate(lo, hi, (p, da, db) => onArc(c, L, L, u, v1, v2, p, heightAt(p), D::halfAngle(p, b, r))._2)
      (core._1 + a, core._2 + m)
    }
  }
  type Disc = { L: int, c: List[Fx], u: List[Fx], amp: Fx, vx: Fx, vy: Fx }
  /// light and momentum of the visible disc, c in the frame of the sky; occultor in front if z > 0
  pure def seenLight(d: Disc, occulted: bool, b: Vec3, r: Fx): (Fx, Fx) = {
    pure val h = sqrt(sq(b._1) + sq(b._2))
    pure val e = if (h < SC / 2^50) (SC, 0) else (div(b._1, h), div(b._2, h))
    pure val ca = aligned(d.c, d.L, b)
    pure val v1 = mul(d.vx, e._1) + mul(d.vy, e._2)
    pure val v2 = mul(d.vy, e._1) - mul(d.vx, e._2)
    pure val all0 = inside(ca, d.L, d.u, v1, v2, SC)
    if (not(occulted) or b._3 <= 0 or h >= SC + r) all0
    else { pure val k = behind(ca, d.L, d.u, v1, v2, h, r)  (all0._1 - k._1, all0._2 - k._2) }
  }
  /// flux in units where a uniform map of amplitude 1 gives 1 whatever its limb darkening
  pure def flux(d: Disc, occulted: bool, b: Vec3, r: Fx): Fx =
    mul(d.amp, div(seenLight({ ...d, vx: 0, vy: 0 }, occulted, b, r)._1, D::discFlux(d.u)))
  /// mean velocity of the light
  pure def meanVelocity(d: Disc, occulted: bool, b: Vec3, r: Fx): Fx = {
    pure val k = seenLight(d, occulted, b, r)
    // (no light, no velocity)
    if (iabs(k._1) < SC / 2^40) 0 else div(k._2, k._1)
  }
}
