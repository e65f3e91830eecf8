// -*- mode: Bluespec; -*-
/// A limb-darkened disc of unit radius and an opaque occultor, from the definition:
/// the light hidden is the integral of the brightness over the lens they share.
module limbdark {
  import quad.* from "./quad"
  export quad.*

  /// brightness 1 - sum_n u_n (1 - z)^n at a point where the line of sight meets the
  /// surface at cosine z; u_1 is u[0]
  pure def brightness(u: List[Fx], z: Fx): Fx = {
    pure val w = SC - z
    SC - mul(w, horner(u, w))
  }
  /// integral of the brightness over the whole disc
  pure def discFlux(u: List[Fx]): Fx =
    mul(PI, SC - range(0, u.length()).foldl(0, (a, i) => a + (2 * u[i]) / ((i + 2) * (i + 3))))

  /// integral of the brightness over the concentric disc of radius p <= 1
  pure def innerFlux(u: List[Fx], p: Fx): Fx = {
    pure val z0 = sqrt(imax(0, SC - sq(p)))
    pure val w = SC - z0
    // integral_0^w (1 - w')(w'^n) dw' for every n, from the definition of the law
    pure val s = range(0, u.length()).foldl({ pw: mul(w, w), tot: 0 }, (a, i) =>
      { pw: mul(a.pw, w), tot: a.tot + mul(u[i], a.pw / (i + 2) - mul(a.pw, w) / (i + 3)) })
    mul(2 * PI, w - sq(w) / 2 - s.tot)
  }

  /// half the angle that the occultor covers on the circle of radius p around the centre
  pure def halfAngle(p: Fx, b: Fx, r: Fx): Fx =
    acos(div(sq(p) + sq(b) - sq(r), 2 * mul(p, b)))

  /// light hidden by an occultor of radius r at distance b
  pure def hidden(u: List[Fx], bAny: Fx, rAny: Fx): Fx = {
    pure val b = iabs(bAny)
    pure val r = iabs(rAny)
    pure val inner = imax(0, imin(SC, r - b))          // radius of the part wholly covered
    pure val lo = imin(SC, iabs(b - r))
    pure val hi = imin(SC, b + r)
    pure val ring = if (b < SC / 2^60 or b >= SC + r) 0
      else integrate(lo, hi, (p, da, db) => {
        // z = sqrt(1 - p^2), from the distance to the limb
        pure val gap = SC - p
        pure val z = sqrt(mul(gap, SC + p))
        mul(mul(2 * p, halfAngle(p, b, r)), brightness(u, z))
      })
    innerFlux(u, inner) + ring
  }
  /// relative change of the flux
  pure def dimming(u: List[Fx], b: Fx, r: Fx): Fx = -div(hidden(u, b, r), discFlux(u))

  /// area of the lens in closed form, for checking
  pure def lensArea(bAny: Fx, r: Fx): Fx = {
    pure val b = iabs(bAny)
    if (b >= SC + r) 0
    else if (b <= r - SC) PI
    else if (b <= SC - r) mul(PI, sq(r))
    else {
      pure val k0 = acos(div(sq(b) + sq(r) - SC, 2 * mul(b, r)))
      pure val k1 = acos(div(sq(b) + SC - sq(r), 2 * b))
      pure val kite = sqrt(imax(0, mul(mul(SC + r - b, b + r - SC), mul(b + SC - r, b + SC + r)))) / 2
      mul(sq(r), k0) + k1 - kite
    }
  }
}
