// -*- mode: Bluespec; -*-
/// Derivatives of what is seen, from the definition.
/// Light hidden by a disc changes at the rate at which the edge of the occultor sweeps over
/// bright surface: an integral along the part of the edge that lies in front of the disc.
module slope {
  import limbdark.* from "./limbdark"
  export limbdark.*

  /// integrals along the edge of the occultor inside the unit disc of brightness, and of brightness
  /// times cosine of the angle from the centre's direction
  pure def edge(u: List[Fx], b: Fx, r: Fx): (Fx, Fx) =
    if (r == 0 or b >= SC + r or r >= SC + b) (0, 0) else {
      pure val inside = b + r <= SC
      pure val last = if (inside) PI else acos(div(sq(b) + sq(r) - SC, 2 * mul(b, r)))
      // square of the height of the surface over the point at angle a: growing from the limb inwards
      // (z^2 at the last angle) + 2 b r (cos a - cos last), a = last - e
      pure def height2(e: Fx): Fx =
        (if (inside) mul(SC - b - r, SC + b + r) else 0) + 4 * mul(mul(b, r), mul(sin((2 * last - e) / 2), sin(e / 2)))
      pure val total = integrate(0, last, (a, d, e) => mul(r, brightness(u, sqrt(imax(0, height2(e))))))
      pure val along = integrate(0, last, (a, d, e) => mul(mul(r, cos(a)), brightness(u, sqrt(imax(0, height2(e))))))
      (2 * total, 2 * along)
    }
  /// derivatives of the dimming with respect to separation and radius ratio (b >= 0)
  pure def dimmingSlopes(u: List[Fx], bAny: Fx, r: Fx): (Fx, Fx) = {
    pure val k = edge(u, iabs(bAny), r)
    pure val s = isign(bAny)
    (s * div(k._2, discFlux(u)), -div(k._1, discFlux(u)))
  }
  /// with respect to the n-th coefficient of the law (the light hidden and the whole are linear in it)
  pure def dimmingByLaw(u: List[Fx], b: Fx, r: Fx): List[Fx] = {
    pure val h = hidden(u, b, r)
    pure val f = discFlux(u)
    range(0, u.length()).foldl(List(), (acc, n) => {
      pure val v = u.replaceAt(n, u[n] + SC)
      pure val dh = hidden(v, b, r) - h
      pure val df = discFlux(v) - f
      acc.append(-div(dh, f) + mul(div(h, f), div(df, f)))
    })
  }
}
