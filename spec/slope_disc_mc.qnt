// -*- mode: Bluespec; -*-
/// P27: how fast the light of a limb-darkened star changes with the place and the size of what is in
/// front of it, and with the law of limb darkening. Laws and occultors are those of P11.
module slope_disc_mc {
  import system_mc.* from "./system_mc"
  import slope as S from "./slope"

  var slopes: (int, int)             // by separation, by radius ratio
  var byLaw: List[int]
  var turn: int

  action initDisc = all { init, slopes' = (0, 0), byLaw' = List(), turn' = 0 }
  action measureSlopes: bool = all {
    act' = "slopes", keep, flux' = flux, slopes' = S::dimmingSlopes(cu, geo.b, geo.r), byLaw' = S::dimmingByLaw(cu, geo.b, geo.r), left' = left
  }
  // law, then six occultors, each followed by its slopes
  action stepSlopes =
    if (turn % 13 == 0) all { setLaw, slopes' = (0, 0), byLaw' = List(), left' = left, turn' = turn + 1 }
    else if (turn % 13 % 2 == 1) all { occult, slopes' = (0, 0), byLaw' = List(), left' = left, turn' = turn + 1 }
    else all { measureSlopes, turn' = turn + 1 }

  /// the edge integrals are the limits of difference quotients (away from the contacts, where third derivatives are large)
  pure val H: int = S::SC / 2^44
  pure def far(d: int): bool = S::iabs(d) > S::SC / 2^12
  val away = {
    val b = S::iabs(geo.b)
    far(b - S::SC - geo.r) and far(b - S::iabs(S::SC - geo.r)) and far(b) and geo.r > S::SC / 2^12
  }
  val quotients = act != "slopes" or not(away) or and {
    near(slopes._1, (S::dimming(cu, geo.b + H, geo.r) - S::dimming(cu, geo.b - H, geo.r)) * 2^43, S::SC / 2^24),
    near(slopes._2, (S::dimming(cu, geo.b, geo.r + H) - S::dimming(cu, geo.b, geo.r - H)) * 2^43, S::SC / 2^24),
  }
  /// the light cannot grow with the radius of the occultor of a star that shines everywhere
  val monotone = act != "slopes" or cu.someIn(v => v < 0) or S::isum(cu) > S::SC or slopes._2 <= S::SC / 2^60
  /// moving a dark disc by db changes at most as much as widening it by db
  val bounded2 = act != "slopes" or cu.someIn(v => v < 0) or S::isum(cu) > S::SC or S::iabs(slopes._1) <= -slopes._2 + S::SC / 2^60
  val invSlopes = and { inv, quotients, monotone, bounded2 }
}
