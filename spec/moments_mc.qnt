// -*- mode: Bluespec; -*-
/// P21: what each term of the polynomial basis gives when nothing is in front, one after another
/// (exhaustive by degree).
module moments_mc {
  import moments.* from "./moments"
  import poly as P from "./poly"

  var n: int
  var term: (int, int, int)
  var moment: Fx
  /// the terms multiplied by x^2 and by y^2
  var wider: (Fx, Fx)

  action at(k: int): bool = {
    val e = P::mono(k)
    all { n' = k, term' = e, moment' = discMoment(e._1, e._2, e._3),
          wider' = (discMoment(e._1 + 2, e._2, e._3), discMoment(e._1, e._2 + 2, e._3)) }
  }
  action init = at(0)
  action step = at(n + 1)

  pure def near(x: Fx, y: Fx): bool = iabs(x - y) <= SC / 2^90
  /// of the two directions
  val shared = near(wider._1 * (term._2 + 1), wider._2 * (term._1 + 1))
  /// towards the limb: r^2 (1 - r^2)^(k/2) r^(i + j) dr
  val outwards = near((wider._1 + wider._2) * (term._1 + term._2 + 4 + term._3), moment * (term._1 + term._2 + 2))
  /// symmetric maps only
  val odd = term._1 % 2 + term._2 % 2 == 0 or moment == 0
  val falls = 0 <= wider._1 and wider._1 <= moment and 0 <= wider._2 and wider._2 <= moment
  val inv = and { shared, outwards, odd, falls }
}
