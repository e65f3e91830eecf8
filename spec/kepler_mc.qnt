// -*- mode: Bluespec; -*-
/// P03: requests to the Kepler solver, and their exact answers.
module kepler_mc {
  import kepler.* from "./kepler"

  var inp: str -> Fx          // mean anomaly and eccentricity asked for
  var out: str -> Fx          // exact sin f, cos f and derivatives

  pure def answer(m: Fx, e: Fx): str -> Fx = {
    pure val f = trueAnom(m, e)
    pure val q = SC + mul(e, f._2)
    pure val ome2 = SC - sq(e)
    pure val dfdm = div(sq(q), mul(ome2, sqrt(ome2)))
    pure val dfde = div(mul(SC + q, f._1), ome2)
    Map("s" -> f._1, "c" -> f._2,
        "sm" -> mul(f._2, dfdm), "cm" -> -mul(f._1, dfdm),
        "se" -> mul(f._2, dfde), "ce" -> -mul(f._1, dfde), "fm" -> dfdm, "fe" -> dfde)
  }
  action ask(m: Fx, e: Fx): bool = all { inp' = Map("M" -> m, "e" -> e), out' = answer(m, e) }
  action init = ask(SC / 2, SC / 4)

  pure val D = 2^112 / 2^48                      // grid on which every input is a double
  action step = {
    nondet em = 1.to(2^22 - 1).oneOf()           // eccentricity mantissa
    nondet mm = (-(2^24)).to(2^24).oneOf()
    nondet small = 0.to(44).oneOf()
    nondet k = (-40).to(40).oneOf()
    any {
      // anything goes
      ask(mm * (SC / 2^21), em * (SC / 2^22)),
      ask(mm * (SC / 2^17), em * (SC / 2^22)),
      // nearly parabolic, small anomaly: the hard corner
      ask(mm * (SC / 2^24) / 2^small * 1, SC - SC / 2^(small / 2 + 1)),
      ask((mm / 2^(small / 3)) * (SC / 2^24), SC - em * D),
      // (nearly) circular
      ask(mm * (SC / 2^21), 0),
      ask(mm * (SC / 2^21), em * D),
      // around multiples of pi, as doubles of course
      ask((((k * PI) / (8 * D)) * 8 * D) + (mm / 64 * 64 * D), em * (SC / 2^22)),
      ask(0, em * (SC / 2^22)),
      ask(k * SC, em * (SC / 2^22)),
    }
  }

  val inv = and {
    keplerHolds(inp.get("M"), inp.get("e")),
    near(sq(out.get("s")) + sq(out.get("c")), SC, EPS),
    // derivative rows against a difference quotient of the exact solution
    {
      val h = SC / 2^40
      val e = inp.get("e")
      val p = trueAnom(inp.get("M") + h, e)
      val m = trueAnom(inp.get("M") - h, e)
      e > SC - SC / 2^6 or near(div(p._1 - m._1, 2 * h), out.get("sm"), SC / 2^25 + iabs(out.get("fm")) / 2^25)
    },
    {
      val h = SC / 2^40
      val e = inp.get("e")
      val p = trueAnom(inp.get("M"), e + h)
      val m = trueAnom(inp.get("M"), e - h)
      e > SC - SC / 2^6 or e < SC / 2^30 or near(div(p._1 - m._1, 2 * h), out.get("se"), SC / 2^25 + iabs(out.get("fe")) / 2^25)
    },
  }
}
