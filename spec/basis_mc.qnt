// -*- mode: Bluespec; -*-
/// P18: the columns of the basis matrices one after another (exhaustive by degree),
/// and limb-darkening laws written as maps.
module basis_mc {
  import basis.* from "./basis"
  import harmonics as H from "./harmonics"
  import poly.* from "./poly"
  import limbdark as D from "./limbdark"

  var act: str
  var lm: (int, int)
  var n: int
  var ycol: List[Fx]      // harmonic as a polynomial
  var gcol: List[int]     // Green's function as a polynomial
  var urow: List[int]     // limb-darkening power as a polynomial
  var u: List[Fx]
  var zs: List[Fx]        // heights
  var vals: List[Fx]      // normalised brightness there
  var spot: (Fx, Fx, Fx)  // a point, and the harmonics there (independent evaluation)
  var there: Fx

  action init = all { act' = "start", lm' = (0, 0), n' = 0, ycol' = List(), gcol' = List(), urow' = List(),
    u' = List(), zs' = List(), vals' = List(), spot' = (0, 0, SC), there' = 0 }
  action initAt(k: int): bool = all { act' = "start", lm' = (0, 0), n' = k, ycol' = List(), gcol' = List(), urow' = List(),
    u' = List(), zs' = List(), vals' = List(), spot' = (0, 0, SC), there' = 0 }
  action init0 = initAt(0)
  action init64 = initAt(64)
  action init121 = initAt(121)
  action init169 = initAt(169)
  action init225 = initAt(225)
  action init289 = initAt(289)
  action init361 = initAt(361)
  action step = {
    val l = isqrt(n)
    val m = n - l * l - l
    val p = H::spherePoint(n * 53 + 7, (n * 197) % 2001 - 1000)
    all {
      act' = "column", lm' = (l, m), n' = n + 1, ycol' = column(l, m), gcol' = dense(green(l, m), l),
      urow' = if (n <= 20) dense(law(n), n) else List(), u' = List(), zs' = List(), vals' = List(),
      spot' = p, there' = { val h = H::harmonics(l, p)  h[n] }
    }
  }
  // a law as a map
  action stepLaw = {
    nondet k = 0.to(6).oneOf()
    nondet c = 1.to(6).setOfMaps((-1000).to(1000)).oneOf()
    val v = range(1, k + 1).foldl(List(), (acc, i) => acc.append(c.get(i) * (SC / 2^11)))
    val w = if (D::discFlux(v) > SC / 4) v else range(1, k + 1).foldl(List(), (acc, i) => acc.append(iabs(c.get(i)) * (SC / 2^13)))
    val pts = range(0, 8).foldl(List(), (acc, i) => acc.append(if (i == 0) SC else if (i == 1) 0 else ((i * 131 + n * 7) % 1000) * (SC / 1000)))
    all { act' = "law", lm' = (0, 0), n' = n + 1, ycol' = List(), gcol' = List(), urow' = List(), u' = w, zs' = pts,
          vals' = pts.foldl(List(), (acc, z) => acc.append(div(D::brightness(w, z), D::discFlux(w)))), spot' = (0, 0, SC), there' = 0 }
  }

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  pure def evaluate(c: List[Fx], p: (Fx, Fx, Fx)): Fx = range(0, c.length()).foldl(0, (a, k) => {
    pure val m = mono(k)
    if (c[k] == 0) a else a + mul(c[k], mul(mul(powi(p._1, m._1), powi(p._2, m._2)), powi(p._3, m._3)))
  })
  /// the polynomial is the harmonic computed by recursion
  val agrees = act != "column" or near(mul(evaluate(ycol, spot), PI), there, SC / 2^44)
  /// the power is the power
  val power = act != "column" or urow.length() == 0 or n == 1 or
    near(evaluate(urow.foldl(List(), (acc, c) => acc.append(c * SC)), spot), -powi(SC - spot._3, n - 1), SC / 2^60)
  val inv = and { agrees, power }
}
