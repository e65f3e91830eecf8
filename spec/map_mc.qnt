// -*- mode: Bluespec; -*-
/// P16: a shelf of maps, made from coefficients or vectors, scaled, normalised, multiplied, indexed.
module map_mc {
  import harmonics.* from "./harmonics"

  var act: str
  var shelf: List[Ylm]
  var from: (int, int)
  var factor: Fx
  var given: List[(int, int, Fx)]     // terms in the order given
  var vec: List[Fx]                   // dense coefficients of the result, or given
  var degr: int
  var zonal: bool                     // every order is zero
  var n: int

  pure val G: Fx = SC / 2^8
  pure def zonalOf(f: Ylm): bool = f.keys().forall(k => k._2 == 0)

  action make: bool = {
    nondet count = 1.to(5).oneOf()
    nondet l = 1.to(5).setOfMaps(0.to(200)).oneOf()
    nondet c = 1.to(5).setOfMaps((-600).to(600)).oneOf()
    nondet top = 0.to(7).oneOf()
    nondet kind = 0.to(3).oneOf()
    val cap = (top + 1) * (top + 1)
    val ts = range(1, count + 1).foldl({ out: List(), seen: Set() }, (a, k) => {
      val p = l.get(k) % cap
      val ell = isqrt(p)
      // the constant term often, sometimes zonal maps
      val q = if (kind <= 1 and k == count) (0, 0) else if (kind == 2) (ell, 0) else (ell, p - ell * ell - ell)
      if (a.seen.contains(q)) a
      else { out: a.out.append((q._1, q._2, c.get(k) * G)), seen: a.seen.union(Set(q)) }
    }).out
    val f = ts.foldl(Map(), (m, t) => m.put((t._1, t._2), t._3))
    all { act' = "make", shelf' = shelf.append(f), from' = (0, 0), factor' = 0, given' = ts,
          degr' = mdeg(f), vec' = densify(f), zonal' = zonalOf(f) }
  }
  action fromVector: bool = {
    nondet l = 0.to(3).oneOf()
    nondet c = 0.to(15).setOfMaps((-600).to(600)).oneOf()
    nondet norm = Set(true, false).oneOf()
    val v = range(0, (l + 1) * (l + 1)).foldl(List(), (acc, k) => acc.append((if (k == 0 and c.get(k) == 0) 5 else c.get(k)) * G))
    val f = sparsify(v)
    val g = f.keys().mapBy(k => if (norm) div(f.get(k), v[0]) else f.get(k))
    all { act' = if (norm) "vector-normalised" else "vector", shelf' = shelf.append(g), from' = (0, 0), factor' = 0,
          given' = range(0, v.length()).foldl(List(), (acc, k) => acc.append((isqrt(k), 0, v[k]))),
          degr' = l, vec' = densify(g), zonal' = l == 0 }
  }
  action scaleBy: bool = {
    nondet ka = 0.to(1000).oneOf()
    nondet c = (-600).to(600).oneOf()
    nondet left = Set(true, false).oneOf()
    val a = ka % shelf.length()
    val f = shelf[a].keys().mapBy(k => mul(c * G, shelf[a].get(k)))
    all { act' = if (left) "rscale" else "scale", shelf' = shelf.append(f), from' = (a, a), factor' = c * G, given' = List(),
          degr' = mdeg(f), vec' = densify(f), zonal' = zonalOf(f) }
  }
  action normalise: bool = {
    nondet ka = 0.to(1000).oneOf()
    val a = ka % shelf.length()
    val c = get0(shelf[a], 0, 0)
    val f = shelf[a].keys().mapBy(k => div(shelf[a].get(k), c))
    all { iabs(c) > SC / 2^10, act' = "normalise", shelf' = shelf.append(f), from' = (a, a), factor' = c, given' = List(),
          degr' = mdeg(f), vec' = densify(f), zonal' = zonalOf(f) }
  }
  action multiply: bool = {
    nondet ka = 0.to(1000).oneOf()
    nondet kb = 0.to(1000).oneOf()
    val a = ka % shelf.length()
    val b = kb % shelf.length()
    val v = product(shelf[a], shelf[b])
    val f = sparsify(v)
    all { shelf[a].keys().size() * shelf[b].keys().size() <= 260, mdeg(shelf[a]) + mdeg(shelf[b]) <= 12,
          act' = "multiply", shelf' = shelf.append(f), from' = (a, b), factor' = 0, given' = List(),
          degr' = mdeg(shelf[a]) + mdeg(shelf[b]), vec' = v, zonal' = zonalOf(shelf[a]) and zonalOf(shelf[b]) }
  }
  action start = all { act' = "start", shelf' = List(), from' = (0, 0), factor' = 0, given' = List(), vec' = List(),
                       degr' = 0, zonal' = true }
  action init = all { start, n' = 0 }
  action step = if (n % 12 == 11) all { start, n' = n + 1 }
    else if (shelf.length() < 2) any { all { make, n' = n + 1 }, all { fromVector, n' = n + 1 } }
    else any { all { make, n' = n + 1 }, all { fromVector, n' = n + 1 }, all { scaleBy, n' = n + 1 },
               all { normalise, n' = n + 1 }, all { multiply, n' = n + 1 } , all { multiply, n' = n + 1 } }

  // ------------------------------------------------------------ laws
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol
  /// the result is the product of the functions at points of the sphere
  val pointwise = act != "multiply" or 0.to(2).forall(k => {
    val p = spherePoint(n * 37 + 811 * k, ((n * 91 + 317 * k) % 2000) - 1000)
    val fa = valueAt(densify(shelf[from._1]), mdeg(shelf[from._1]), p)
    val fb = valueAt(densify(shelf[from._2]), mdeg(shelf[from._2]), p)
    near(valueAt(vec, degr, p), mul(fa, fb), (SC + iabs(mul(fa, fb)) + iabs(fa) + iabs(fb)) / 2^80)
  })
  val inverse = shelf.length() == 0 or shelf[shelf.length() - 1].keys().forall(k =>
    vec[k._1 * (k._1 + 1) + k._2] == shelf[shelf.length() - 1].get(k))
  val inv = and { pointwise, inverse }
}
