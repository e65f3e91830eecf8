// -*- mode: Bluespec; -*-
/// P17: a shelf of polynomials on the sphere, made from terms or vectors, added, multiplied, evaluated.
module poly_mc {
  import poly.* from "./poly"

  var act: str
  var shelf: List[Poly]            // the functions, exactly
  var from: (int, int)             // positions operated on
  var given: List[Term]            // the terms given, in the order given
  var vec: List[int]               // the dense vector given / expected for the result
  var matrix: List[List[int]]      // product matrix expected
  var degr: int                    // degree expected of the result (or asked)
  var pt: (int, int, int, int)     // point (a, b, c)/d
  var val1: int                    // value there times d^deg
  var n: int

  pure val NOPT = (0, 0, 1, 1)
  pure def isLit(p: Poly): bool = p.keys().size() > 0
  /// a point of the sphere with rational coordinates
  pure def rational(u: int, v: int, w: int): (int, int, int, int) =
    (2 * u * w, 2 * v * w, w * w - u * u - v * v, w * w + u * u + v * v)

  action make: bool = {
    nondet count = 1.to(6).oneOf()
    nondet l = 1.to(6).setOfMaps(0.to(120)).oneOf()
    nondet c = 1.to(6).setOfMaps((-9).to(9)).oneOf()
    nondet top = 0.to(4).oneOf()
    val cap = (top + 1) * (top + 1)
    // distinct monomials in random order
    val ts = range(1, count + 1).foldl({ out: List(), seen: Set() }, (a, k) => {
      val m = mono(l.get(k) % cap)
      if (a.seen.contains(m)) a
      else { out: a.out.append({ i: m._1, j: m._2, k: m._3, c: c.get(k) }), seen: a.seen.union(Set(m)) }
    }).out
    val p = collect(ts)
    all { act' = "make", shelf' = shelf.append(p), from' = (0, 0), given' = ts, degr' = degree(p),
          vec' = dense(p, degree(p)), pt' = NOPT, val1' = 0, matrix' = List() }
  }
  action fromVector: bool = {
    nondet l = 0.to(4).oneOf()
    nondet c = 0.to(24).setOfMaps((-9).to(9)).oneOf()
    val v = range(0, (l + 1) * (l + 1)).foldl(List(), (acc, k) => acc.append(c.get(k)))
    val p = range(0, v.length()).foldl(ZERO, (acc, k) => acc.put(mono(k), v[k]))
    all { act' = "vector", shelf' = shelf.append(p), from' = (0, 0), given' = List(), degr' = l,
          vec' = v, pt' = NOPT, val1' = 0, matrix' = List() }
  }
  action combine: bool = {
    nondet ka = 0.to(1000).oneOf()
    nondet kb = 0.to(1000).oneOf()
    nondet op = 0.to(4).oneOf()
    nondet c = (-7).to(7).oneOf()
    val a = ka % shelf.length()
    val b = kb % shelf.length()
    val big = degree(shelf[a]) + degree(shelf[b]) > 10
    val p = if (op == 0 or big) add(shelf[a], shelf[b])
      else if (op <= 2) times(shelf[a], shelf[b])
      else scale(shelf[a], c)
    val name = if (op == 0 or big) "add" else if (op <= 2) "mul" else if (op == 3) "scale" else "rscale"
    all { act' = name, shelf' = shelf.append(p), from' = (a, if (op >= 3 and not(big)) c else b), given' = List(),
          degr' = degree(p), vec' = dense(p, degree(p)), pt' = NOPT, val1' = 0, matrix' = List() }
  }
  /// the matrix of multiplication by a polynomial
  action product: bool = {
    nondet ka = 0.to(1000).oneOf()
    nondet d = 0.to(4).oneOf()
    val a = ka % shelf.length()
    val la = degree(shelf[a])
    val cols = range(0, (d + 1) * (d + 1)).foldl(List(), (acc, k) =>
      acc.append(dense(times(shelf[a], Map(mono(k) -> 1)), la + d)))
    all { la <= 5, act' = "matrix", shelf' = shelf, from' = (a, d), given' = List(), degr' = la + d,
          vec' = dense(shelf[a], la), pt' = NOPT, val1' = 0, matrix' = cols }
  }
  action evaluate: bool = {
    nondet ka = 0.to(1000).oneOf()
    nondet u = (-12).to(12).oneOf()
    nondet v = (-12).to(12).oneOf()
    nondet w = 1.to(12).oneOf()
    val a = ka % shelf.length()
    val p = shelf[a]
    val q = rational(u, v, w)
    val l = degree(p)
    all { act' = "value", shelf' = shelf, from' = (a, a), given' = List(), degr' = l,
          vec' = dense(p, l), pt' = q, val1' = value(p, q._1, q._2, q._3, q._4, l), matrix' = List() }
  }
  action init = all { act' = "start", shelf' = List(), from' = (0, 0), given' = List(), degr' = 0,
    vec' = List(), pt' = NOPT, val1' = 0, matrix' = List(), n' = 0 }
  action reset = all { act' = "start", shelf' = List(), from' = (0, 0), given' = List(), degr' = 0,
    vec' = List(), pt' = NOPT, val1' = 0, matrix' = List(), n' = n + 1 }
  action step = if (n % 16 == 15) reset
    else if (shelf.length() < 2) any { all { make, n' = n + 1 }, all { fromVector, n' = n + 1 } }
    else any { all { make, n' = n + 1 }, all { fromVector, n' = n + 1 }, all { combine, n' = n + 1 },
               all { combine, n' = n + 1 }, all { product, n' = n + 1 }, all { evaluate, n' = n + 1 } }

  // -------------------------------------------------- index maps, exhaustively
  action initIndex = all { act' = "index", shelf' = List(), from' = (0, order(0, 0, 0)), given' = List({ i: 0, j: 0, k: 0, c: 0 }),
    degr' = 0, vec' = List(), pt' = NOPT, val1' = 0, matrix' = List(), n' = 0 }
  action stepIndex = {
    val m = mono(n + 1)
    all { act' = "index", shelf' = List(), from' = (deg(m._1, m._2, m._3), order(m._1, m._2, m._3)),
          given' = List({ i: m._1, j: m._2, k: m._3, c: pos(m._1, m._2, m._3) }), degr' = 0, vec' = List(),
          pt' = NOPT, val1' = 0, matrix' = List(), n' = n + 1 }
  }
  val bijective = act != "index" or { val g = given[0]  g.c == n and g.i >= 0 and g.j >= 0 and (g.k == 0 or g.k == 1)
    and from._1 * from._1 + from._1 + from._2 == n and iabs(from._2) <= from._1 }

  // -------------------------------------------------- laws: the operations are those of functions
  pure def sample(k: int): (int, int, int, int) = rational(1 + (k * 7) % 5 - 2, (k * 3) % 7 - 3, 1 + k % 4)
  val homomorphic = Set("mul", "add").contains(act) implies {
    val p = shelf[from._1]
    val q = shelf[from._2]
    val r = shelf[shelf.length() - 1]
    0.to(4).forall(k => {
      val s = sample(n + k)
      val lp = degree(p)
      val lq = degree(q)
      val vp = value(p, s._1, s._2, s._3, s._4, lp)
      val vq = value(q, s._1, s._2, s._3, s._4, lq)
      val vr = value(r, s._1, s._2, s._3, s._4, lp + lq)
      if (act == "mul") vr == vp * vq else vr == vp * pw(s._4, lq) + vq * pw(s._4, lp)
    })
  }
  val onSphere = pt._1^2 + pt._2^2 + pt._3^2 == pt._4^2
  val inv = and { homomorphic, onSphere, bijective }
}
