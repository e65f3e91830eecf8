// -*- mode: Bluespec; -*-
/// P02: which descriptions of a central and of an orbiting body are accepted.
///
/// A user fills in a form: every argument is left out, given as a scalar or given
/// as an array.  The form is then submitted, and accepted or rejected.
module describe {
  pure val BODY: List[str] = List(
    "period", "semimajor", "inclination", "impact_param", "eccentricity", "omega_peri",
    "sin_omega_peri", "cos_omega_peri", "asc_node", "sin_asc_node", "cos_asc_node",
    "time_transit", "time_peri", "mass", "radius", "radial_velocity_semiamplitude", "parallax")
  pure val CENTRAL: List[str] = List("mass", "radius", "density")

  /// "none": no defaults needed; arrays: names given as arrays
  pure def atMostOne(s: Set[str], a: str, b: str): bool = not(s.contains(a) and s.contains(b))
  pure def together(s: Set[str], a: str, b: str): bool = s.contains(a) == s.contains(b)
  pure def anyOf(s: Set[str], names: Set[str]): bool = names.exists(x => s.contains(x))

  pure def bodyAccepted(given: Set[str], arrays: Set[str]): bool = and {
    arrays == Set(),
    // exactly one way to set the size of the orbit
    given.contains("period") != given.contains("semimajor"),
    // at most one way to give each angle and the reference time
    atMostOne(given, "inclination", "impact_param"),
    atMostOne(given, "time_transit", "time_peri"),
    not(given.contains("omega_peri") and anyOf(given, Set("sin_omega_peri", "cos_omega_peri"))),
    not(given.contains("asc_node") and anyOf(given, Set("sin_asc_node", "cos_asc_node"))),
    // sines and cosines come in pairs
    together(given, "sin_omega_peri", "cos_omega_peri"),
    together(given, "sin_asc_node", "cos_asc_node"),
    // an eccentric orbit has a periastron, a circular one has none
    given.contains("eccentricity") == anyOf(given, Set("omega_peri", "sin_omega_peri", "cos_omega_peri")),
  }

  /// two of the three, or completed by the solar defaults: nothing given is the Sun,
  /// a density alone has one solar radius
  pure def centralAccepted(given: Set[str], arrays: Set[str]): bool = and {
    arrays == Set(),
    given.size() == 2 or given == Set() or given == Set("density"),
  }

  pure def bits(n: int, names: List[str]): Set[str] =
    names.indices().filter(i => (n / 2^i) % 2 == 1).map(i => names[i])

  var who: str                 // "body" or "central"
  var n: int                   // position in the enumeration of all forms
  var given: Set[str]
  var arrays: Set[str]
  var accepted: bool

  pure def verdict(w: str, g: Set[str], a: Set[str]): bool =
    if (w == "body") bodyAccepted(g, a) else centralAccepted(g, a)
  action show(w: str, k: int, g: Set[str], a: Set[str]): bool = all {
    who' = w, n' = k, given' = g, arrays' = a, accepted' = verdict(w, g, a)
  }
  action start(k: int): bool = show("body", k, bits(k, BODY), Set())
  // the space of scalar forms is enumerated completely, in 16 blocks of 8192
  action init0 = start(0)      action init1 = start(8192)    action init2 = start(16384)
  action init3 = start(24576)  action init4 = start(32768)   action init5 = start(40960)
  action init6 = start(49152)  action init7 = start(57344)   action init8 = start(65536)
  action init9 = start(73728)  action init10 = start(81920)  action init11 = start(90112)
  action init12 = start(98304) action init13 = start(106496) action init14 = start(114688)
  action init15 = start(122880)
  action advance = show("body", n + 1, bits(n + 1, BODY), Set())

  // random forms, biased towards acceptable ones, with arrays here and there
  action init = show("central", 0, Set(), Set())
  action fill = {
    nondet k = 0.to(2^17 - 1).oneOf()
    nondet drop = 0.to(2^17 - 1).oneOf()
    nondet arr = 0.to(16).oneOf()
    nondet arr2 = 0.to(33).oneOf()
    nondet isBody = 0.to(5).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet ca = 0.to(7).oneOf()
    nondet repair = Set(true, false).oneOf()
    val g0 = bits(k, BODY)
    // repair the form so that a single array is what it is judged by
    val g1 = g0.exclude(if (g0.contains("period")) Set("semimajor") else Set())
      .union(if (anyOf(g0, Set("period", "semimajor"))) Set() else Set("period"))
    val g2 = g1.exclude(if (g1.contains("inclination")) Set("impact_param") else Set())
      .exclude(if (g1.contains("time_transit")) Set("time_peri") else Set())
    val ecc = g2.contains("eccentricity")
    val g3 = g2.exclude(Set("omega_peri", "sin_omega_peri", "cos_omega_peri"))
      .union(if (not(ecc)) Set() else if (g2.contains("omega_peri")) Set("omega_peri")
             else Set("sin_omega_peri", "cos_omega_peri"))
    val g4 = g3.exclude(Set("asc_node", "sin_asc_node", "cos_asc_node"))
      .union(if (g2.contains("asc_node")) Set("asc_node")
             else if (g2.contains("sin_asc_node")) Set("sin_asc_node", "cos_asc_node") else Set())
    val g = if (repair) g4 else g0
    val a = Set(arr, arr2).filter(i => i < 17).map(i => BODY[i]).intersect(g)
    if (isBody > 0) show("body", k, g, a)
    else {
      val cg = bits(c, CENTRAL)
      show("central", c, cg, bits(ca, CENTRAL).intersect(cg))
    }
  }

  /// sanity of the rules themselves
  val inv = and {
    accepted implies arrays == Set(),
    who == "body" and accepted implies given.intersect(Set("period", "semimajor")).size() == 1,
    who == "body" and accepted implies given.intersect(Set("sin_omega_peri", "cos_omega_peri")).size() != 1,
    who == "body" and accepted and given.contains("eccentricity") implies
      given.intersect(Set("omega_peri", "sin_omega_peri", "cos_omega_peri")).size() > 0,
    // dropping everything optional from an accepted form leaves an accepted form
    who == "body" and accepted implies bodyAccepted(given.intersect(Set("period", "semimajor")), Set()),
    // mass, radius, parallax and semi-amplitude never matter
    who == "body" implies accepted == bodyAccepted(
      given.exclude(Set("mass", "radius", "parallax", "radial_velocity_semiamplitude")), arrays),
  }
}
