// -*- mode: Bluespec; -*-
/// P01: functions and fields that declare units for their inputs. A unit is a scale over the units of mass, length,
/// time and a dimension; what a wrapped function receives for an input is its value in the declared unit.
module units_mc {
  import fx.* from "./fx"

  /// scale = num/den in kg, m, s, rad
  type Unit = { dim: (int, int, int), num: int, den: int }
  /// an input of a signature: its kind (0 positional only, 1 either, 2 keyword only), its shape, the unit declared for
  /// every leaf of it (-1: none), its default (0 none, 1 None, 2 a bare number, 3 a quantity)
  type Param = { kind: int, shape: str, units: List[int], default: int, dval: { unit: int, x: int } }
  /// a leaf of an input given: bare or with a unit
  type Leaf = { quantity: bool, unit: int, x: int, form: int }
  /// how: positional, keyword, omitted, none
  type Given = { how: str, leaves: List[Leaf] }
  /// num/den in the declared unit; unit -1: just as given
  type Got = { unit: int, num: int, den: int }

  pure def u(m: int, l: int, t: int, n: int, d: int): Unit = { dim: (m, l, t), num: n, den: d }
  pure val TEN = 10
  // kept in step with NAMES of checks/p01.py
  pure val UNITS: List[Unit] = List(
    // 0 lengths: m cm km AU R_sun R_jupiter R_earth pc
    u(0, 1, 0, 1, 1), u(0, 1, 0, 1, 100), u(0, 1, 0, 1000, 1), u(0, 1, 0, 149597870700, 1), u(0, 1, 0, 695700000, 1), u(0, 1, 0, 71492000, 1),
    u(0, 1, 0, 6378100, 1), u(0, 1, 0, 149597870700 * 648000 * SC, PI),
    // 8 times: s ms min hour day week year
    u(0, 0, 1, 1, 1), u(0, 0, 1, 1, 1000), u(0, 0, 1, 60, 1), u(0, 0, 1, 3600, 1), u(0, 0, 1, 86400, 1), u(0, 0, 1, 604800, 1), u(0, 0, 1, 31557600, 1),
    // 15 masses: kg g M_sun M_jupiter M_earth
    u(1, 0, 0, 1, 1), u(1, 0, 0, 1, 1000), u(1, 0, 0, 13271244 * TEN^29, 667430), u(1, 0, 0, 12668653 * TEN^26, 667430),
    u(1, 0, 0, 3986004 * TEN^24, 667430),
    // 20 numbers and angles: dimensionless percent rad degree arcmin arcsec mas turn
    u(0, 0, 0, 1, 1), u(0, 0, 0, 1, 100), u(0, 0, 0, 1, 1), u(0, 0, 0, PI, 180 * SC), u(0, 0, 0, PI, 10800 * SC), u(0, 0, 0, PI, 648000 * SC),
    u(0, 0, 0, PI, 648000000 * SC), u(0, 0, 0, 2 * PI, SC),
    // 28 speeds: m/s km/s R_sun/day km/hour
    u(0, 1, -1, 1, 1), u(0, 1, -1, 1000, 1), u(0, 1, -1, 695700000, 86400), u(0, 1, -1, 1000, 3600),
    // 32 rates: 1/s 1/day 1/hour
    u(0, 0, -1, 1, 1), u(0, 0, -1, 1, 86400), u(0, 0, -1, 1, 3600),
    // 35 densities: kg/m^3 g/cm^3 M_sun/R_sun^3
    u(1, -3, 0, 1, 1), u(1, -3, 0, 1000, 1), u(1, -3, 0, 13271244 * TEN^29, 667430 * 695700000^3)
  )
  pure val NU = UNITS.length()
  pure def alike(i: int, j: int): bool = UNITS[i].dim == UNITS[j].dim
  /// x/2^20 in unit i, in unit j
  pure def convert(x: int, i: int, j: int): Got =
    if (i == j) { unit: j, num: x, den: 2^20 } else { unit: j, num: x * UNITS[i].num * UNITS[j].den, den: 2^20 * UNITS[i].den * UNITS[j].num }

  pure val SHAPES = Map("leaf" -> 1, "list" -> 2, "tuple" -> 2, "dict" -> 2, "nested" -> 3, "deep" -> 3)
  /// what becomes of one leaf: what is seen inside, or why not
  pure def taken(l: Leaf, unit: int, strict: bool): { got: Got, why: str } =
    if (unit < 0) { got: { unit: -1, num: 0, den: 1 }, why: "" }
    else if (l.quantity and not(alike(l.unit, unit))) { got: { unit: unit, num: 0, den: 1 }, why: "dimension" }
    else if (not(l.quantity) and strict) { got: { unit: unit, num: 0, den: 1 }, why: "bare" }
    else { got: convert(l.x, if (l.quantity) l.unit else unit, unit), why: "" }
  /// the leaves meant by an input, its default put in where it is left out
  pure def meant(p: Param, g: Given): List[Leaf] =
    if (g.how != "omitted") g.leaves
    else if (p.default < 2) List()
    else List({ quantity: p.default == 3, unit: p.dval.unit, x: p.dval.x, form: 0 })
  pure def outcome(p: Param, g: Given, strict: bool): List[{ got: Got, why: str }] = {
    pure val ls = meant(p, g)
    range(0, ls.length()).foldl(List(), (acc, i) => acc.append(taken(ls[i], p.units[i], strict)))
  }

  // ------------------------------------------------------------ the declared inputs of the library
  /// inputs the library reads in a unit: the unit, another it accepts, a range of values (times 2^20) in the declared one
  type Entry = { name: str, input: str, unit: int, lo: int, hi: int }
  pure def entry(name: str, input: str, unit: int, lo: int, hi: int): Entry = { name: name, input: input, unit: unit, lo: lo, hi: hi }
  pure val K = 2^10
  pure val M1 = 2^20
  pure val LIBRARY: List[Entry] = List(
    entry("Central", "mass", 17, M1 / 2, 2 * M1), entry("Central", "radius", 4, M1 / 2, 2 * M1), entry("CentralDensity", "density", 37, M1 / 8, M1),
    entry("Central.from_orbital_properties", "period", 12, M1, 9 * M1), entry("Central.from_orbital_properties", "semimajor", 4, 5 * M1, 30 * M1),
    entry("Central.from_orbital_properties", "radius", 4, M1 / 2, 2 * M1), entry("Central.from_orbital_properties", "body_mass", 17, K, M1 / 8),
    entry("Body", "time_transit", 12, -M1, M1), entry("BodyPeri", "time_peri", 12, -M1, M1), entry("Body", "period", 12, M1, 9 * M1),
    entry("BodyAxis", "semimajor", 4, 5 * M1, 30 * M1), entry("BodyInc", "inclination", 22, M1, 2 * M1), entry("Body", "impact_param", 20, 0, M1 / 2),
    entry("Body", "eccentricity", 20, 0, M1 / 2), entry("Body", "omega_peri", 22, -3 * M1, 3 * M1), entry("Body", "asc_node", 22, -3 * M1, 3 * M1),
    entry("Body", "mass", 17, K, M1 / 8), entry("Body", "radius", 4, K, M1 / 2), entry("BodyRV", "radial_velocity_semiamplitude", 30, K, M1),
    entry("Body", "parallax", 25, K, M1),
    entry("BodyTrig", "sin_omega_peri", 20, M1 / 8, M1 / 4), entry("BodyTrig", "cos_omega_peri", 20, M1 / 8, M1 / 4),
    entry("BodyTrig", "sin_asc_node", 20, M1 / 8, M1 / 4), entry("BodyTrig", "cos_asc_node", 20, M1 / 8, M1 / 4),
    entry("position", "t", 12, -M1, 9 * M1), entry("velocity", "t", 12, -M1, 9 * M1), entry("relative_position", "t", 12, -M1, 9 * M1),
    entry("radial_velocity", "t", 12, -M1, 9 * M1), entry("relative_angles", "t", 12, -M1, 9 * M1),
    entry("relative_angles", "parallax", 25, K, M1), entry("system_position", "t", 12, -M1, 9 * M1),
    entry("TransitOrbit", "period", 12, M1, 9 * M1), entry("TransitOrbit", "duration", 12, M1 / 16, M1 / 4), entry("TransitOrbitSpeed", "speed", 33, M1, 9 * M1),
    entry("TransitOrbit", "time_transit", 12, -M1, M1), entry("TransitOrbit", "impact_param", 20, 0, M1 / 2), entry("TransitOrbit", "radius_ratio", 20, K, M1 / 8),
    entry("transit_position", "t", 12, -M1, 9 * M1), entry("transit_position", "parallax", 25, K, M1),
    entry("TTVOrbit", "period", 12, M1, 9 * M1), entry("TTVOrbit", "duration", 12, M1 / 16, M1 / 4), entry("TTVOrbitSpeed", "speed", 33, M1, 9 * M1),
    entry("TTVOrbit", "time_transit", 12, -M1, M1), entry("TTVOrbit", "impact_param", 20, 0, M1 / 2), entry("TTVOrbit", "radius_ratio", 20, K, M1 / 8),
    entry("ttv_position", "t", 12, -M1, 9 * M1), entry("ttv_position", "parallax", 25, K, M1),
    entry("limb_dark_light_curve", "time", 12, -M1, 9 * M1), entry("emission_light_curve", "time", 12, -M1, 9 * M1),
    entry("surface_light_curve", "time", 12, -M1, 9 * M1), entry("surface_radial_velocity", "time", 12, -M1, 9 * M1),
    entry("integrate", "exposure_time", 12, K, M1 / 8), entry("integrated", "time", 12, -M1, 9 * M1),
    entry("interpolate", "period", 12, M1, 9 * M1), entry("interpolate", "time_transit", 12, -M1, M1), entry("interpolate", "duration", 12, M1 / 4, M1 / 2),
    entry("interpolated", "time", 12, -M1, 9 * M1)
  )

  var act: str
  var target: str              // function, method, field
  var strict: bool
  var sig: List[Param]
  var extras: (int, int)       // *args and **kwargs
  var given: List[Given]
  var got: List[List[{ got: Got, why: str }]]
  var lib: Entry
  var n: int

  pure val NOENTRY = entry("", "", 0, 0, 0)
  action init = all {
    act' = "start", target' = "function", strict' = false, sig' = List(), extras' = (0, 0), given' = List(), got' = List(), lib' = NOENTRY, n' = 0
  }

  /// a signature with its declarations
  action declare: bool = {
    nondet t = Set("function", "function", "method", "field").oneOf()
    nondet s = Set(0, 1, 2).oneOf()
    nondet np = 1.to(4).oneOf()
    nondet cut = 0.to(4).oneOf()
    nondet cut2 = 0.to(4).oneOf()
    nondet defFrom = 0.to(5).oneOf()
    nondet shapes = 0.to(3).setOfMaps(0.to(9)).oneOf()
    nondet us = 0.to(11).setOfMaps((-6).to(37)).oneOf()
    nondet ds = 0.to(3).setOfMaps(0.to(3)).oneOf()
    nondet dx = 0.to(3).setOfMaps((-(2^26)).to(2^26)).oneOf()
    nondet du = 0.to(3).setOfMaps(0.to(37)).oneOf()
    nondet wrong = 0.to(7).oneOf()
    nondet e1 = 0.to(2).oneOf()
    nondet e2 = 0.to(2).oneOf()
    val st = s == 2
    val ps = range(0, np).foldl(List(), (acc, i) => {
      val kind = if (t == "field") 1 else if (i < min2(cut, cut2)) 0 else if (i < if (cut > cut2) cut else cut2) 1 else 2
      // defaults may not be followed by positional parameters without
      val k = shapes.get(i)
      // (units cannot be declared for a positional-only input)
      val shape = if (k < 5 or kind == 0) "leaf" else if (k == 5) "list" else if (k == 6) "tuple" else if (k == 7) "dict" else if (k == 8) "nested" else "deep"
      val ul = range(0, SHAPES.get(shape)).foldl(List(), (b, j) => b.append({ val v = us.get(3 * i + j)  if (v < 0 or kind == 0) -1 else v }))
      val may = (kind == 2 and t != "field") or i >= defFrom
      // a container has no default but None, a strict declaration no bare one
      val d0 = ds.get(i)
      val d1 = if (not(may)) 0 else if (i >= defFrom and kind < 2 and d0 == 0) 1 else d0
      val d = if (d1 >= 2 and shape != "leaf") 1 else if (d1 == 2 and st) 1 else d1
      val same = range(0, NU).filterUnits(ul[0])
      acc.append({ kind: kind, shape: shape, units: ul, default: d,
                   dval: { unit: if (wrong == i or ul[0] < 0) du.get(i) else same[du.get(i) % same.length()], x: dx.get(i) } })
    })
    all {
      act' = "declare", target' = t, strict' = st, sig' = ps, extras' = if (t == "field") (0, 0) else (e1, e2), given' = List(), got' = List(), lib' = NOENTRY,
      n' = n + 1,
    }
  }
  pure def min2(a: int, b: int): int = if (a < b) a else b
  /// the units of the dimension of unit i (all of them for none)
  pure def filterUnits(l: List[int], i: int): List[int] = l.select(j => i < 0 or alike(i, j))

  /// call it
  action call: bool = {
    nondet npos = 0.to(4).oneOf()
    nondet omit = 0.to(3).setOfMaps(0.to(2)).oneOf()
    nondet q = 0.to(11).setOfMaps(0.to(3)).oneOf()
    nondet us = 0.to(11).setOfMaps(0.to(37)).oneOf()
    nondet xs = 0.to(11).setOfMaps((-(2^26)).to(2^26)).oneOf()
    nondet zs = 0.to(11).setOfMaps(0.to(11)).oneOf()
    nondet fs = 0.to(11).setOfMaps(0.to(3)).oneOf()
    nondet mood = 0.to(3).oneOf()
    val np = sig.length()
    // arguments given in order: as many as there are, all those that have no other way among them
    val must = range(0, np).foldl(0, (a, i) => if (sig[i].kind == 0 and sig[i].default == 0) i + 1 else a)
    val most = range(0, np).foldl(0, (a, i) => if (sig[i].kind < 2) i + 1 else a)
    val k = if (npos < must) must else if (npos > most) most else npos
    val gs = range(0, np).foldl(List(), (acc, i) => {
      val p = sig[i]
      val o = omit.get(i)
      val how =
        if (i < k) (if (p.default == 1 and o == 1) "none" else "positional")
        else if (p.kind == 0) "omitted"
        else if (p.default > 0 and o == 2) "omitted"
        else if (p.default == 1 and o == 1) "none-keyword"
        else "keyword"
      val leaves = if (how == "omitted" or how == "none" or how == "none-keyword") List() else
        range(0, p.units.length()).foldl(List(), (b, j) => {
          val m = 3 * i + j
          val d = p.units[j]
          val same = range(0, NU).filterUnits(d)
          // mostly of the right dimension
          val bad = mood == 0 and q.get(m) == 0 and zs.get(m) < 6
          val isq = if (strict and mood != 1) true else q.get(m) != 0 or bad
          val unit = if (bad) us.get(m) else same[us.get(m) % same.length()]
          b.append({ quantity: isq, unit: unit, x: if (zs.get(m) == 0) 0 else if (zs.get(m) < 4) (xs.get(m) / 2^22) * 2^20 else xs.get(m), form: fs.get(m) })
        })
      acc.append({ how: how, leaves: leaves })
    })
    all {
      act' = "call", target' = target, strict' = strict, sig' = sig, extras' = extras, given' = gs,
      got' = range(0, np).foldl(List(), (acc, i) => acc.append(outcome(sig[i], gs[i], strict))), lib' = NOENTRY, n' = n + 1,
    }
  }

  /// an input of the library, in some unit
  action library: bool = {
    nondet e = 0.to(LIBRARY.length() - 1).oneOf()
    nondet ui = 0.to(37).oneOf()
    nondet bad = 0.to(4).oneOf()
    nondet x = 0.to(2^20).oneOf()
    nondet f = 0.to(3).oneOf()
    val en = LIBRARY[e]
    val same = range(0, NU).filterUnits(en.unit)
    val unit = if (bad == 0) ui else same[ui % same.length()]
    // a value in the range, whatever the unit: in the declared unit
    val v = en.lo + ((en.hi - en.lo) * x) / 2^20
    val l = { quantity: true, unit: unit, x: v, form: f }
    all {
      act' = "library", target' = target, strict' = strict, sig' = sig, extras' = extras, given' = List({ how: "keyword", leaves: List(l) }),
      // the value in the unit it is given in
      got' = List(List(if (alike(unit, en.unit)) { got: convert(v, en.unit, unit), why: "" } else { got: { unit: unit, num: v, den: 2^20 }, why: "dimension" })),
      lib' = en, n' = n + 1,
    }
  }

  action step = if (n == 0 or n % 3 == 0) declare else call
  action stepLibrary = library

  // ------------------------------------------------------------ laws
  val bareIsDeclared = act != "call" or range(0, sig.length()).foldl(true, (a, i) =>
    a and range(0, given[i].leaves.length()).foldl(true, (b, j) => b and
      (sig[i].units[j] < 0 or given[i].leaves[j].quantity or strict or
        got[i][j].got.num * 2^20 == given[i].leaves[j].x * got[i][j].got.den)))
  /// there and back
  val backAndForth = act != "call" or range(0, sig.length()).foldl(true, (a, i) =>
    a and range(0, given[i].leaves.length()).foldl(true, (b, j) => b and {
      val l = given[i].leaves[j]
      val d = sig[i].units[j]
      or {
        d < 0, not(l.quantity), got[i][j].why != "",
        got[i][j].got.num * UNITS[d].num * UNITS[l.unit].den * 2^20 == l.x * UNITS[l.unit].num * UNITS[d].den * got[i][j].got.den,
      }
    }))
  /// exactly the values of another dimension are refused (and bare ones by a strict declaration)
  val refused = act != "call" or range(0, sig.length()).foldl(true, (a, i) =>
    a and range(0, got[i].length()).foldl(true, (b, j) => b and {
      val l = meant(sig[i], given[i])[j]
      val d = sig[i].units[j]
      (got[i][j].why == "") == (d < 0 or if (l.quantity) UNITS[l.unit].dim == UNITS[d].dim else not(strict))
    }))
  val inv = and { bareIsDeclared, backAndForth, refused }
}
