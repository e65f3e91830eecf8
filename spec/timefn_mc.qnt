// -*- mode: Bluespec; -*-
/// P13, P14, P15: functions of time and what is done to them.
/// A function is picked, wrapped zero to three times (exposure integration, interpolation) and then
/// called on arrays of times.  Every wrapping is linear in the function it wraps, so a wrapped
/// function at a time is a weighted sum of values of the original: `samples`.
module timefn_mc {
  import fx.* from "./fx"

  type Wrap = { op: str, exposure: Fx, order: int, n: int, period: Fx, t0: Fx, dur: Fx }
  type S = { w: Fx, t: Fx }
  var act: str
  var fn: { kind: int, c: List[Fx], comps: List[Fx] }
  var args: { a: Fx, k: Fx }         // the function is a * g(t) + k
  var frozen: bool                   // arguments fixed by a precomputation
  var wraps: List[Wrap]
  var times: List[Fx]
  var shape: List[int]
  var vals: List[List[Fx]]           // per time, per component
  var margin: Fx                     // distance of any sample from the seam of an interpolation
  var left: int

  pure val G10: Fx = SC / 2^10
  pure def near(x: Fx, y: Fx, tol: Fx): bool = iabs(x - y) <= tol

  pure def g(f: { kind: int, c: List[Fx], comps: List[Fx] }, at: Fx): Fx =
    if (f.kind == 0) horner(f.c, at / 16)
    else if (f.kind == 1) f.c[0] + mul(f.c[1], sin(mul(f.c[2], at) + f.c[3]))
    else f.c[0] + mul(f.c[1], iabs(at - 4 * f.c[2])) / 16

  // ------------------------------------------------------------ exposure integration
  pure def odd(n: int): int = n + 1 - n % 2
  /// weights and places, in units of the exposure, of n (odd) samples
  pure def stencil(order: int, nAny: int): List[S] = {
    pure val n = odd(nAny)
    if (order == 0) range(0, n).foldl(List(), (acc, j) => acc.append({ w: SC / n, t: ((2 * j + 1) * SC) / (2 * n) - SC / 2 }))
    else range(0, n).foldl(List(), (acc, j) => {
      pure val ends = j == 0 or j == n - 1
      pure val w = if (order == 1) (if (ends) rat(1, 2 * (n - 1)) else rat(1, n - 1))
        else if (ends) rat(1, 3 * (n - 1)) else if (j % 2 == 1) rat(4, 3 * (n - 1)) else rat(2, 3 * (n - 1))
      acc.append({ w: w, t: (j * SC) / (n - 1) - SC / 2 })
    })
  }
  // ------------------------------------------------------------ interpolation
  pure def gridTime(x: Wrap, j: int): Fx = x.t0 + (x.dur * j) / (x.n - 1) - x.dur / 2
  /// time since the beginning of the period that is centred on the reference time
  pure def since(x: Wrap, at: Fx): Fx = fmodi(at - x.t0 + x.period / 2, x.period)
  pure def interpolant(x: Wrap, at: Fx): List[S] = {
    // measured from the first grid time
    pure val s = since(x, at) - (x.period - x.dur) / 2
    pure val cell = x.dur / (x.n - 1)
    pure val gap = x.period - x.dur
    if (s < 0 or s > x.dur) {
      // between the last grid time and the first one of the next period
      pure val u = if (s < 0) s + x.period - x.dur else s - x.dur
      pure val lam = div(u, gap)
      List({ w: SC - lam, t: gridTime(x, x.n - 1) }, { w: lam, t: gridTime(x, 0) })
    } else {
      pure val j = imin(x.n - 2, s / cell)
      pure val lam = imin(SC, div(s - j * cell, cell))
      List({ w: SC - lam, t: gridTime(x, j) }, { w: lam, t: gridTime(x, j + 1) })
    }
  }
  pure def unwrap(x: Wrap, p: List[S]): List[S] = {
    pure val st = if (x.op == "integrate") stencil(x.order, x.n) else List()
    p.foldl(List(), (acc, q) =>
      if (x.op == "integrate") st.foldl(acc, (acc2, s) => acc2.append({ w: mul(q.w, s.w), t: q.t + mul(s.t, x.exposure) }))
      else interpolant(x, q.t).foldl(acc, (acc2, s) => acc2.append({ w: mul(q.w, s.w), t: s.t })))
  }
  /// last wrapping first
  pure def samples(ws: List[Wrap], at: Fx): List[S] =
    range(0, ws.length()).foldl(List({ w: SC, t: at }), (p, i) => unwrap(ws[ws.length() - 1 - i], p))
  pure def valueAt(f: { kind: int, c: List[Fx], comps: List[Fx] }, ar: { a: Fx, k: Fx }, ws: List[Wrap], at: Fx): List[Fx] = {
    pure val m = samples(ws, at).foldl({ v: 0, w: 0 }, (acc, s) => { v: acc.v + mul(s.w, g(f, s.t)), w: acc.w + s.w })
    if (f.comps.length() == 0) List(mul(ar.a, m.v) + mul(ar.k, m.w))
    else f.comps.foldl(List(), (acc, c) => acc.append(mul(c, mul(ar.a, m.v) + mul(ar.k, m.w))))
  }
  /// how close any time handed to an interpolation comes to its seam
  pure def marginAt(ws: List[Wrap], at: Fx): Fx =
    range(0, ws.length()).foldl({ p: List({ w: SC, t: at }), m: 1000 * SC }, (acc, i) => {
      pure val x = ws[ws.length() - 1 - i]
      pure val m = if (x.op == "integrate") acc.m else acc.p.foldl(acc.m, (mm, q) => {
        pure val s = since(x, q.t)
        imin(mm, imin(s, x.period - s))
      })
      { p: unwrap(x, acc.p), m: m }
    }).m

  // ------------------------------------------------------------ behaviour
  action pick: bool = {
    nondet kind = 0.to(2).oneOf()
    nondet deg = 0.to(4).oneOf()
    nondet c = 0.to(4).setOfMaps((-3000).to(3000)).oneOf()
    nondet nc = 0.to(5).oneOf()
    nondet am = (-3000).to(3000).oneOf()
    nondet km = (-3000).to(3000).oneOf()
    val n = if (kind == 0) deg + 1 else 4
    all {
      act' = "pick",
      fn' = { kind: kind, c: range(0, n).foldl(List(), (acc, i) => acc.append(c.get(i) * G10)),
              comps: if (nc >= 4) range(0, nc - 3).foldl(List(), (acc, i) => acc.append((i + 2) * SC - c.get(i) * G10)) else List() },
      args' = { a: am * G10, k: km * G10 }, frozen' = false, wraps' = List(),
      times' = List(), shape' = List(), vals' = List(), margin' = 0
    }
  }
  action wrapWith(x: Wrap): bool = all {
    act' = "wrap", fn' = fn, args' = args, frozen' = (frozen or x.op == "interpolate"), wraps' = wraps.append(x),
    times' = List(), shape' = List(), vals' = List(), margin' = 0
  }
  action addIntegrate: bool = {
    nondet em = 1.to(4000).oneOf()
    nondet order = 0.to(2).oneOf()
    nondet n = 2.to(12).oneOf()
    nondet d = 0.to(2).oneOf()
    wrapWith({ op: "integrate", exposure: (em * SC) / 2^(11 + d), order: order, n: if (d == 0) 7 else n, period: 0, t0: 0, dur: 0 })
  }
  action addInterpolate: bool = {
    nondet pm = 512.to(12000).oneOf()
    nondet tm = (-40000).to(40000).oneOf()
    nondet n = 2.to(40).oneOf()
    nondet full = Set(true, false).oneOf()
    nondet frac = 1.to(24).oneOf()
    wrapWith({ op: "interpolate", exposure: 0, order: 0, n: n, period: pm * 32 * (G10 / 32), t0: tm * G10,
               dur: if (full) pm * G10 else pm * frac * (G10 / 32) })
  }
  /// what a call asks for: a shape and times to fill it, some of them special
  action call: bool = {
    nondet which = 0.to(9).oneOf()
    nondet tm = 0.to(11).setOfMaps((-20000).to(20000)).oneOf()
    nondet special = 0.to(5).oneOf()
    nondet am = (-3000).to(3000).oneOf()
    nondet km = (-3000).to(3000).oneOf()
    nondet j = 0.to(39).oneOf()
    nondet cyc = (-300).to(300).oneOf()
    val sh = if (which == 0) List() else if (which == 1) List(1) else if (which == 2) List(5) else if (which == 3) List(2, 3)
      else if (which == 4) List(3, 1, 2) else if (which == 5) List(1, 1) else if (which == 6) List(4, 1)
      else if (which == 7) List(1, 3) else if (which == 8) List(2, 2, 2) else List(1, 1, 1, 2)
    val n = sh.foldl(1, (p, v) => p * v)
    val last = if (wraps.length() > 0) wraps[wraps.length() - 1] else { op: "none", exposure: 0, order: 0, n: 2, period: SC, t0: 0, dur: SC }
    // exactly on the grid, in the middle of the gap, or a little off a grid time, any number of periods away
    val onGrid = gridTime(last, j % last.n)
    val ts = range(0, n).foldl(List(), (acc, i) => acc.append(
      if (last.op != "interpolate" or special <= 1) tm.get(i) * G10
      else toGrid(onGrid + cyc * last.period +
        (if (special == 2) 0 else if (special == 3) tm.get(i) * (SC / 2^24) else mul(last.period, tm.get(i) * (SC / 2^15))), SC / 2^32)))
    val ar = if (frozen) args else { a: am * G10, k: km * G10 }
    all {
      act' = "call", fn' = fn, args' = ar, frozen' = frozen, wraps' = wraps, times' = ts, shape' = sh,
      vals' = ts.foldl(List(), (acc, v) => acc.append(valueAt(fn, ar, wraps, v))),
      margin' = ts.foldl(1000 * SC, (m, v) => imin(m, marginAt(wraps, v)))
    }
  }
  pure def toGrid(x: Fx, gr: Fx): Fx = fdivi(x + gr / 2, gr) * gr

  action init = all {
    act' = "pick", fn' = { kind: 0, c: List(SC), comps: List() }, args' = { a: SC, k: 0 }, frozen' = false, wraps' = List(),
    times' = List(), shape' = List(), vals' = List(), margin' = 0, left' = 0
  }
  /// pick, wrap, call, call, ...
  action stepIntegrate =
    if (left <= 0) all { pick, left' = 6 }
    else if (left == 6 or (left == 5 and wraps[0].n % 3 == 0)) all { addIntegrate, left' = left - 1 }
    else all { call, left' = left - 1 }
  action stepInterpolate =
    if (left <= 0) all { pick, left' = 8 }
    else if (left == 8 and fn.comps.length() > 0) all { pick, left' = 8 }
    else if (left == 8 and fn.kind == 1) all { addIntegrate, left' = 7 }
    else if (left == 8) all { addInterpolate, left' = 7 }
    else if (left == 7 and wraps[0].op == "integrate") all { addInterpolate, left' = 6 }
    else if (left == 7 and fn.kind == 2) all { addIntegrate, left' = 6 }
    else all { call, left' = left - 1 }
  action stepArrays =
    if (left <= 0) all { pick, left' = 5 }
    else if (left == 5) any { all { addIntegrate, left' = 4 }, all { call, left' = 4 },
                              all { fn.comps.length() == 0, addInterpolate, left' = 4 } }
    else all { call, left' = left - 1 }
  action step = any { stepIntegrate, stepInterpolate }

  // ------------------------------------------------------------ laws of the model
  /// weights add up to one and nothing outside the exposure is used
  val weights = act != "call" or times.indices().forall(i => {
    val s = samples(wraps, times[i])
    near(s.foldl(0, (a, v) => a + v.w), SC, SC / 2^80)
  })
  val inside = wraps.indices().forall(i => wraps[i].op == "interpolate" or {
    val s = stencil(wraps[i].order, wraps[i].n)
    and { s.length() % 2 == 1, s.length() >= wraps[i].n,
          s.indices().forall(j => iabs(s[j].t) <= HALF and s[j].w > 0 and near(s[j].t, -s[s.length() - 1 - j].t, 8)) }
  })
  /// the average of a polynomial over the exposure, in closed form
  pure def average(c: List[Fx], t: Fx, e: Fx): Fx = {
    pure val lo = (t - e / 2) / 16
    pure val hi = (t + e / 2) / 16
    div(range(0, c.length()).foldl(0, (acc, k) => acc + div(mul(c[k], powi(hi, k + 1) - powi(lo, k + 1)), (k + 1) * SC)), hi - lo)
  }
  /// constants and straight lines exactly by every rule, cubics by Simpson's
  val degree = not(act == "call" and fn.kind == 0 and fn.comps.length() == 0 and wraps.length() == 1) or
    wraps[0].op != "integrate" or fn.c.length() > (if (wraps[0].order == 2) 4 else 2) or
    times.indices().forall(i => near(vals[i][0], mul(args.a, average(fn.c, times[i], wraps[0].exposure)) + args.k, SC / 2^40))
  /// at a grid time the interpolation gives back the function it wraps
  val grid = not(act == "call" and wraps.length() > 0) or {
    val x = wraps[wraps.length() - 1]
    x.op != "interpolate" or x.dur == x.period or
      near(valueAt(fn, args, wraps, gridTime(x, x.n / 2) + 3 * x.period)[0],
           valueAt(fn, args, wraps.slice(0, wraps.length() - 1), gridTime(x, x.n / 2))[0], SC / 2^60)
  }
  /// it repeats
  val periodic = not(act == "call" and wraps.length() > 0) or {
    val x = wraps[wraps.length() - 1]
    x.op != "interpolate" or vals[0][0] == valueAt(fn, args, wraps, times[0] + 7 * x.period)[0]
  }
  val sized = act != "call" or and { times.length() == shape.foldl(1, (p, v) => p * v), vals.length() == times.length() }
  val inv = and { weights, inside, degree, grid, periodic, sized }
}
