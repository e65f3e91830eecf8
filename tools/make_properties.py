import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/jaxoplanet/"
p("P01","Unit-aware calls mean the same whatever units the caller uses",
 "A function or object field that declares units for its inputs sees exactly the same values, in exactly the declared units, whether the caller passes the declared unit, any compatible unit, or a bare number (which is read as being in the declared unit, or refused when strict parsing was requested). A quantity of an incompatible dimension is always rejected before the wrapped code runs (a function names the offending input). Inputs with no declared unit and optional inputs omitted or left as None pass through untouched, positionally or by keyword, including inside nested containers.",
 ["inputs","configurations"],"every signature, declaration, nesting of containers, unit, magnitude, call style and strictness",
 "The cases are a product of signature shapes, containers, units and call styles; tests sample a handful of them.",
 [S+"units/decorator.py",S+"units/field.py",S+"units/registry.py",S+"units/astro_constants_and_units.txt"],
 ["quantity_input wrapper: bind, apply defaults, map declared units over containers","units.field converter"],observe="values received by the wrapped function, exception raised")
p("P02","Body and central descriptions are accepted exactly when consistent",
 "A central body is accepted exactly for an unambiguous scalar description by mass, radius and density (two of the three, or one of them completed by the documented solar defaults where these exist). An orbiting body is accepted exactly when it has one of period and semi-major axis, at most one of the two ways of giving each of inclination, reference time, periastron argument and node, both or neither member of each sine/cosine pair, both or neither of eccentricity and periastron argument, and only scalar values. Every other combination is rejected with a value error, and accepting a description never changes the values supplied.",
 ["inputs","configurations"],"every subset of supplied arguments, scalar or not, in any order",
 "There are over a hundred thousand subsets of the arguments; tests try a dozen.",
 [S+"orbits/keplerian.py"],["Central.__init__ combination logic","Body.__check_init__"],observe="constructor accepts or raises")
p("P03","The Kepler solver returns the true anomaly of the exact solution",
 "For every finite mean anomaly and every eccentricity 0 <= e < 1, the sine and cosine returned are those of the true anomaly that solves Kepler's equation, to rounding accuracy and with no NaN. They have unit norm, are 2*pi-periodic and odd/even in the mean anomaly, and their derivatives with respect to mean anomaly and eccentricity are those of the exact solution.",
 ["inputs"],"all real mean anomalies (negative, many revolutions, at 0 and pi) and all eccentricities in [0,1), including close to 1; any array shape",
 "The hard corners (e near 1 at small anomaly, wrap-around, half turns) form a continuum that a grid of samples does not settle.",
 [S+"core/kepler.py"],["_kepler range reduction, starter and refinement","custom JVP"],observe="kepler(M, ecc) and its derivatives")
p("P04","Derived orbital elements are mutually consistent",
 "Period, semi-major axis and masses of a body always satisfy Kepler's third law with the total mass (central plus body), and a central body's mass, radius and density always satisfy the uniform-sphere relation however it was specified, including from orbital properties. Impact parameter and inclination determine each other through the star-planet separation at conjunction, reference transit and periastron times differ by the time the eccentric orbit takes between them, and giving an angle or its sine and cosine is equivalent. Supplied values are kept and everything else is derived from them.",
 ["inputs","configurations"],"every accepted description of a central and a body with physical values, including eccentric orbits at every periastron argument and massive companions",
 "Each derived element depends on which of several alternatives was supplied; tests only check default-like combinations.",
 [S+"orbits/keplerian.py"],["OrbitalBody.__init__","Central.__init__","Central.from_orbital_properties","OrbitalBody properties"],observe="fields and properties of the constructed objects")
p("P05","Bodies move on the Keplerian orbit they were described by",
 "At every time, a body's position relative to its central is the exact Keplerian position for its elements in the documented sky frame: it crosses the central's meridian in front of it (towards the observer) at the projected impact parameter at every reference transit time plus whole periods, and is at periastron distance at the periastron time. Relative position equals body position minus central position, the mass-weighted barycentre stays at the origin, and separation and position angle describe the same vector. Supplying a parallax only rescales lengths to angles.",
 ["inputs"],"every element set (circular or eccentric, any inclination, node, periastron argument, mass ratio) and every time, before or after the reference epoch",
 "Motion must be right at every time for every combination of optional elements; tests compare a few orbits with another code.",
 [S+"orbits/keplerian.py",S+"core/kepler.py"],["OrbitalBody._get_true_anomaly, _rotate_vector, _get_position_and_velocity","position/central_position/relative_position/relative_angles"],observe="positions and angles at sampled times")
p("P06","Velocities are the time derivatives of positions",
 "Every velocity component reported for the body, the central, and the body relative to the central is the exact time derivative of the matching position. The radial velocity of the central is positive when it recedes, is the same whether derived from masses and inclination or from the equivalent semi-amplitude, and when a semi-amplitude is given (per call or on the body) half its peak-to-peak range is that semi-amplitude regardless of the other elements. In that case the body and relative line-of-sight velocities follow from the central's by the mass ratio.",
 ["inputs"],"every element set, time, and way of giving the amplitude (masses, attribute or argument, with or without units)",
 "The identity must hold at every phase of every orbit; sampled comparisons miss sign, frame and factor errors that only show with some elements.",
 [S+"orbits/keplerian.py"],["_get_position_and_velocity k0 logic","velocity, central_velocity, relative_velocity, radial_velocity"],observe="velocities at sampled times")
p("P07","A system of many bodies behaves as each body taken alone",
 "Mapping any function over a system's bodies gives, for each body in insertion order, exactly what the function gives for that body alone, stacked along the requested output axes and with extra arguments split along the requested input axes, whether or not the bodies have the same set of specified parameters. Adding a body yields a new system and leaves the old one and all existing bodies unchanged, and a body may orbit a different central than the system's.",
 ["histories","inputs","configurations"],"every sequence of body additions, mix of body kinds, function, argument nesting and axis specification",
 "The batched path and the one-by-one path are chosen by the structure of the history of additions, so equality must hold for every mix and axis specification.",
 [S+"object_stack.py",S+"orbits/keplerian.py",S+"starry/orbit.py"],["ObjectStack stacking decision, vmap and loop paths","System.add_body","System mapped observables"],state="tuple of bodies and optional stacked copy",observe="mapped results, systems before and after additions")
p("P08","A transit-parameterised orbit transits exactly when and as described",
 "For an orbit described by period, duration or speed, impact parameter and radius ratio, the projected path is a straight line at the given impact parameter crossing mid-transit at every reference time plus whole periods at the given speed, and speed and duration determine each other so that the disc edges touch exactly at half the duration from mid-transit. The body counts as in front of the star exactly within half the duration of a mid-transit, and otherwise behind. All of this holds independently for each planet of a multi-planet orbit.",
 ["inputs"],"every period, duration or speed, reference time, impact parameter, radius ratio and time, including times before the reference epoch and grazing cases",
 "It quantifies over all times and parameters; tests check one light curve.",
 [S+"orbits/transit.py"],["TransitOrbit.__init__ duration/speed relation","TransitOrbit.relative_position time wrapping and z sign"],observe="fields and positions")
p("P09","Orbits with timing variations transit at the given times",
 "When observed transit times (with optional transit numbers) are given, the planet is at mid-transit at each of those times, between them time is shifted by the nearest transit only, and the inferred reference time and period are the least-squares linear ephemeris with the variations as residuals; an optional change of log period alters only the transit shape period. When variations are given instead, transits occur at reference time plus period times transit number plus the mean-subtracted variation. Planets do not influence each other and may have different numbers of transits; giving both or neither description is rejected.",
 ["inputs","configurations"],"every number of planets, transit count, numbering with gaps, irregular spacing, and evaluation time before, between and after transits",
 "The mapping from time to transit is piecewise over data-dependent bins; tests do not exercise it at all or only on regular examples.",
 [S+"orbits/ttv.py",S+"orbits/transit.py"],["linear ephemeris fit","bin edges and values","time warping and relative_position"],state="transit times, numbers, bins",observe="positions, ephemeris, residuals")
p("P10","Expected transit times are all and only those in the window",
 "For each planet, the expected transit times in a window are exactly the reference time plus whole multiples of the period that lie within the closed window, in increasing order, with none missing, repeated or outside. A window without a transit gives an empty result for that planet.",
 ["inputs"],"every window, period and reference time (inside, before or after the window), any number of planets, including transits on the window edges",
 "Off-by-one errors only appear for particular alignments of window and ephemeris.",
 [S+"orbits/ttv.py"],["compute_expected_transit_times index range and filtering"],observe="returned tuples of times")
p("P11","A limb-darkened transit removes exactly the light behind the planet",
 "The relative flux change computed for a limb-darkened star equals minus the fraction of the star's limb-darkened disc brightness hidden by the opaque occultor, for a polynomial law of any number of coefficients, within the accuracy of the requested quadrature order. It is exactly zero without overlap, exactly minus one for total occultation, depends only on the absolute value of the separation, and is finite everywhere including at contacts and for concentric or equal-size discs.",
 ["inputs"],"every separation, radius ratio (small, equal, larger than one), coefficient vector of any length (including none) and array shape",
 "The closed-form pieces switch between geometric cases; sampled comparisons do not cover the case boundaries for all coefficient counts.",
 [S+"core/limb_dark.py"],["greens_basis_transform","solution_vector cases","kappas, s0s2, p_integral, kite_area"],observe="light_curve(u, b, r) values")
p("P12","Orbit light curves dim only while a planet is in front of the star",
 "The light curve of an orbit at each time is, separately for each planet in order, the limb-darkened occultation flux change for that planet's projected separation and radius in units of the stellar radius if the planet is in front of the star, and exactly zero otherwise. Limb-darkening coefficients given as one sequence or several arguments are equivalent, and the result has the shape of the times followed by the shape of the orbit.",
 ["inputs","configurations"],"every orbit kind, number of planets, stellar radius, coefficients, time and time unit",
 "The claim joins orbit geometry, scaling and sign for all times and orbits; tests look at one configuration.",
 [S+"light_curves/limb_dark.py",S+"proto.py"],["light_curve closure: scaling by stellar radius, z test, coefficient concatenation"],observe="light curve values and shapes")
p("P13","Exposure integration averages the light curve over the exposure",
 "Integrating a light-curve function over an exposure returns the weighted average of the function over the window of that full width centred on each time, using midpoint, trapezoid or Simpson weights as selected, with weights summing to one and an odd number of samples at least that requested. Constants are preserved, polynomials are integrated exactly to the rule's degree, extra arguments and output units pass through, and no exposure time leaves the function unchanged. Unsupported orders and non-scalar exposure times are rejected.",
 ["inputs","configurations"],"every function, exposure time and unit, order, sample count (even or odd), time array shape and extra argument",
 "The stencil depends on order and parity of the sample count; tests check convergence for a few settings only.",
 [S+"light_curves/transforms.py"],["integrate: stencil and offsets construction, weighting"],observe="integrated values for known functions")
p("P14","Interpolated light curves reproduce the model periodically",
 "A precomputed interpolated light curve agrees with the original at every grid time, is linear between adjacent grid times, and repeats with the given period about the given transit time, for times at any number of periods before or after. Arguments are those fixed at precomputation, output units are preserved, and the default window covers a whole period; outside a shorter window the value continues by joining the window's ends.",
 ["inputs","configurations"],"every function, period, transit time, duration, sample count, units and time",
 "Wrapping errors occur only for particular phases and epochs.",
 [S+"light_curves/transforms.py"],["interpolate: grid construction, time wrapping, jnp.interp"],observe="interpolated values for known functions")
p("P15","Light-curve functions treat every time independently",
 "Evaluating any light-curve or radial-velocity function on an array of times of any shape gives, at each position, exactly what it gives for that time alone, with the time shape leading the output shape. Times may be given in any time unit or bare, extra arguments are not split, units of the output are preserved, and compiling or batching the call does not change the values.",
 ["inputs","configurations"],"every light-curve function, time shape (including scalars and empty dimensions of size one), unit and extra argument",
 "Independence is a relation between evaluations on different shapes, which fixed-shape tests do not relate.",
 [S+"light_curves/utils.py",S+"light_curves/limb_dark.py",S+"light_curves/emission.py",S+"light_curves/transforms.py",S+"starry/system_observable.py",S+"starry/doppler.py"],["vectorize: nested vmap over the time shape","quantity conversion of time"],observe="values and shapes on arrays vs scalars")
p("P16","Spherical-harmonic maps behave as vectors and functions",
 "The coefficient of degree l and order m sits at position l(l+1)+m of the dense vector and the conversions between sparse and dense forms are mutually inverse for every set of coefficients, in any insertion order. Scaling, normalising, indexing and degree behave as for the function the map represents, never modify the original map, and the product of two maps represents, up to one fixed positive constant, the pointwise product of the two functions.",
 ["inputs","histories"],"every finite set of (l, m) coefficients, every sequence of conversions, scalings, normalisations and products, any pair of maps including non-axisymmetric ones",
 "Algebraic identities over all coefficient sets; tests check one conversion.",
 [S+"starry/ylm.py",S+"starry/core/wigner3j.py"],["Ylm indices, tosparse/todense/from_dense/normalize","_mul"],observe="dense vectors and evaluated functions")
p("P17","Surface polynomials form the ring of functions on the unit sphere",
 "Index maps between flat position, degree and order, and powers of x, y, z are mutually inverse bijections. Adding and multiplying surface polynomials, and multiplying through the product matrix, give the representation of the sum or product as functions on the unit sphere (powers of z reduced by x^2+y^2+z^2=1), with exact coefficients, and evaluating the basis at a point gives each monomial's value there.",
 ["inputs"],"every pair of polynomials of any degrees (equal or different, sparse or dense) and every point of the sphere",
 "Reduction of z powers mixes degrees; only an identity over all monomial pairs settles it.",
 [S+"starry/core/polynomials.py",S+"starry/core/basis.py"],["Pijk index maps, _add, _mul","polynomial_product_matrix","poly_basis"],observe="coefficient vectors of results")
p("P18","Changes of basis preserve the intensity function",
 "The matrix from spherical harmonics to polynomials sends each harmonic to a polynomial equal, up to the documented global constant, to the real orthonormal spherical harmonic of that degree and order everywhere on the sphere. The Green's-basis matrices represent basis functions whose exact relation to the polynomials is as documented and are inverse to each other, and the limb-darkening matrix sends each coefficient to the polynomial of its darkening law, including when a limb-darkening law is expressed as a map.",
 ["inputs"],"every degree and order, every point, every coefficient vector of any length",
 "An identity for all degrees and orders at all points; tests compare with an absent reference package or low degrees.",
 [S+"starry/core/basis.py",S+"starry/ylm.py"],["A1, A2_inv, basis, U, poly_basis","Ylm.from_limb_darkening"],observe="matrices and evaluated functions")
p("P19","Rotating a map rotates the function it represents",
 "Rotating a coefficient vector by an angle about any axis gives the coefficients of the rotated function, for every degree, axis direction and length, and angle; rotations compose, preserve the power in each degree, and are undone by the opposite angle or the opposite axis. The sky projection of a map is the composition of its rotation about the pole, its inclination, its obliquity and the occultor alignment, the projection and its inverse undo each other, and leaving an angle unspecified is the same as giving zero.",
 ["inputs"],"every degree, coefficient vector (integer or real), axis (including coordinate axes and poles), angle (including 0, pi, beyond a turn), inclination and obliquity given or omitted",
 "The recurrences have special branches at poles, zero angles and omitted arguments that sampled angles do not reach.",
 [S+"starry/core/rotation.py",S+"starry/core/s2fft_rotation.py",S+"starry/utils.py"],["dot_rotation_matrix, dot_rz, compute_rotation_matrices","sky_projection_axis_angle, full_rotation_axis_angle","left_project, right_project"],observe="rotated coefficient vectors")
p("P20","Rendered surfaces show each feature where it is on the sky",
 "The intensity reported for a latitude and longitude, and the rendered image at a rotation angle, are those of the map's function with its limb darkening and amplitude at the point of the visible hemisphere onto which inclination, obliquity and rotation carry it. The image is undefined exactly outside the disc, the pole is tilted and rolled by the documented inclination and obliquity, and features move eastward with increasing rotation angle, returning after one period. Drawings of a surface show the same image, on the axes given (or the current ones), at the scale of its graticule.",
 ["inputs"],"every map, inclination, obliquity, rotation angle, phase, period, amplitude, limb-darkening law and point",
 "Orientation conventions must hold jointly for all angles; tests with the reference package are not runnable and others check defaults.",
 [S+"starry/surface.py",S+"starry/core/rotation.py",S+"starry/utils.py",S+"starry/visualization.py"],["Surface._intensity, intensity, render, rotational_phase","left_project","ortho_grid, graticule","show_surface"],observe="intensities at sampled points")
p("P21","Surface flux is the disc integral of the visible, unocculted map",
 "The light curve of a surface equals its amplitude times the integral over the visible disc, minus the part hidden by an occultor in front of it, of the projected intensity with limb darkening, normalised so that limb darkening leaves a uniform map's flux unchanged. An occultor behind or off the disc changes nothing, and the result is the same with no occultor, in every orientation of the occultor around the disc, for any combination of map degree and limb darkening, including none.",
 ["inputs"],"every map, orientation, rotation angle, limb-darkening law, amplitude, and occultor radius, position and side",
 "Integrals over a continuum of geometries with separate code branches for uniform maps, no occultor and full visibility.",
 [S+"starry/light_curves.py",S+"starry/core/solution.py",S+"starry/core/basis.py"],["surface_light_curve","solution_vector, rT, q_integral, p_integral"],observe="flux values")
p("P22","System light curves account for every surface and every eclipse",
 "The light curve of a system of surfaces lists, at every time, the flux of the central and then of each body in order: the central is dimmed by every body in front of it, each body is dimmed by the central when behind it, and every surface contributes its own rotated, amplitude-scaled flux whether or not it is eclipsed. Bodies without a surface contribute zero light but still occult, bodies' surfaces stay attached to them through any sequence of additions, and a system without bodies shows the central alone.",
 ["inputs","histories","configurations"],"every sequence of added bodies and surfaces (mixed map degrees, missing surfaces), and every time",
 "Attribution of eclipses and surfaces depends on the history of additions and on geometry at each time.",
 [S+"starry/orbit.py",S+"starry/system_observable.py",S+"starry/light_curves.py",S+"object_stack.py"],["SurfaceSystem.__init__/add_body","system_observable"],state="bodies, surfaces",observe="light curve array per time")
p("P23","The rotational velocity signal is the flux-weighted velocity of the disc",
 "The radial velocity of a rotating surface equals the average, over the visible unocculted disc and weighted by the limb-darkened map intensity, of the line-of-sight velocity of solid-body rotation at the given period and radius with the given inclination and obliquity. It is positive for receding light, independent of the overall amplitude, zero for a pole-on star, and in a system the orbital radial velocity of the central is added to the central's signal.",
 ["inputs"],"every map, orientation, limb-darkening law, period, radius, amplitude and occultor geometry",
 "A ratio of integrals over all geometries; existing tests are skipped without the reference package.",
 [S+"starry/doppler.py",S+"starry/system_observable.py"],["rv_map_expansion","surface_radial_velocity","radial_velocity"],observe="radial velocity values")
p("P24","Emission light curves combine transits and eclipses of limb-darkened discs",
 "The emission light curve of a system of limb-darkened discs lists, at every time, the central's amplitude times one plus the sum of its transit flux changes by the bodies in front of it, followed for each body by its amplitude times one plus the flux change caused by the central when the body is behind it. It agrees with the map-based light curve for uniform maps and its entries follow the order of the bodies.",
 ["inputs"],"every amplitude, radius ratio, limb-darkening law, orbit and time",
 "Requires agreement in every geometry between two independent code paths and the exact definition.",
 [S+"light_curves/emission.py"],["light_curve_impl: central and body terms"],observe="light curve array per time")
p("P25","Angular-momentum coupling coefficients are exact for every request history",
 "For every pair of degrees and orders, the coupling coefficients returned for all allowed third degrees equal the exact Wigner 3j symbols, vanish outside the allowed range, and satisfy the orthogonality relation. The result of a request never depends on which requests were made before on the same calculator.",
 ["inputs","histories"],"every degree and order up to the calculator's size and every sequence of requests",
 "A shared workspace makes results history-dependent if any entry is left stale; no test touches it.",
 [S+"starry/core/wigner3j.py"],["Wigner3jCalculator.calculate two-sided recurrence and workspace clearing"],state="workspace reused between calls",observe="returned arrays")
p("P26","Spots appear where asked and scale with contrast",
 "A spot expansion is the unit uniform map plus a term proportional to the requested contrast that is symmetric about the requested latitude and longitude and depends only on the angular distance from that centre, so that moving the spot only rotates the map. The profile is the expansion to the requested degree of a disc of the requested angular radius with a soft edge. Zero contrast gives the uniform map, and the centre of a spot (smaller than a radian) at the requested latitude and longitude is where the map is most changed, up to the ringing of its edge, darker for positive contrast.",
 ["inputs"],"every degree, contrast, radius, latitude and longitude",
 "Orientation and scaling must hold for all positions; the only test needs an absent package and uses the origin.",
 [S+"starry/ylm.py",S+"starry/core/rotation.py"],["ylm_spot, Bp, spot_profile"],observe="coefficients and intensities")
p("P27","Derivatives of every observable are correct and finite",
 "Automatic derivatives of light curves, positions, radial velocities and map fluxes with respect to their continuous inputs equal the true derivatives wherever these exist and are finite (never NaN) at contact points, zero impact parameter, circular orbits and out of transit. Forward and reverse modes agree.",
 ["inputs"],"every observable, differentiable parameter and parameter value, including degenerate ones",
 "NaN derivatives appear at measure-zero parameter values hidden behind branches that value tests never notice.",
 [S+"utils.py",S+"core/limb_dark.py",S+"core/kepler.py",S+"starry/core/rotation.py",S+"starry/light_curves.py"],["zero_safe_sqrt","guarded where-branches","custom JVPs"],observe="jacfwd/jacrev values")
p("P28","High-precision matrices agree with the working ones and ignore call history",
 "The arbitrary-precision versions of the basis matrices, rotation matrices, solution vectors and fluxes agree with the exact mathematical values to well beyond double precision and therefore with the working-precision versions to rounding. Results never depend on which degrees, angles or geometries were requested earlier through the same or a default cache.",
 ["inputs","histories"],"every degree, angle, geometry, and order of requests sharing a cache",
 "Caches keyed too coarsely return stale answers only after particular histories.",
 [S+"starry/multiprecision/basis.py",S+"starry/multiprecision/rotation.py",S+"starry/multiprecision/solution.py",S+"starry/multiprecision/flux.py",S+"starry/multiprecision/utils.py"],["get_A/get_R/get_sT caches","mp A1/A2/sT/rT/R"],state="matrix caches keyed by degree and angles",observe="returned matrices and fluxes")
p("P29","Objects mean the same wherever they are made and however they are carried",
 "Every object of the library (central, body, system, transit or timing orbit, map, surface, system of surfaces) can be described by values known only while a function is compiled, batched or looped over, as well as by ordinary numbers, in every accepted form of description. It may then be rebuilt from its leaves, copied, stored, stacked with others of its form and taken apart again, selected, returned from, handed to or closed over by compiled, batched, looped, branching and differentiated functions, in any order, and everything observed of it is still exactly what its description says.",
 ["inputs","histories"],"every kind and form of object, and every sequence of making, carrying and asking",
 "Tests build objects outside compiled functions from plain numbers and carry them one way, if at all; a value forced to be known, a field left out of the leaves or a result remembered from an earlier call shows only along other paths.",
 [S+"orbits/keplerian.py",S+"orbits/transit.py",S+"orbits/ttv.py",S+"starry/surface.py",S+"starry/ylm.py",S+"starry/orbit.py",S+"object_stack.py"],
 ["Central, Body, OrbitalBody, System constructors","TransitOrbit","TTVOrbit","Surface","Ylm (data in the leaves, degree in the structure)","SurfaceSystem","ObjectStack"],state="an object's leaves and structure",observe="observables of every carried object")
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    print(q["id"],len(q["statement"]))
