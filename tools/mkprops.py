#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statement of record is the output file)."""
import json
P=[]
def prop(id,title,statement,over,quant,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})
CV="src/curve/mod.rs";BA="src/curve/basis/mod.rs";KN="src/curve/knots/mod.rs";KM="src/curve/knots/methods.rs";PT="src/curve/points/mod.rs"
PA="src/curve/parameters/methods.rs";PAM="src/curve/parameters/mod.rs";GE="src/curve/generation/mod.rs";FI="src/curve/points/methods/fit/mod.rs"
FX="src/curve/points/methods/fit/fixed.rs";LO="src/curve/points/methods/fit/loose.rs";IN="src/curve/points/methods/interpolation.rs"
MI="src/manipulation/insert.rs";MM="src/manipulation/merge.rs";MR="src/manipulation/reverse.rs";MS="src/manipulation/split.rs";TY="src/types.rs"
CURVES="every clamped curve on [0,1]: any degree p >= 1, any number of segments n >= p, any dimension, any non-decreasing interior knots (uniform, irregular, clustered, repeated up to p+1 times), any finite control points"

prop("C01","Evaluating a curve gives the B-spline point",
 "For every parameter u in the closed interval [0,1], evaluating a curve returns, up to floating-point rounding, the B-spline point defined by its knots and control points (the sum of basis function times control point). In particular the curve starts exactly in its first control point and ends in its last, the value at a repeated interior knot and at floats adjacent to any knot is right, and no parameter in [0,1] panics or is refused.",
 ["inputs"],"all parameters in [0,1] on "+CURVES,
 "The tests evaluate a handful of parameters on five small curves (p <= 3, n <= 5, one repeated knot); the claim is over all knot layouts, degrees and parameters, including exact knots and their neighbours.",
 [CV,BA,KN],[("Curve::evaluate / evaluate_derivative",CV),("Knots::find_idx span search",KN),("basis recursion",BA)],["Curve::evaluate"],
 [("knots","knot vector of the curve",KN),("points","control points of the curve",PT)])
prop("C02","Curve derivatives of every order are correct",
 "For every u in [0,1] and every order k up to the degree p, evaluating the k-th derivative returns the true k-th derivative of the curve with respect to u (the right-hand derivative where it jumps at an interior knot, the left-hand one at u = 1), up to rounding. For every order above p the result is the zero vector of the curve's dimension.",
 ["inputs"],"all (u, k) on "+CURVES,
 "No existing test checks a non-zero derivative value of order >= 1 on a non-trivial curve; the claim is over all orders, degrees and knot layouts.",
 [CV,PT,KN,BA],[("control point derivation",PT),("knot vector derivation",KN),("evaluate_derivative index window",CV)],["Curve::evaluate_derivative"],
 [("Pk","control points of each derivative",PT),("Uk","knot vectors of each derivative",KN)])
prop("C03","Basis functions follow Cox-de Boor and form a partition of unity",
 "For every clamped knot vector, derivative order k and u in the domain, the n+1-k basis functions of degree p-k are non-negative, vanish outside their p-k+2 supporting knots, sum to one, and equal the Cox-de Boor-Mansfield recurrence with the last interval closed at the domain end, up to rounding.",
 ["inputs"],"all clamped knot vectors (including repeated interior knots and unnormalised ranges), all k <= p, all indices, all u in the domain",
 "Two tests check one uniform knot vector with degree 3 at seven parameters.",
 [BA,KN],[("basis recursion with 0/0 guards and closed last interval",BA),("Knots::evaluate",KN)],["Knots::evaluate","basis::basis"])
prop("C04","A derivative curve is itself a complete, consistent curve",
 "For every k up to the degree, extracting the k-th derivative of a curve yields a curve of degree p-k with n-k segments whose points are the original's k-th derivative at every u, whose own derivatives of order j are the original's derivatives of order k+j, and which supports every curve operation (querying, evaluating, differentiating again, inserting, splitting, reversing) like a freshly built curve.",
 ["inputs","histories"],"all k <= p on "+CURVES+", including curves that were manipulated before and derivative curves of derivative curves",
 "get_derivative_curve has no test at all.",
 [CV,PT,KN],[("get_derivative_curve",CV),("calculate_derivatives",CV)],["Curve::get_derivative_curve","Curve::evaluate_derivative","Curve::max_derivative"])
prop("C05","Parameters outside the domain are refused without effect",
 "Evaluating any order at a parameter that does not lie in [0,1] (including NaN and infinities) returns the parameter-out-of-bounds error carrying the offending parameter and the bounds, and inserting or splitting at a parameter that does not lie strictly inside (0,1) returns the corresponding out-of-bounds error. A refused request leaves the curve bit-for-bit unchanged, while every parameter inside the interval, however close to its ends, is accepted.",
 ["inputs"],"all f64 parameters (negative zero, subnormals, neighbours of 0 and 1, infinities, NaN) and all operations on "+CURVES,
 "Tests try -0.1, 1.1 for evaluation and exactly 0 and 1 for splitting; insertion limits and non-finite values are never tried.",
 [CV,MI,MS],[("range check in evaluate_derivative",CV),("range check in insert",MI),("range check in split_and_normalize",MS)],["Curve::evaluate_derivative","Curve::insert","Curve::insert_times","Curve::split","split_and_normalize"])
prop("C06","Knot insertion never changes the shape of the curve",
 "After any sequence of successful knot insertions, at any parameters and in any order, the curve has the same point and the same derivatives of every order at every parameter as before, up to rounding.",
 ["inputs","histories"],"all insertion sequences (new knots, repeated knots, knots beside and after existing repeated knots) on "+CURVES+" (distinct knots no closer than 1e-60 to 0)",
 "Tests insert only at 0.5 into straight-line curves with at most one distinct interior knot.",
 [MI,CV,KN],[("Boehm insertion",MI),("find_idx span search",KN),("calculate_derivatives",CV)],["Curve::insert","Curve::insert_times","insert"])
prop("C07","Knot insertion adds exactly the requested knot, up to multiplicity p+1",
 "A successful insertion of u leaves the knot vector equal to the sorted old one plus exactly one u, adds exactly one control point, and changes only control points whose basis functions are non-zero around u. Insertion at u succeeds as long as u occurs at most p times inside the curve and otherwise returns the multiplicity error naming u, the present multiplicity and p; inserting x times equals x single insertions.",
 ["inputs","histories"],"all insertion sequences up to and beyond the multiplicity limit on "+CURVES+" (distinct knots no closer than 1e-60 to 0)",
 "Tests cover multiplicities at 0.5 for p <= 3 only and never reach the multiplicity error.",
 [MI,CV,KN],[("multiplicity guard",MI),("insert_times",CV),("multiplicity count",KN)],["Curve::insert","Curve::insert_times","Knots::vector","ControlPoints::matrix"])
prop("C08","Splitting reproduces the curve piece by piece",
 "Splitting a curve at u yields a left and a right curve that together trace the original exactly: with normalisation the left piece at v is the original at u*v and the right piece at v is the original at u+(1-u)*v, and without normalisation each piece agrees with the original at the same parameter inside its own range. Values and, with the chain-rule factor, derivatives of every order agree up to rounding, and the original curve is left unchanged.",
 ["inputs","histories"],"all u in (0,1) (between knots, at simple and repeated knots, after repeated knots, next to the ends), all normalisation flags, on "+CURVES,
 "Tests split one degree-2 straight-line curve at 0.5 and next to its ends.",
 [MS,MI,KN],[("split_and_normalize",MS),("insert to full multiplicity",MI),("normalize",KN)],["Curve::split","split_and_normalize"])
prop("C09","Split pieces are clean, independent, clamped curves",
 "Each piece of a split keeps the degree and dimension, starts and ends with exactly p+1 equal knots, keeps exactly the original interior knots of its side (affinely mapped to [0,1] where normalisation is requested, untouched otherwise), meets the other piece in the split point, and can be used like any other curve. Splitting is refused, with the multiplicity error, only if u already occurs more than p times in the knot vector.",
 ["inputs","histories"],"all u in (0,1), normalisation flags and multiplicities of u from 0 to p+1 on "+CURVES,
 "Tests check two knot vectors for p = 2; splitting at existing knots with multiplicity > 1 and the multiplicity error are untested (the test is commented out).",
 [MS,KN],[("left/right knot and control point assembly",MS),("normalize",KN)],["Curve::split","split_and_normalize","is_clamped","is_normed","is_sorted"])
prop("C10","Reversing mirrors the parametrisation and undoes itself",
 "Reversing a curve gives a curve whose point at u is the old point at 1-u and whose k-th derivative is (-1)^k times the old one at 1-u (away from jumps), with knots still sorted and clamped and the control points in opposite order; reversing twice restores the original up to rounding. The in-place and the copying form agree and the copying form leaves its input unchanged.",
 ["inputs","histories"],"all u, all k <= p, on "+CURVES+", before and after other manipulations",
 "One test reverses a straight-line curve with p = n = 2 and no interior knots; derivatives of reversed curves are untested (a TODO).",
 [CV,MR,KN,PT],[("Knots::reverse",KN),("ControlPoints::reverse with sign flip",PT),("manipulation::reverse",MR)],["Curve::reverse","manipulation::reverse::reverse","reversed"])
prop("C11","Merging joins two curves smoothly and only touches the joint",
 "Merging curves a and b of equal degree p gives one clamped, normed curve of degree p with n_a+n_b+1-p segments that runs through a on [0,1/2] and b on [1/2,1], with the interior knots of both halved and one simple knot at 1/2, and whose derivatives up to order p-1 are continuous there. Each half is, as a curve on its own original knots, the input with only the last p (for a) or first p (for b) control points displaced; in particular outside the knot spans these influence the curve is unchanged.",
 ["inputs"],"all pairs of clamped curves of equal degree and dimension, with equal or different numbers of segments, any interior knots",
 "Tests merge pairs with n = 2 uniform segments and p <= 2, where several code paths are dead; unequal segment counts and p >= 3 are untested.",
 [MM],[("adjust_knots_of_both_splines / create_merged_knot_vector",MM),("adjust_shifted_control_points",MM),("generate_control_point_vector_of_merged_spline",MM)],["merge","Curve::append"])
prop("C12","Merging displaces control points as little as possible",
 "Among all displacements of the last p control points of a and the first p of b that make the two curves join with p-1 continuous derivatives (and keep the constrained points), a merge uses the one with the smallest total squared length. In particular two curves that already join that way are merged without any displacement.",
 ["inputs"],"all mergeable pairs and all feasible constraint sets",
 "Tests check two symmetric one-dimensional examples for p <= 2.",
 [MM],[("construct_Nmat: Lagrange system of the constrained least-squares problem",MM),("solve_linear_equation_system",MM)],["merge","merge_from","merge_to","Curve::append_constrained"])
prop("C13","Constrained merges keep the constrained points in place",
 "When a merge is given constraint parameters for a curve (fewer than p in total, and such that joining and all constraints can be met together), the merged curve still passes through that curve's original point at each of them: at half the parameter for the left curve and at one half plus half of it for the right. The merge-from and merge-to forms keep the end of the left and the start of the right curve respectively, and when appending or prepending with constraints each constraint set applies to the curve it is given for.",
 ["inputs"],"all mergeable pairs, all feasible sets of fewer than p constraint parameters on either or both sides, all four entry points",
 "Two one-dimensional p = 2 examples test merge_from and merge_to; append_constrained and prepend_constrained are never called.",
 [MM,CV],[("calculateGV/HW/IpV/JppW",MM),("append_constrained / prepend_constrained",CV)],["merge_from","merge_to","Curve::append_constrained","Curve::prepend_constrained"])
prop("C14","Append, prepend and split-then-merge agree with each other",
 "Appending b to a and prepending a to b both leave the receiver equal to the merge of a and b, with the argument unchanged. Splitting a curve at u = 1/2, where it has continuous derivatives up to order p-1, and merging the two pieces gives back the original curve (up to rounding, the same point at every parameter).",
 ["inputs","histories"],"all mergeable pairs, and all curves that have no knot or a simple knot at 1/2",
 "The doc examples for append and prepend compute a comparison without asserting it; round trips are untested.",
 [CV,MM,MS],[("Curve::append / prepend",CV),("merge",MM),("split",MS)],["Curve::append","Curve::prepend","merge","Curve::split"])
prop("C15","Incompatible curves are never merged",
 "Merging curves of different degree, different dimension, with a knot vector that is not clamped to p+1 zeros and ones, or with p or more constraints in total is refused with the matching error carrying the offending numbers, and the inputs stay unchanged; every compatible request succeeds. The in-place forms (append, prepend and their constrained variants) have no error value and refuse by a panic that names the error, with the receiver unchanged.",
 ["inputs"],"all pairs of curves (including unnormalised split pieces and manually built unclamped curves) and constraint counts 0..2p",
 "No merge error is tested.",
 [MM,KN],[("checks at the top of merge_with_constraints",MM),("is_clamped / is_normed",KN)],["merge","merge_from","merge_to"])
prop("C16","Interpolation passes through every data point",
 "Generating an interpolating curve of degree p through m+1 >= p+1 data points gives a curve of degree p with m segments that passes through data point g at parameter g/m for every g, up to rounding; interpolating with any knots and strictly increasing parameters for which the problem is well-posed reproduces the data at those parameters.",
 ["inputs"],"all non-empty data sets (any dimension, duplicates, large and small coordinates), degrees and counts for which the collocation system is numerically well-posed, equally spaced, chord-length and centripetal parameters, uniform, averaged and other valid knots",
 "Tests interpolate four collinear points with p <= 2.",
 [IN,GE],[("interpolate: collocation system and SVD solve",IN),("generate(Interpolation)",GE)],["generate(Interpolation)","interpolation::interpolate","Curve::evaluate"])
prop("C17","Loose-end least-squares fits are optimal",
 "A least-squares fit with loose ends returns the control points that minimise the sum of squared distances between the data points and the curve at their parameters, plus, if penalised, lambda times the sum of squared kappa-th order differences of the control points; data lying on a spline of the requested knots is reproduced by the unpenalised fit.",
 ["inputs"],"all data sets, degrees p >= 1, segment counts n <= m, lambda >= 0, 1 <= kappa < n, knots and parameters that are valid for the fit and make it numerically well-posed",
 "Tests fit collinear points and one zig-zag with p = 1 and n = m, i.e. only the interpolating case; the penalised test actually calls the fixed fit.",
 [LO,FI,GE],[("normal equations",LO),("compute_svd penalty term",FI),("difference_operator",FI)],["fit::loose::fit","generate(LeastSquaresFit, LooseEnds)"])
prop("C18","Fixed-end least-squares fits keep the ends and are optimal in between",
 "A least-squares fit with fixed ends starts exactly in the first and ends exactly in the last data point, and its inner control points minimise the sum of squared distances of the inner data points to the curve, plus, if penalised, lambda times the sum of squared kappa-th order differences of the inner control points. This holds for every admissible number of segments, including a single one.",
 ["inputs"],"all data sets, degrees p >= 1, segment counts 1 <= n <= m, lambda >= 0, 1 <= kappa < n-1, knots and parameters valid for the fit that make it numerically well-posed",
 "Tests fit collinear points and one zig-zag with n = m; no approximating fit is checked.",
 [FX,FI,GE],[("generate_qvectors",FX),("calculate_constant_terms_matrix",FX),("compute_svd",FI)],["fit::fixed::fit","generate(LeastSquaresFit, FixedEnds)"])
prop("C19","Invalid generation requests get an error, valid ones a curve, never a panic",
 "Asking for degree 0, for fewer segments than the degree, for a fit with more segments than data segments, with parameters that do not match the data, with negative lambda, with a kappa too large for the number of segments, or for a penalised fit (lambda > 0) on non-uniform knots returns the documented error naming the offending quantities. Every request within these limits returns a curve with the requested degree, dimension and number of segments; no combination of these arguments panics.",
 ["inputs","configurations"],"all combinations of degree, point count, dimension, requested segments, fit method, lambda (not NaN) and kappa >= 1 around and beyond the limits, on non-empty data",
 "Tests only check that degree 0 errors in the knot generators; no fit error and no boundary combination is tested.",
 [GE,FI,FX,LO,KM,CV],[("inputCheck",KM),("input_checks",FI),("finite difference assertions",FX),("Curve::new",CV)],["generate","fit::loose::fit","fit::fixed::fit","Curve::new","knots::generate"])
prop("C20","Parametrisation methods follow the data as documented",
 "Each parametrisation method returns one parameter per data point, starting at 0, ending at 1 and never decreasing; equally spaced parameters are g/m, chord-length increments are proportional to the distances of consecutive points and centripetal ones to the square roots of these distances. Chord-length and centripetal parameters do not change under translation, rotation or uniform scaling of the data, and reversing the data mirrors the parameters.",
 ["inputs"],"all data sets of ordinary extent with at least two points that are not all equal, any dimension, including runs of duplicate points",
 "Nine tests use one-dimensional data with at most five points.",
 [PA,PAM],[("equally_spaced, chord_length, centripetal",PA),("generate",PAM)],["parameters::generate","parameters::methods"])
prop("C21","Knot generation methods give valid, clamped knots from the documented formulas",
 "For every degree p >= 1, segment count n >= p and parameter set, each knot generation method returns n+p+2 non-decreasing knots with p+1 zeros, p+1 ones and n-p interior knots: equally spaced for the uniform method, sliding means of p consecutive parameters for averaging, and for the de Boor method the interpolation between the parameters at positions j*d-1 and j*d with d = (number of parameters)/(n-p+1), so that the knots follow the whole parameter range and every knot span contains a parameter.",
 ["inputs"],"all p, n, all non-decreasing parameter sets from 0 to 1 with at least n+1 entries",
 "Tests use n <= 5 and as many parameters as control points, never a fit situation with more parameters.",
 [KM,KN],[("uniform, averaging, de_boor",KM),("generate",KN)],["knots::generate","knots::methods"])
prop("C22","Knot vector queries report the knot vector faithfully",
 "For every knot vector, the lookups of the next knot left of, left of or equal to, right of or equal to and right of a parameter return an index in the domain whose knot has exactly that relation to the parameter with no other distinct domain knot in between (clipped to the first and last domain span), for every derivative order; multiplicity counts the exact occurrences in the domain; and degree, lengths, segment counts, domain, interior and derivative vectors are the corresponding parts of the vector that was supplied.",
 ["inputs"],"all clamped knot vectors (repeated interior knots included), all derivative orders k <= p, all u in [0,1] including exact knots and their neighbours",
 "24 tests query one degree-1 uniform vector without repeated knots at six parameters, only for k = 0.",
 [KN],[("find_idx",KN),("multiplicity / domain / internal / segments",KN),("derive",KN)],["Knots::find_idx","Knots::multiplicity","Knots::domain","Knots::internal","Knots::segments","Knots::segments_derivative","Knots::vector_derivative"])
prop("C23","Knot predicates are exact and rescaling is affine",
 "The predicates sorted, clamped, normed and uniform hold exactly for the knot vectors that are non-decreasing, start with p+1 zeros and end with p+1 ones, have smallest knot 0 and largest 1, and equal the uniform clamped vector of that size. Normalising maps any knot vector affinely onto [0,1] with its smallest knot exactly 0 and largest exactly 1, rescaling maps the old limits to the new ones affinely, and both keep the order, the multiplicities and the derivative vectors in step, so that a normalised curve traces the same points.",
 ["inputs"],"all finite knot vectors (sorted or not, clamped or not, any range) and all limit pairs",
 "Each predicate is tested on one positive and one negative example; normalize once; rescale never.",
 [KN],[("is_sorted/is_clamped/is_normed/is_uniform",KN),("normalize/rescale",KN)],["knots::is_sorted","is_clamped","is_normed","is_uniform","Knots::normalize","Knots::rescale","knots::normalize"])
prop("C24","Curves stay internally consistent through any history of operations",
 "After any sequence of successful or refused operations (insertions, splits, reversals, merges, appends, prepends, derivative extraction, cloning, and editing knots or points in place followed by deriving them again), the curve has n+p+2 sorted knots for n+1 control points, its stored derivative knots and control points of every order are the ones that belong to its current knots and control points, every available derivative can be evaluated everywhere, and the trace equals the one obtained by applying the same operations to the mathematical curve. A clone is unaffected by what happens to its source.",
 ["histories"],"all finite sequences of public operations starting from any generated curve",
 "Tests apply at most three insertions to one curve; no test mixes operations.",
 [CV,MI,MM,MS,KN,PT],[("calculate_derivatives after every manipulation",CV),("derive",KN),("derive",PT)],["Curve API","Knots::vector_derivative","ControlPoints::matrix_derivative","max_derivative"],
 [("Uk,k_max","knot vectors per derivative",KN),("Pk,k_max","control points per derivative",PT)])
prop("C25","Queries are pure: no history, order or thread changes an answer",
 "Evaluating, differentiating and every other query on a curve or knot vector, as well as the generators and the copying manipulations, return bit-identical results whenever repeated with the same inputs: regardless of earlier calls on the same or other curves, of the order of calls, and of other threads using the same curve at the same time; and they leave their inputs unchanged. Curves can be shared between and sent to other threads.",
 ["histories","schedules"],"all interleavings of queries on several curves from one or many threads, compared with the answers of a fresh process",
 "Tests make each query once, in one thread.",
 [CV,KN,BA,PT,MM,MS,GE],[("&self methods without interior mutability","src")],["all &self methods","generate","merge","split","reversed"])
prop("C26","Every operation is coordinate-wise and affine-invariant",
 "Generating, interpolating, fitting, merging, inserting, splitting, reversing and evaluating an N-dimensional curve gives in each coordinate the result of the same operation on that coordinate alone, whatever N is, and commutes with any affine map of the points (rotation, scaling, translation), up to rounding; permuting the coordinates permutes the result. The knots that result do not depend on the coordinates unless chord-length or centripetal parameters are used.",
 ["inputs","configurations"],"all dimensions N >= 1, all affine maps, all operations",
 "Tests use one or two dimensions, and the two-dimensional data repeats the same coordinate.",
 [CV,PT,MM,MI,MS,LO,FX,IN],[("column-wise point storage in all algorithms",PT)],["generate","merge","insert","split","evaluate"])
prop("C27","No operation reads or writes memory out of bounds in optimised builds",
 "In release builds, where arithmetic overflow is not checked, no call of the public interface - with valid arguments, with invalid ones that are refused, or with meaningless ones such as knots that do not fit the points - causes an out-of-bounds, use-after-free or other invalid memory access, reads uninitialised memory, or otherwise executes undefined behaviour.",
 ["inputs","histories"],"all public operations on valid, refused and meaningless inputs (indices that wrap inside nalgebra's own column access excepted) under AddressSanitizer in release mode and under an undefined-behaviour interpreter for small inputs",
 "Tests run without sanitizers in debug builds, where index underflow panics before it can touch memory; in release builds the linear-algebra views accept wrapped indices.",
 [MM,MS,MI,PT,TY],[("index arithmetic in front of nalgebra views",MM),("VecHelpers views",TY)],["whole public API"])
prop("C31","Misused calls end cleanly and leave their inputs alone",
 "A call whose arguments break its preconditions (knot vectors that do not fit the points, wrong lengths, orders and indices beyond the end, unsorted knots, NaN or infinite knots, parameters, constraints and penalties) still ends promptly with a value, an error or an ordinary panic: it never hangs and never brings the process down, it does not change anything it only reads, and an insertion that returns an error leaves the curve bit-for-bit unchanged.",
 ["inputs"],"all public operations with arguments outside their preconditions, of any size and any f64 value",
 "No test passes NaN, infinite or mismatched arguments; a search or an iteration that only ends for ordinary numbers passes every test.",
 [CV,KN,MM,MS,MI,FI,IN,TY,"src/linalg.rs"],[("span search",KN),("linear solves","src/linalg.rs"),("Curve::new accepts any knots",CV)],["whole public API"])
prop("C32","Curves with unclamped ends follow the same rules",
 "A curve need not be clamped: with any non-decreasing knots U whose domain [U_p, U_(n+1)] is [0,1] (the p knots on either side lying anywhere outside, single or repeated), evaluation and every derivative at every u in [0,1], both ends included, give the B-spline point and its derivatives, the basis functions sum to one, derivative curves and reversed curves are the true ones, inserting a knot adds exactly that knot and keeps the shape, and splitting without normalisation gives pieces that trace the curve on their sides, with p+1 equal knots at the split point and the outer ends kept as they are. Only merging refuses such curves, with the unclamped-curve error.",
 ["inputs","histories"],"all sorted knot vectors with domain [0,1] of which at least one end is not clamped, all degrees, sizes, points and parameters",
 "All tests use clamped knots.",
 [CV,BA,KN,MI,MS],[("closed end of the domain in the basis recursion",BA),("span search",KN),("insertion and splitting by index windows",MI)],["Curve::new","Curve::evaluate_derivative","Curve::insert","Curve::reverse","Curve::get_derivative_curve","split_and_normalize"])
prop("C28","Control points act locally and the curve stays in their hull",
 "Moving one control point changes the curve only on the at most p+1 knot spans where its basis function is non-zero, and moves each point there by that basis value times the displacement; every curve point lies inside the bounding box and any half-space that contains the p+1 control points of its span. Control points on a straight line give a straight curve and equal control points a constant curve with zero derivatives.",
 ["inputs"],"all control point changes, all u, on "+CURVES,
 "No test changes a control point of a curve or checks containment.",
 [CV,BA,PT],[("local support window in evaluate_derivative",CV),("basis",BA)],["Curve::new","Curve::evaluate"])
prop("C29","Point containers and vector views address exactly the requested elements",
 "Counts, dimensions, segments, single-point access, head, segment and tail views and their mutable forms of points and vectors refer to exactly the requested elements for every size, writes through a mutable view change exactly those elements, and reversing points reverses their order exactly and is undone by reversing again.",
 ["inputs"],"all sizes and index ranges, including empty and full ones, of data points, control points and vectors",
 "Tests check one vector of length four and one 2x4 matrix; mutable views, data points and offsets other than 1 are untested.",
 [TY,PT],[("VecHelpers",TY),("Points trait",PT),("reverse",PT)],["VecHelpers","Points","DataPoints","ControlPoints"])
prop("C30","Manual generation and construction keep exactly what was supplied",
 "A manually generated or directly constructed curve has exactly the supplied control points, bit for bit, the supplied knots or the ones the chosen knot and parameter methods produce for those points, the requested degree, the points' dimension and one segment less than points, and offers derivatives of every order up to the degree.",
 ["inputs","configurations"],"all control point matrices, degrees p <= n, and knot choices (uniform, supplied, each knot method with each parameter method)",
 "Tests use the uniform option only.",
 [GE,CV,KN],[("generate(Manual)",GE),("Curve::new",CV)],["generate(Manual)","Curve::new","Curve::degree","Curve::segments","Curve::dimension","Curve::max_derivative"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P),"ok")
