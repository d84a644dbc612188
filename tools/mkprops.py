import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","Results and writes do not depend on memory layout, batching or aliasing",
 "The result of every function of the library is determined by the logical values of its arguments: any strides (negative, zero, non-contiguous), axis order, batch shape, broadcasting, unaligned or byte-swapped storage, or an out= array that overlaps an input gives the same values as separate calls on contiguous copies of each slice. A call writes every element of its outputs and no other memory: elements between, before and after the output elements, and all inputs that do not overlap the outputs, are unchanged.",
 ["inputs","configurations"],"every function, every registered loop type, every stride/axis/batch/broadcast/overlap configuration of inputs and outputs",
 "The tests use contiguous arrays and a few [::k] slices; the property ranges over the product of function x loop type x layout, where one missed stride only shows on particular combinations.",
 ["src/*/*_gufunc.h","src/util/strided.hpp","src/gendot/gendotmodule.c","src/linear_interp1d/linear_interp1d_gufunc.c.src","tools/cxxgen"],
 [("stride arithmetic of each core loop","src/*/*_gufunc.h"),("generated outer loops that step by steps[]","tools/cxxgen/_generate_files.py"),("NumPy's overlap handling, relied on for aliasing","NumPy")],
 ["values of out, and of a guard buffer that surrounds every argument"])
p("C02","A call depends only on its own arguments, never on other calls",
 "The result of a call depends on nothing but that call's arguments: not on calls made earlier, on the other rows of the same batch, on calls that run at the same time in other threads, or on calls made from within it (from comparison or arithmetic methods of object elements). The same call repeated at any point of any such history returns the same result.",
 ["schedules","histories"],"every interleaving and nesting of calls, every history of previous calls and every neighbour row in a batch",
 "Every test makes one call at a time in one thread; scratch state that survives a row or a call gives the right answer in all of them.",
 ["src/*/*_gufunc.h","src/gendot/gendotmodule.c","ufunclab/_wrapped.py","ufunclab/__init__.py"],
 [("per-call local accumulators","src/*/*_gufunc.h"),("per-call temporary buffers","src/gendot/gendotmodule.c, src/mad/mad_gufunc.h")],
 ["return values under permuted histories, batches, threads and nested calls"])
p("C03","first and argfirst return the first element that satisfies the relation",
 "argfirst(x, op, t) is the smallest index i with x[i] op t for the six relations LT, LE, EQ, NE, GT, GE, and -1 if there is none; first(x, op, t, otherwise) is that element, or otherwise if there is none. This holds for every length (including 0), every registered dtype and its extreme values, infinities and NaN compared as IEEE 754 compares them, and objects compared with their own methods, where no element after the first match is compared.",
 ["inputs"],"all sequences, operators, thresholds, dtypes",
 "The tests pick a few arrays and operators per dtype; the relation has to hold for each of 6 operators x 12 loops x every position of the first match.",
 ["src/first/first_gufunc.h","ufunclab/__init__.py"],
 [("typed scan and object scan","src/first/first_gufunc.h"),("op constants","ufunclab/__init__.py")],["return value","sequence of comparisons made on objects"])
p("C04","Extrema functions agree with each other and choose the first extremum",
 "For a nonempty sequence without NaN, argmin and argmax return the smallest index of a minimal or maximal element, and minmax, argminmax, min_argmin and max_argmax return exactly the corresponding values and indices; peaktopeak is the exact difference max - min, also when it does not fit in the signed type of the input. A sequence of length 0 is rejected with ValueError.",
 ["inputs"],"all nonempty sequences of every registered dtype including extreme values, ties, infinities and objects",
 "Tests sample a few arrays per dtype; ties in every position, extreme values and all eight functions on the same data are not covered.",
 ["src/minmax/minmax_gufunc.h","src/peaktopeak/peaktopeak_gufunc.c.src"],
 [("strict comparisons while scanning","src/minmax/minmax_gufunc.h"),("unsigned output of peaktopeak","src/peaktopeak/peaktopeak_gufunc.c.src")],["return values"])
p("C05","ordered and all_same decide their predicate for every sequence",
 "all_same(x) is true exactly when every element equals the first one (so it is true for lengths 0 and 1), and ordered(x, op) is true exactly when x[i] op x[i+1] holds for every adjacent pair, for op in LT, LE, EQ, NE, GT, GE and sequences without NaN, true for lengths 0 and 1. The answer is the same for every dtype that represents the values, and for objects.",
 ["inputs"],"all sequences, operators, dtypes",
 "A violation at one pair of one position under one operator is enough to be wrong; the tests use a handful of sequences.",
 ["src/ordered/ordered_gufunc.h","src/all_same/all_same_gufunc.h"],
 [("pairwise scan with early exit","src/ordered/ordered_gufunc.h"),("scan with early exit","src/all_same/all_same_gufunc.h")],["return values"])
p("C06","Binary search and percentile rank count what they are defined to count",
 "For a sorted x, searchsortedl(x, v) is the number of elements less than v and searchsortedr(x, v) the number of elements less than or equal to v, at every length including 0, after NumPy's type promotion of x and v. percentileofscore(x, s, kind) is 100/n times the number of elements < s (strict), <= s (weak), their mean (mean), or the average of the tied ranks (rank), for unsorted x too, and nan for an empty x or an unknown kind.",
 ["inputs"],"all (sorted) sequences and keys, all dtypes and mixed-type pairs, all kinds",
 "Off-by-one errors of a binary search appear only for particular lengths, duplicates and key positions; the tests check a few.",
 ["src/searchsorted/searchsorted_gufunc.c.src","src/percentileofscore/percentileofscore_gufunc.h"],
 [("bisection loop and custom type resolver","src/searchsorted"),("counting loop","src/percentileofscore/percentileofscore_gufunc.h")],["return values"])
p("C07","bincount counts or sums each value in range once and drops the rest",
 "bincount(x, m) returns, for each k in 0..m-1, the number of elements of x equal to k, or with weights the sum of their weights; elements outside 0..m-1 contribute nothing and touch no memory, for every integer dtype. By default m is max(x)+1 over the whole array; axis selects the counted axis; out= is accumulated into, so that a history of calls on one out array leaves the sum of the individual counts.",
 ["inputs","histories"],"all integer arrays, bin counts, weights, axes, and histories of accumulating calls",
 "The tests use small in-range arrays; extreme values of each dtype, multi-dimensional axes and accumulation histories are not enumerated.",
 ["src/bincount/bincount_gufunc.h","ufunclab/_wrapped.py"],
 [("range test before the increment","src/bincount/bincount_gufunc.h"),("shape, axis and default m","ufunclab/_wrapped.py")],["return value, out array, guard memory"],[("out","counts accumulated so far","caller's array")])
p("C08","one_hot, convert_to_base and the nextn wrappers place results exactly",
 "convert_to_base(k, base, ndigits) yields the digits d with d[0] least significant such that sum(d[i]*base**i) equals k modulo base**ndigits and 0 <= d[i] < base, for every k >= 0 and base >= 2 of every integer dtype; one_hot(k, n) has a single 1 at index k when 0 <= k < n and is zero otherwise; nextn_greater(x, n) and nextn_less(x, n) return n consecutive floating-point neighbours. The new dimension is placed at the axis asked for (default last), out= is honoured, and a wrong axis, a wrong out shape, a negative count or base 0 raises an error instead of returning a value.",
 ["inputs","configurations"],"all values, bases, digit counts, dtypes, input ranks, axis values and out arrays",
 "The tests enumerate neither axis x rank x out combinations nor extreme values of each dtype.",
 ["ufunclab/_wrapped.py","src/convert_to_base/convert_to_base_gufunc.h","src/one_hot/one_hot_gufunc.h","src/nextn/nextn_gufunc.h"],
 [("axis normalisation and out allocation","ufunclab/_wrapped.py"),("digit loop","src/convert_to_base/convert_to_base_gufunc.h")],["return values, shapes, exceptions"])
p("C09","Floating-point neighbours and signaling-NaN detection are bit exact",
 "next_greater and next_less return the adjacent representable value in the lattice of the type (crossing zero through the subnormals, stopping at the infinities, keeping NaN), so they are monotone and inverse to each other away from the infinities, and nextn_greater and nextn_less iterate them. issnan is true exactly for the bit patterns of signaling NaNs in half, single and double precision, and reading it never alters the value.",
 ["inputs"],"all bit patterns of each floating-point type",
 "Tests check a dozen values; the property is about every bit pattern, with boundaries at zero, subnormal/normal, powers of two, largest finite, infinities and NaN payloads.",
 ["src/next/next.h","src/nextn/nextn_gufunc.h","src/issnan/issnan_ufunc.c.src","ufunclab/_wrapped.py"],
 [("nextafter in one direction","src/next/next.h"),("bit test of the quiet bit","src/issnan/issnan_ufunc.c.src")],["bit patterns of results"])
p("C10","Hysteresis operators are causal and compose over chunks of a signal",
 "backlash, backlash_sum and hysteresis_relay compute out[k] from the signal up to k only, by their documented recurrence from the initial state: backlash follows x within deadband/2 and moves only when pushed; the relay switches only at its thresholds and emits low_value or high_value. Processing a signal in consecutive chunks, each started from the state the previous one ended in, gives the same outputs as one call, and backlash_sum is the weighted sum of its backlashes and returns each final state.",
 ["histories","inputs"],"all signals, parameters, initial states and chunkings",
 "The tests compare a few signals; a wrong transition at one boundary (equality with a threshold, first sample, deadband 0) needs a particular history.",
 ["src/backlash/backlash_gufunc.h","src/hysteresis_relay/hysteresis_relay_gufunc.h"],
 [("play operator step","src/backlash/backlash_gufunc.h"),("relay step","src/hysteresis_relay/hysteresis_relay_gufunc.h")],["output signals and final states"],[("current","play or relay state","local to the loop")])
p("C11","sosfilter applies the cascade of second-order sections, in chunks as in one go",
 "sosfilter(sos, x) is the output of the cascade of transposed direct form II sections with zero initial state, with any number of sections including none and any length including 0. sosfilter_ic and sosfilter_ic_contig start from the given state and return the final one, so filtering consecutive chunks and passing the state on equals filtering the concatenation; the filters are linear in (x, state) and causal.",
 ["histories","inputs"],"all coefficient sets, signals, initial states, chunkings and section counts",
 "Tests compare one or two filters with SciPy results; state handover for every chunking, several sections and short signals are not covered.",
 ["src/sosfilter/sosfilter_gufunc.h"],[("section recurrence","src/sosfilter/sosfilter_gufunc.h")],["y and final state"],[("z","two delays per section","out array")])
p("C12","unwrap changes values by whole periods; fillnan1d interpolates only the gaps",
 "unwrap(x, period) starts at x[0], differs from x by a whole number of periods at each index, and each step of the result is at most half a period; from the first non-finite value on, the rest is nan. fillnan1d leaves every non-NaN value unchanged and replaces each NaN by the linear interpolation between its nearest non-NaN neighbours, or by the nearest value at the ends, and an all-NaN input stays NaN.",
 ["inputs"],"all signals, positive periods, and every pattern of NaN",
 "Every pattern of gaps (start, end, adjacent, length 1) and of jumps (several periods, alternating) matters; the tests check a few.",
 ["src/unwrap/unwrap_gufunc.h","src/fillnan1d/fillnan1d_gufunc.h"],
 [("accumulated correction","src/unwrap/unwrap_gufunc.h"),("gap scan","src/fillnan1d/fillnan1d_gufunc.h")],["output signals"])
p("C13","linear_interp1d interpolates on the bracketing segment, nan outside the grid",
 "For strictly increasing xp, linear_interp1d(x, xp, fp) equals fp[i] at x = xp[i], lies on the chord of the segment that contains x inside the range (to within rounding), and is nan below xp[0], above xp[-1], for NaN x and for length 0; length 1 gives fp[0] at xp[0] only. The result for one x does not depend on which other x are evaluated in the same call or in which order, nor on xp and fp being shared or varying across the batch.",
 ["inputs","histories"],"all grids, values, query points and orders of query points in a batch",
 "The shared-grid fast path and the general path have to agree for every order of queries; the tests use a few grids in sorted order.",
 ["src/linear_interp1d/linear_interp1d_gufunc.c.src"],
 [("binary search per query, fast path for a shared grid","src/linear_interp1d/linear_interp1d_gufunc.c.src")],["return values"])
p("C14","Piecewise elementwise functions take the documented value in every region",
 "step, linearstep, smoothstep3, smoothstep5, invsmoothstep3, trapezoid_pulse, deadzone, nan_to_num, abs_squared, abssq, hypot3 and the semivariogram models return the documented constant, line or polynomial in each region and exactly the documented constant at each breakpoint; ramps are monotone and stay between their end values, and breakpoints out of order give nan (ramps and trapezoid_pulse). A NaN argument x gives nan, except that nan_to_num replaces it and nothing else (and step and deadzone, where it is undefined); hypot3 is inf if any argument is. This holds for extreme and infinite arguments and in each floating-point type.",
 ["inputs"],"all arguments, including breakpoints, infinite values and NaN, for each loop type",
 "Tests use a few points inside each region; equality with each breakpoint, degenerate regions and non-finite arguments form the cases that break.",
 ["src/step/step.h","src/trapezoid_pulse/trapezoid_pulse.h","src/deadzone/deadzone.h","src/semivar/semivar.h","src/nan_to_num/nan_to_num.h","src/abs_squared/abs_squared.h","src/abssq/abssq_ufunc.cpp","src/hypot3/hypot3.h"],
 [("region tests of each function","src/step/step.h and siblings")],["return values"])
p("C15","gendot is the reduction of the elementwise product function",
 "The function returned by gendot(prodfunc, sumfunc) gives, for every batch and length, sumfunc.reduce(prodfunc(x, y)) along the core axis in that order, for every type for which it has a loop, and it selects a loop only when the two ufuncs have matching types; for length 0 it gives the identity of sumfunc, or raises if there is none. Creating a gendot checks its arguments and raises for anything that is not a suitable ufunc, and leaves the two ufuncs unchanged.",
 ["programs","inputs"],"all pairs of ufuncs, types, lengths and layouts",
 "The tests compose about four pairs; the composition must be right for each combination of loop types and identity kinds.",
 ["src/gendot/gendotmodule.c","ufunclab/_gendot_wrap.py"],
 [("loop matching and composed inner loop","src/gendot/gendotmodule.c"),("identity and docstring wrapper","ufunclab/_gendot_wrap.py")],["types and return values of the composed gufunc"])
p("C16","Generalized means follow their case analysis and order",
 "gmean, hmean, pmean and their weighted forms give the p-power mean of positive data (p = -1 harmonic, 0 geometric, 1 arithmetic, 2 quadratic, -inf minimum, inf maximum), lie between min and max, do not decrease with p, and do not depend on the order of the data; constant data give the constant. Zeros, infinities and negative values give the documented limit or nan, weights act as repetition counts, elements of weight 0 do not matter for finite positive data and finite p, and NaN in the data gives nan.",
 ["inputs"],"all nonnegative and special data, weights and exponents",
 "The case analysis on p, zeros and infinities has dozens of cases which the tests sample.",
 ["src/means/means_gufunc.c.src"],[("case analysis on p and on the data","src/means/means_gufunc.c.src")],["return values"])
p("C17","Mean, variance and dispersion measures equal their exact definitions",
 "meanvar(x, ddof) returns the exact mean and sum of squared deviations divided by n - ddof, and is not degraded by a large common offset; mad is the mean absolute difference over all pairs, with n*(n-1) pairs when unbiased and n*n otherwise, rmad is mad divided by the mean, and gini is half of rmad. None of them depends on the order of the data, mad scales with the data, and adding a constant changes neither the variance nor mad; length 0 is rejected by meanvar, which has no mean to give.",
 ["inputs"],"all data, ddof and unbiased flags, integer and floating-point dtypes",
 "Tests use a few data sets; dependence on position, ties, length 0/1/2 and offsets is not covered.",
 ["src/meanvar/meanvar_gufunc.h","src/mad/mad_gufunc.h"],[("one-pass update","src/meanvar/meanvar_gufunc.h"),("sorted formula","src/mad/mad_gufunc.h")],["return values"])
p("C18","pearson_corr and wjaccard are symmetric, bounded and exact on exact data",
 "pearson_corr(x, y) is the covariance of x and y divided by the product of their standard deviations: symmetric, within [-1, 1] up to rounding, equal to 1 (or -1) for x against a positive (or negative) multiple of itself plus a constant, and nan when one argument is constant; lengths below 2 are rejected. wjaccard(x, y) is sum(min(x, y)) / sum(max(x, y)) for nonnegative data, symmetric, within [0, 1], 1 for identical data; both hold for every registered integer and floating-point dtype, whose values are converted before they are accumulated.",
 ["inputs"],"all pairs of data of every registered dtype",
 "Tests use a few pairs; integer types near their limits and special lengths are not covered.",
 ["src/corr/corr_gufunc.h","src/wjaccard/wjaccard_gufunc.h"],[("two-pass sums in floating point","src/corr/corr_gufunc.h"),("sums of min and max","src/wjaccard/wjaccard_gufunc.h")],["return values"])
p("C19","kbnsum recovers low-order parts that naive summation loses",
 "kbnsum(x) returns the Kahan-Babuska-Neumaier compensated sum: exact when the parts of two magnitudes can be represented in the running sum and its compensation, whatever the order of large and small terms, and 0 for length 0. If there are infinities of one sign the result is that infinity; with infinities of both signs or a NaN it is nan.",
 ["inputs"],"all sequences mixing two magnitudes, signs and special values in every order",
 "Order of large and small terms and the place of an infinity decide which branch is used; the tests use a few orders.",
 ["src/kbnsum/kbnsum_gufunc.h"],[("compensation step with the larger operand first","src/kbnsum/kbnsum_gufunc.h")],["return value"],[("sum, c","running sum and compensation","local")])
p("C20","Norms, dot products, cross products and areas equal their definitions",
 "vnorm(x, p) is the p-norm (p = 1 sum, 2 Euclidean, inf maximum), rms the root mean square, both for real and complex data, nan for a nan element and inf for an infinite one; vnorm has no avoidable overflow or underflow; vdot is the sum of products. cross2 and cross3 are the determinant and vector product (with objects too), and tri_area and tri_area_indexed the area of the triangle in any dimension, invariant under permuting the vertices, 0 for collinear points, and nan for an index out of range.",
 ["inputs"],"all vectors, orders, dimensions, index triples and dtypes",
 "Tests use a few vectors; permutations, degenerate triangles, negative and out-of-range indices, and large magnitudes are not enumerated.",
 ["src/vnorm/vnorm_gufunc.h","src/cross/cross_gufunc.h","src/tri_area/tri_area_gufunc.h"],
 [("scaled accumulation","src/vnorm/vnorm_gufunc.h"),("index check","src/tri_area/tri_area_gufunc.h")],["return values"])
p("C21","Type resolution and core-dimension checks follow the published table",
 "Each function accepts exactly the input types of its published loops (after safe casting), returns the published output type and shape for each, and rejects missing or mismatched core dimensions, and (in a nonempty batch) empty reductions that have no value, with ValueError, before writing any output. For every type the result is that of the loop of the common type, so a value representable in several types gives the same result in each.",
 ["configurations","inputs"],"all functions, input type combinations and core dimension sizes",
 "The tests call each function with one or two types; the matrix function x dtype combination x core size is not enumerated.",
 ["src/*/define_cxx*_extmod*.py","tools/cxxgen","src/searchsorted/searchsorted_gufunc.c.src","src/corr/corr_gufunc.h","src/minmax/minmax_gufunc.h"],
 [("generated loop tables","tools/cxxgen/_generate_files.py"),("process_core_dims functions","src/*/*_gufunc.h")],["result dtype, shape, exception type"])
p("C22","Object loops propagate element errors and keep references balanced",
 "With object arrays every function that has an object loop returns what its definition gives in terms of the elements' own operations; an exception raised by an element's method reaches the caller unchanged and no result is returned. Each call keeps reference counts balanced, on success and on every error path: afterwards each input element is referenced as before, plus once for each place of the result that holds it.",
 ["fault_sequences","inputs"],"all object sequences and every position at which an element's operation raises",
 "The tests check a few values and one or two exceptions; the fault at every comparison of every function, and the reference balance, are not checked.",
 ["src/first/first_gufunc.h","src/minmax/minmax_gufunc.h","src/all_same/all_same_gufunc.h","src/ordered/ordered_gufunc.h","src/searchsorted/searchsorted_gufunc.c.src","src/cross/cross_gufunc.h","src/peaktopeak/peaktopeak_gufunc.c.src"],
 [("PyObject_RichCompareBool and error checks","src/first/first_gufunc.h and siblings"),("Py_INCREF/Py_DECREF of results","src/minmax/minmax_gufunc.h")],["exceptions, comparison log, sys.getrefcount"])
p("C23","Names resolve to the same object whatever the order of access",
 "Every public name can be reached by attribute access and from-import in any order, every name of __all__ is also listed by dir and bound by star-import, and each is always the same object for the whole life of the process, also when it is copied or sent through a pickle; an unknown name raises AttributeError and leaves the package usable. The constants in op have distinct values that the functions that take them understand.",
 ["histories"],"all orders of first access to the public names and submodules",
 "The tests import names in one order per file; lazy loading makes the outcome depend on the order of first access.",
 ["ufunclab/__init__.py","ufunclab/_gendot_wrap.py","ufunclab/_wrapped.py"],
 [("__getattr__ with a name-to-module table","ufunclab/__init__.py")],["identity of the objects obtained"],[("sys.modules and the package namespace","which submodules are loaded","interpreter")])
p("C24","Smooth special functions keep their limits, symmetries and monotonicity",
 "logistic, log_logistic, logistic_deriv, swish, hyperbolic_ramp, exponential_ramp, expint1, logexpint1, debye1, loggamma1p, logfactorial, pow1pm1, yeo_johnson and its inverse, softmax, multivariate_logbeta, the exponential semivariogram, erfcx, the complex log1p functions, and the normal-distribution functions take their documented values at zero, the infinities and outside their domain, are monotone and continuous over their whole domain including the joins between internal formulas, and satisfy their defining identities (reflection, recurrence, inverse) to within rounding. NaN gives nan.",
 ["inputs"],"the whole domain of each function, sampled along chains that straddle every join, in each type",
 "Tests check reference values at selected points; a wrong join or limit lies between them.",
 ["src/logistic/logistic.h","src/ramp/ramp.h","src/expint1/expint1.h","src/debye1/debye1_generated.c","src/loggamma1p/loggamma1p.c","src/logfactorial/logfactorial.c","src/pow1pm1/pow1pm1.h","src/yeo_johnson/yeo_johnson.h","src/softmax/softmax_gufunc.h","src/multivariate_logbeta/multivariate_logbeta_gufunc.h","src/normal/normal.h","src/normal/erfcx_funcs.cxx","src/log1p/log1p_ufunc.c","src/semivar"],
 [("choice of formula by region","the files above")],["return values"])
p("C25","Transcendental functions are accurate to a few units in the last place",
 "Each transcendental function returns a value within a small number of units in the last place of the exact value over its whole domain, in each floating-point type.",
 ["inputs"],"all floating-point arguments",
 "Reference values exist only at selected points.",
 ["src/log1p/log1p_ufunc.c","src/debye1","src/expint1","src/loggamma1p","src/normal","src/pow1pm1"],
 [("series, rational approximations and double-double arithmetic","the files above")],["return values"])
p("C26","A call holds nothing when it has ended, and survives refused memory",
 "When a call has ended, with a result or with an error, and its result has been dropped, it holds nothing: memory in use and references to its arguments, to types and to other objects do not become more or fewer when the same call is made any number of times; this includes making gufuncs with gendot. When memory that the library asks for is refused, at whichever request, the call gives its normal result or raises MemoryError, holds nothing, and later calls give what they would have given. No arguments that NumPy accepts, valid or not for the function, end the process.",
 ["fault_sequences","histories","inputs"],"every function, loop type and way of failing (types, shapes, values, keywords, objects that raise), every request for memory of a call that is refused, every number of repetitions",
 "The tests look at results: a block or reference that a call keeps shows only after very many calls, and no test makes an allocation fail.",
 ["src/mad/mad_gufunc.h","src/gendot/gendotmodule.c","src/sosfilter/sosfilter_gufunc.h","src/backlash/backlash_gufunc.h","src/ordered/ordered_gufunc.h","src/first/first_gufunc.h","src/ufunc-inspector/ufunc_inspector.c","ufunclab/_wrapped.py"],
 [("temporary arrays of the loops","src/mad/mad_gufunc.h, src/sosfilter/sosfilter_gufunc.h, src/gendot/gendotmodule.c"),("memory that a made gufunc owns","src/gendot/gendotmodule.c"),("error returns of the object loops","src/*/*_gufunc.h")],["blocks in use, reference counts, exceptions, end of the process"],[("blocks that the library asked for","allocated and not yet freed","vf/alloc.cpp counts them")])
p("C27","ufunc_inspector tells the truth about every ufunc",
 "ufunc_inspector(f) prints, for every ufunc and gufunc, the name, the numbers of inputs, outputs and loops, for a gufunc the signature, the sizes and kinds of its distinct core dimensions, and for each argument the number, indices and offset of its core dimensions, all as its signature determines them; for each loop of a function with one output and at most four inputs the type numbers and characters of that loop, with the name of the generic NumPy loop it uses if it is one that the inspector knows; and the loops registered for other types. It returns None, changes nothing, and says 'Not a ufunc.' of any other object.",
 ["inputs","configurations"],"every ufunc: any signature, any number of arguments and loops, any loop types, generic loops and registered loops, and every other object",
 "No test calls it; what it prints is right for the functions in the documentation, and a signature with repeated, fixed or absent dimensions shows a wrong index or offset.",
 ["src/ufunc-inspector/ufunc_inspector.c"],
 [("walk over core_dim_ixs by core_offsets and core_num_dims","src/ufunc-inspector/ufunc_inspector.c"),("comparison with the generic loops","CHECKFOR in src/ufunc-inspector/ufunc_inspector.c")],["standard output of the process"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
