"""writes properties.jsonl (the properties are maintained here)"""
import json, os
W = []


def P(id, title, statement, over, text, why, files, mech, observe=()):
    W.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f if "/" not in f else f for f in files.split()],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe)}})


P("C01", "qis and qisi return a population of exactly the requested size",
  "Whenever qis or qisi returns, the returned array has one axis per dimension named in the indices with the size the marginals give it, every cell is a non-negative integer count, and the cells add up to the common total of the marginals. That total is the value reported as pop. This holds whether or not the run is reported as converged.",
  "inputs configurations", "all index/marginal lists (and seeds) that are accepted, any skips, both language bindings",
  "The suite samples about twenty small problems; the loop runs once per individual and its count, start value and increment must be right for every population and shape.",
  "QIS.cpp QISI.cpp Microsynthesis.h module.cpp rcpp_api.cpp",
  [("sampling loop over the population", "QIS.cpp solve_m, QISI.cpp solve"), ("population from marginal totals", "Microsynthesis.h createMappings")],
  ["humanleague.qis()[0]", "humanleague.qisi()[0]", "stats['pop']"])
P("C02", "qis and qisi report convergence exactly when every marginal is reproduced",
  "conv is true if and only if, for every marginal supplied, the returned array summed over the dimensions not in that marginal equals that marginal in every cell. In particular conv is never true for a population that over-fills or under-fills any cell of any marginal.",
  "inputs configurations", "all accepted inputs, any skips, both bindings",
  "Tests look at the flag on a handful of inputs, nearly all converging; a flag that misses one marginal or one cell only shows on inputs where the sampling runs into a depleted state.",
  "QIS.cpp QISI.cpp", [("decrement of each marginal at the sampled state and sign test", "QIS.cpp solve_m, QISI.cpp solve")], ["stats['conv']"])
P("C03", "ipf convergence flag, error and iteration count describe the returned array",
  "ipf reports conv true if and only if every cell of every marginal differs from the corresponding sum over the returned array by less than 1e-8, and maxError is the largest such absolute difference; a difference that is not a number is never accepted as converged. iterations is the number of scaling sweeps performed, which stops at the first converged sweep and never exceeds 1000.",
  "inputs configurations", "all accepted seeds, indices and marginals, both bindings",
  "Tests check the flag on converging problems only; the non-converging, zero and NaN cases and agreement between the three statistics are for all inputs.",
  "IPF.h Microsynthesis.h NDArrayUtils.h", [("error scan", "IPF.h computeErrors"), ("iteration loop", "IPF.h solve"), ("marginal sums", "Microsynthesis.h rDiff, NDArrayUtils.h reduce/diff")], ["stats['conv']", "stats['maxError']", "stats['iterations']"])
P("C04", "ipf only rescales its seed",
  "The array ipf returns has the seed's shape, and each sweep multiplies every cell, for each marginal in turn, by the ratio of that marginal's value at the cell's projection to the current sum over the cells with that projection (or sets it to zero where that sum is zero). A cell that is zero in the seed is therefore zero in the result, and nothing but the seed and the marginals influences the result.",
  "inputs configurations", "all accepted seeds, indices and marginals of any dimensionality, both bindings",
  "Tests compare a few small tables with known fits; which cells are rescaled by which marginal value for every dimensionality and index order is universal.",
  "IPF.h Microsynthesis.h NDArrayUtils.h Index.cpp", [("scaling sweep", "Microsynthesis.h rScale"), ("start from the seed", "IPF.h solve")], ["humanleague.ipf()[0]"])
P("C05", "Inconsistent problem structure is always rejected with an error",
  "ipf, qis and qisi raise an error, and return no array, whenever the index and marginal lists differ in length, fewer than two marginals are given, an index is not one-dimensional or its length differs from the number of dimensions of its marginal, a dimension occurs twice in one index, the same dimension has different sizes in different marginals, fewer than two dimensions result, or some dimension number between 0 and the number of dimensions minus one is missing. Structurally consistent problems are never rejected for their structure, in whatever order the marginals and dimensions are listed.",
  "inputs configurations", "all index and marginal lists, both bindings",
  "Tests exercise one or two instances of each rejection; a check that looks at only some marginals or positions passes them.",
  "Microsynthesis.h module.cpp rcpp_api.cpp", [("structural validation", "Microsynthesis.h constructor"), ("list length check", "module.cpp ipf/qis/qisi, rcpp_api.cpp")], ["raised exceptions"])
P("C06", "Inconsistent or invalid marginal values are always rejected with an error",
  "ipf, qis and qisi raise an error whenever any marginal contains a negative or non-finite value, when a marginal total is not below 9e18, when the rounded totals of the marginals differ, or when two marginals that share a dimension disagree (exactly for integer counts, within tolerance for real ones) on the partial sums along it. Marginals that satisfy all of these are never rejected for their values.",
  "inputs configurations", "all marginal values in every position of every marginal, both bindings",
  "Tests put one bad value in one position of one marginal; the check must look at every cell of every marginal and every shared dimension.",
  "Microsynthesis.h NDArrayUtils.h", [("marginal validation", "Microsynthesis.h constructor and createMappings"), ("partial sums", "NDArrayUtils.h reduce, allclose")], ["raised exceptions"])
P("C07", "Seeds and skip counts that do not fit the problem are rejected",
  "ipf and qisi raise an error whenever the seed's number of dimensions or any of its sizes differs from the one the marginals imply, and qis and qisi raise an error whenever skips is negative or exceeds 2^32-1. A seed of the right shape and a skip count in range are never rejected.",
  "inputs configurations", "all seeds and skip counts, both bindings",
  "A shape check that misses the last axis, or a skip count truncated to 32 bits, passes every existing test.",
  "IPF.h QIS.cpp QISI.cpp", [("seed shape check", "IPF.h solve, QISI.cpp solve"), ("skip range check", "QIS.cpp and QISI.cpp constructors")], ["raised exceptions"])
P("C08", "Arrays passed in by the caller are never modified",
  "No function of the Python or R interface changes the contents of an array, vector or list its caller passed in: seeds, indices, marginals, frequencies and populations have the same values after the call, whether it returns or raises.",
  "inputs configurations histories", "all calls of every public function, with any argument",
  "Tests use fresh inputs and seldom look at them again; an in-place update through a shared buffer is visible only to a caller that reuses its arrays.",
  "module.cpp rcpp_api.cpp NDArray.h Microsynthesis.h IPF.h QIS.cpp QISI.cpp", [("copies of marginals", "module.cpp toNDArray, rcpp_api.cpp"), ("read-only views of seeds", "module.cpp asNDArray")], ["caller's arrays"])
P("C09", "Views and references never outlive the storage they refer to",
  "Every array, view, pointer and reference a computation reads, writes or returns refers to storage that is still alive at that moment, and everything handed back to Python or R owns a copy of its data. No result depends on memory that a temporary, a caller-owned buffer or a destroyed solver has already released.",
  "inputs histories configurations", "all calls of every public function and all later uses of their results",
  "A dangling view usually still reads the right values in a short test run.",
  "module.cpp rcpp_api.cpp NDArray.h Integerise.cpp QISI.cpp IPF.h", [("owning copies on return", "module.cpp fromNDArray, rcpp_api.cpp"), ("lifetime of solver-held references", "Microsynthesis.h m_marginals")], ["returned arrays"])
P("C10", "Results do not depend on the memory layout or element type of inputs",
  "Every Python function that takes numeric arrays gives the same result for arrays with equal contents whatever their memory layout (row or column major, strided, transposed, reversed) or numeric element type convertible to the expected one. R inputs are interpreted element by element in R's own column-major convention and results are returned in the same convention.",
  "inputs configurations", "all strided, transposed and Fortran-ordered arrays of any dimensionality",
  "The test arrays are all freshly built C-ordered ones.",
  "module.cpp rcpp_api.cpp Index.cpp", [("C-contiguous conversion at the boundary", "module.cpp carray_t"), ("column-major traversal", "rcpp_api.cpp TransposedIndex loops")], ["results for transposed inputs"])
P("C11", "Results depend only on the arguments of the call",
  "Calling a public function again with equal arguments gives an equal result or the same error, whatever was called before: no state survives from one call to the next, no random source, clock, address or uninitialised variable influences a result or a statistic. A Sobol generator's values depend only on its dimension, its skip and how many points were already drawn from it.",
  "histories inputs configurations", "all sequences of calls in one process",
  "Tests call each function a few times from a fresh process; hidden state or an uninitialised statistic shows only in particular histories.",
  "QIS.cpp QISI.cpp IPF.h Integerise.cpp Sobol.cpp SobolImpl.cpp module.cpp", [("per-call solver objects", "module.cpp, rcpp_api.cpp"), ("constructor initialisation", "QIS.cpp, QISI.cpp, IPF.h, Integerise.cpp")], ["all results"])
P("C12", "Degenerate and oversized shapes are refused instead of corrupting memory",
  "An array with no dimensions, with a zero or negative size, or whose element count would overflow the address space is refused with an error before any storage is allocated or addressed, and element access computes the row-major position of exactly the index given. Array storage is always as large as the product of its sizes.",
  "inputs configurations", "all shapes reachable through the public functions and all indices within them",
  "Shapes in the tests are small and positive; overflow of the element count or a stride error at higher dimensionality is out of their reach.",
  "NDArray.h", [("size validation", "NDArray.h computeStorageSize"), ("strides", "NDArray.h computeOffsets, offset"), ("reallocation", "NDArray.h resize")], ["raised exceptions", "element access"])
P("C13", "flatten lists every individual of a population exactly once",
  "For every array of non-negative counts, flatten returns one list per dimension, all of length equal to the sum of the counts, such that position by position the lists spell out each cell's indices exactly as many times as the cell's count, in row-major cell order. An array with a negative count is rejected.",
  "inputs configurations", "all count arrays of any dimensionality, both bindings (R counts from one)",
  "Tests flatten a few arrays and compare totals.",
  "NDArrayUtils.h module.cpp rcpp_api.cpp", [("expansion of the counts", "NDArrayUtils.h listify")], ["humanleague.flatten()"])
P("C14", "The Sobol direction numbers are valid in every dimension",
  "Every one of the 1111 dimensions uses a distinct primitive polynomial over GF(2) with odd initial direction numbers below the required powers of two, and the remaining direction numbers follow from them by the Sobol recurrence, so that each dimension visits each of the 2^k subintervals of length 2^-k exactly once in every aligned block of 2^k points.",
  "inputs configurations", "all 1111 dimensions and all 32 bit positions",
  "Tests look at the first points of a few dimensions; one corrupted table entry affects a single dimension after many points.",
  "SobolData.h SobolImpl.cpp", [("polynomial and initial number tables", "SobolData.h"), ("direction number recurrence", "SobolImpl.cpp sobol_init")], ["SobolSequence"])
P("C15", "A Sobol generator yields the Gray-code Sobol points of its dimension",
  "A Sobol generator can be created for any dimension from 1 to 1111 and for no other; each draw yields one value per dimension, equal to the current 32-bit integer state divided by 2^32 and so in [0,1), and advances each dimension's state by exclusive-or with the direction number of the lowest zero bit of the point counter. No two consecutive points and no dimension are skipped or repeated.",
  "inputs histories configurations", "all dimensions and all positions in the sequence up to 2^32-1 points, both bindings",
  "Tests compare a few dozen values in low dimensions; positions after many points and high dimensions are never reached.",
  "Sobol.cpp SobolImpl.cpp module.cpp rcpp_api.cpp", [("point generation", "SobolImpl.cpp sobol_gen, rightzero32"), ("scaling", "module.cpp SobolGenerator::next, rcpp_api.cpp sobolSequence"), ("dimension check", "Sobol.cpp constructor")], ["SobolSequence", "sobolSequence"])
P("C16", "Skips advance the sequence as documented and each individual uses one point",
  "Skipping n points advances a generator by the largest power of two smaller than n (by one point when n is at most two), for every n, and terminates; sampling then consumes exactly one new Sobol point per individual, in order, starting at the position the skips argument selected. Different skip counts give the sequence from different starting points and nothing else changes.",
  "inputs histories configurations", "all skip counts up to 2^32-1, all population sizes",
  "Tests use a couple of skip values and look only at whether results are plausible.",
  "Sobol.cpp SobolImpl.cpp QIS.cpp QISI.cpp module.cpp", [("skip", "SobolImpl.cpp nlopt_sobol_skip"), ("one buffer per individual", "QIS.cpp solve_m, QISI.cpp solve")], ["SobolSequence(dim, skips)", "qis(..., skips)"])
P("C17", "Exhausted sequences and failed low-level calls are reported, never ignored",
  "When the 2^32-1 points of a Sobol sequence are used up, the Python iterator ends with StopIteration and sampling raises an error; no point is silently repeated, stale or uninitialised. A failure to allocate or initialise a generator is reported as an error, and no status returned by the low-level generator is dropped where it can signal failure.",
  "inputs histories fault_sequences", "all positions in the sequence and every allocation that can fail",
  "Reaching the end takes 2^32 draws, and allocation failure cannot be provoked from the tests.",
  "Sobol.cpp SobolImpl.cpp module.cpp QIS.cpp QISI.cpp", [("status checks", "Sobol.cpp buf/constructor/reset, SobolImpl.cpp"), ("StopIteration", "module.cpp SobolGenerator::next")], ["StopIteration"])
P("C18", "One-dimensional integerisation preserves the total and rounds to neighbours",
  "Integerising a vector of non-negative finite frequencies to a non-negative population gives non-negative integers of the same length: each is its exact share of the population rounded down, plus one unit at a time given to the category with the largest remaining fraction (the first on ties) until the requested total is reached, so no category that is below its share is passed over for one above it. The reported rmse is the root mean square difference between shares and counts, and an empty vector, a negative or non-finite frequency or a negative population is rejected.",
  "inputs configurations", "all frequency vectors and populations, both bindings",
  "Tests integerise a few vectors with obvious answers; ties, zeros and rounding are for all vectors.",
  "Integerise.cpp module.cpp rcpp_api.cpp", [("largest remainder allocation", "Integerise.cpp integeriseMarginalDistribution"), ("normalisation", "module.cpp integerise1d, rcpp_api.cpp prob2IntFreq")], ["humanleague.integerise(frac, pop)"])
P("C19", "N-dimensional integerisation accepts exactly integral marginals and keeps them",
  "Integerising an array of two or more dimensions raises an error unless its grand total and every one of its one-dimensional marginal sums is a finite integer within 1e-4, and then returns an array of the same shape sampled so that it reproduces those integers in every dimension whenever conv is true. The rmse reported is the root mean square difference between the returned integers and the input over all cells; a one-dimensional array is integerised to its own total.",
  "inputs configurations", "all real arrays of any shape, both bindings",
  "Tests cover a few arrays whose marginals are integral by construction.",
  "Integerise.cpp module.cpp rcpp_api.cpp", [("rounding checks", "Integerise.cpp checked_round"), ("marginals and sampling", "Integerise.cpp Integeriser")], ["humanleague.integerise(a)"])
P("C20", "Every call terminates",
  "Every loop and recursion a public function can enter ends after a number of steps bounded by its arguments: iterative fitting stops after at most 1000 sweeps, sampling after one pass per individual, skipping after at most 32 doublings, traversals after one visit per cell. No input, including NaN, zero, maximal or degenerate values, makes a call run forever.",
  "inputs configurations", "all inputs of all public functions",
  "A test that hangs is not in the suite; loops whose exit depends on data are the ones samples do not settle.",
  "IPF.h QIS.cpp QISI.cpp Sobol.cpp SobolImpl.cpp Index.cpp Integerise.cpp StatFuncs.cpp NDArrayUtils.h", [("iteration cap", "IPF.h s_MAXITER"), ("index traversal end tests", "Index.cpp"), ("skip loop", "SobolImpl.cpp nlopt_sobol_skip")], ["return of every call"])
P("C21", "Every resource has one owner and is released exactly once",
  "Storage and generators acquired by a computation are released exactly once, whether it returns or raises; memory borrowed from the caller is never released; an object that owns a resource cannot be copied into a second owner, and moving it leaves the source owning nothing. Reallocation releases the old storage before replacing it.",
  "inputs fault_sequences configurations", "all paths through all public functions, including those that raise",
  "A leak or double release on an error path is invisible to the tests, which look only at results.",
  "NDArray.h Sobol.h Sobol.cpp SobolImpl.cpp SobolImpl.h", [("ownership flag", "NDArray.h m_owned"), ("deleted copies", "NDArray.h, Sobol.h, Microsynthesis.h"), ("partial initialisation clean-up", "SobolImpl.cpp sobol_init")], ["memory"])
P("C22", "Reported statistics are the ones their names promise",
  "For qis and qisi, chiSq is the sum over all cells of (count - expectation)^2 / expectation with empty cells contributing nothing, degeneracy the fixed multiplicity measure S!/prod((count+1)!) over the S cells, a function of the returned counts alone, pValue the upper tail of that chi-square value, pop the total of the marginals and expectation the array the population was sampled towards; each is computed from the very array that is returned and reported under its own name. ipf's pop is likewise the total of its marginals.",
  "inputs configurations", "all accepted inputs, both bindings",
  "Tests check a few values loosely (p-value above a threshold), so two swapped or stale statistics can pass.",
  "StatFuncs.h StatFuncs.cpp QIS.cpp QISI.cpp module.cpp rcpp_api.cpp", [("chiSq, degeneracy, dof", "StatFuncs.h, StatFuncs.cpp"), ("result dictionaries", "module.cpp, rcpp_api.cpp")], ["stats"])
P("C23", "A failed p-value computation is never reported as a p-value",
  "When the incomplete gamma evaluation behind the p-value signals invalid arguments, non-convergence or underflow, that failure reaches the caller as an error or as not-a-number; it is never turned into an ordinary probability.",
  "inputs", "all chi-square values and degrees of freedom",
  "Tests evaluate it where it converges.",
  "StatFuncs.cpp QIS.cpp QISI.cpp", [("fault flag", "StatFuncs.cpp gamain, pValue")], ["stats['pValue']"])
P("C24", "The bindings expose each function with its documented arguments",
  "Each public Python name is bound to the computation it names, its keyword names are bound to the matching parameters in order, and the form without skips behaves exactly as skips=0; each R function is registered under its name with the right number of arguments and passes each argument on in its own position. Python and R entry points with the same name run the same computation.",
  "inputs configurations", "every public name, every argument, both bindings",
  "Tests call mostly with positional arguments through Python only; a swapped argument of equal type or a stale registration compiles and passes.",
  "module.cpp rcpp_api.cpp RcppExports.cpp humanleague_init.c humanleague/__init__.py R/RcppExports.R", [("binding table", "module.cpp PYBIND11_MODULE"), ("registration", "RcppExports.cpp, humanleague_init.c, R/RcppExports.R")], ["public API"])
P("C25", "Errors never bypass the language boundary",
  "Every error raised anywhere below a public function is an exception type the Python or R binding translates into an ordinary error of that language, no destructor or non-throwing function lets one escape, and no error is swallowed: a computation that fails does not return a result.",
  "inputs configurations fault_sequences", "every throw site and every call path from a public function",
  "Tests provoke a few errors and see them as exceptions; a throw of another type or from a destructor terminates the process only on its own path.",
  "module.cpp rcpp_api.cpp RcppExports.cpp NDArray.h Index.cpp Sobol.cpp QIS.cpp", [("exception types", "all throw sites"), ("handlers", "module.cpp SobolGenerator::next")], ["raised exceptions"])
P("C26", "Index traversal visits every state exactly once, in order",
  "Traversing an index over any sizes visits each combination once in row-major order (column-major for the transposed form, over the free dimensions only for mapped and fixed forms) and then reports the end; a mapped index always shows the main index's current values in its own dimensions. Resetting or re-creating an index starts again at the first combination.",
  "inputs histories", "all sizes, all dimension subsets and orders",
  "The built-in tests walk a few small shapes.",
  "Index.cpp Index.h", [("increment with carry", "Index.cpp operator++"), ("mapping", "Index.cpp MappedIndex, FixedIndex")], ["all array results"])
P("C27", "Summing and slicing arrays address exactly the cells they name",
  "Reducing an array to a set of dimensions gives at each position the sum of exactly the cells that project to it; slicing at fixed positions gives exactly the cells with those positions, in order, and an invalid dimension or position is rejected. Element-wise difference, minimum, maximum and total range over every cell.",
  "inputs configurations", "all array shapes and dimension subsets",
  "The built-in tests reduce and slice a few arrays of up to four dimensions.",
  "NDArrayUtils.h Index.cpp", [("reduce, slice, diff, sum, min, max", "NDArrayUtils.h")], ["all results"])
P("C28", "qis samples towards the product of its marginals",
  "The expectation qis returns is, in every cell, proportional to the product over all marginals of the marginal's value at the cell's projection, scaled so that it adds up to the population (all zeros when every product is zero), and is computed from the marginals as supplied, before sampling depletes them. For qisi the expectation is the fitted array for the supplied seed and marginals before any individual is drawn.",
  "inputs configurations", "all accepted inputs, both bindings",
  "Tests compare expectations for a few two-dimensional cases.",
  "QIS.cpp QISI.cpp", [("state values and scaling", "QIS.cpp constructor, computeStateValues"), ("initial fit", "QISI.cpp solve")], ["stats['expectation']"])
P("C33", "Each individual is drawn by inverting the cumulative weights at its point",
  "Each individual's category in each dimension not yet fixed is the first one whose running sum of weights, in the current slice of the depleted marginal (qis) or of the refitted array (qisi), exceeds the total of that slice times that dimension's coordinate of the individual's Sobol point; an error is raised when there is none. A category of zero weight is never drawn, dimensions are drawn last to first, and the drawn state is removed from every marginal before the next individual is drawn.",
  "inputs histories configurations", "all accepted inputs, all Sobol points, all depletion states",
  "Tests check totals and marginals of a few results, which a biased or off-by-one inversion also satisfies.",
  "QIS.cpp QISI.cpp", [("inversion", "QIS.cpp pick/getIndex/sample, QISI.cpp getIndex"), ("depletion", "QIS.cpp solve_m, QISI.cpp solve/recomputeIPF")], ["humanleague.qis()[0]", "humanleague.qisi()[0]"])
P("C29", "Sobol sequences have low discrepancy",
  "Points drawn from a Sobol generator fill the unit cube more evenly than pseudo-random points, with star discrepancy of order (log N)^D / N.",
  "inputs", "all dimensions and numbers of points", "An asymptotic bound.",
  "SobolImpl.cpp SobolData.h", [("direction numbers", "SobolData.h")])
P("C30", "qis populations are close to the maximum-entropy expectation",
  "The population qis returns deviates from its expectation by less, in the chi-square sense, than a pseudo-random sample of the same size would, and degenerate populations are avoided.",
  "inputs", "all accepted inputs", "A statistical statement about the distance between a sample and its expectation.",
  "QIS.cpp", [("without-replacement sampling", "QIS.cpp sample")])
P("C31", "ipf converges on feasible problems",
  "For a positive seed and mutually consistent marginals ipf converges, in fewer than 1000 sweeps, to the unique table of minimum relative entropy with those marginals.",
  "inputs", "all feasible problems", "A limit statement about real-number iteration.",
  "IPF.h", [("iteration", "IPF.h solve")])
P("C32", "p-values are numerically accurate",
  "The reported p-value agrees with the upper tail of the chi-square distribution to at least six significant digits.",
  "inputs", "all chi-square values and degrees of freedom", "A floating-point error bound over a continued fraction.",
  "StatFuncs.cpp", [("incomplete gamma", "StatFuncs.cpp gamain")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for w in W:
        assert len(w["title"]) <= 80, w["id"]
        f.write(json.dumps(w) + "\n")
print(len(W), "properties")
