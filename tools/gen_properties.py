#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "A multi-index always equals the dense vector its history of edits describes",
 "After any sequence of constructions and component edits, a multi-index reports exactly the length, entries, nonzero count, sum, maximum, text form and dense vector of the equivalent dense integer vector, and the documented total order (length, then sum, then maximum, then lexicographic) and equality agree with those vectors for every pair. Reading or writing a component at or beyond the length is refused and changes nothing. The componentwise bound test is true exactly when some entry meets or exceeds the bound.",
 ["histories", "inputs"], "every way of constructing a multi-index and every sequence of component edits, and every pair of resulting values",
 "The tests walk one short edit sequence on a length-4 index; equality and order are compared on a handful of pairs, and the boundary component is never touched.",
 ["MParT/MultiIndices/MultiIndex.h", "src/MultiIndices/MultiIndex.cpp"],
 [("sparse nonzero index/value lists with cached sum and maximum", "MultiIndex::Set"), ("ordering", "MultiIndex::operator<")],
 [("sparse lists and cached norms", "must agree with each other after every edit", "MultiIndex private members")],
 ["Get, Vector, String, Sum, Max, NumNz, comparison operators, AnyBounded"])

prop("C02", "An adaptive index set stays consistent under every history of refinements",
 "After any history of adding, activating, expanding, forcibly expanding, merging and copying, under any admissibility limit, the active terms are numbered 0..n-1 without gaps or duplicates in the order they became active, lookups by number and by value are inverse to each other, every active term satisfies the limit, and reported maximum orders are those of the terms held. Forward/backward neighbours, admissibility, margin, reduced margin, frontier and strict frontier are exactly the sets the definitions give for the current active terms. An expansion activates exactly the admissible forward neighbours it is documented to activate and reports precisely the numbers of the newly active terms.",
 ["histories", "configurations"], "every sequence of set operations up to a length, in every small dimension, for every limiter kind, including limits that are not downward closed and limits that change midway",
 "Tests run a few fixed refinement scripts in two or three dimensions from total-order sets; the interaction of operations, limiters and inactive bookkeeping over long histories is not reached.",
 ["MParT/MultiIndices/MultiIndexSet.h", "src/MultiIndices/MultiIndexSet.cpp", "src/MultiIndices/MultiIndexNeighborhood.cpp", "src/MultiIndices/MultiIndexLimiter.cpp"],
 [("active/inactive bookkeeping with in- and out-edges", "MultiIndexSet::AddMulti, AddActive, Activate"), ("refinement", "Expand, ForciblyExpand, ReducedMargin, Frontier"), ("limits", "MultiIndexLimiter")],
 [("global/active maps and edge sets", "must be mutually consistent between public calls", "MultiIndexSet private members")],
 ["Size, IndexToMulti, MultiToIndex, MaxOrders, IsAdmissible, IsActive, Margin, ReducedMargin, Frontier, StrictFrontier, Forward/BackwardNeighbors, return values"])

prop("C03", "Built-in and frozen index sets contain exactly the specified terms",
 "Total-order, tensor-product and other limiter-defined set constructors produce exactly the terms their definition admits, each once, and freezing a set (compressed or dense), building a frozen set directly from orders, from a dense array or from a copy yields the same terms. On every frozen set, number-to-term and term-to-number lookups are inverse for members, a term that is not a member is reported as absent without touching memory outside the set, and reported sizes, dimension and maximum degrees are those of the terms.",
 ["inputs", "configurations"], "all dimensions, orders, limiter kinds and explicit term lists up to a size bound, in both storage forms",
 "Tests compare sizes and a few entries for two or three sets; absent-term lookups and one storage form are hardly exercised.",
 ["MParT/MultiIndices/FixedMultiIndexSet.h", "src/MultiIndices/FixedMultiIndexSet.cpp", "src/MultiIndices/MultiIndexSet.cpp", "src/MultiIndices/MultiIndexLimiter.cpp"],
 [("recursive enumeration", "FixedMultiIndexSet::FillTotalOrder, MultiIndexSet::CreateTotalOrder/CreateTensorProduct"), ("compressed row storage", "FixedMultiIndexSet nzStarts/nzDims/nzOrders")],
 None, ["IndexToMulti, MultiToIndex, MaxDegrees, Size, Length, Fix"])

prop("C04", "One-dimensional bases and link functions: every evaluation path agrees",
 "For every basis family, normalised or not, linearised outside bounds or not, and every order and point, the values, first and second derivatives returned by the single-order and all-orders calls agree with each other and with the mathematical definition of that basis. The linearised version continues the basis outside its bounds by its tangent and is identical inside. The positive link functions and sigmoids are positive and strictly increasing where representable, their derivative calls are the derivatives of their value calls, and their inverses undo them without overflow.",
 ["inputs", "configurations"], "every basis family, flag, order up to a bound and point of a grid covering both tails, the linearisation bounds and beyond",
 "Tests check the first few orders at single points and only some of the call paths.",
 ["MParT/OrthogonalPolynomial.h", "MParT/HermiteFunction.h", "MParT/LinearizedBasis.h", "MParT/PositiveBijectors.h", "MParT/Sigmoid.h", "MParT/Utilities/MathFunctions.h"],
 [("three-term recurrences", "OrthogonalPolynomial.h"), ("Hermite functions", "HermiteFunction.h"), ("tangent continuation", "LinearizedBasis.h"), ("softplus/exp", "PositiveBijectors.h")],
 None, ["Evaluate, Derivative, SecondDerivative, EvaluateAll, EvaluateDerivatives, EvaluateSecondDerivatives, Inverse"])

prop("C05", "Quadrature: exact where promised, adaptive by its rule, inside its workspace",
 "A fixed Clenshaw-Curtis rule with n points integrates polynomials of degree below n exactly over any interval and vector-valued integrand. The adaptive rules return the sum of the fine estimates over precisely the dyadic leaves their stopping rule selects, whatever the pattern of converged and unconverged segments, never subdivide past the maximum or stop before the minimum depth, and always terminate. No rule reads or writes outside the workspace size it announces.",
 ["inputs", "configurations", "histories"], "every refinement tree an integrand can force up to the depth limit, every error metric, dimension, level and depth setting up to a bound",
 "Tests integrate a few smooth functions, which produce nearly uniform refinement; the return-to-the-right-branch logic is exercised on few tree shapes.",
 ["MParT/Quadrature.h"],
 [("non-recursive tree walk with bit-encoded branch", "AdaptiveSimpson::Integrate, AdaptiveClenshawCurtis::Integrate"), ("rule weights", "ClenshawCurtisQuadrature::GetRule"), ("workspace formulae", "GetWorkspaceSize")],
 [("current level and branch bits", "encode the position in the subdivision tree", "Integrate local state")], ["Integrate result, integrand call points, workspace guard zones"])

prop("C06", "Monotone components are increasing in their last input for all settings",
 "For every basis, linearisation, positivity function, quadrature choice, nugget, index set and coefficient vector, the component is strictly increasing in its last input (up to floating-point resolution), and the reported partial derivative in that input is positive and no smaller than the nugget (for the derivative of a coarse discretised rule, up to the error of that rule). The positive slope is also what the evaluated output exhibits: its increments match the reported slope to the accuracy of the chosen integration setting.",
 ["inputs", "configurations"], "every combination of component options with every coefficient vector and point from finite grids that include extreme values",
 "Tests check monotonicity for one or two option sets on smooth coefficients; the option product is never enumerated.",
 ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h", "src/MapFactory.cpp", "MParT/PositiveBijectors.h"],
 [("integral of a positive function of the diagonal derivative, plus nugget", "MonotoneIntegrand, MonotoneComponent::EvaluateSingle")],
 None, ["Evaluate, ContinuousDerivative, DiscreteDerivative, LogDeterminant"])

prop("C07", "Inverse undoes evaluation for every map the library can build",
 "For every map built from monotone components, triangular blocks, compositions, affine, identity or summarised pieces, inverting a value obtained by evaluation at a point (with the same conditioning inputs) returns that point, and evaluating at a computed inverse returns the requested value, within the solver tolerance. This holds for every number of points, for conditional maps with leading inputs, with a nonzero minimum slope, and when the output overwrites a caller's buffer.",
 ["inputs", "configurations", "programs"], "all map expressions up to a size bound with all option sets, over point grids including tails",
 "Tests invert a few hand-built maps at random points with default options.",
 ["src/ConditionalMapBase.cpp", "MParT/MonotoneComponent.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/IdentityMap.cpp", "MParT/Utilities/RootFinding.h"],
 [("one-dimensional solve per output", "MonotoneComponent::InverseImpl"), ("forward substitution over blocks", "TriangularMap::InverseImpl"), ("reverse order", "ComposedMap::InverseImpl")],
 None, ["Inverse, InverseImpl, Evaluate"])

prop("C08", "The scalar root finder converges or reports failure for any monotone function",
 "For every increasing function, starting point and tolerance, the bracketing search and root solve terminate within their evaluation budget; when the target is attained they return a point whose bracket is within the requested tolerance and report success, and when it is not attained (bounded range, non-finite answers) they report failure and return a not-a-number instead of a wrong root. Every bracket produced encloses the target. The bracket search may also give up (reporting failure) on a stretch longer than 10 on which the mean slope is below 1e-12, and a tolerance finer than floating-point resolution is reported as reaching the iteration limit.",
 ["inputs", "histories"], "every sequence of answers an increasing function can give to the solver's queries, up to a bound, from every start",
 "Tests solve four fixed functions; the sequence of answers steers the solver and is never explored.",
 ["MParT/Utilities/RootFinding.h"],
 [("expanding bracket", "RootFinding::FindBracket"), ("ITP iteration", "RootFinding::InverseSingleBracket, Find_x_ITP")],
 [("bracket [lb,ub] and residuals", "must enclose the root at every iteration", "InverseSingleBracket locals")], ["return value, info flag, number and order of function calls"])

prop("C09", "Every map expression evaluates to its mathematical definition",
 "A component equals its expansion at zero plus the integral of the positive rectified slope; a triangular map stacks its blocks on their leading inputs; a composition applies its layers in order; a summarised map feeds the summary of the leading inputs; affine and identity maps are what their names say; and assembling maps keeps exactly the corresponding outputs. Factory-built maps with any options represent the specified index sets, options and dimensions, including the shapes with a single active input.",
 ["programs", "configurations", "inputs"], "all map expressions up to a size bound over all option sets, coefficient and point grids",
 "Tests evaluate a handful of expressions against other library calls, not against an independent definition, with few options.",
 ["src/MapFactory.cpp", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/AffineFunction.cpp", "src/IdentityMap.cpp", "MParT/MultivariateExpansion.h", "MParT/MultivariateExpansionWorker.h", "MParT/MonotoneComponent.h"],
 [("expansion cache and accumulation", "MultivariateExpansionWorker"), ("block structure", "TriangularMap"), ("registry of compiled option combinations", "MapFactoryImpl*.cpp")],
 None, ["Evaluate, numCoeffs, inputDim, outputDim"])

prop("C10", "The log-determinant is the log of the true volume change",
 "For every map expression and input, the reported log-determinant equals the logarithm of the absolute determinant of the Jacobian of the evaluated outputs with respect to the trailing inputs; in particular it adds up over triangular blocks and composition layers and accounts for every minimum slope, linear and identity part.",
 ["programs", "configurations", "inputs"], "all map expressions up to a size bound over all option sets, coefficient and point grids",
 "Tests compare with finite differences on a few default-option maps, and mostly component by component.",
 ["MParT/MonotoneComponent.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/IdentityMap.cpp", "src/ConditionalMapBase.cpp"],
 [("diagonal derivative", "MonotoneComponent::LogDeterminantImpl"), ("sum over blocks and layers", "TriangularMap, ComposedMap")], None, ["LogDeterminant"])

prop("C11", "Input and coefficient gradients are the true derivatives of evaluation",
 "For every map or function expression, the sensitivity-weighted gradients with respect to the inputs and with respect to the coefficients equal the derivatives of the evaluated outputs, entry by entry and in the documented ordering, for every sensitivity vector; parts without coefficients contribute nothing and never disturb other entries.",
 ["programs", "configurations", "inputs"], "all map expressions up to a size bound over all option sets, coefficient, point and sensitivity grids",
 "Tests use finite differences on a few default-option maps with all-ones style sensitivities.",
 ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h", "MParT/MultivariateExpansionWorker.h", "MParT/MultivariateExpansion.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/AffineFunction.cpp", "src/IdentityMap.cpp", "MParT/Sigmoid.h"],
 [("cache-flag driven derivative evaluation", "MonotoneIntegrand, MultivariateExpansionWorker"), ("chain rule through layers", "ComposedMap::GradientImpl, CoeffGradImpl")], None, ["Gradient, CoeffGrad"])

prop("C12", "Log-determinant gradients are the true derivatives of the log-determinant",
 "For every map expression, the gradients of the log-determinant with respect to the coefficients and with respect to the inputs equal the derivatives of the reported log-determinant, entry by entry, and are zero where the log-determinant does not depend on the variable.",
 ["programs", "configurations", "inputs"], "all map expressions up to a size bound over all option sets, coefficient and point grids",
 "Tests use finite differences on a few default-option maps.",
 ["MParT/MonotoneComponent.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/IdentityMap.cpp", "src/ConditionalMapBase.cpp"],
 [("mixed derivatives", "MonotoneComponent::ContinuousMixedJacobian/InputJacobian, DiscreteMixed*"), ("chain rule", "ComposedMap::LogDeterminantCoeffGradImpl")], None, ["LogDeterminantCoeffGrad, LogDeterminantInputGrad"])

prop("C13", "Composed-map results do not depend on the memory budget, which is respected",
 "For every number of layers and every permitted number of stored intermediate states, a composed map returns the same values and derivatives as the plain chain rule, every layer is differentiated at the state it actually receives, and the number of intermediate states held at once never exceeds the budget.",
 ["configurations", "histories"], "all (layer count, budget) pairs up to a bound, every backward sweep, with layers that record what they are asked",
 "Tests use a few layers and budgets and compare only final numbers, so recomputation order and the number of live states are not observed.",
 ["MParT/ComposedMap.h", "src/ComposedMap.cpp"],
 [("checkpoint schedule", "ComposedMap::Checkpointer::GetLayerInput, GetNextCheckpoint")],
 [("stored checkpoints", "subset of layer inputs kept, at most the budget", "ComposedMap::Checkpointer")], ["Gradient, CoeffGrad, LogDeterminant*, calls received by layers, live intermediate buffers"])

prop("C14", "Coefficient ownership: every history of set, wrap and assemble is coherent",
 "After any history of setting, wrapping, reading and re-assembling coefficients on a map and on the pieces it is built from, each map reports the coefficients last given to it (or written through its views) and evaluates with those its pieces report; these are the same, in block order and in the same memory, until a piece is wrapped around other memory or taken over by another parent. Setting copies values and never aliases the source, wrapping aliases exactly the given memory and keeps it alive, and a parent that took over its pieces' coefficients shares them with the pieces in block order. A coefficient vector of the wrong length is always refused and leaves the previous coefficients in place; without coefficients every query is refused.",
 ["histories"], "every sequence of coefficient operations up to a length over every parent/child structure up to a size",
 "Tests do one or two operations in one order per class; aliasing effects only show after several operations.",
 ["src/ParameterizedFunctionBase.cpp", "MParT/ParameterizedFunctionBase.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp"],
 [("own-or-wrap coefficient view", "ParameterizedFunctionBase::SetCoeffs, WrapCoeffs"), ("propagation to pieces", "TriangularMap::SetCoeffs/WrapCoeffs, ComposedMap::SetCoeffs/WrapCoeffs")],
 [("saved coefficient view", "owned memory or alias of caller/parent memory", "ParameterizedFunctionBase::savedCoeffs")], ["Coeffs, CoeffMap, CheckCoefficients, Evaluate"])

prop("C15", "A serialised object restores to an equal one, and damage is never silent",
 "Every object that can be saved (options, index sets, arrays, basis functions, quadrature rules, expansions, monotone components of every option set and triangular maps of them, nested or not, with coefficients set or not) restores from its bytes to an object with the same dimensions, coefficients and results for every query, and writing it again gives an equivalent object; restoring is independent of what was saved or restored before. A byte stream cut short at any point, or one holding coefficients for an object of another size, is reported as an error rather than accepted; maps that can not be saved refuse and stay as they were.",
 ["crash_points", "configurations", "programs"], "every object kind and option set, every truncation point of every stream, every order of saves and loads in one archive up to a bound",
 "Tests round-trip a few objects and never cut a stream.",
 ["MParT/Utilities/Serialization.h", "MParT/ParameterizedFunctionBase.h", "MParT/MapOptions.h", "MParT/MultiIndices/FixedMultiIndexSet.h", "MParT/TriangularMap.h", "MParT/ComposedMap.h", "MParT/MonotoneComponent.h", "src/MapFactoryImpl1.cpp"],
 [("cereal save/load functions", "each class's serialize/save/load_and_construct")], None, ["Save, Load, ToBytes-equivalent, query results of the restored object"])

prop("C16", "Parallel evaluation gives schedule-independent results without data races",
 "For every map and every number of worker threads, evaluation, inversion, log-determinants and all gradients touch no memory location from two threads with at least one write and no ordering, and therefore return bit-identical results for every schedule and thread count. Random sampling from a fixed seed is unaffected by schedule for a given thread count.",
 ["schedules"], "all interleavings of the logical threads of every parallel region, for every operation of a set of maps and thread counts 1..4",
 "Tests run with two threads and whatever schedule the machine produces; a race would show only rarely.",
 ["MParT/MonotoneComponent.h", "MParT/MultivariateExpansion.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "MParT/Utilities/KokkosHelpers.h", "src/Distributions/GaussianSamplerDensity.cpp"],
 [("one team/point per output column with per-thread scratch", "MonotoneComponent::*Impl"), ("policy construction", "GetCachedRangePolicy")], None, ["outputs, per-thread memory accesses in parallel regions"])

prop("C17", "Results depend only on argument values: not on batching, layout or stale memory",
 "Evaluating a batch of points gives for each point the same result as evaluating it alone, in any order and any partition including empty batches; row-major, column-major, strided and Eigen inputs holding the same numbers give the same results; inputs are never modified; and results do not depend on previous contents of output buffers or of freshly allocated memory.",
 ["inputs", "histories"], "all partitions and permutations of a small batch, all layout combinations, prior-memory contents from {zero, junk, not-a-number}, for every operation of every map kind",
 "Tests use one batch in one layout, with fresh zero-initialised outputs.",
 ["src/ParameterizedFunctionBase.cpp", "src/ConditionalMapBase.cpp", "MParT/Utilities/ArrayConversions.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp", "src/IdentityMap.cpp", "MParT/MonotoneComponent.h"],
 [("output allocation and conversion", "ParameterizedFunctionBase::Evaluate/Gradient/CoeffGrad overloads"), ("strided views", "ArrayConversions.h")], None, ["all public operations, Eigen and view overloads"])

prop("C18", "Adaptive training honours its budget and returns the best map it saw",
 "For every sequence of training/test errors and gradients the objective can answer, adaptive training terminates, never exceeds the term budget, patience or per-dimension degree limits, adds only terms that keep the index sets downward closed and of largest gradient among the admissible candidates, and returns the map and index sets with the lowest test error it visited (the initial ones when nothing improved), with the caller's index sets matching the returned map.",
 ["histories", "configurations"], "every answer sequence of the objective from a finite alphabet up to a number of rounds, for every small dimension, initial set and option combination",
 "Tests adapt to two data sets with benign objectives; the exits, ties, empty margins and non-improving histories are never driven.",
 ["src/TrainMapAdaptive.cpp", "MParT/TrainMapAdaptive.h"],
 [("greedy growth loop with patience and best-so-far", "TrainMapAdaptive")],
 [("current and best index sets, patience counter", "loop state", "TrainMapAdaptive locals")], ["returned map, modified index sets, calls received by the objective"])

prop("C19", "Training reports the error of the coefficients it leaves; the loss is correct",
 "The objective value is the sample average of the negative pulled-back log-density over the chosen data set and its coefficient gradient is its derivative, for every map, data set and data layout; training leaves the map with finite coefficients whose training error equals the returned error and is not worse than the starting error. Requests that need missing test data are refused.",
 ["inputs", "configurations"], "all small data sets from a grid, all small maps and optimiser settings offered",
 "Tests train two maps on one data set and check loose bounds on the result.",
 ["src/MapObjective.cpp", "MParT/MapObjective.h", "src/TrainMap.cpp", "MParT/TrainMap.h", "MParT/Utilities/LinearAlgebra.h"],
 [("KL objective", "KLObjective::ObjectiveImpl, ObjectivePlusCoeffGradImpl"), ("optimiser driver", "TrainMap")], None, ["TrainError, TestError, TrainCoeffGrad, TrainMap return value, map coefficients"])

prop("C20", "Densities obey change of variables; samplers match them and reproduce",
 "A Gaussian's log-density and gradient are those of its mean and covariance; pulling back or pushing forward a density through any map gives the change-of-variables density and derivatives, and pushing forward after pulling back gives the original; samplers draw reference samples and transport them through exactly that map or its inverse; and the same seed and call history give the same samples. Every such query works for every supported construction (mean, covariance, both, neither), dimension and number of points.",
 ["inputs", "configurations", "histories"], "all constructions, small dimensions, maps, grids of points and seed/call histories up to a bound",
 "Tests check one or two dimensions, mostly identity-like maps, and statistics of random samples.",
 ["src/Distributions/GaussianSamplerDensity.cpp", "src/Distributions/PullbackDensity.cpp", "src/Distributions/DensityBase.cpp", "MParT/Distributions/PushforwardDensity.h", "MParT/Distributions/PullbackSampler.h", "MParT/Distributions/PushforwardSampler.h", "MParT/Distributions/SampleGenerator.h", "MParT/Distributions/Distribution.h"],
 [("Cholesky whitening and norm reduction", "GaussianSamplerDensity::LogDensityImpl"), ("seeded generator pool", "SampleGenerator::SetSeed")], None, ["LogDensity, LogDensityInputGrad, LogDensityCoeffGrad, Sample, SetSeed"])

prop("C21", "Dense linear algebra and array conversions are exact for all shapes and layouts",
 "Matrix products with any transposition and scaling, additions, factorisations, solves, determinants and column/row reductions agree with the textbook result for every shape including empty and 1-by-n, and for every layout of each argument; conversions between Eigen, standard vectors, raw pointers and strided views preserve every entry and alias or copy exactly as documented.",
 ["inputs", "configurations"], "all shapes up to a bound, all layouts of each operand, all transposition flags and scale factors of a small set",
 "Tests use one shape and layout per routine.",
 ["MParT/Utilities/LinearAlgebra.h", "src/Utilities/LinearAlgebra.cpp", "MParT/Utilities/ArrayConversions.h"],
 [("Eigen-backed products and factorisations", "LinearAlgebra.cpp"), ("view wrapping", "ArrayConversions.h")], None, ["dgemm, operator*, PartialPivLU, Cholesky, ReduceDim, To*Kokkos, KokkosTo*"])

prop("C22", "Ill-formed requests are refused and leave every object unchanged",
 "Assembling maps from pieces whose dimensions do not fit, querying a map whose coefficients were never supplied, asking for option combinations, subsets or data that do not exist, and supplying coefficient vectors, summaries or limits of the wrong size raise an error, instead of crashing or returning numbers. Afterwards every object involved still gives the results it gave before, and well-formed requests still succeed.",
 ["inputs", "fault_sequences"], "every public assembly operation with every ill-fitting combination of pieces up to a size, every query on unset objects, in every order with valid requests up to a length",
 "Tests check a few error paths, and do not look at the objects after the error.",
 ["src/ParameterizedFunctionBase.cpp", "src/ConditionalMapBase.cpp", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/MapFactory.cpp", "src/IdentityMap.cpp", "MParT/Distributions/PushforwardDensity.h"],
 [("coefficient checks in public wrappers", "ParameterizedFunctionBase::CheckCoefficients"), ("constructor checks", "TriangularMap, ComposedMap, SummarizedMap, density constructors")], None, ["exceptions, later results"])

prop("C23", "Every well-formed call touches only memory of its arguments and objects",
 "Building, evaluating, inverting and differentiating maps, looking terms up, training (fixed or adaptive), densities and samplers, saving and restoring (also from cut streams), handing coefficient memory over, dense linear algebra, and requests that are refused never read or write outside the arrays they are given or own, never use memory already released, and never index a view outside its extents, for every combination of dimensions, orders, layouts, batch sizes (empty included), budgets and histories.",
 ["inputs", "configurations", "histories"], "all cases of the families of nine other properties up to their bounds (a fixed fraction of the largest in the quick tier), with every memory access and view index monitored",
 "Kokkos pads every allocation, and out-of-bounds reads mostly meet plausible numbers, so tests pass over them.",
 ["MParT/MultiIndices/FixedMultiIndexSet.h", "src/MultiIndices/FixedMultiIndexSet.cpp", "src/ParameterizedFunctionBase.cpp", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "MParT/MonotoneComponent.h", "MParT/Quadrature.h", "src/TrainMapAdaptive.cpp", "MParT/Utilities/Serialization.h", "src/Distributions/GaussianSamplerDensity.cpp"],
 [("slicing of coefficients, points and scratch memory by computed offsets", "subviews in every map's *Impl")], None, ["memory accesses and view indices of every public call"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
