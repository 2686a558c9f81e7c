"""One entry per claimed check: how its harness is built and run, and what MANIFEST.json says about it."""
MI = ["MultiIndices/MultiIndex.cpp", "MultiIndices/MultiIndexSet.cpp", "MultiIndices/MultiIndexNeighborhood.cpp", "MultiIndices/MultiIndexLimiter.cpp", "MultiIndices/FixedMultiIndexSet.cpp"]
FAM = dict(quick="every option set (basis, normalisation, linearisation, positivity, quadrature incl. adaptive and coarse rules, continuous/discrete derivative, nugget) x 10 index sets; every subset of small boxes; every sequence of up to three triangular blocks, up to four composition layers with every memory budget, nestings, summarised, affine, identity pieces")
CHECKS = {
 "C01": dict(src="harness/c01_multiindex.cpp", variant="asan", objs=["MultiIndices/MultiIndex.cpp"], level="model_checking",
    technique="explicit-state exploration of the real MultiIndex against a dense-vector model",
    note="All construction routes, all pairs of small vectors and all edit sequences up to depth 3-4 (thorough 4-5) over lengths 0-3 and values 0-3, on the real class under AddressSanitizer. Trusts the dense-vector model and the value alphabet."),
 "C02": dict(src="harness/c02_mset.cpp", variant="asan", objs=MI, level="model_checking",
    technique="explicit-state exploration of the real MultiIndexSet (full internal state hashed) against a set-theoretic model",
    note="Every history of up to 5/4/2 operations (thorough 7/5/3) in dimension 1/2/3 from 13-20 initial sets over 4-5 limiters; every observation of every state compared with the definitions, under AddressSanitizer."),
 "C03": dict(src="harness/c03_fixed.cpp", variant="asan", objs=MI, level="exploration",
    technique="bounded exhaustive enumeration of constructions against definitions, on the real code",
    rule="dimension x order x limiter x constructor, and every subset of a small box in every storage form; a case is non-trivial if its set was built and every lookup of the surrounding box compared",
    note="Every dimension <=4 (thorough 5), order <=6/6/4/3, 15+ limiters, both storage forms, all subsets of small boxes, all lookups of the surrounding box including absent terms, under AddressSanitizer."),
 "C05": dict(src="harness/c05_quad.cpp", variant="asan", objs=[], level="exploration",
    technique="exhaustive exploration of adaptive refinement trees: the integrand answers as an adversary, against a recursive reference",
    rule="every fixed rule x degree x interval; every binary refinement tree of depth <=4 (thorough 5) x rule x metric x minimum depth x error-carrying component; single paths to depth 45; all two-valued data on the finest grid of depth <=3; non-trivial = a distinct (setting, set of leaves) or (rule, interval)",
    note="The real header-only rules run under AddressSanitizer with workspaces of exactly the announced size; results are compared with a recursive statement of the stopping rule. Comparisons that rounding could decide either way are counted and skipped."),
 "C04": dict(src="harness/c04_bases.cpp", variant="asan", objs=[], level="exploration",
    technique="bounded exhaustive enumeration of evaluation paths on the real code against sum-formula definitions in 128-bit arithmetic",
    rule="basis family x normalisation x linearisation interval x maximum order x point (all evaluation calls per case), and every adjacent pair of the link-function grid; non-trivial = distinct (setting, order, point)",
    note="All orders to 18 (thorough 24), 12 (72) linearisation intervals with their end points and neighbours, 60+ points, buffers of exactly the needed size under AddressSanitizer. Trusts the explicit Hermite sums; points between grid points are not visited."),
 "C08": dict(src="harness/c08_root.cpp", variant="std", objs=[], level="model_checking",
    technique="stateless exploration of the real solver against an adversarial environment: every answer of the increasing function is a choice point",
    note="All answer sequences to depth 5 (thorough 7) from menus of up to 11 monotone answers incl. plateaus, jumps, exact hits, infinities and NaN, completed by 5 continuations, over 245 settings of start, target and tolerances; outcomes judged from the answers alone. Answers deeper in a run follow the fixed continuations."),
 "C21": dict(src="harness/c21_linalg.cpp", variant="asan", objs=["Utilities/LinearAlgebra.cpp"], level="exploration",
    technique="bounded exhaustive enumeration of shapes, layouts, transpositions and scalings on the real kernels against exact integer arithmetic",
    rule="operation x shape 0..3 (thorough 0..4) per extent x five storage layouts per argument x transposition x scaling; all integer matrices from small entry sets up to 3x3 for LU and Cholesky; non-trivial = distinct such setting",
    note="Entries are small integers, so products and sums are compared exactly; factorisations to 1e-9. Buffers end with the last element under AddressSanitizer and padding must survive. Larger shapes, where Eigen switches to blocked kernels, are not visited."),
 "C06": dict(src="harness/maps.cpp", variant="std", mode="c06", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of component configurations on the real code against the defining integral",
    rule="every component option set x index set x coefficient vector, on a grid of 33 last inputs for three settings of the leading inputs; non-trivial = distinct component",
    note="Slopes must be positive and at least the nugget, increments must match the integral of the defining slope to the accuracy of the rule. Every discrete option is covered; coefficients (4 vectors) and points (99 per component) are finite alphabets. Coarse rules are judged only by their slope."),
 "C07": dict(src="harness/maps.cpp", variant="std", mode="c07", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of map expressions on the real code, round trips in both directions",
    rule="expression x coefficient vector x guess variant x batch size; non-trivial = distinct expression",
    note="Each expression is inverted without guess, with a poor guess and with the solution as guess, for a batch and a single point, then evaluated at the answer. Tolerances follow the conditioning of the reference Jacobian; points worse than 1e3 conditioned, or where the integration rule does not resolve the integrand, are counted and skipped."),
 "C09": dict(src="harness/maps.cpp", variant="std", mode="c09", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of map expressions on the real code against a reference interpreter",
    rule="map or function expression x coefficient vector x batch; non-trivial = distinct expression",
    note="Values against a reference interpreter written from the definitions (own bases, quadrature rules, composition), to 1e-9."),
 "C10": dict(src="harness/maps.cpp", variant="std", mode="c10", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of map expressions on the real code against a reference interpreter and its exact Jacobian",
    rule="map expression x coefficient vector x point; non-trivial = distinct expression",
    note="Reported values against the definition and against the determinant of the Jacobian of the evaluated outputs (exact derivatives by dual numbers of the reference evaluation)."),
 "C11": dict(src="harness/maps.cpp", variant="std", mode="c11", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of map expressions on the real code against exact derivatives of a reference interpreter",
    rule="map or function expression x coefficient vector x batch x sensitivity pattern (each output alone, mixed, zero); non-trivial = distinct expression",
    note="Gradients against exact derivatives (dual numbers) of the reference evaluation, entry by entry, to 1e-8."),
 "C12": dict(src="harness/maps.cpp", variant="std", mode="c12", level="exploration", bounds=FAM,
    technique="bounded exhaustive enumeration of map expressions on the real code against exact derivatives of a reference interpreter",
    rule="map expression x coefficient vector x batch; non-trivial = distinct expression",
    note="Log-determinant gradients against exact derivatives of the reference log-determinant; documented refusals (discretised maps) are accepted only for expressions that contain such a piece."),
}
CHECKS["C13"] = dict(src="harness/c13_composed.cpp", variant="std", level="model_checking",
    bounds=dict(quick="1-18 layers x every budget -1..n+2 x 7 operations (all patterns of coefficient-less layers to 6 layers); live memory to 12 layers", thorough="1-40 layers, patterns to 8, live memory to 24"),
    technique="exhaustive exploration of checkpoint schedules: recording layers under the real composed map, every layer count and budget",
    note="Layers are stand-ins that check the state of every call and supply analytic derivatives; results are compared with the plain chain rule; live heap bytes are measured at every call into a layer and may grow by one state per unit of budget only.")
CHECKS["C14"] = dict(src="harness/c14_coeffs.cpp", variant="std", level="model_checking",
    bounds=dict(quick="15 structures of up to 4 objects; all histories of 3-4 operations over 20-90 operations, from up to 3 starts", thorough="depth 4-5"),
    technique="explicit-state exploration of a coefficient-ownership model, every transition replayed on the real objects",
    note="State = caller buffers, owned buffers and handles; after every operation all reported coefficients, memory aliasing, caller buffers and evaluations are compared. C23 runs the same histories under AddressSanitizer. Shared pieces follow their last owner.")

CHECKS["C15"] = dict(src="harness/c15_serial.cpp", variant="std", level="model_checking",
    bounds=dict(quick="~900 objects, every truncation point of each stream, all pairs and many triples of saves in one stream", thorough="~1300 objects, all triples of the menu, 60 earlier contents per object"),
    technique="exhaustive exploration of save/restore histories and of every truncation point, on the real code",
    note="The answers of a restored object (dimensions, coefficients, all evaluations, index lookups, every point visited by a rule) are compared bit for bit with the original, with fresh memory filled with three patterns, over earlier contents, after failed restores, for several objects per stream and two generations.")
CHECKS["C17"] = dict(src="harness/c17_batch.cpp", variant="std", level="exploration",
    bounds=dict(quick="a fixed fifth of the family of map expressions; 7 queries; ~17 batches, 30 layout pairs, 12 memory contents, 18 interface calls, 8 earlier queries each", thorough="the whole family; all batches of up to three of five points, all pairs of earlier queries"),
    technique="bounded exhaustive enumeration of batchings, layouts, memory contents and call histories on the real code, differential",
    rule="expression x query x (batch | layout pair | earlier content of output, heap and scratch memory | interface | earlier queries); non-trivial = distinct expression",
    note="The reference for a point is that point alone on a fresh object. Fresh heap memory is filled by an interposed allocator, the per-thread scratch memory by a kernel of the harness. Bit-identical except where a matrix product may sum in another order (1e-11).")
CHECKS["C20"] = dict(src="harness/c20_density.cpp", variant="std", level="exploration",
    bounds=dict(quick="Gaussians of dimension 1-4 with every construction; a fixed seventh to ninth of the family of maps; 0,1,3,5 points, all layouts and interfaces; histories of 3 sampler calls", thorough="dimension 1-5, the whole family of maps, histories of 4 calls"),
    technique="bounded exhaustive enumeration of constructions, layouts, seeds and sampler call histories on the real code against the change-of-variables formula",
    rule="(Gaussian construction | map expression x Gaussian) x interface x layout x number of points x earlier content, and all sampler call sequences; non-trivial = distinct construction or expression",
    note="Densities are compared with the formula evaluated on the map's own values (which C06, C07 and C10-C12 check); samples with the standard draws of the same seed, scaled or transported; moments of long draws for three fixed seeds.")
CHECKS["C18"] = dict(src="harness/c18_adaptive.cpp", variant="std", level="model_checking",
    bounds=dict(quick="6 dimension pairs x 4 initial sets x 5 degree limits x budgets x patience 0-3; all objective answers for 2-4 rounds", thorough="one round more, not-a-number test errors everywhere"),
    technique="explicit-state exploration of the closed system (library + nondeterministic objective), the real training loop driven through every answer sequence and compared with a model step by step",
    note="The objective is a subclass that answers from a menu; gradients make each admissible candidate the largest in turn, with ties, zeros and not-a-number, and terms that are not candidates get larger slopes. After a bounded number of rounds all answers are 'worse', so patience ends every run. Degree limits are exclusive (as documented in the code and tests).")
CHECKS["C19"] = dict(src="harness/c19_train.cpp", variant="std", level="exploration",
    bounds=dict(quick="an eighteenth of the family of maps x Gaussians x 1-40 points x 5 layouts; 11 optimisers x 3 objectives x 12 option settings x 3 starts x 3 maps; all scripts of 4 answers; 11 maps trained on 3 data sets", thorough="the whole family; all scripts of 6 answers"),
    technique="bounded exhaustive enumeration on the real code: the loss against its definition, TrainMap in lockstep with a direct run of the optimiser over all option settings and all answer scripts of the objective",
    rule="(map x density x data x layout) | (optimiser x objective x options x start x map) | answer scripts; non-trivial = distinct case",
    note="The loss is recomputed from the map's own values and derivatives (checked by C06, C10-C12) and the Gaussian formula. NLopt itself is trusted: TrainMap must make the same evaluations and leave the same coefficients as NLopt called directly with the documented options.")
CHECKS["C22"] = dict(src="harness/c22_refuse.cpp", variant="std", level="model_checking", max_crashes=40,
    bounds=dict(quick="all histories of 2 requests (15 kinds) on ~150 expressions; every sequence of up to 3 of 18+ pieces (a quarter of the triples); all factories over small dimensions", thorough="histories of 3 requests on three times as many expressions; all triples"),
    technique="explicit-state exploration of request histories on the real objects, each state's full observable behaviour compared with a fresh object in the model's state; exhaustive enumeration of ill-fitting assemblies",
    note="Requests through the raw *Impl functions and points with the wrong number of rows are not covered: the library documents no check there.")
CHECKS["C16"] = dict(case_seconds=200, src="harness/c16_sched.cpp", variant="race", objs="ALL", level="model_checking", link_flags="-rdynamic",
    cflags="--param tsan-distinguish-volatile=1", extra_objs=[dict(src="harness/sched_rt.cpp", cxx="g++", flags="-O2 -fno-builtin -fno-tree-loop-distribute-patterns")], ldadd=["-lpthread"],
    bounds=dict(quick="1-4 threads; a fixed sample (~500) of the family of maps with batches of 1,2,5,9 (some 70, 1100) points and all their operations; densities, samplers, objectives, index sets, linear algebra, sigmoids, factories; all n! thread orders; every single preemption at an atomic operation in the first 2 cases per kernel and place where threads share atomics",
                thorough="six times as many maps; preemptions in the first 6 cases per place, up to 4000 each"),
    technique="stateless exploration of the real parallel regions under a controlled scheduler, with a happens-before monitor of every memory access deciding that the explored schedules represent all",
    assumptions=["libkokkoscore, libnlopt and libstdc++ are not instrumented: their accesses inside regions are seen only through memcpy/memset/memmove and the interposed synchronisation", "the order of operations within atomics is taken as sequentially consistent", "each region runs on its own: no two regions of different user threads at the same time"],
    note="The library is compiled with the thread sanitizer's instrumentation, whose callbacks and OpenMP's entry points are supplied by a runtime of this project. Where no two threads touch a byte without an ordering between them (at least one writing), every interleaving is equivalent to the one that ran; so race freedom on one schedule per order of synchronisation covers all. Results compared bit for bit across schedules and (maps) thread counts, to 1e-12 for sums over points.")

CHECKS["C23"] = dict(level="exploration", variant="mem", only_crashes=True, max_crashes=12, case_seconds=120, src="harness/c17_batch.cpp",
    bounds=dict(quick="a fixed part (one case in 3 to 7) of the cases of C13, C14, C15, C17, C18, C19, C20, C21 and C22 in their quick tier", thorough="all of them in their thorough tier, one in 3 of C15, C17 and C22"),
    technique="bounded exhaustive enumeration of the calls of nine other harnesses on the real code, every memory access and every view index monitored",
    rule="map expressions x queries x batches x layouts, serialised objects x truncation points, training runs, densities and samplers, ownership histories, refused requests, composed maps x budgets, matrix shapes; non-trivial = distinct case as the harness that makes the calls counts it",
    note="The library and the harnesses run under AddressSanitizer with every view allocated at its exact size and Kokkos' bounds checks on (which also see an index that stays inside the allocation). Only crashes and reports count here; the answers are judged by the other checks. Accesses inside one row of the team scratch memory are checked against the view, not against the field they belong to.",
    parts=[dict(name=n, src="harness/%s.cpp" % f, thin=dict(quick=q, thorough=t)) for n, f, q, t in (
        ("batch", "c17_batch", 5, 3), ("serial", "c15_serial", 7, 3), ("adaptive", "c18_adaptive", 3, 1), ("train", "c19_train", 5, 1), ("density", "c20_density", 3, 1),
        ("refuse", "c22_refuse", 5, 3), ("coeffs", "c14_coeffs", 3, 1), ("composed", "c13_composed", 1, 1), ("linalg", "c21_linalg", 5, 1))])
