"""The table behind properties.jsonl, checks.json and MANIFEST.json."""

NOTES = ("No hooks are compiled into /repo: every monitor observes public interfaces, the constraint "
         "operators the unit tests use, or sanitizer builds of the unmodified sources.")
NOT_APPLICABLE = []

OPT = "opt"
MON = "runtime monitoring: "

PROPS = [
 dict(id="P01", title="A solution reported as solved is feasible and on the central path",
  statement="Whenever the solver reports a problem as solved, the returned point satisfies every cone constraint, "
   "and its objective differs from that of the central path at the reported barrier parameter by a small fraction of "
   "that parameter times the total rank, with the parameter at or below the requested accuracy unless the iteration "
   "limit cut the run short. Problems with strictly feasible primal and dual are solved, "
   "whatever mixture of cone types, variable subsets, scalings and solver options is used.",
  over=["inputs", "configurations"],
  quant="every strictly feasible conic problem over linear, Lorentz, quadratic, epigraph, symmetric and "
   "Hermitian (complex, quaternion, octonion) cones, dense or on variable subsets, and every option that should not change what a solution is",
  why="tests solve a few dozen fixed or seeded instances and mostly compare one cone type with known data; "
   "the claim is over all data, cone mixtures and options",
  files=["conex/cone_program.cc", "conex/newton_step.h", "conex/divergence.cc", "conex/psd_constraint.cc",
         "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/hermitian_psd.cc", "conex/linear_constraint.cc"],
  mechanism=[("Newton/geodesic iteration, mu update and termination tests", "conex/cone_program.cc Solve"),
             ("step preparation and update of each cone", "PrepareStep/TakeStep of each constraint")],
  observe_at=["value and status returned by Solve"],
  stages=[dict(variant="opt", driver="p01", timeout=120)],
  rule="a case is 12 random strictly feasible problems (dimension, cones, variable subsets, scales, options drawn "
   "from the seed); non-trivial and distinct: a problem shape (cone types, orders, variables) whose reported solution "
   "was compared with an independently computed central path point",
  technique=MON + "solver answers judged against an independent central path reference",
  level_note="Every solution is checked for exact cone membership and distance to a central path point computed by an "
   "independent damped Newton method in long-hand barrier calculus; bounded to problems of up to 10 variables (40 in the "
   "large families). Trusts the reference barriers and the tolerances calibrated on 1.5 million solves.",
  assumptions=["problems are well conditioned (Hessian at the known interior point within 1e4 after diagonal scaling)",
               "matrix cones bound the step by estimated eigenvalues, so their tolerance is wider"]),
 dict(id="P02", title="Reported dual variables certify the primal solution",
  statement="After a solved problem, the dual variables the solver reports lie in their cones, have the dimensions of "
   "their constraints (symmetric for matrix constraints), and satisfy the dual equations. Together with the primal slacks their "
   "inner product equals the reported barrier parameter times the rank.",
  over=["inputs", "configurations"],
  quant="every strictly feasible problem over linear and matrix inequality constraints, with and without equalities, "
   "rescaling and dual preparation",
  why="tests read duals for a handful of problems; the certificate must hold for all data, scalings and options",
  files=["conex/cone_program.cc", "conex/cone_program.h", "conex/linear_constraint.cc", "conex/psd_constraint.cc"],
  mechanism=[("unscaling of dual variables", "conex/cone_program.h GetDualVariable"),
             ("affine dual step", "conex/cone_program.cc prepare_dual_variables")],
  observe_at=["GetDualVariable, GetDualVariableSize"],
  stages=[dict(variant="opt", driver="p02", timeout=120)],
  rule="a case is 12 random strictly feasible problems; distinct and non-trivial: a problem shape whose dual variables "
   "were evaluated against the dual equations, cones and complementarity",
  technique=MON + "dual certificate evaluated in long hand after each solve",
  level_note="Direct evaluation of the optimality certificate on every solved problem, no reference solver needed; the "
   "cone membership of prepared duals is not judged when there are equality constraints (regularised factorisation).",
  assumptions=["duals are exposed for linear and symmetric matrix constraints only"]),
 dict(id="P03", title="Infeasible and unbounded problems are recognised and never reported as solved",
  statement="A problem without a feasible point, or with an unbounded objective, is never reported as solved, whatever the solver options. When the "
   "barrier parameter may grow beyond the infeasibility threshold, such a problem is flagged as primal infeasible (no feasible point) or dual infeasible "
   "(unbounded), never the wrong one, and well-scaled feasible problems are never flagged. With prepared duals a primal infeasible problem comes with dual variables in their "
   "cones that satisfy A'x = 0 and <c,x> < 0, and a dual infeasible one with an improving direction of recession.",
  over=["inputs", "configurations"],
  quant="every strictly infeasible or strictly unbounded conic problem over linear, Lorentz, quadratic, symmetric and Hermitian cones, on any variable subsets; every legal configuration",
  why="tests try a few one-cone infeasible problems with one configuration",
  files=["conex/cone_program.cc", "conex/cone_program.h", "conex/divergence.cc"],
  mechanism=[("infeasibility test on mu and the flags", "conex/cone_program.cc Solve"),
             ("certificate", "conex/cone_program.h GetDualVariable after prepare_dual_variables")],
  observe_at=["value, Status and point returned by Solve, GetDualVariable"],
  stages=[dict(variant="opt", driver="p03", timeout=120)],
  rule="a case is 12 problems built to be infeasible, unbounded or feasible; distinct and non-trivial: a problem shape whose classification was judged",
  technique=MON + "status and certificates judged on problems whose class is known by construction",
  level_note="The class of each problem is planted (a strictly positive certificate or an interior recession direction); the certificate returned is "
   "evaluated in long hand. Flags are judged on data of unit scale, as they compare objective values with a constant; certificates are approximate (mu up to 1e7).",
  assumptions=["strict infeasibility or unboundedness, unit-scale cost and affine terms"]),
 dict(id="P04", title="Equivalent formulations of a problem have the same solution",
  statement="Renaming variables, reordering constraints, rows or variables of a constraint, spelling out zero columns, splitting a linear constraint, rotating or "
   "rescaling the slack of a second order cone with its metric, and an affine change of variables (without rescaling) leave the iterates of a solve as they are: same outcome, number of iterations, barrier "
   "parameters and (mapped) solution. Writing linear rows as second order, symmetric or Hermitian constraints, second order cones and epigraphs as matrix inequalities, complex and "
   "quaternion matrices as real ones or over a larger algebra, congruences, repeated and scaled rows, and scaling of costs change the answer by no more than the reported duality gap.",
  over=["inputs", "configurations"],
  quant="all strictly feasible problems with every kind of cone, with and without quadratic costs; all combinations of the reformulations",
  why="an indexing, ordering or scaling error leaves the formulation a test happens to use correct; only a relation between runs exposes it without a reference solution",
  files=["conex/cone_program.cc", "conex/cone_program.h", "conex/constraint_manager.h", "conex/supernodal_solver.cc", "conex/kkt_solver.cc", "conex/supernodal_assembler.cc",
         "conex/linear_constraint.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc"],
  mechanism=[("variable and clique bookkeeping", "conex/cone_program.h AddConstraint, conex/constraint_manager.h"),
             ("affine scale invariance of the iterates", "conex/cone_program.cc Solve"), ("constraint kinds", "conex/*_constraint.cc, conex/hermitian_psd.cc")],
  observe_at=["Solve, WorkspaceStats::sqrt_inv_mu, Status"],
  stages=[dict(variant="opt", driver="p04", timeout=120)],
  rule="a case is a pair of formulations, both solved and compared; distinct: the reformulations applied together with the shape of the problem",
  technique=MON + "metamorphic relations between runs of equivalent formulations",
  level_note="Pairs on the same iterates are compared to 1e-5; a difference is dismissed only if perturbing one formulation by 1e-11 also changes its path (one in 80000). Pairs of "
   "different cones are compared to the reported gap, a difference has to persist under four configurations. Not judged: equality constraints (P01).",
  assumptions=["Hermitian constraints bound steps with random vectors: compared by value only", "targets for exact pairs are moderate (mu >= 1e-4)"]),
 dict(id="P05", title="The KKT system assembled and solved is the sum of the constraint blocks",
  statement="The sparse KKT matrix equals the sum of the blocks contributed by the constraints on their variables, "
   "for every set of cliques and every order in which they are given, also after repeated assembly. Solving with it by Cholesky, "
   "LDL' or QR gives the solution of the dense system to rounding, saddle-point systems included up to the documented "
   "pivot regularisation, which iterative refinement removes, and a factorisation of an indefinite or singular matrix as "
   "positive definite is refused.",
  over=["inputs", "configurations"],
  quant="every family of variable subsets (chains, stars, trees, nested, overlapping, random), every positive or quasi-definite data, "
   "each factorisation mode and right hand side",
  why="tests fix about ten clique structures; fill-in, supernode merging and elimination order depend on the structure",
  files=["conex/kkt_solver.cc", "conex/supernodal_assembler.cc", "conex/block_triangular_operations.cc",
         "conex/triangular_matrix_workspace.cc", "conex/supernodal_solver.cc"],
  mechanism=[("assembly of blocks into supernodes", "conex/supernodal_assembler.cc"),
             ("block Cholesky / LDL' and solves", "conex/block_triangular_operations.cc")],
  observe_at=["Solver::KKTMatrix, Factor, Solve, SolveInPlace, BlockTriangularOperations"],
  stages=[dict(variant="opt", driver="p05", timeout=120)],
  rule="a case is a batch of random clique sets with random blocks; distinct: a structure (sizes, fill, solver mode) whose "
   "assembled matrix and solution were compared with the dense ones",
  technique=MON + "sparse assembly, factorisations and solves judged against dense long-double algebra on random structures",
  level_note="Exact comparison with dense linear algebra; bounded to structures of up to 40 variables. Regularised saddle-point "
   "pivots are judged statistically over a batch, because the library adds up to 1e-9 relative to small pivots by design.",
  assumptions=["blocks are symmetric, data well conditioned"]),
 dict(id="P06", title="Elimination ordering and symbolic structure are valid and cover all fill-in",
  statement="For every set of cliques, the elimination order is a permutation of the variables, supernodes partition them, "
   "separators lie strictly later in the order, and every entry of the Cholesky factor that can become nonzero has storage. "
   "Structures that are trees of cliques get no fill-in, and set operations on sorted index lists are the mathematical ones.",
  over=["inputs"],
  quant="every family of subsets of variables, including duplicates, nested sets, singletons and disconnected groups",
  why="tests check a handful of hand written clique trees",
  files=["conex/clique_ordering.cc", "conex/tree_utils.cc", "conex/supernodal_solver.cc", "conex/triangular_matrix_workspace.cc"],
  mechanism=[("ordering by a maximum weight spanning tree of cliques", "conex/clique_ordering.cc PickCliqueOrder"),
             ("symbolic factorisation", "conex/supernodal_solver.cc GetData")],
  observe_at=["PickCliqueOrder, MatrixData, TriangularMatrixWorkspace"],
  stages=[dict(variant="opt", driver="p06", timeout=120)],
  rule="a case is a batch of random clique sets; distinct: a structure signature (family, variables, cliques, fill)",
  technique=MON + "structural invariants checked by brute-force symbolic elimination on random clique sets",
  level_note="Every structure is checked against a brute-force symbolic elimination; bounded to 40 variables.",
  assumptions=[]),
 dict(id="P07", title="The hypercomplex matrix algebras obey the laws of their Jordan algebra",
  statement="Real, complex, quaternion and octonion units multiply as in the composition algebra of that dimension (norms are multiplicative, "
   "Moufang laws hold). Matrix sum, product, conjugate transpose, Jordan product, trace inner product and quadratic "
   "representation of hypercomplex matrices equal their definitions, eigenvalues computed for Hermitian matrices (also of order-3 octonion matrices) "
   "are those of the real embedding (or characteristic polynomial), and Lanczos estimates are Ritz values: never outside the spectrum, exact when run in full.",
  over=["inputs"],
  quant="every hypercomplex matrix of dimension 1, 2, 4 or 8, square or rectangular, every order the algebra supports",
  why="tests check some identities on one or two random matrices",
  files=["conex/jordan_matrix_algebra.cc", "conex/jordan_matrix_algebra.h", "conex/approximate_eigenvalues.cc"],
  mechanism=[("multiplication tables and matrix operations", "conex/jordan_matrix_algebra.h MatrixAlgebra"),
             ("Lanczos and eigenvalues", "conex/jordan_matrix_algebra.cc")],
  observe_at=["MatrixAlgebra<n>, HyperComplexMatrix public interface"],
  stages=[dict(variant="opt", driver="p07", timeout=120)],
  rule="a case is one draw of matrices for one dimension and order; distinct: (law family, dimension, orders)",
  technique=MON + "algebraic laws and an independent real embedding evaluated on random matrices",
  level_note="Units are checked exhaustively, matrix laws on random data with rounding-level tolerances; orders up to 7.",
  assumptions=["octonion matrices have order at most 3 for Jordan laws (larger ones are not a Jordan algebra)"]),
 dict(id="P08", title="The operators of each constraint agree with the definition of its cone",
  statement="For every constraint type, however its data was entered (constructor or entry by entry updates) and at every weight the solver can reach, the Schur "
   "complement A'Q(w)A, the vectors A'w and A'Q(w)c and the scalars <w,c> and <c,Q(w)c> equal the values from the Jordan algebra of "
   "the cone, alone or added to the blocks of other constraints, as do the rank, number of variables, trace and norm of the weighted slack and the reported step norms. Extreme "
   "eigenvalues are exact for vector cones, and estimates for matrix cones never leave the spectrum.",
  over=["inputs", "histories"],
  quant="every constraint type, data, sequence of updates and weight reached by steps from the identity",
  why="tests compare a few operators on one random instance at the identity",
  files=["conex/linear_constraint.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/quadratic_epigraph.cc",
         "conex/psd_constraint.cc", "conex/dense_lmi_constraint.cc", "conex/hermitian_psd.cc", "conex/hermitian_psd.h", "conex/constraint.h"],
  mechanism=[("Newton system of each cone", "ConstructSchurComplementSystem of each constraint"),
             ("scaled slack", "GetWeightedSlackEigenvalues and PrepareStep of each constraint")],
  observe_at=["conex::Constraint wrapper operators"],
  stages=[dict(variant="opt", driver="p08", timeout=200)],
  rule="a case is one constraint with up to 7 weights along random steps; distinct: (type, order, extra variables, step, how built)",
  technique=MON + "each operator compared at every visited weight with a long-hand Jordan algebra model of the cone",
  level_note="The weight is read back through the operator under test with basis columns, so model and object cannot drift "
  "apart; rounding-level tolerances. Orders up to 9 (vectors) and 7 (matrices).",
  assumptions=["octonion eigenvalue estimates are heuristic by design and not judged"]),
 dict(id="P09", title="Steps move each weight along the geodesic of its cone",
  statement="Taking a step of size t in direction d moves the weight w of a constraint to Q(w^1/2)exp(t d): exactly for linear and second-order cones, "
   "and within the error of the documented approximation of the exponential for matrix cones (first order for octonions); the new weight is "
   "Hermitian and inside the cone. The affine step used for dual variables is (1 + e)w - Q(w)(k c - A y) for matrix constraints, w - Q(w)(k c - A y) for linear ones, and leaves "
   "second-order cones unchanged.",
  over=["inputs", "histories"],
  quant="every constraint type and data, every sequence of full and damped steps of the size the solver takes",
  why="tests check one step of some cones; an inaccurate step still converges on easy problems",
  files=["conex/exponential_map.cc", "conex/exponential_map_pade.cc", "conex/linear_constraint.cc", "conex/soc_constraint.cc",
         "conex/quadratic_cone_constraint.cc", "conex/psd_constraint.cc", "conex/hermitian_psd.cc"],
  mechanism=[("exponential maps", "conex/exponential_map.cc, conex/exponential_map_pade.cc"),
             ("step of each cone", "PrepareStep/TakeStep of each constraint")],
  observe_at=["conex::Constraint PrepareStep/TakeStep; ExponentialMap, ExponentialMapPadeApproximation, GeodesicUpdate, GeodesicUpdateScaled"],
  stages=[dict(variant="opt", driver="p09", timeout=120)],
  rule="a case is one constraint taken through up to 8 random steps; distinct: (type, order, damped or not, step number, near or far)",
  technique=MON + "every step compared with the exact geodesic computed in a long-hand Jordan algebra model",
  level_note="Error bounds are the truncation errors of the approximations the code documents (relative x^3/75 for the series, "
  "1.5e-5 x^7 for Pade), at most 1.3 times the largest error seen; steps bounded as the solver bounds them.",
  assumptions=["weights with condition number up to 1e6"]),
 dict(id="P10", title="The barrier parameter follows its documented selection rule",
  statement="DivergenceUpperBound evaluates |kl-1|^2/(1-|kl-1|_inf) for eigenvalues l of the weighted slack, and its inverse returns the largest k at which that finite "
   "bound equals the requested value (not a positive number if there is none). Line search gives exactly the interval of k where the step stays within the "
   "norm bound. Lanczos estimates are the Ritz values of the weighted slack for the requested number of iterations, at any scale. On linear programs (with quadratic costs too) the solver's "
   "barrier parameters, number of iterations, status and answer are those of this rule under the configured limits, centering steps and tolerances.",
  over=["inputs", "configurations"],
  quant="all spectra and bounds, all line search data, all symmetric matrices and scales, all linear and quadratic programs and legal configurations",
  why="a wrong selection still converges on most problems, only slower or rarely to a wrong point; tests sample one spectrum and one line search",
  files=["conex/divergence.cc", "conex/cone_program.cc", "conex/approximate_eigenvalues.cc", "conex/linear_constraint.cc", "conex/newton_step.h"],
  mechanism=[("divergence bound and its inverse", "conex/divergence.cc"),
             ("line search", "conex/linear_constraint.cc PerformLineSearch, conex/cone_program.cc ComputeMuFromLineSearch"),
             ("main loop: update, centering and termination", "conex/cone_program.cc Solve")],
  observe_at=["DivergenceUpperBound(Inverse), PerformLineSearch, ApproximateEigenvalues, WorkspaceStats::sqrt_inv_mu, Status"],
  stages=[dict(variant="opt", driver="p10", timeout=120)],
  rule="a case is a batch of spectra, line searches, matrices or whole runs; distinct: sizes and branches taken, and for runs the problem shape with the number of iterations",
  technique=MON + "selection functions judged by bisection and reorthogonalised Lanczos; recorded trajectories of runs compared with a long-hand model of the algorithm",
  level_note="Whole runs are compared for programs over linear cones, where every quantity is exact (to 1e-4 relative in the barrier parameter; near-ties of a decision are skipped and two runs in ten may differ by "
   "rounding); where no rule is documented (no positive slack eigenvalue) the solver's choice is adopted.",
  assumptions=["legal configurations: positive limits, nonnegative counts"]),
 dict(id="P11", title="A cold start forgets the past, a warm start continues from the last iterate",
  statement="Whatever was done with a program before (solves, failed or aborted ones too, changes of entries, constraints added after a solve), a cold start gives exactly "
   "what a newly built program with the same data gives. With a constant cost, a run cut into pieces that are warm started (in the same program, or in new programs on the same workspace "
   "memory) visits the same iterates as the uninterrupted run. A warm start whose first step reaches the abort threshold proceeds as a cold start. A warm start after "
   "a change of the costs that reports success has reached the centre of the changed problem, and it succeeds if nothing or little changed.",
  over=["histories", "inputs", "configurations"],
  quant="all sequences of building, changing and solving a program; every split of a run; every kind of cone (new programs on the same memory: all but Hermitian)",
  why="tests warm start one problem once; what a solve leaves behind in workspaces, weights, scalings and statistics shows only in particular sequences",
  files=["conex/cone_program.cc", "conex/cone_program.h", "conex/workspace.h", "conex/kkt_solver.cc", "conex/newton_step.h", "conex/linear_constraint.cc",
         "conex/psd_constraint.cc", "conex/soc_constraint.cc", "conex/quadratic_cone_constraint.cc", "conex/hermitian_psd.cc"],
  mechanism=[("initialization and warm start abort", "conex/cone_program.cc Solve, Initialize"), ("workspace memory", "conex/workspace.h"),
             ("changes after a solve", "conex/cone_program.h AddConstraint, UpdateLinearOperator")],
  observe_at=["conex::Solve results", "WorkspaceStats::sqrt_inv_mu", "CONEX_Maximize"],
  stages=[dict(variant="opt", driver="p11", timeout=120)],
  rule="a case is one history of a program; distinct: its sequence of events, or the problem shape and number of iterations",
  technique=MON + "recorded trajectories and answers compared between histories that must be equivalent",
  level_note="Runs with Hermitian constraints, whose step sizes depend on random numbers, are replayed with the same random seed; after an abort only their solutions are judged. "
   "Runs in pieces are compared to 1e-7 relative in the barrier parameter and 1e-6 in the last iterate.",
  assumptions=["a run that selects no parameter and halves the last one (no positive slack eigenvalue) depends on that parameter, and is not cut into pieces"]),
 dict(id="P12", title="The C interface computes what the C++ interface computes",
  statement="A program built and solved through the C interface (each constraint given as a whole, or created empty and filled in entry by entry in any order with entries overwritten, on all variables or a subset, any "
   "configuration, with or without a cost vector) has the same return value, status, solution, dual variables and iteration statistics as the program built through C++. Programs used "
   "alternately do not affect each other. CONEX_SetDefaultOptions gives the defaults of SolverConfiguration, and each field of the options reaches the solver. A quadratic cost matrix that is "
   "not symmetric stands for its symmetric part.",
  over=["inputs", "configurations", "histories"],
  quant="every program of the constraints the C interface offers, every order of entry, every field of the options",
  why="tests build a few programs through the C interface with default options and check only that they are solved",
  files=["interfaces/conex.cc", "interfaces/conex.h", "conex/cone_program.h", "conex/cone_program.cc", "conex/linear_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc",
         "conex/psd_constraint.cc", "conex/quadratic_cost.h"],
  mechanism=[("options", "interfaces/conex.cc CONEX_Maximize, CONEX_SetDefaultOptions"), ("entry by entry", "interfaces/conex.cc CONEX_New*, CONEX_Update*"),
             ("whole constraints", "interfaces/conex.cc CONEX_Add*")],
  observe_at=["CONEX_* return values and outputs", "conex::Program"],
  stages=[dict(variant="opt", driver="p12", timeout=120)],
  rule="a case is one program, or four option fields on one program; distinct: constraints with the way they were entered, and fields whose effect was seen",
  technique=MON + "differential monitoring of the C interface against the C++ interface on the same data",
  level_note="Results are compared to 1e-7 (nearly all are bit-identical). For each option field it is counted in how many runs changing it had a visible effect.",
  assumptions=["up to 6 variables; data is entered before the solve (P11 changes it afterwards)"]),
 dict(id="P13", title="Invalid input to the C interface is refused and changes nothing",
  statement="Null pointers for program or result, ids of no constraint, variable, row, column and component indices that are negative or too large, imaginary parts on a diagonal, orders and "
   "hypercomplex dimensions that do not exist, updates of a kind the constraint does not have, repeated or unknown variables of a sparse matrix inequality, costs of the wrong size, and setting the "
   "number of variables twice, to zero, or after constraints are all refused with a failure status, write nothing, and leave the program solving exactly like the one made of the valid calls only.",
  over=["inputs", "histories"],
  quant="every invalid call at every point of building a program, between and after solves",
  why="tests make three or four invalid calls each with one value; whether all indices are checked on both sides, on every kind of constraint, and without side effect is not tested",
  files=["interfaces/conex.cc", "conex/cone_program.h", "conex/cone_program.cc", "conex/linear_constraint.cc", "conex/hermitian_psd.cc", "conex/soc_constraint.cc", "conex/quadratic_cost.h",
         "conex/error_checking_macros.h"],
  mechanism=[("argument checks", "interfaces/conex.cc SAFER_CAST_TO_Program, CONEX_DEMAND"), ("entry updates", "UpdateLinearOperator, UpdateAffineTerm overloads"),
             ("variables", "conex/cone_program.h")],
  observe_at=["CONEX_* return values", "conex::Program", "CONEX_Maximize results", "AddressSanitizer, UndefinedBehaviorSanitizer"],
  stages=[dict(variant="opt", driver="p13", timeout=120), dict(variant="asan", driver="p13", timeout=300, scenario="history", tier="thorough")],
  rule="a case is one program built with invalid calls in between; distinct: its constraints with the way they were entered",
  technique=MON + "invalid calls injected into histories of valid ones; refusals monitored, and the program compared with the one made of the valid calls",
  level_note="Sparse matrix inequalities and whole inequalities do not report a refusal (they return an id), so for them only the program is judged.",
  assumptions=["pointers are null or valid for the sizes that are passed"]),
 dict(id="P14", title="No history of calls corrupts, leaks or exposes memory",
  statement="No history of valid or refused calls through the C++ or the C interface, whatever the data (infinities, NaN and extreme "
   "values included), reads or writes out of bounds, uses deleted or uninitialised memory, leaks, has undefined behaviour or "
   "violates a precondition of the linear algebra library. Solves and queries leave their inputs alone, write only to the outputs of "
   "their caller and return nothing uninitialised. The same holds for the factorisation, assembly and cone operators below.",
  over=["inputs", "histories", "configurations"],
  quant="every history of creating, filling, updating, solving (cold, warm, on memory of the caller), querying and deleting, with every invalid "
   "argument the interface refuses; every valid use of the internal operators",
  why="tests run without sanitizers, on valid calls and finite data",
  files=["interfaces/conex.cc", "conex/cone_program.h", "conex/cone_program.cc", "conex/workspace.h", "conex/memory_utils.h",
         "conex/block_triangular_operations.cc", "conex/supernodal_solver.cc", "conex/kkt_solver.cc", "conex/RLDLT.h"],
  mechanism=[("workspaces carved out of one array", "conex/workspace.h, conex/memory_utils.h, conex/linear_workspace.h, conex/workspace_soc.h"),
             ("checks of the C interface", "interfaces/conex.cc"), ("maps onto supernodes", "conex/triangular_matrix_workspace.h, conex/supernodal_assembler.h")],
  observe_at=["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer", "valgrind memcheck", "Eigen and libstdc++ assertions",
              "guard words around memory of the caller"],
  stages=[dict(variant="asan", driver="p14", timeout=400, scale={"quick": .3}),
          dict(variant="echk", driver="p14", timeout=400, scale={"quick": .3, "thorough": .3}, wrap=["valgrind", "-q", "--error-exitcode=98"]),
          dict(variant="echk", driver="p14", timeout=300)]
   + [dict(variant="echk", driver=d, timeout=300, monitors="memory", scale={"quick": q, "thorough": t})
      for d, q, t in [("p05", .1, .2), ("p06", .1, .3), ("p07", .1, .2), ("p20", .25, 1)]]
   + [dict(variant="asan", driver=d, timeout=400, monitors="memory", scale={"quick": q})
      for d, q in [("p05", .05), ("p20", .08)]]
   + [dict(variant="echk", driver=d, timeout=300, monitors="memory", tier="thorough", scale={"thorough": t})
      for d, t in [("p01", .02), ("p02", .04), ("p03", .02), ("p08", .07), ("p09", .07), ("p10", .07), ("p15", .07), ("p16", .07), ("p17", .07)]]
   + [dict(variant="asan", driver=d, timeout=600, monitors="memory", tier="thorough", scale={"thorough": t})
      for d, t in [("p01", .004), ("p06", .03), ("p07", .02), ("p08", .02), ("p09", .03), ("p10", .02), ("p15", .03), ("p16", .02), ("p17", .03)]],
  rule="a case is one random history through the C interface, a chain of programs on one array, or a case of another property's driver under a "
   "sanitizer; distinct: kinds of constraints and form of history",
  technique=MON + "sanitizers, memcheck and checked linear algebra watching random call histories, with guard words around the caller's arrays",
  level_note="Cones of order up to 12 and up to 12 variables. Dual variables of cones that offer none must be defined memory only.",
  assumptions=["matrices passed by pointer have the dimensions stated with them", "a warm start on memory of the caller follows a solve of a program with the same "
               "constraints", "shapes that do not match the number of variables are undefined where the interface does not refuse them"]),
 dict(id="P15", title="Quadratic costs and quadratic epigraphs are minimised",
  statement="Minimising a linear plus any number of convex quadratic costs (possibly singular, each on any subset of the variables, "
   "accumulated over calls) subject to inequalities, and equality constraints, with line search enabled and rescaling off, succeeds for "
   "problems with strictly feasible points and returns a feasible point at the mu-analytic centre of that cost. A quadratic cost moved "
   "into a quadratic epigraph constraint gives the same value up to mu times the rank. Costs of the wrong size or with repeated variables are refused and leave the "
   "program unchanged; configurations that do not support quadratic costs do not report success.",
  over=["inputs", "configurations"],
  quant="every strictly feasible quadratic program and the configurations that support quadratic costs",
  why="tests solve single quadratic programs; which minimiser and how costs accumulate on subsets is not compared with an independent optimum",
  files=["conex/cone_program.cc", "conex/cone_program.h", "conex/quadratic_cost.h", "conex/quadratic_cost.cc", "conex/quadratic_epigraph.cc",
         "conex/linear_constraint.cc"],
  mechanism=[("cost in Newton system", "conex/quadratic_cost.h, conex/quadratic_cost.cc"), ("accumulating costs", "conex/cone_program.h AddQuadraticCost/AddLinearCost"),
             ("step with line search", "conex/cone_program.cc, conex/linear_constraint.cc")],
  observe_at=["conex::Solve results", "conex::Program::Status"],
  stages=[dict(variant="opt", driver="p15", timeout=120)],
  rule="a case is a batch of 10 random quadratic programs, or one in several forms; distinct: structure of the program",
  technique=MON + "each solve judged against an independent long-double barrier minimiser, and equivalent formulations against each other",
  level_note="Optimality is judged at the mu the solver reports. With equality constraints up to 2 of 10 problems may miss (regularised saddle "
  "point factorisation); without, none.",
  assumptions=["up to 9 variables; scaled Hessian of the barrier problem conditioned to 1e3"]),
 dict(id="P16", title="Equality constraints hold at the optimum and do not lose optimality",
  statement="For strictly feasible problems with consistent, well conditioned equality constraints, given in one or several blocks, dense or on "
   "subsets of the variables in any order, that fix or tie variables or not, Solve succeeds, the solution satisfies the equalities (to 1e-4; to 1e-9 with iterative refinement), stays "
   "inside every cone and is the mu-analytic centre of the restricted problem.",
  over=["inputs", "configurations"],
  quant="every strictly feasible problem of linear, second-order, quadratic, real and Hermitian matrix cones with full rank equalities",
  why="tests check a few equality problems; the pairing of multipliers with blocks and supernodes depends on the sparsity",
  files=["conex/equality_constraint.h", "conex/equality_constraint.cc", "conex/kkt_solver.cc", "conex/kkt_solver.h", "conex/cone_program.cc",
         "conex/supernodal_solver.cc", "conex/block_triangular_operations.cc"],
  mechanism=[("saddle point blocks", "conex/equality_constraint.h"), ("multipliers as extra variables", "conex/cone_program.h AddConstraint(EqualityConstraints)"),
             ("iterative refinement", "conex/kkt_solver.cc")],
  observe_at=["conex::Solve results", "conex::Program::Status"],
  stages=[dict(variant="opt", driver="p16", timeout=120)],
  rule="a case is a batch of 10 random problems; distinct: structure of the problem",
  technique=MON + "each solve judged against an independent long-double equality constrained barrier minimiser",
  level_note="Regularised pivots make single solves inaccurate, so a batch fails when more than 3 of 10 are wrong (1 with iterative refinement); feasibility for "
  "the cones is judged on every solve.",
  assumptions=["singular values of the equalities between .3 and 20"]),
 dict(id="P17", title="Two-sided inequalities and bounds mean what they say",
  statement="PreprocessLinearInequality splits lb <= Ay <= ub (bounds of magnitude 1e8 or more are absent) into equalities and one-sided inequalities that describe exactly "
   "the same set, each row exactly once, and solving the result gives the optimum over that set. Upper and lower bounds on any "
   "subset of the variables behave exactly as the linear inequalities they stand for.",
  over=["inputs"],
  quant="every matrix and every combination of equal, one-sided, two-sided and absent bounds",
  why="tests use one matrix with one pattern of bounds",
  files=["conex/linear_constraint.cc", "conex/linear_constraint.h", "interfaces/conex.cc"],
  mechanism=[("splitting rows", "PreprocessLinearInequality"), ("bounds", "LowerBound, UpperBound")],
  observe_at=["PreprocessLinearInequality outputs", "conex::Solve results"],
  stages=[dict(variant="opt", driver="p17", timeout=120)],
  rule="a case is one set of rows and bounds or one bounded problem; distinct: pattern of bounds or structure of the problem",
  technique=MON + "row by row set comparison of the processed constraints and differential solves",
  level_note="Membership is compared on random points and on points just inside and outside of each row.",
  assumptions=["no row is zero"]),
 dict(id="P18", title="Iteration limits are respected and the statistics describe the run",
  statement="A solve takes at most max_iterations iterations, and status, return value and statistics agree on how it went. The barrier parameter never "
   "exceeds maximum_mu nor undercuts the target (scaled with the problem if rescaling is enabled); it is constant during the initial and final centering "
   "steps and after the target is reached, when at most final_centering_steps iterations follow; raising max_iterations "
   "changes no iteration before the final centering steps. Statistics exist for exactly the iterations of the last "
   "run, counted from either end, and are not changed by solves of other programs; asking for others writes nothing.",
  over=["inputs", "configurations", "histories"],
  quant="every problem, feasible or not, every configuration, cold and warm starts, several programs at a time",
  why="tests look at the statistics of one solve each",
  files=["conex/cone_program.cc", "interfaces/conex.cc", "conex/workspace.h"],
  mechanism=[("loop and centering", "conex/cone_program.cc Solve"), ("statistics", "conex/workspace.h WorkspaceStats, CONEX_GetIterationStats")],
  observe_at=["CONEX_GetIterationStats", "conex::Program::Status", "return value of Solve"],
  stages=[dict(variant="opt", driver="p18", timeout=120)],
  rule="a case is a history of solves of up to three programs, or a pair of solves that differ in max_iterations; distinct: form of the problem and end of the run",
  technique=MON + "trace specification of the barrier parameter checked on the recorded statistics of every solve",
  level_note="The specification covers limits and constancy of the parameter, not its values (see P10).",
  assumptions=["the second iteration of a warm start is exempt from constancy: the first may have been aborted"]),
 dict(id="P19", title="Programs are independent of each other, also on different threads",
  statement="Results of a program (return value, status, solution, statistics, dual variables) are bit for bit the same whether its "
   "operations run alone, interleaved with operations of other programs, or concurrently with other programs on other threads; and "
   "no two threads that work on different programs access the same memory unsynchronised.",
  over=["schedules", "inputs", "histories"],
  quant="every schedule of threads and every interleaving of programs of all cones",
  why="tests use one program at a time on one thread",
  files=["conex/cone_program.cc", "conex/exponential_map.cc", "conex/exponential_map_pade.h", "conex/quadratic_cone_constraint.cc", "interfaces/conex.cc",
         "conex/psd_constraint.cc"],
  mechanism=[("no shared mutable state", "all of conex")],
  observe_at=["ThreadSanitizer", "all results of C and C++ interfaces"],
  stages=[dict(variant="opt", driver="p19", timeout=200),
          dict(variant="tsan", driver="p19", scenario="threads", timeout=400, jobs=4, scale={"quick": .15, "thorough": .1})],
  rule="a case is a random interleaving of up to 6 programs on one thread, or 2 to 6 threads with up to 3 programs each, with random delays; "
   "distinct: order of operations, or form of a program solved on a thread",
  technique=MON + "ThreadSanitizer and bitwise comparison with sequential runs, on random programs, schedules and delays",
  level_note="Matrix constraints whose eigenvalues are estimated from rand() are compared when interleaved (reseeded) and watched by "
  "ThreadSanitizer on threads, but not compared there.",
  assumptions=["each program is used by one thread at a time", "Eigen itself is not instrumented beyond its headers"]),
 dict(id="P20", title="The regularised LDL' factorisation is exact up to what it reports",
  statement="For every symmetric matrix, the product of the factors equals the matrix plus exactly the reported "
   "regularisation, to rounding; every pivot is at least the threshold, the flag saying whether regularisation was used is right, "
   "the definiteness predicates agree with the pivots, and solve, in-place, reconstruction, rank-one updates, lower and upper "
   "storage and condition estimates are consistent.",
  over=["inputs"],
  quant="every symmetric matrix: definite, indefinite, singular, zero, badly scaled, order 0 and 1 and up",
  why="tests factor a few random matrices",
  files=["conex/RLDLT.h"],
  mechanism=[("pivot regularisation", "conex/RLDLT.h compute/unblocked"), ("solve", "conex/RLDLT.h _solve_impl_transposed")],
  observe_at=["Eigen::RLDLT public interface"],
  stages=[dict(variant="opt", driver="p20", timeout=120)],
  rule="a case is a batch of random symmetric matrices of several spectra; distinct: (family, order, regularised pivots)",
  technique=MON + "factor reconstruction residual monitored in long double on random matrices of every definiteness",
  level_note="Residual bounds follow backward error analysis of LDL' with diagonal pivoting; orders up to 60.",
  assumptions=["entries are finite"]),
 dict(id="P21", title="GetFeasibleObjective returns a cost for which the problem is bounded",
  statement="GetFeasibleObjective returns one number for each variable, A'x for half the identity x of every cone: with it as objective and "
   "a feasible right-hand side the problem is solved, flagged neither infeasible nor unbounded, and its answer is on the central "
   "path. The vector does not depend on earlier solves, on costs or on the weights they left; asking for it twice gives the same "
   "numbers, and leaves the data of the program unchanged.",
  over=["inputs", "histories"],
  quant="every problem with constraints of any mix of cones, equalities and quadratic terms, fresh or solved before",
  why="tests use it to make up a few problems and look at nothing but the solution",
  files=["conex/cone_program.cc", "conex/kkt_solver.cc", "conex/constraint.h"],
  mechanism=[("starting point", "conex/cone_program.cc GetFeasibleObjective"), ("A'w", "conex/kkt_solver.cc Assemble(AW, ...)")],
  observe_at=["conex::GetFeasibleObjective", "conex::Solve results"],
  stages=[dict(variant="opt", driver="p21", timeout=120)],
  rule="a case is one random problem with a history of solves; distinct: form of the problem",
  technique=MON + "comparison with A'x computed from the problem data, and optimality monitors on the problem it makes",
  level_note="Problems have an interior and at least one constraint per variable.",
  assumptions=["every variable occurs in a constraint"]),
 dict(id="P22", title="The Python front end hands on what the caller says and what the library answers",
  statement="The class Conex of interfaces/python gives the library the caller's numbers whatever form the arrays have (order, views, matrices, "
   "integers, one row), so that status, solution and statistics equal those of the C interface bit for bit. Entry i of GetDualVariables "
   "is the dual variable of the i-th constraint added, however costs and constraints of different kinds were mixed. ComputeErrors sums over all "
   "constraints of this solution only. Requests that do not fit raise an error and change nothing. Every program is deleted "
   "once, with its object, and no buffer is smaller than what the library writes.",
  over=["inputs", "histories"],
  quant="every sequence of additions, updates, refused requests, solves and queries, on several programs at a time",
  why="the Python tests need an interface generator and an interpreter that the build does not have, and look at a few programs",
  files=["interfaces/python/ConexProgram.py", "interfaces/python/conex.i", "interfaces/conex.h", "interfaces/conex.cc"],
  mechanism=[("class Conex", "interfaces/python/ConexProgram.py"), ("array typemaps", "interfaces/python/conex.i"), ("C functions", "interfaces/conex.cc")],
  observe_at=["every call that crosses from Python to C", "results of class Conex"],
  stages=[dict(variant="opt", driver="p22", timeout=120)],
  rule="a case is a random history of one to four programs; distinct: number of variables and kinds of constraints in order",
  technique=MON + "call monitor between the Python class and the C interface, and bitwise differential runs",
  level_note="The module SWIG would generate is replaced by one made at run time from conex.h and the typemaps in conex.i; print statements of Python 2 are rewritten.",
  assumptions=["the stand-in converts arrays as numpy.i does", "ComputeErrors: constraints given as arrays, one sided"]),
]
