// Runs conex on a Problem and judges the answer against the reference.
#pragma once
#include "problem.h"

namespace verif {

using conex::Program;
using conex::SolverConfiguration;

struct Result {
  bool built = false;
  bool ok = false;       // what Solve returned
  conex::ConexStatus status;
  VectorXd y;
  double mu = NAN;       // reported, in the units of the unscaled problem
  double mu_scaled = NAN;
  int iters = 0;
};

inline double ReportedMu(Program& prog) {
  double k = prog.stats->sqrt_inv_mu[prog.stats->num_iter - 1];
  return 1 / (k * k) / (prog.stats->b_scaling() * prog.stats->c_scaling());
}

inline Result SolveProgram(Program* prog, const SolverConfiguration& cfg, int m) {
  Result r;
  r.built = true;
  r.y = VectorXd::Constant(m, NAN);
  r.ok = conex::Solve(*prog, cfg, r.y.data());
  r.status = prog->Status();
  if (prog->stats && prog->stats->num_iter >= 1) {
    r.mu = ReportedMu(*prog);
    double k = prog->stats->sqrt_inv_mu[prog->stats->num_iter - 1];
    r.mu_scaled = 1 / (k * k);
    r.iters = r.status.num_iterations;
  }
  return r;
}

inline Result SolveProblem(const Problem& p, const SolverConfiguration& cfg) {
  Program prog(p.m);
  if (!BuildInto(&prog, p)) return Result();
  return SolveProgram(&prog, cfg, p.m);
}

struct Tolerances {
  double gap = .01;       // |objective - central path| / (mu rank)
  double distance = .25;  // local norm of the barrier at the central point
  double mineig = 0;      // relative to the data
  double eq = 1e-9;
};

// A target mu was reached unless the run had to stop on the iteration limit.
inline bool ReachedLimit(const Result& r, const SolverConfiguration& c) {
  return r.iters >= c.max_iterations - c.final_centering_steps - 1;
}

// Judges a result that claims to be solved.  Returns false if inconclusive.
inline bool JudgeSolved(Ctx& c, const Problem& p, const Result& r,
                        const SolverConfiguration& cfg, const Tolerances& t,
                        const std::string& key) {
  std::string what = Describe(p);
  if (!c.Check(r.y.allFinite(), key + ":finite", "solved, but the solution is not finite: " + what)) return true;
  // Matrix constraints bound the step by estimated eigenvalues: rarely a
  // problem ends slightly outside the region of convergence.
  bool estimated = false;
  for (auto& k : p.cones) estimated |= (k.type == LMI || k.type == HERM) && k.Order() > 1;
  double me = p.MinEig(r.y);
  c.Check(me >= -std::max(t.mineig, estimated ? 1e-7 : 0.), key + ":feasible",
          Fmt("solved, but a slack has relative eigenvalue %.3g: %s", me, what.c_str()));
  double eq = p.EqResidual(r.y);
  c.Check(eq <= t.eq, key + ":equality", Fmt("solved, but an equality is off by %.3g (relative): %s", eq, what.c_str()));
  c.Max("equality_residual", eq);
  double mu = r.mu;
  if (!ReachedLimit(r, cfg)) {
    double target = 1 / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max);
    c.Check(mu <= target * 1.001, key + ":mu",
            Fmt("solved before the iteration limit with mu %.3g above the target %.3g", mu, target));
  }
  RefResult ref = CentralPath(p, mu);
  if (!ref.ok) {
    c.Count("reference_inconclusive");
    return false;
  }
  double gap = (p.Objective(r.y) - p.Objective(ref.y)) / (mu * p.Rank());
  VectorXd dy = r.y - ref.y;
  double loc = std::sqrt(std::fabs(dy.dot(ref.H * dy)));
  double gap_tol = estimated ? std::max(t.gap, .25) : t.gap;
  double loc_tol = estimated ? std::max(t.distance, .8) : t.distance;
  c.Max(estimated ? "gap_over_mu_rank(matrix)" : "gap_over_mu_rank(vector)", std::fabs(gap));
  c.Max(estimated ? "distance_to_path(matrix)" : "distance_to_path(vector)", loc);
  c.Check(std::fabs(gap) <= gap_tol, key + ":gap",
          Fmt("objective differs from the central path by %.3g mu*rank (mu %.3g): %s", gap, mu, what.c_str()));
  c.Check(loc <= loc_tol, key + ":path",
          Fmt("solution is %.3g from the central path (local norm, mu %.3g): %s", loc, mu, what.c_str()));
  c.Count("solutions_judged");
  c.Distinct(Signature(p));
  return true;
}

}  // namespace verif
