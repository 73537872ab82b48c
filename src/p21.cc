// P21: GetFeasibleObjective returns A'x for x = e/2, so the problem is bounded.
#include "solve.h"
using namespace verif;

namespace {

// <A_k, e>/2 summed over the cones (trace inner product of each algebra).
VectorXd Expected(const Problem& p) {
  VectorXd b = VectorXd::Zero(p.m);
  for (auto& k : p.cones) {
    for (size_t j = 0; j < k.vars.size(); j++) {
      double v = 0;
      if (k.type == LIN) v = .5 * k.A.col(j).sum();
      else if (k.type == LMI || k.type == HERM) v = .5 * k.H[j][0].trace();
      else v = k.A(0, j);
      b(k.vars[j]) += v;
    }
  }
  return b;
}

bool Same(Ctx& c, const MatrixXd& got, const Problem& p, const std::string& when) {
  VectorXd b = Expected(p);
  if (!c.Check(got.rows() == p.m && got.cols() == 1, "size",
               Fmt("objective is %d x %d, there are %d variables (%s): ", int(got.rows()), int(got.cols()), p.m, when.c_str()) + Describe(p)))
    return false;
  double scale = 1;
  for (auto& k : p.cones) scale = std::max(scale, k.Scale() * std::sqrt(double(k.Order())));
  double e = (got - b).cwiseAbs().maxCoeff() / scale;
  c.Max("objective_error", e);
  return c.Check(e <= 1e-10, "value", Fmt("objective is off by %.3g (relative, %s): ", e, when.c_str()) + Describe(p) +
                                          Str(got) + " expected " + Str(b));
}

SolverConfiguration Config(Rng* r, const Problem& p) {
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  if (!p.eqs.empty()) {
    cfg.kkt_solver = 1;
    cfg.iterative_refinement_iterations = 5;
  }
  double k[] = {100, 300, 1000};
  cfg.inv_sqrt_mu_max = k[r->range(0, 2)];
  return cfg;
}

void One(Ctx& c, const GenOptions& o, int* solved, int* total) {
  Rng* r = &c.rng;
  Problem p = RandomProblem(r, o);
  Program prog(p.m);
  if (!c.Check(BuildInto(&prog, p), "build", "a valid constraint was refused: " + Describe(p))) return;
  int history = r->range(0, 3);
  VectorXd y = VectorXd::Zero(p.m);
  SolverConfiguration cfg = Config(r, p);
  VectorXd cost = r->vector(p.m);
  if (history >= 1) {
    SolverConfiguration c1 = cfg;
    c1.max_iterations = r->range(1, 60);
    c1.prepare_dual_variables = r->range(0, 1);
    Solve(MatrixXd(history == 3 ? VectorXd(-p.cost) : cost), prog, c1, y.data());
    if (history >= 2) {
      c1.initialization_mode = 1;
      c1.max_iterations = r->range(1, 60);
      Solve(MatrixXd(-p.cost), prog, c1, y.data());
    }
    c.Count("earlier_solves");
  }
  VectorXd before = prog.linear_cost_;
  MatrixXd b = GetFeasibleObjective(&prog);
  if (!Same(c, b, p, Fmt("history %d", history))) return;
  if (r->chance(.5) && !Same(c, GetFeasibleObjective(&prog), p, "second call")) return;
  c.Check(prog.linear_cost_ == before, "cost", "the costs of the program have changed: " + Describe(p));
  // Bounded: the solver finds the point of the central path.
  Problem q = p;
  q.cost = -b;
  SolverConfiguration c2 = cfg;
  bool warm = r->chance(.3);
  if (warm) c2.initialization_mode = 1;
  y.setZero();
  Result res;
  res.y = VectorXd::Constant(p.m, NAN);
  res.ok = Solve(b, prog, c2, res.y.data());
  res.status = prog.Status();
  res.mu = ReportedMu(prog);
  res.iters = res.status.num_iterations;
  c.Count("solves");
  c.Check(!res.status.primal_infeasible && !res.status.dual_infeasible, "flags",
          Fmt("feasible objective, but reported as infeasible (%d) or unbounded (%d): ", res.status.primal_infeasible, res.status.dual_infeasible) + Describe(p));
  ++*total;
  c.Distinct(Signature(p) + Fmt("h%d", history));
  if (c.index < 2) c.Sample(Describe(p) + " b=" + Str(b) + Fmt(" -> solved=%d", res.ok));
  if (!res.ok) {
    c.Count("unsolved");
    return;
  }
  ++*solved;
  Tolerances t;
  JudgeSolved(c, q, res, c2, t, "solved");
}

void Family(Ctx& c, const GenOptions& o) {
  int solved = 0, total = 0;
  for (int i = 0; i < 12; i++) One(c, o, &solved, &total);
  c.Check(solved >= total - 3, "unsolved:" + c.scenario, Fmt("only %d of %d problems with a feasible objective were solved", solved, total));
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  s.push_back({"mixed", 600, 4000, [](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.max_cones = 4;
                 Family(c, o);
               }});
  s.push_back({"equality", 300, 2000, [](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.equality = true;
                 Family(c, o);
               }});
  s.push_back({"epigraph", 150, 800, [](Ctx& c) {
                 GenOptions o;
                 o.herm = o.quad = false;
                 o.epi = true;
                 Family(c, o);
               }});
  s.push_back({"structured", 300, 2000, [](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.structured = true;
                 Family(c, o);
               }});
  return Main(argc, argv, s);
}
