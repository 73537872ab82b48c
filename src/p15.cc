// P15: quadratic costs and epigraphs.
#include "solve.h"

#include <iostream>
#include <sstream>
using namespace verif;

namespace {

struct Quiet {
  std::ostringstream os;
  std::streambuf* old;
  Quiet() { old = std::cerr.rdbuf(os.rdbuf()); }
  ~Quiet() { std::cerr.rdbuf(old); }
};

SolverConfiguration Config(Rng* r) {
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  cfg.enable_line_search = 1;
  cfg.enable_rescaling = 0;
  if (r->chance(.4)) {
    double k[] = {30, 100, 300, 1000, 3000};
    cfg.inv_sqrt_mu_max = k[r->range(0, 4)];
    cfg.dinf_upper_bound = r->uniform(.5, 1);
    cfg.kkt_solver = r->range(0, 1);
  }
  return cfg;
}

MatrixXd RandomQ(Rng* r, int k) {
  double kind = r->uniform();
  MatrixXd q;
  if (kind < .15) q = MatrixXd::Identity(k, k);
  else if (kind < .3) q = VectorXd(r->vector(k).cwiseAbs()).asDiagonal();
  else {
    MatrixXd b = r->matrix(k, r->chance(.3) && k > 1 ? k - 1 : k);
    q = b * b.transpose();
  }
  q *= std::pow(10, r->uniform(-1, 1));
  return .5 * (q + q.transpose()).eval();
}

// The inequalities alone need not determine every variable.
Problem RandomQp(Rng* r, bool equality, bool big = false) {
  for (;;) {
    Problem p;
    p.m = r->range(1, big ? 25 : 9);
    p.y_feas = std::pow(10, r->uniform(-.5, .5)) * r->vector(p.m);
    VectorXd atx = VectorXd::Zero(p.m);
    int nc = r->range(1, big ? 12 : 3);
    for (int i = 0; i < nc; i++) {
      auto vars = r->subset(p.m, r->range(1, p.m));
      p.cones.push_back(RandomCone(r, LIN, vars, p.y_feas, &atx, 1, std::pow(10, r->uniform(-.5, .5)), 1,
                                   r->range(1, 2 * vars.size() + 2), r->chance(.2)));
    }
    int nq = r->range(1, big ? 8 : 3);
    for (int i = 0; i < nq; i++) {
      Quad q;
      q.vars = r->subset(p.m, r->chance(.5) ? p.m : r->range(1, p.m));
      q.Q = RandomQ(r, q.vars.size());
      p.quads.push_back(q);
    }
    VectorXd cost = -atx - p.QTotal() * r->vector(p.m);
    if (equality && p.m >= 2) {
      Equality e;
      int k = r->range(2, p.m);
      e.vars = r->subset(p.m, k);
      e.E = r->matrix(r->range(1, std::min(2, k - 1)), k);
      VectorXd z(k);
      for (int j = 0; j < k; j++) z(j) = p.y_feas(e.vars[j]);
      e.f = e.E * z;
      VectorXd l = e.E.transpose() * r->vector(e.E.rows());
      for (int j = 0; j < k; j++) cost(e.vars[j]) += l(j);
      p.eqs.push_back(e);
      Eigen::JacobiSVD<MatrixXd> svd(e.E);
      if (svd.singularValues()(e.E.rows() - 1) < .3) continue;
    }
    p.cost = cost;
    double f;
    VectorXd g;
    MatrixXd h;
    if (!p.Barrier(p.y_feas, &f, &g, &h)) continue;
    MatrixXd s = h + p.QTotal();
    VectorXd dg = s.diagonal().cwiseSqrt();
    if (!(dg.minCoeff() > .05)) continue;
    MatrixXd hs = dg.cwiseInverse().asDiagonal() * s * dg.cwiseInverse().asDiagonal();
    Eigen::SelfAdjointEigenSolver<MatrixXd> e(hs, Eigen::EigenvaluesOnly);
    if (e.eigenvalues()(0) < 1e-3) continue;
    bool covered = true;  // each variable must be in some constraint
    std::vector<bool> in(p.m, false);
    for (auto& c : p.cones)
      for (int v : c.vars) in[v] = true;
    for (auto& q : p.quads)
      for (int v : q.vars) in[v] = true;
    for (bool b : in) covered = covered && b;
    if (covered) return p;
  }
}

// Objective and distance (in the metric of the whole barrier problem) from the
// central path; returns false if the point is bad.
bool Good(Ctx& c, const Problem& p, const Result& r, double gap_tol, double loc_tol, double eq_tol, std::string* why) {
  double eq = p.EqResidual(r.y);
  c.Max("equality_residual", eq);
  if (eq > eq_tol) return *why = Fmt("equality off by %.3g", eq), false;
  RefResult ref = CentralPath(p, r.mu);
  if (!ref.ok) {
    c.Count("reference_inconclusive");
    return true;
  }
  double gap = (p.Objective(r.y) - p.Objective(ref.y)) / (r.mu * p.Rank());
  VectorXd dy = r.y - ref.y;
  double loc = std::sqrt(std::fabs(dy.dot(ref.H * dy) + dy.dot(p.QTotal() * dy) / r.mu));
  c.Count("solutions_judged");
  c.Distinct(Signature(p));
  *why = Fmt("gap %.3g, distance %.3g (mu %.3g)", gap, loc, r.mu);
  if (p.eqs.empty()) {
    c.Max("gap", std::fabs(gap));
    c.Max("distance", loc);
  }
  return std::fabs(gap) <= gap_tol && loc <= loc_tol;
}

Result SolveLater(Ctx& c, const Problem& p, const SolverConfiguration& cfg) {
  Program prog(p.m);
  if (!BuildInto(&prog, p)) return Result();
  VectorXd y(p.m);
  for (int k = c.rng.range(1, 2); k > 0; k--)
    conex::Solve(c.rng.vector(p.m) * c.rng.uniform(.1, 3), prog, cfg, y.data());
  Result r;
  r.built = true;
  r.y = VectorXd::Constant(p.m, NAN);
  r.ok = conex::Solve(-p.cost, prog, cfg, r.y.data());
  r.status = prog.Status();
  if (prog.stats && prog.stats->num_iter >= 1) {
    r.mu = ReportedMu(prog);
    r.iters = r.status.num_iterations;
  }
  c.Count("solves_after_others");
  return r;
}

void Qp(Ctx& c, bool equality, bool big) {
  int solved = 0, bad = 0;
  const int n = 10;
  std::string why;
  for (int i = 0; i < n; i++) {
    Problem p = RandomQp(&c.rng, equality, big);
    SolverConfiguration cfg = Config(&c.rng);
    if (equality) cfg.iterative_refinement_iterations = 5;
    // Rounding limits the last digits of large problems.
    if (big) cfg.inv_sqrt_mu_max = std::min(cfg.inv_sqrt_mu_max, 300.);
    if (p.m > 4) cfg.inv_sqrt_mu_max = std::min(cfg.inv_sqrt_mu_max, 1000.);
    // Sometimes other linear costs come first on the same program.
    Result r = c.rng.chance(.3) ? SolveLater(c, p, cfg) : SolveProblem(p, cfg);
    if (!c.Check(r.built, "build", Describe(p))) continue;
    c.Count("solves");
    if (!r.ok) {
      c.Count("unsolved");
      continue;
    }
    solved++;
    if (!c.Check(r.y.allFinite(), "finite", Describe(p))) continue;
    double me = p.MinEig(r.y);
    c.Check(me >= -1e-9, "infeasible", Fmt("slack %.3g: ", me) + Describe(p));
    if (!ReachedLimit(r, cfg))
      c.Check(r.mu <= 1.001 / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max), "mu", Fmt("mu %.3g: ", r.mu) + Describe(p));
    if (!Good(c, p, r, .1, 2, 1e-4, &why)) {
      bad++;
      // Without equalities, there is no excuse.
      c.Check(equality, "suboptimal", why + ": " + Describe(p));
    }
  }
  c.Check(solved >= n - 2, "unsolved:" + c.scenario, Fmt("only %d of %d", solved, n));
  c.Check(bad <= 2, "suboptimal", Fmt("%d of %d solutions are wrong, e.g., ", bad, n) + why);
  c.Count("bad", bad);
}

// Ways of writing the same quadratic program give the same answer.
void Forms(Ctx& c) {
  Problem p = RandomQp(&c.rng, false);
  SolverConfiguration cfg = Config(&c.rng);
  Result r = SolveProblem(p, cfg);
  if (!r.ok) {
    c.Count("unsolved");
    return;
  }
  std::string w = Describe(p);
  auto near = [&](const VectorXd& y, const char* key) {
    RefResult ref = CentralPath(p, r.mu);
    if (!ref.ok) return;
    VectorXd dy = y - r.y;
    double loc = std::sqrt(std::fabs(dy.dot(ref.H * dy) + dy.dot(p.QTotal() * dy) / r.mu));
    c.Near(loc, 0, 3, key, w);
    c.Count("forms_compared");
  };
  {  // One cost over all variables.
    Problem q = p;
    Quad one;
    for (int i = 0; i < p.m; i++) one.vars.push_back(i);
    one.Q = p.QTotal();
    q.quads = {one};
    Program prog(p.m);
    bool failed = false;
    bool first = c.rng.chance(.5);
    if (first) c.Check(prog.AddQuadraticCost(one.Q) == CONEX_SUCCESS, "refused", w);
    for (auto& k : q.cones) AddConeTo(&prog, k, &failed);
    if (!first) c.Check(prog.AddQuadraticCost(one.Q) == CONEX_SUCCESS, "refused", w);
    // The linear cost may be given in parts.
    VectorXd half = c.rng.vector(p.m);
    c.Check(prog.AddLinearCost(half), "refused", w);
    c.Check(prog.AddLinearCost(p.cost - half), "refused", w);
    Result s = SolveProgram(&prog, cfg, p.m);
    if (c.Check(s.ok, "unsolved", "summed costs: " + w)) near(s.y, "summed-cost");
  }
  {  // Refusals leave the program as it was.
    Quiet quiet;
    Program prog(p.m);
    BuildInto(&prog, p);
    int before = prog.NumberOfConstraints();
    MatrixXd wrong = MatrixXd::Identity(p.m + 1, p.m + 1);
    auto fails = [&](auto f) {
      try {
        return static_cast<bool>(f());
      } catch (...) {
        return true;
      }
    };
    c.Check(fails([&] { return prog.AddQuadraticCost(wrong); }), "accepted", "wrong order: " + w);
    c.Check(fails([&] { return prog.AddQuadraticCost(MatrixXd(MatrixXd::Identity(p.m, p.m)), {0}) && p.m > 1; }) || p.m == 1,
            "accepted", "wrong number of variables: " + w);
    if (p.m == 1) {
      // That was a valid cost.
    } else {
      c.Check(fails([&] { return prog.AddQuadraticCost(MatrixXd(MatrixXd::Identity(2, 2)), std::vector<int>{0, 0}); }), "accepted",
              "repeated variable: " + w);
      c.Check(fails([&] { return !prog.AddLinearCost(VectorXd::Ones(p.m + 1)); }), "accepted", "cost of wrong length: " + w);
      c.Check(prog.NumberOfConstraints() == before, "refusal-changed-program", w);
      // Configurations that do not support quadratic costs are refused.
      SolverConfiguration bad = cfg;
      if (c.rng.chance(.5)) bad.enable_line_search = 0;
      else bad.enable_rescaling = 1;
      VectorXd y = VectorXd::Zero(p.m);
      c.Check(!conex::Solve(prog, bad, y.data()) && !prog.Status().solved, "unsupported-configuration-solved", w);
      Result s = SolveProgram(&prog, cfg, p.m);
      if (c.Check(s.ok, "unsolved", "after refusals: " + w)) near(s.y, "after-refusals");
    }
  }
}

// min c'x + 1/2 x'Qx  equals  min c'x + t over the epigraph  t >= 1/2 x'Qx.
void Epigraph(Ctx& c) {
  Problem p = RandomQp(&c.rng, false);
  if (c.rng.chance(.5)) {  // all in one
    Quad one;
    for (int i = 0; i < p.m; i++) one.vars.push_back(i);
    one.Q = p.QTotal();
    p.quads = {one};
  }
  for (auto& k : p.quads) {
    std::vector<int> o = c.rng.subset(k.vars.size(), k.vars.size());
    Quad s = k;
    for (size_t i = 0; i < o.size(); i++) {
      s.vars[i] = k.vars[o[i]];
      for (size_t j = 0; j < o.size(); j++) s.Q(i, j) = k.Q(o[i], o[j]) + (i == j ? .05 : 0);
    }
    k = s;
  }
  const int terms = p.quads.size(), n = p.m + terms;
  // Positions of the original variables and of the epigraph variables.
  std::vector<int> at = c.rng.chance(.5) ? c.rng.subset(n, n) : std::vector<int>();
  if (at.empty())
    for (int i = 0; i < n; i++) at.push_back(i);
  auto moved = [&](std::vector<int> v) {
    for (auto& i : v) i = at[i];
    return v;
  };
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  Program prog(n);
  bool failed = false;
  for (auto& k : p.cones) {
    Cone e = k;
    e.all_vars = false;
    e.vars = moved(e.vars);
    AddConeTo(&prog, e, &failed);
  }
  VectorXd cost = VectorXd::Zero(n);
  for (int i = 0; i < p.m; i++) cost(at[i]) = p.cost(i);
  for (int k = 0; k < terms; k++) {
    std::vector<int> v = moved(p.quads[k].vars);
    int t = at[p.m + k];
    cost(t) = 1;
    if (c.rng.chance(.5)) {
      v.push_back(t);
      if (prog.AddConstraint(conex::QuadraticEpigraph(p.quads[k].Q), v)) failed = true;
    } else {
      conex::AddQuadraticCostEpigraph(&prog, p.quads[k].Q, v, t);
    }
  }
  if (!c.Check(!failed, "build", Describe(p))) return;
  prog.AddLinearCost(cost);
  Result r = SolveProgram(&prog, cfg, n);
  if (!c.Check(r.ok, "unsolved", "epigraph: " + Describe(p))) return;
  VectorXd x(p.m);
  for (int i = 0; i < p.m; i++) x(i) = r.y(at[i]);
  double sum = 0;
  for (int k = 0; k < terms; k++) {
    VectorXd z(p.quads[k].vars.size());
    for (size_t i = 0; i < p.quads[k].vars.size(); i++) z(i) = x(p.quads[k].vars[i]);
    double t = r.y(at[p.m + k]), q = .5 * z.dot(p.quads[k].Q * z);
    sum += std::fabs(t);
    c.Check(t >= q - 1e-9 * (1 + std::fabs(q)), "epigraph-infeasible", Fmt("t %.9g < %.9g: ", t, q) + Describe(p));
  }
  c.Check(p.MinEig(x) >= -1e-9, "infeasible", Describe(p));
  // Optimal value of the quadratic program, from the reference at small mu.
  RefResult ref = CentralPath(p, 1e-9);
  if (!ref.ok) {
    c.Count("reference_inconclusive");
    return;
  }
  double opt = p.Objective(ref.y), got = cost.dot(r.y);
  // On the central path the excess is mu times the rank.
  double excess = got - opt, unit = r.mu * (p.Rank() + 2 * terms);
  double rounding = 1e-9 * (1 + std::fabs(opt) + std::fabs(p.cost.dot(x)) + sum) + 1e-9 * p.Rank();
  c.Check(excess >= -rounding && excess <= 1.2 * unit + rounding, "epigraph-value",
          Fmt("excess %.4g, mu*rank %.4g: ", excess, unit) + Describe(p));
  c.Max("epigraph_excess_over_mu_rank", excess / unit);
  c.Count("epigraphs_judged");
  c.Distinct("epi " + Signature(p));
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  s.push_back({"qp", 2400, 4000, [](Ctx& c) { Qp(c, false, false); }});
  s.push_back({"qp_many", 200, 800, [](Ctx& c) { Qp(c, false, true); }});
  s.push_back({"qp_equality", 2400, 4000, [](Ctx& c) { Qp(c, true, false); }});
  s.push_back({"forms", 6000, 10000, Forms});
  s.push_back({"epigraph", 9000, 15000, Epigraph});
  return Main(argc, argv, s);
}
