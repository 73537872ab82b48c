// P16: equality constraints.
#include "solve.h"
using namespace verif;

namespace {

// Splits the rows of well conditioned equations over blocks of variables.
Problem Generate(Rng* r, bool all_cones, std::string* form) {
  for (;;) {
    GenOptions o;
    o.oct = false;
    o.max_m = 8;
    if (!all_cones) o.soc = o.quad = o.lmi = o.herm = false;
    Problem p = RandomProblem(r, o);
    if (p.m < 2) continue;
    int rows = r->range(1, p.m - 1);
    MatrixXd E = r->matrix(rows, p.m);
    int kind = r->range(0, 4);
    if (kind == 1 || kind == 4) {  // sparse rows
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < p.m; j++)
          if (r->chance(.6)) E(i, j) = 0;
    } else if (kind == 2) {  // fixed variables
      E.setZero();
      auto v = r->subset(p.m, rows);
      for (int i = 0; i < rows; i++) E(i, v[i]) = r->chance(.5) ? 1 : -2;
    } else if (kind == 3) {  // equal variables
      E.setZero();
      for (int i = 0; i < rows; i++) {
        E(i, i) = 1;
        E(i, i + 1) = -1;
      }
    }
    Eigen::JacobiSVD<MatrixXd> svd(E);
    if (svd.singularValues()(rows - 1) < .3 || svd.singularValues()(0) > 20) continue;
    VectorXd f = E * p.y_feas, l = E.transpose() * r->vector(rows);
    p.cost += l;
    int split = r->range(0, 2);
    *form = Fmt("kind%d split%d", kind, split);
    auto add = [&](int first, int count, bool only_nonzero, bool all) {
      Equality e;
      for (int j = 0; j < p.m; j++)
        if (!only_nonzero || E.block(first, j, count, 1).norm() > 0) e.vars.push_back(j);
      if (!all && r->chance(.5)) r->shuffle(&e.vars);
      e.E.resize(count, e.vars.size());
      for (size_t j = 0; j < e.vars.size(); j++) e.E.col(j) = E.block(first, e.vars[j], count, 1);
      e.f = f.segment(first, count);
      e.all_vars = all;
      p.eqs.push_back(e);
    };
    if (split == 0) add(0, rows, false, r->chance(.5));
    else if (split == 1) add(0, rows, true, false);
    else
      for (int i = 0; i < rows; i++) add(i, 1, r->chance(.8), false);
    return p;
  }
}

bool Good(Ctx& c, const Problem& p, const Result& r, bool refined, std::string* why) {
  double eq = p.EqResidual(r.y);
  if (eq > (refined ? 1e-9 : 1e-4)) return *why = Fmt("equality off by %.3g: ", eq) + Describe(p), false;
  RefResult ref = CentralPath(p, r.mu);
  if (!ref.ok) {
    c.Count("reference_inconclusive");
    return true;
  }
  double gap = (p.Objective(r.y) - p.Objective(ref.y)) / (r.mu * p.Rank());
  VectorXd dy = r.y - ref.y;
  double loc = std::sqrt(std::fabs(dy.dot(ref.H * dy)));
  c.Count("solutions_judged");
  c.Distinct(Signature(p));
  *why = Fmt("gap %.3g, distance %.3g (mu %.3g, equality %.2g): ", gap, loc, r.mu, eq) + Describe(p);
  if (std::fabs(gap) <= (refined ? .01 : 10) && loc <= (refined ? .05 : 1)) {
    c.Max("good_equality_residual", eq);
    return true;
  }
  return false;
}

void Solves(Ctx& c, bool all_cones, int refine) {
  const int n = 10;
  int solved = 0, bad = 0;
  std::string why;
  for (int i = 0; i < n; i++) {
    std::string form;
    Problem p = Generate(&c.rng, all_cones, &form);
    SolverConfiguration cfg;
    cfg.max_iterations = 100;
    cfg.iterative_refinement_iterations = refine;
    if (c.rng.chance(.3)) {
      double k[] = {30, 100, 300, 1000};
      cfg.inv_sqrt_mu_max = k[c.rng.range(0, 3)];
      cfg.kkt_solver = c.rng.range(0, 1);
      if (!all_cones) cfg.enable_line_search = c.rng.range(0, 1);
    }
    Result r = SolveProblem(p, cfg);
    if (!c.Check(r.built, "build", Describe(p))) continue;
    c.Count("solves");
    if (!r.ok) {
      c.Count("unsolved");
      continue;
    }
    solved++;
    if (!c.Check(r.y.allFinite(), "finite", Describe(p))) continue;
    double me = p.MinEig(r.y);
    c.Check(me >= -1e-7, "infeasible", Fmt("slack %.3g: ", me) + Describe(p));
    std::string w;
    if (!Good(c, p, r, refine > 0, &w)) bad++, why = w;
    c.Count(form.c_str());
  }
  c.Check(solved >= n - 2, "unsolved:" + c.scenario, Fmt("only %d of %d", solved, n));
  c.Check(bad <= (refine ? 1 : 3), "wrong:" + c.scenario, Fmt("%d of %d solutions are wrong, e.g., ", bad, n) + why);
  c.Count("bad", bad);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  s.push_back({"linear", 1600, 4000, [](Ctx& c) { Solves(c, false, 0); }});
  s.push_back({"linear_refined", 1600, 4000, [](Ctx& c) { Solves(c, false, 5); }});
  s.push_back({"conic", 1600, 4000, [](Ctx& c) { Solves(c, true, 0); }});
  s.push_back({"conic_refined", 1600, 4000, [](Ctx& c) { Solves(c, true, 5); }});
  return Main(argc, argv, s);
}
