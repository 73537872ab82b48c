// P01: what Solve reports as solved is strictly feasible and on the central path.
#include "solve.h"
using namespace verif;

namespace {

void Judge(Ctx& c, const Problem& p, const SolverConfiguration& cfg,
           const Tolerances& t, int* solved) {
  Result r = SolveProblem(p, cfg);
  if (!c.Check(r.built, "build", "a valid constraint was refused: " + Describe(p))) return;
  c.Count("solves");
  if (c.index < 2) c.Sample(Describe(p) + Fmt(" -> solved=%d iterations=%d mu=%.3g", r.ok, r.iters, r.mu));
  c.Check(r.ok == (r.status.solved != 0), "status", "Solve's return value disagrees with Status().solved: " + Describe(p));
  if (!r.ok) {
    c.Count("unsolved");
    return;
  }
  ++*solved;
  JudgeSolved(c, p, r, cfg, t, "solved");
}

SolverConfiguration BaseConfig() {
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  return cfg;
}

// n strictly feasible problems per case; nearly all must be solved.
void Family(Ctx& c, const GenOptions& o, const Tolerances& t, int n,
            std::function<SolverConfiguration(Rng*)> config) {
  int solved = 0;
  for (int i = 0; i < n; i++) {
    Problem p = RandomProblem(&c.rng, o);
    Judge(c, p, config(&c.rng), t, &solved);
  }
  c.Check(solved >= n - std::max(2, n / 6), "unsolved:" + c.scenario,
          Fmt("only %d of %d strictly feasible problems were solved", solved, n));
}

auto kDefault = [](Rng*) { return BaseConfig(); };

GenOptions Only(std::vector<ConeType> types, int max_m) {
  GenOptions o;
  o.lin = o.soc = o.quad = o.lmi = o.herm = false;
  o.max_m = max_m;
  for (auto t : types) {
    if (t == LIN) o.lin = true;
    if (t == SOC) o.soc = true;
    if (t == QUAD) o.quad = true;
    if (t == LMI) o.lmi = true;
    if (t == HERM) o.herm = true;
  }
  o.oct = false;
  return o;
}

// One big cone of the given type.
void Big(Ctx& c, ConeType type, int d, int lo, int hi, int max_m) {
  Rng* r = &c.rng;
  Problem p;
  for (;;) {
    p = Problem();
    p.m = r->range(1, max_m);
    p.y_feas = r->vector(p.m);
    VectorXd atx = VectorXd::Zero(p.m);
    std::vector<int> vars = r->subset(p.m, p.m);
    p.cones.push_back(RandomCone(r, type, vars, p.y_feas, &atx, 1, 1, d, r->range(lo, hi)));
    if (r->chance(.5)) p.cones.push_back(RandomCone(r, LIN, r->subset(p.m, p.m), p.y_feas, &atx, 1, 1, 1));
    p.cost = -atx;
    double f;
    VectorXd g;
    MatrixXd h;
    if (!p.Barrier(p.y_feas, &f, &g, &h)) continue;
    Eigen::SelfAdjointEigenSolver<MatrixXd> e(h, Eigen::EigenvaluesOnly);
    if (e.eigenvalues()(0) > 1e-4 * e.eigenvalues()(p.m - 1)) break;
  }
  int solved = 0;
  Tolerances t;
  Judge(c, p, BaseConfig(), t, &solved);
  c.Count("big_solved", solved);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  Tolerances t;
  Tolerances oct = t;
  oct.gap = 2;
  oct.distance = 5;
  oct.mineig = 1e-5;
  s.push_back({"linear", 300, 1200, [=](Ctx& c) { Family(c, Only({LIN}, 10), t, 12, kDefault); }});
  s.push_back({"lorentz", 300, 1200, [=](Ctx& c) { Family(c, Only({SOC}, 8), t, 12, kDefault); }});
  s.push_back({"quadratic_cone", 300, 1200, [=](Ctx& c) { Family(c, Only({QUAD}, 8), t, 12, kDefault); }});
  s.push_back({"lmi", 300, 1200, [=](Ctx& c) { Family(c, Only({LMI}, 8), t, 12, kDefault); }});
  s.push_back({"hermitian", 400, 1600, [=](Ctx& c) { Family(c, Only({HERM}, 8), t, 12, kDefault); }});
  s.push_back({"epigraph", 200, 800, [=](Ctx& c) {
                 GenOptions o = Only({LIN, SOC, LMI}, 8);
                 o.epi = true;
                 Family(c, o, t, 12, kDefault);
               }});
  s.push_back({"mixed", 800, 4000, [=](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.max_cones = 4;
                 Family(c, o, t, 12, kDefault);
               }});
  s.push_back({"many", 60, 400, [=](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.max_m = 20;
                 o.max_cones = 14;
                 Family(c, o, t, 12, kDefault);
               }});
  // Diagonal and block-diagonal matrices, sparse and integer data.
  s.push_back({"structured", 500, 2500, [=](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 o.structured = true;
                 if (c.rng.chance(.5)) o.lin = o.soc = o.quad = false;
                 Family(c, o, t, 12, kDefault);
               }});
  s.push_back({"octonion", 150, 600, [=](Ctx& c) {
                 GenOptions o;
                 o.lin = o.soc = o.quad = o.lmi = false;
                 int solved = 0, n = 0;
                 for (int i = 0; i < 12; i++) {
                   Problem p = RandomProblem(&c.rng, o);
                   Judge(c, p, BaseConfig(), oct, &solved);
                   n++;
                 }
                 c.Check(solved >= n - 3, "unsolved:octonion", Fmt("only %d of %d were solved", solved, n));
               }});
  // Options that must not change what a solution is.
  s.push_back({"options", 500, 2500, [=](Ctx& c) {
                 GenOptions o;
                 o.oct = false;
                 Family(c, o, t, 12, [](Rng* r) {
                   SolverConfiguration cfg = BaseConfig();
                   double k[] = {30, 100, 300, 1000, 2000};
                   cfg.inv_sqrt_mu_max = k[r->range(0, 4)];
                   cfg.kkt_solver = r->range(0, 1);
                   cfg.iterative_refinement_iterations = r->chance(.3) ? r->range(1, 3) : 0;
                   cfg.final_centering_steps = r->range(5, 10);
                   if (r->chance(.3)) cfg.initial_centering_steps_coldstart = r->range(1, 5);
                   cfg.divergence_upper_bound = r->chance(.5) ? 1 : r->uniform(.3, 2);
                   cfg.prepare_dual_variables = r->range(0, 1);
                   return cfg;
                 });
               }});
  s.push_back({"line_search", 300, 1200, [=](Ctx& c) {
                 GenOptions o = Only({LIN}, 10);
                 Family(c, o, t, 12, [](Rng* r) {
                   SolverConfiguration cfg = BaseConfig();
                   cfg.enable_line_search = 1;
                   cfg.enable_rescaling = r->range(0, 1);
                   return cfg;
                 });
               }});
  s.push_back({"big_linear", 80, 200, [=](Ctx& c) { Big(c, LIN, 1, 60, 200, 40); }});
  s.push_back({"big_lorentz", 80, 200, [=](Ctx& c) { Big(c, SOC, 1, 20, 80, 20); }});
  s.push_back({"big_quadratic", 80, 200, [=](Ctx& c) { Big(c, QUAD, 1, 20, 60, 20); }});
  s.push_back({"big_lmi", 80, 200, [=](Ctx& c) { Big(c, LMI, 1, 8, 24, 12); }});
  s.push_back({"big_hermitian", 120, 300, [=](Ctx& c) {
                 int d = 1 << c.rng.range(0, 2);
                 Big(c, HERM, d, 6, d == 4 ? 10 : 16, 10);
               }});
  return Main(argc, argv, s);
}
