// P11: cold starts forget the past, warm starts continue from the last iterate.
#include "capi.h"

using namespace verif;
using conex::Program;
using conex::SolverConfiguration;

namespace {

GenOptions Options(Rng* r, bool quadratic) {
  GenOptions o;
  o.max_m = 6;
  o.max_cones = 3;
  o.structured = r->chance(.5);
  if (quadratic) o.soc = o.quad = o.lmi = o.herm = false;
  o.quadratic_cost = quadratic;
  o.equality = r->chance(.2);
  return o;
}

// --- cold starts -----------------------------------------------------------

// Changes one entry of the data through the C interface and in the record.
void Change(Ctx& c, Session& s) {
  Rng& r = c.rng;
  Entry& e = s.entered[r.range(0, s.entered.size() - 1)];
  if (!e.Updatable()) return;
  int status = -1, m = s.m;
  double v = r.chance(.2) ? 0 : r.normal();
  if (e.style == NEW_QUAD) {
    // Stays positive definite: only the diagonal grows.
    int i = r.range(0, m - 1);
    v = e.Q(i, i) + r.uniform();
    e.Q(i, i) = v;
    status = CONEX_UpdateQuadraticCostMatrix(s.p, e.id, v, i, i);
  } else if (e.style == NEW_LMI) {
    int n = e.Order(), i = r.range(0, n - 1), j = r.range(0, n - 1), k = i == j ? 0 : r.range(0, e.d - 1);
    bool affine = r.chance(.5);
    int var = r.range(0, m - 1);
    HMat& h = affine ? e.HC : e.H[var];
    if (affine && i == j) v = std::fabs(v) + h[0](i, i);
    h[k](i, j) = v;
    h[k](j, i) = k ? -v : v;
    if (k && i == j) h[k](i, j) = 0;
    status = affine ? CONEX_UpdateAffineTerm(s.p, e.id, v, i, j, k) : CONEX_UpdateLinearOperator(s.p, e.id, v, var, i, j, k);
  } else {
    int i = r.range(0, e.A.rows() - 1), j = r.range(-1, m - 1);
    if (j < 0) {
      e.c(i) = v;
      status = CONEX_UpdateAffineTerm(s.p, e.id, v, i, 0, 0);
    } else {
      e.A(i, j) = v;
      status = CONEX_UpdateLinearOperator(s.p, e.id, v, j, i, 0, 0);
    }
  }
  c.Count("events:change");
  c.Check(status == CONEX_SUCCESS, "refused", std::string("a change of the data is refused after a solve: ") + StyleName(e.style));
}

void Cold(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.25);
  GenOptions o = Options(&r, quadratic);
  o.quad = false;
  Problem p = RandomProblem(&r, o);
  auto plan = PlanEntries(&r, p);
  Session s(c, p.m);
  s.plan = plan;
  size_t next = r.range(1, plan.size());
  for (size_t k = 0; k < next; k++) s.Make(k);
  s.RunUpdates(1u << 30);
  VectorXd b = -p.cost;
  int events = r.range(3, 12);
  std::string history = Describe(s.entered);
  for (int k = 0; k < events; k++) {
    double u = r.uniform();
    if (u < .25 && next < plan.size()) {
      s.Make(next++);
      s.RunUpdates(1u << 30);
      c.Count("events:add");
      history += std::string(" +") + StyleName(s.entered.back().style);
    } else if (u < .5) {
      for (int t = r.range(1, 5); t > 0; t--) Change(c, s);
      history += " change";
    } else if (u < .75) {
      // Any solve at all.
      auto cfg = RandomConfig(&r, quadratic);
      cfg.initialization_mode = r.chance(.5);
      VectorXd cost = r.chance(.3) ? VectorXd(r.vector(p.m)) : b;
      SolveC(s.p, s.entered, cfg, r.chance(.8) ? &cost : nullptr, p.m, r.u64());
      c.Count(cfg.initialization_mode ? "events:warm_solve" : "events:cold_solve");
      history += cfg.initialization_mode ? " warm" : " cold";
    } else {
      auto cfg = RandomConfig(&r, quadratic);
      cfg.initialization_mode = 0;
      bool refused = quadratic && (!cfg.enable_line_search || cfg.enable_rescaling);
      if (r.chance(.5)) b = r.vector(p.m);
      unsigned seed = r.u64();
      Outcome x = SolveC(s.p, s.entered, cfg, &b, p.m, seed);
      Program prog(p.m);
      BuildEntries(&prog, s.entered);
      Outcome y = SolveCpp(&prog, s.entered, cfg, &b, p.m, seed);
      // A run that ends before the first iteration leaves the statistics of an
      // earlier one.
      if (refused || y.iterations == 0) x.mu = y.mu, x.duals = y.duals;
      bool identical;
      std::string d = Differ(x, y, 1e-7, &identical);
      history += " COLD";
      c.Check(d.empty(), "cold", "a cold start differs from a new program in " + d + ": " + history);
      c.Count(identical ? "cold_starts:bit_identical" : "cold_starts:within_tolerance");
      c.Count(y.solved ? "cold_starts:solved" : "cold_starts:not_solved");
    }
  }
  c.Distinct(history);
  c.Sample(history);
}

// --- warm starts -----------------------------------------------------------

std::vector<double> Trajectory(Program& p) {
  std::vector<double> k;
  for (int i = 0; i < p.stats->num_iter; i++) k.push_back(p.stats->sqrt_inv_mu[i]);
  return k;
}
// True if the parameter was halved because the selection rule had no answer:
// the only place where an iteration depends on the previous parameter.
bool Halved(const std::vector<double>& k) {
  for (size_t i = 1; i < k.size(); i++)
    if (std::fabs(k[i] - .5 * k[i - 1]) <= 1e-12 * k[i]) return true;
  return false;
}
bool CloseTo(double a, double b) { return std::fabs(a - b) <= 1e-7 * std::fabs(b); }

// True if the run ended because it was centered, rather than because it ran
// out of centering steps.
bool Centered(Program& p, const SolverConfiguration& cfg) {
  auto k = Trajectory(p);
  int n = 0;
  while (n < (int)k.size() && k[k.size() - 1 - n] == k.back()) n++;
  return n < cfg.final_centering_steps;
}

// A run cut into pieces is the run.
void Pieces(Ctx& c) {
  Rng& r = c.rng;
  GenOptions o = Options(&r, false);
  Problem p = RandomProblem(&r, o);
  SolverConfiguration cfg;
  cfg.final_centering_steps = 0;
  cfg.inv_sqrt_mu_max = std::pow(10, r.uniform(1, 3.5));
  cfg.maximum_mu = std::pow(10, r.uniform(0, 5));
  cfg.divergence_upper_bound = std::pow(10, r.uniform(-.5, 1));
  cfg.enable_rescaling = r.chance(.5);
  cfg.kkt_solver = r.range(0, 1);
  cfg.warmstart_abort_threshold = 1e300;
  int n = r.range(3, 30);
  cfg.max_iterations = n;
  unsigned seed = r.u64();
  Program whole(p.m);
  if (!BuildInto(&whole, p)) return;
  srand(seed);
  Result w = SolveProgram(&whole, cfg, p.m);
  if (w.iters < 1 || !w.y.allFinite()) return c.Count("skipped:failed");
  auto k = Trajectory(whole);
  if (Halved(k)) return c.Count("skipped:halved");
  bool hermitian = false;
  for (auto& x : p.cones) hermitian |= x.type == HERM;

  bool memory = !hermitian && r.chance(.5);
  VectorXd data;
  auto make = [&] {
    auto q = memory ? std::make_unique<Program>(p.m, &data) : std::make_unique<Program>(p.m);
    BuildInto(q.get(), p);
    return q;
  };
  auto prog = make();
  std::vector<double> got;
  Result last;
  int pieces = 0;
  srand(seed);
  int length = r.range(1, 6);
  for (int done = 0; done < w.iters; pieces++) {
    SolverConfiguration piece = cfg;
    piece.initialization_mode = pieces > 0;
    piece.max_iterations = std::min(!memory ? r.range(1, 6) : pieces ? r.range(1, length) : length, w.iters - done);
    // A program that needs more memory for its statistics starts anew.
    if (memory && pieces == 0) length = piece.max_iterations;
    if (memory && pieces > 0) prog = make();
    last = SolveProgram(prog.get(), piece, p.m);
    auto t = Trajectory(*prog);
    if (t.empty()) break;
    got.insert(got.end(), t.begin(), t.end());
    done += t.size();
  }
  if (got.empty()) return c.Count("skipped:failed");
  std::string what = Fmt("%d iterations in %d pieces%s: ", w.iters, pieces, memory ? " (new programs on the same memory)" : "") + Describe(p);
  bool same = got.size() <= k.size();
  size_t i = 0;
  // Hermitian constraints estimate eigenvalues from random vectors.
  for (; same && i < got.size(); i++) same = CloseTo(got[i], k[i]);
  c.Check(same, memory ? "pieces:memory" : "pieces", Fmt("iteration %d has parameter %.17g instead of %.17g: ", (int)i, i ? got[i - 1] : 0, i && i <= k.size() ? k[i - 1] : 0) + what);
  if (same && got.size() == k.size()) {
    // Solutions are scaled by the same parameters unless infeasible.
    double e = (last.y - w.y).cwiseAbs().maxCoeff() / (1e-300 + w.y.cwiseAbs().maxCoeff());
    c.Check(e <= 1e-6, "pieces:solution", Fmt("the last iterate differs by %.3g: ", e) + what);
    c.Count("complete_runs");
  }
  c.Count(memory ? "runs_in_pieces:memory" : "runs_in_pieces");
  c.Count("iterations_compared", got.size());
  c.Distinct(what);
  c.Sample(what);
}

// An aborted warm start is a cold start one iteration later.
void Abort(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.2);
  Problem p = RandomProblem(&r, Options(&r, quadratic));
  SolverConfiguration cfg;
  cfg.enable_rescaling = 0;
  cfg.enable_line_search = quadratic;
  cfg.final_centering_steps = r.range(1, 4);
  cfg.final_centering_tolerance = 0;
  cfg.inv_sqrt_mu_max = std::pow(10, r.uniform(1, 3));
  cfg.maximum_mu = std::pow(10, r.uniform(0, 5));
  cfg.divergence_upper_bound = std::pow(10, r.uniform(-.5, 1));
  cfg.kkt_solver = r.range(0, 1);
  cfg.prepare_dual_variables = r.chance(.3);
  cfg.max_iterations = r.range(8, 40);
  cfg.warmstart_abort_threshold = 0;
  bool hermitian = false;
  for (auto& x : p.cones) hermitian |= x.type == HERM;
  if (hermitian) {
    // Their random numbers are one iteration apart, so that only solutions can
    // be compared.
    if (!p.eqs.empty()) return c.Count("skipped:equality");
    cfg.final_centering_steps = 30;
    cfg.final_centering_tolerance = .01;
    cfg.max_iterations = 100;
  }
  unsigned seed = r.u64();
  Program prog(p.m), fresh(p.m);
  if (!BuildInto(&prog, p) || !BuildInto(&fresh, p)) return;
  VectorXd other = r.chance(.5) ? VectorXd(-p.cost) : VectorXd(r.vector(p.m)), y(p.m), z(p.m);
  conex::Solve(MatrixXd(other), prog, cfg, y.data());
  SolverConfiguration warm = cfg;
  warm.initialization_mode = 1;
  warm.max_iterations = cfg.max_iterations + 1;
  y.setConstant(7);
  z.setConstant(7);
  srand(seed);
  if (hermitian) {
    prog.ClearLinearCosts();
    prog.AddLinearCost(p.cost);
    Result w = SolveProgram(&prog, warm, p.m);
    c.Count("aborts:hermitian");
    Tolerances t;
    if (w.ok && Centered(prog, warm)) JudgeSolved(c, p, w, warm, t, "abort");
    return;
  }
  bool a = conex::Solve(MatrixXd(-p.cost), prog, warm, y.data());
  srand(seed);
  bool b = conex::Solve(MatrixXd(-p.cost), fresh, cfg, z.data());
  auto ka = Trajectory(prog), kb = Trajectory(fresh);
  if (kb.empty() || !z.allFinite()) return c.Count("skipped");
  c.Count(quadratic ? "aborts:line_search" : "aborts");
  std::string what = Fmt("%d iterations instead of %d+1, ", (int)ka.size(), (int)kb.size()) + Describe(p);
  bool same = ka.size() == kb.size() + 1 && a == b;
  for (size_t i = 0; same && i < kb.size(); i++) same = CloseTo(ka[i + 1], kb[i]);
  c.Check(same, "abort", "an aborted warm start does not proceed as a cold start: " + what);
  double e = (y - z).cwiseAbs().maxCoeff() / (1e-300 + z.cwiseAbs().maxCoeff());
  c.Check(!(e > 1e-6), "abort:solution", Fmt("the solution after an aborted warm start differs by %.3g: ", e) + what);
  c.Distinct(what);
}

// A warm start after a change ends at the solution of the changed problem.
void Resume(Ctx& c) {
  Rng& r = c.rng;
  GenOptions o = Options(&r, r.chance(.2));
  o.equality = false;
  o.wide_scale = false;
  Problem p = RandomProblem(&r, o);
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  cfg.inv_sqrt_mu_max = std::pow(10, r.uniform(1, 3));
  cfg.final_centering_steps = 30;
  cfg.final_centering_tolerance = .01;
  cfg.kkt_solver = r.range(0, 1);
  if (o.quadratic_cost) {
    cfg.enable_line_search = 1;
    cfg.enable_rescaling = 0;
  }
  Program prog(p.m);
  if (!BuildInto(&prog, p)) return;
  Result first = SolveProgram(&prog, cfg, p.m);
  if (!first.ok) return c.Count("skipped:first_not_solved");
  for (int k = 0; k < 3; k++) {
    SolverConfiguration warm = cfg;
    warm.initialization_mode = 1;
    warm.inv_sqrt_mu_max = cfg.inv_sqrt_mu_max * (r.chance(.3) ? r.uniform(.3, 3) : 1);
    warm.initial_centering_steps_warmstart = r.chance(.3) ? r.range(0, 3) : 0;
    warm.warmstart_abort_threshold = r.chance(.5) ? 2 : r.uniform(.5, 2);
    std::string change = "nothing";
    bool small = true;
    if (r.chance(.7)) {
      // A cost whose dual is still strictly feasible: towards the image of the
      // barrier gradient.
      double f;
      VectorXd g;
      MatrixXd h;
      if (!p.Barrier(p.y_feas, &f, &g, &h)) return;
      double t = std::pow(10, r.uniform(-5, -.1));
      small = t < 1e-3 && !o.quadratic_cost;
      double scale = p.cost.norm() / (1e-12 + g.norm());
      prog.ClearLinearCosts();
      p.cost = (1 - t) * p.cost - t * scale * g;
      prog.AddLinearCost(p.cost);
      change = Fmt("cost by %.1g", t);
    }
    Result w = SolveProgram(&prog, warm, p.m);
    std::string what = "warm start after changing " + change + ": ";
    c.Count("warm_starts");
    c.Count(change == "nothing" ? "warm_starts:same" : "warm_starts:changed_cost");
    // The iterations at the final parameter need not get to the solution of
    // a different problem, which is then reported as not solved.
    if (!w.ok && !small) return c.Count("warm_starts:not_solved");
    if (!c.Check(w.ok, "resume:solved", what + Fmt("not solved (%d iterations, mu %.3g): ", w.iters, w.mu) + Describe(p))) return;
    if (!p.QTotal().isZero() && change != "nothing") c.Count("warm_starts:quadratic");
    Tolerances t;
    if (!Centered(prog, warm)) return c.Count("warm_starts:not_centered");
    JudgeSolved(c, p, w, warm, t, "resume");
    c.Max("iterations", w.iters);
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"cold", 3000, 25000, Cold},
                           {"pieces", 3000, 25000, Pieces},
                           {"abort", 2400, 20000, Abort},
                           {"resume", 1200, 10000, Resume}});
}
