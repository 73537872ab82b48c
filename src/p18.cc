// P18: iteration limits are respected and the statistics describe the run.
#include "capi.h"

using namespace verif;
using conex::Program;
using conex::SolverConfiguration;

namespace {

struct Stats {
  std::vector<double> mu;
};

// Reads the statistics of a program in every way there is.
bool ReadStats(Ctx& c, Program* prog, int n, Stats* out, const std::string& what) {
  const double mark = -12345;
  CONEX_IterationStats s;
  for (int i = 0; i < n; i++) {
    s.mu = mark, s.iteration_number = -7;
    CONEX_GetIterationStats(prog, &s, i);
    if (!c.Check(s.iteration_number == i && s.mu != mark, "stats:missing",
                 Fmt("no statistics of iteration %d of %d (%d): ", i, n, s.iteration_number) + what))
      return false;
    out->mu.push_back(s.mu);
  }
  for (int k = 1; k <= n; k++) {
    s.mu = mark, s.iteration_number = -7;
    CONEX_GetIterationStats(prog, &s, -k);
    c.Check(s.iteration_number == n - k && s.mu == out->mu[n - k], "stats:circular",
            Fmt("iteration -%d of %d is reported as %d: ", k, n, s.iteration_number) + what);
  }
  Rng& r = c.rng;
  int bad[] = {n, -n - 1, n + r.range(1, 100), -n - r.range(2, 100), INT_MAX, INT_MIN, INT_MIN + n, 25, -26};
  for (int i : bad) {
    if (i >= -n && i < n) continue;
    s.mu = mark, s.iteration_number = -7;
    CONEX_GetIterationStats(prog, &s, i);
    c.Check(s.mu == mark && s.iteration_number == -7, "stats:out_of_range",
            Fmt("statistics of iteration %d of %d are reported (%d, %g): ", i, n, s.iteration_number, s.mu) + what);
  }
  c.Count("statistics_read", n);
  return true;
}

// The path of the barrier parameter obeys the configuration.
void JudgePath(Ctx& c, Program* prog, const SolverConfiguration& cfg, bool warm, const std::vector<double>& mu,
               const std::string& what) {
  if (mu.empty()) return;
  int n = mu.size();
  double target = 1 / (cfg.inv_sqrt_mu_max * cfg.inv_sqrt_mu_max);
  if (cfg.enable_rescaling) target *= prog->stats->b_scaling() * prog->stats->c_scaling();
  double most = cfg.maximum_mu + 1e-15;
  bool reachable = target <= most;
  for (int i = 0; i < n; i++) {
    c.Check(mu[i] <= most * (1 + 1e-9), "limit:maximum_mu", Fmt("iteration %d has mu %.17g above the limit %.17g: ", i, mu[i], most) + what);
    c.Check(mu[i] >= std::min(target, most) * (1 - 1e-9), "limit:target",
            Fmt("iteration %d has mu %.17g below the target %.17g: ", i, mu[i], target) + what);
  }
  auto constant = [&](int i) { return mu[i] == mu[i - 1]; };
  int initial = warm ? cfg.initial_centering_steps_warmstart : cfg.initial_centering_steps_coldstart;
  // An aborted warm start selects the parameter a second time.
  for (int i = 1 + warm; i < n && i < initial; i++) {
    c.Check(constant(i), "centering:initial", Fmt("iteration %d is an initial centering step but mu changes: ", i) + what);
    c.Count("initial_centering_steps");
  }
  for (int i = std::max(1 + warm, cfg.max_iterations - cfg.final_centering_steps); i < n; i++) {
    c.Check(constant(i), "centering:limit", Fmt("iteration %d is a final centering step but mu changes: ", i) + what);
    c.Count("centering_steps_before_the_limit");
  }
  // Once at the target, the run only centers, as often as allowed.
  int hit = warm && n > 1;
  while (hit < n && !(mu[hit] <= target * (1 + 1e-12))) hit++;
  if (hit < n && reachable) {
    for (int i = hit + 1; i < n; i++)
      if (!(warm && i == 1)) c.Check(constant(i), "centering:target", Fmt("mu changes in iteration %d after the target: ", i) + what);
    int centering = n - 1 - std::max(hit, initial - 1);
    c.Check(centering <= cfg.final_centering_steps, "centering:count",
            Fmt("%d final centering steps, %d allowed: ", centering, cfg.final_centering_steps) + what);
    c.Count("runs_to_the_target");
  }
}

std::string ConfigOf(const SolverConfiguration& k) {
  return Fmt("max_iterations %d centering %d/%d/%d rescaling %d line search %d target %.3g max mu %.3g: ", k.max_iterations,
             k.initial_centering_steps_coldstart, k.initial_centering_steps_warmstart, k.final_centering_steps, k.enable_rescaling,
             k.enable_line_search, 1 / (k.inv_sqrt_mu_max * k.inv_sqrt_mu_max), k.maximum_mu);
}

Problem AnyProblem(Rng* r, bool quadratic) {
  GenOptions o;
  o.max_m = 6;
  o.structured = r->chance(.4);
  o.epi = r->chance(.3);
  o.equality = r->chance(.2);
  if (quadratic) o.soc = o.quad = o.epi = o.lmi = o.herm = false;
  o.quadratic_cost = quadratic;
  Problem p = RandomProblem(r, o);
  // Unbounded or infeasible ones as well.
  if (!quadratic && r->chance(.15)) p.cost = r->vector(p.m);
  if (!quadratic && r->chance(.15))
    for (auto& k : p.cones)
      if (k.c.size() && r->chance(.5)) k.c = -k.c;
  return p;
}

SolverConfiguration AnyConfig(Rng* r, bool quadratic) {
  auto cfg = RandomConfig(r, quadratic);
  if (r->chance(.05)) cfg.max_iterations = 0;
  if (r->chance(.1)) cfg.max_iterations = cfg.final_centering_steps + r->range(-1, 1);
  if (r->chance(.1)) cfg.initial_centering_steps_coldstart = cfg.max_iterations + r->range(-1, 1);
  cfg.max_iterations = std::max(cfg.max_iterations, 0);
  return cfg;
}

// Several programs at a time, solved several times.
void Limits(Ctx& c) {
  Rng& r = c.rng;
  struct One {
    bool quadratic;
    Problem p;
    std::unique_ptr<Program> prog;
    std::vector<double> mu;
    int n = 0;
    bool solved = false;
  };
  std::vector<One> all;
  for (int k = r.range(1, 3); k > 0; k--) {
    One x;
    x.quadratic = r.chance(.2);
    x.p = AnyProblem(&r, x.quadratic);
    x.prog = std::make_unique<Program>(x.p.m);
    if (!c.Check(BuildInto(x.prog.get(), x.p), "build", "a valid constraint was refused")) return;
    all.push_back(std::move(x));
  }
  for (int t = r.range(1, 6); t > 0; t--) {
    One& x = all[r.range(0, all.size() - 1)];
    auto cfg = AnyConfig(&r, x.quadratic);
    cfg.initialization_mode = x.prog->is_initialized && r.chance(.5);
    bool warm = cfg.initialization_mode;
    std::string what = (warm ? "warm, " : "cold, ") + ConfigOf(cfg) + Describe(x.p);
    VectorXd y = VectorXd::Constant(x.p.m, NAN);
    bool ok = conex::Solve(*x.prog, cfg, y.data());
    auto st = x.prog->Status();
    bool refused = x.quadratic && (!cfg.enable_line_search || cfg.enable_rescaling);
    c.Check(ok == (st.solved != 0), "status:return", "the return value contradicts the status: " + what);
    if (st.solved) {
      c.Check(!st.primal_infeasible && !st.dual_infeasible, "status:flags", "solved and infeasible: " + what);
      c.Check(st.num_iterations >= 1, "status:iterations", "solved without an iteration: " + what);
      c.Count("solved");
    }
    c.Count(warm ? "warm_solves" : "cold_solves");
    if (refused) {
      c.Check(!ok && st.num_iterations == 0, "status:refused", "a refused solve reports success: " + what);
      c.Count("refused");
      continue;
    }
    x.n = x.prog->stats->num_iter;
    c.Check(x.n >= 0 && x.n <= cfg.max_iterations, "limit:iterations", Fmt("%d iterations, %d allowed: ", x.n, cfg.max_iterations) + what);
    c.Check(st.num_iterations == x.n || (!ok && st.num_iterations == 0), "status:num_iterations",
            Fmt("the status reports %d iterations, the statistics %d: ", st.num_iterations, x.n) + what);
    if (x.n > cfg.max_iterations) return;
    Stats s;
    if (!ReadStats(c, x.prog.get(), x.n, &s, what)) return;
    x.mu = s.mu;
    JudgePath(c, x.prog.get(), cfg, warm, s.mu, what);
    c.Max("iterations", x.n);
    c.Distinct(Fmt("%d %d %d ", warm, x.n == cfg.max_iterations, (int)ok) + Signature(x.p));
    c.Sample(what);
    if (r.chance(.3)) {
      // Statistics of the others are still theirs.
      for (auto& o : all)
        if (o.n > 0) {
          Stats again;
          if (!ReadStats(c, o.prog.get(), o.n, &again, "of another program: " + what)) return;
          c.Check(again.mu == o.mu, "stats:other", "solving a program changes the statistics of another one: " + what);
          c.Count("statistics_of_others");
        }
    }
  }
}

// The limit on the iterations only cuts the run short.
void Longer(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.2);
  Problem p = AnyProblem(&r, quadratic);
  auto a = AnyConfig(&r, quadratic), b = a;
  a.initialization_mode = b.initialization_mode = 0;
  a.max_iterations = r.range(1, 30);
  b.max_iterations = a.max_iterations + r.range(1, 40);
  unsigned seed = r.u64();
  std::vector<double> mu[2];
  for (int k = 0; k < 2; k++) {
    Program prog(p.m);
    if (!BuildInto(&prog, p)) return;
    srand(seed);
    SolveProgram(&prog, k ? b : a, p.m);
    if (!prog.stats) return c.Count("refused");
    for (int i = 0; i < prog.stats->num_iter; i++) mu[k].push_back(prog.stats->sqrt_inv_mu[i]);
  }
  int common = a.max_iterations - a.final_centering_steps;
  for (int i = 0; i < common; i++) {
    bool in0 = i < (int)mu[0].size(), in1 = i < (int)mu[1].size();
    if (!in0 && !in1) break;
    if (!c.Check(in0 == in1 && std::fabs(mu[0][i] - mu[1][i]) <= 1e-9 * mu[1][i], "longer",
                 Fmt("iteration %d depends on the limit of %d or %d iterations: ", i, a.max_iterations, b.max_iterations) + ConfigOf(a) + Describe(p)))
      return;
    c.Count("iterations_compared");
  }
  c.Distinct("longer " + Signature(p));
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"limits", 15000, 60000, Limits}, {"longer", 5000, 20000, Longer}});
}
