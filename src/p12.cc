// P12: the C interface is the C++ interface.
#include "capi.h"

using namespace verif;

namespace {

Problem ApiProblem(Rng* r, bool quadratic, bool many = false) {
  GenOptions o;
  o.max_m = 6;
  o.quad = false;
  o.max_cones = 3;
  if (many) o.max_m = 15, o.max_cones = 14;
  o.structured = true;
  if (quadratic) o.soc = o.lmi = o.herm = false;
  o.equality = r->chance(.25);
  o.quadratic_cost = quadratic;
  return RandomProblem(r, o);
}

void Compare(Ctx& c, const Outcome& a, const Outcome& b, const std::string& key, const std::string& what) {
  bool identical = false;
  std::string d = Differ(a, b, 1e-7, &identical);
  c.Check(d.empty(), key, "C and C++ interface differ in " + d + ": " + what);
  c.Count(identical ? "solves:bit_identical" : "solves:within_tolerance");
  c.Count(a.solved ? "solves:solved" : a.primal_infeasible || a.dual_infeasible ? "solves:infeasible" : "solves:other");
  c.Count("duals_compared", a.duals.size());
}

void Build(Ctx& c, bool many) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.3);
  Problem p = ApiProblem(&r, quadratic, many);
  auto plan = PlanEntries(&r, p);
  Session s(c, p.m);
  s.Enter(plan);
  conex::Program prog(p.m);
  if (!c.Check(BuildEntries(&prog, s.entered), "cpp", "the C++ interface refuses a valid program")) return;
  VectorXd b = -p.cost;
  std::string what = Describe(s.entered);
  c.Distinct(what);
  c.Sample(what);
  int solves = r.range(1, 3);
  for (int k = 0; k < solves; k++) {
    auto cfg = RandomConfig(&r, quadratic);
    cfg.initialization_mode = k > 0 && r.chance(.5);
    unsigned seed = r.u64();
    const VectorXd* obj = r.chance(.75) ? &b : nullptr;
    if (k > 0 && r.chance(.3)) b *= r.uniform(.5, 2);
    Outcome x = SolveCpp(&prog, s.entered, cfg, obj, p.m, seed);
    Outcome y = SolveC(s.p, s.entered, cfg, obj, p.m, seed);
    Compare(c, x, y, k ? "again" : "solve", Fmt("solve %d of ", k + 1) + what);
  }
}

// Each field of the configuration reaches the solver.
void Config(Ctx& c) {
  Rng& r = c.rng;
  struct Field {
    const char* name;
    std::function<void(conex::SolverConfiguration*, Rng*)> set;
  };
  using S = conex::SolverConfiguration;
  static const std::vector<Field> fields = {
      {"prepare_dual_variables", [](S* s, Rng*) { s->prepare_dual_variables = 1; }},
      {"initialization_mode", [](S* s, Rng*) { s->initialization_mode = 1; }},
      {"inv_sqrt_mu_max", [](S* s, Rng* r) { s->inv_sqrt_mu_max = r->uniform(2, 500); }},
      {"maximum_mu", [](S* s, Rng* r) { s->maximum_mu = std::pow(10, r->uniform(-6, 0)); }},
      {"divergence_upper_bound", [](S* s, Rng* r) { s->divergence_upper_bound = std::pow(10, r->uniform(-2, 2)); }},
      {"enable_line_search", [](S* s, Rng*) { s->enable_line_search = 1; }},
      {"dinf_upper_bound", [](S* s, Rng* r) { s->dinf_upper_bound = r->uniform(.1, .9); }},
      {"final_centering_steps", [](S* s, Rng* r) { s->final_centering_steps = r->chance(.5) ? r->range(0, 2) : r->range(8, 20); }},
      {"final_centering_tolerance", [](S* s, Rng* r) { s->final_centering_tolerance = r->chance(.5) ? 1 : 1e-7; }},
      {"initial_centering_steps_warmstart", [](S* s, Rng* r) { s->initial_centering_steps_warmstart = r->range(1, 5); }},
      {"initial_centering_steps_coldstart", [](S* s, Rng* r) { s->initial_centering_steps_coldstart = r->range(1, 5); }},
      {"warmstart_abort_threshold", [](S* s, Rng* r) { s->warmstart_abort_threshold = std::pow(10, r->uniform(-6, 0)); }},
      {"max_iterations", [](S* s, Rng* r) { s->max_iterations = r->range(1, 12); }},
      {"iterative_refinement_iterations", [](S* s, Rng* r) { s->iterative_refinement_iterations = r->range(1, 5); }},
      {"infeasibility_threshold", [](S* s, Rng* r) { s->infeasibility_threshold = std::pow(10, r->uniform(-9, -5)); }},
      {"kkt_error_tolerance", [](S* s, Rng* r) { s->kkt_error_tolerance = std::pow(10, r->uniform(-9, -2)); }},
      {"enable_rescaling", [](S* s, Rng*) { s->enable_rescaling = 0; }},
      {"kkt_solver", [](S* s, Rng* r) { s->kkt_solver = r->range(1, 2); }},
  };
  GenOptions o;
  o.max_m = 5;
  o.quad = o.soc = false;
  bool linear = r.chance(.5);
  if (linear) o.lmi = o.herm = false;
  Problem p = RandomProblem(&r, o);
  VectorXd b = -p.cost;
  auto plan = PlanEntries(&r, p);
  unsigned seed = r.u64();
  VectorXd b2 = b + .05 * b.norm() * r.vector(p.m);
  auto run = [&](const S& cfg, bool cpp) {
    // A cold solve, then one with the mode of the configuration.
    S first = cfg;
    first.initialization_mode = 0;
    std::vector<Outcome> out;
    if (cpp) {
      conex::Program prog(p.m);
      BuildEntries(&prog, plan);
      out.push_back(SolveCpp(&prog, plan, first, &b, p.m, seed));
      out.push_back(SolveCpp(&prog, plan, cfg, &b2, p.m, seed));
    } else {
      Session s(c, p.m);
      s.Enter(plan);
      out.push_back(SolveC(s.p, s.entered, first, &b, p.m, seed));
      out.push_back(SolveC(s.p, s.entered, cfg, &b2, p.m, seed));
    }
    return out;
  };
  for (int t = 0; t < 4; t++) {
    auto& f = fields[(c.index * 4 + t) % fields.size()];
    S base;
    base.max_iterations = 40;
    std::string name = f.name;
    if (name == "dinf_upper_bound") base.enable_line_search = 1;
    if (name == "warmstart_abort_threshold" || name == "initial_centering_steps_warmstart") {
      base.initialization_mode = 1;
      base.warmstart_abort_threshold = 1e3;
    }
    base.prepare_dual_variables = r.chance(.5) && name != "prepare_dual_variables";
    S mod = base;
    f.set(&mod, &r);
    auto ref = run(base, true), want = run(mod, true), got = run(mod, false);
    bool seen = false;
    for (int k = 0; k < 2; k++) {
      bool identical;
      Differ(ref[k], want[k], 1e-7, &identical);
      seen |= !identical;
      Compare(c, want[k], got[k], "config:" + name, "configuration with " + name + " changed: " + Describe(plan));
    }
    c.Count((seen ? "effect_seen:" : "no_effect:") + name);
    if (seen) c.Distinct("field " + name);
  }
}

// Every field of the default options.
void Defaults(Ctx& c) {
  conex::SolverConfiguration d;
  for (int fill : {0x00, 0x5a, 0xff}) {
    CONEX_SolverConfiguration x;
    memset(&x, fill, sizeof x);
    CONEX_SetDefaultOptions(&x);
#define FIELD(f) c.Check(x.f == d.f, "default:" #f, Fmt("CONEX_SetDefaultOptions sets " #f " to %g, the default is %g", (double)x.f, (double)d.f))
    FIELD(prepare_dual_variables);
    FIELD(initialization_mode);
    FIELD(inv_sqrt_mu_max);
    FIELD(minimum_mu);
    FIELD(maximum_mu);
    FIELD(divergence_upper_bound);
    FIELD(enable_line_search);
    FIELD(dinf_upper_bound);
    FIELD(final_centering_steps);
    FIELD(final_centering_tolerance);
    FIELD(initial_centering_steps_warmstart);
    FIELD(initial_centering_steps_coldstart);
    FIELD(warmstart_abort_threshold);
    FIELD(max_iterations);
    FIELD(iterative_refinement_iterations);
    FIELD(infeasibility_threshold);
    FIELD(kkt_error_tolerance);
    FIELD(enable_rescaling);
    FIELD(kkt_solver);
#undef FIELD
  }
}

// Two programs entered alternately do not affect each other.
void Interleaved(Ctx& c) {
  Rng& r = c.rng;
  Problem pa = ApiProblem(&r, false), pb = ApiProblem(&r, r.chance(.3));
  auto la = PlanEntries(&r, pa), lb = PlanEntries(&r, pb);
  Session a(c, pa.m), b(c, pb.m);
  a.plan = la;
  b.plan = lb;
  size_t i = 0, j = 0;
  while (i < la.size() || j < lb.size()) {
    bool first = j >= lb.size() || (i < la.size() && r.chance(.5));
    (first ? a : b).Make(first ? i++ : j++);
    a.RunUpdates(r.range(0, 10));
    b.RunUpdates(r.range(0, 10));
  }
  a.RunUpdates(1u << 30);
  b.RunUpdates(1u << 30);
  conex::Program qa(pa.m), qb(pb.m);
  BuildEntries(&qa, a.entered);
  BuildEntries(&qb, b.entered);
  for (int k = 0; k < 2; k++) {
    bool first = r.chance(.5);
    Session* order[] = {first ? &a : &b, first ? &b : &a};
    for (Session* s : order) {
      Problem& p = s == &a ? pa : pb;
      VectorXd obj = -p.cost;
      auto cfg = RandomConfig(&r, p.quads.size() > 0);
      unsigned seed = r.u64();
      Outcome x = SolveCpp(s == &a ? &qa : &qb, s->entered, cfg, &obj, p.m, seed);
      Outcome y = SolveC(s->p, s->entered, cfg, &obj, p.m, seed);
      Compare(c, x, y, "interleaved", "alternating programs: " + Describe(s->entered));
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"build", 3000, 20000, [](Ctx& c) { Build(c, false); }},
                           {"build_many", 300, 2000, [](Ctx& c) { Build(c, true); }},
                           {"config", 1000, 6000, Config},
                           {"interleaved", 800, 5000, Interleaved},
                           {"defaults", 8, 8, Defaults}});
}
