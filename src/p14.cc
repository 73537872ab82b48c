// P14: memory safety of whole histories.  The sanitizers the driver is built
// with are the monitors; on top, memory of the caller is watched with guard
// values and copies.
#include "attacker.h"

#include <memory>

#ifdef VERIF_VALGRIND
#include <valgrind/memcheck.h>
#define DEFINED(c, x, n, key)                                                                                   \
  (c).Check(VALGRIND_CHECK_MEM_IS_DEFINED(x, n) == 0, std::string("undefined:") + (key),                        \
            std::string("uninitialised memory is returned: ") + (key))
#else
#define DEFINED(c, x, n, key) (void)0
#endif

using namespace verif;
using conex::Program;

namespace {

// Memory of the caller with guard words on both sides (the sanitizers guard
// the ends of the allocation as well).
struct Guarded {
  std::vector<double> raw;
  int n;
  static constexpr int kGuard = 8;
  explicit Guarded(int size) : raw(size + 2 * kGuard), n(size) {
    for (size_t i = 0; i < raw.size(); i++) raw[i] = 1e9 + i;
  }
  double* data() { return raw.data() + kGuard; }
  bool Intact() const {
    for (int i = 0; i < kGuard; i++)
      if (raw[i] != 1e9 + i || raw[raw.size() - 1 - i] != 1e9 + raw.size() - 1 - i) return false;
    return true;
  }
};

double Extreme(Rng* r) {
  switch (r->range(0, 9)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return 1e300;
    case 4: return -1e300;
    case 5: return 1e-300;
    case 6: return 5e-324;
    case 7: return 0;
    case 8: return r->normal() * std::pow(10, r->uniform(-12, 12));
    default: return r->normal();
  }
}

conex::SolverConfiguration AnyConfig(Rng* r, bool quadratic) {
  auto cfg = RandomConfig(r, quadratic);
  cfg.initialization_mode = r->chance(.5);
  if (r->chance(.1)) cfg.max_iterations = 0;
  if (r->chance(.1)) cfg.max_iterations = r->range(100, 300);
  if (r->chance(.1)) cfg.final_centering_steps = cfg.max_iterations + r->range(0, 2);
  return cfg;
}

// One solve of either form, with everything it may write watched.
void Solve(Ctx& c, Session& s, bool quadratic, bool extreme) {
  Rng& r = c.rng;
  auto cfg = AnyConfig(&r, quadratic);
  auto cc = ToC(cfg), copy = cc;
  Guarded y(s.m), b(s.m);
  for (int i = 0; i < s.m; i++) {
    y.data()[i] = 4;
    b.data()[i] = extreme && r.chance(.2) ? Extreme(&r) : r.normal();
  }
  auto bcopy = b.raw;
  bool maximize = r.chance(.7);
  int rc = maximize ? CONEX_Maximize(s.p, b.data(), s.m, &cc, y.data(), s.m) : CONEX_Solve(s.p, &cc, y.data(), s.m);
  auto st = Peek(s.p)->Status();
  DEFINED(c, &rc, sizeof rc, "return value");
  DEFINED(c, &st, sizeof st, "status");
  DEFINED(c, y.data(), s.m * sizeof(double), "solution");
  c.Check(y.Intact() && b.Intact(), "guard:solve", "memory around the caller's arrays is written");
  c.Check(memcmp(bcopy.data(), b.raw.data(), sizeof(double) * bcopy.size()) == 0 && !memcmp(&cc, &copy, sizeof cc),
          "input:solve", "a solve modifies its input");
  c.Check((rc == 0 || rc == 1) && rc == st.solved, "status", Fmt("return value %d, status %d", rc, st.solved));
  c.Count(maximize ? "solves:maximize" : "solves:solve");
  c.Count(rc ? "solves:solved" : "solves:not_solved");
  c.Max("iterations", st.num_iterations);
}

void Query(Ctx& c, Session& s) {
  Rng& r = c.rng;
  switch (r.range(0, 3)) {
    case 0: {
      // Dual variables of any constraint, also before they exist.
      if (s.entered.empty()) return;
      const Entry& e = s.entered[r.range(0, s.entered.size() - 1)];
      int n = CONEX_GetDualVariableSize(s.p, e.id);
      int order = e.Order();
      int want = e.style == NEW_LIN || e.style == DENSE_LIN ? order : order * order;
      if (n <= 0 || !Peek(s.p)->is_initialized) return c.Count("queries:dual_not_available");
      if (e.HasDual() && !c.Check(n == want, "dual_size", Fmt("dual variable of %s of order %d has size %d", StyleName(e.style), order, n))) return;
      Guarded x(n);
      CONEX_GetDualVariable(s.p, e.id, x.data(), n, 1);
      c.Check(x.Intact(), "guard:dual", "memory around a dual variable is written");
      DEFINED(c, x.data(), n * sizeof(double), Fmt("dual variable of %s (%d)", StyleName(e.style), e.d));
      c.Count("queries:dual");
      return;
    }
    case 1: {
      // Constraints that do not exist.
      Guarded x(4);
      int id = BadIndex(&r, s.count);
      CONEX_GetDualVariableSize(s.p, id);
      auto copy = x.raw;
      CONEX_GetDualVariable(s.p, id, x.data(), 2, 2);
      c.Check(x.raw == copy, "guard:no_dual", "a dual variable of a constraint that does not exist is written");
      c.Count("queries:no_dual");
      return;
    }
    default: {
      CONEX_IterationStats st[3];
      for (auto& x : st) x.mu = -5, x.iteration_number = -5;
      int i = r.chance(.5) ? r.range(-80, 80) : BadIndex(&r, 3);
      CONEX_GetIterationStats(s.p, &st[1], i);
      c.Check(st[0].mu == -5 && st[2].mu == -5, "guard:stats", "memory around the statistics is written");
      DEFINED(c, &st[1].mu, sizeof st[1].mu, "statistics");
      DEFINED(c, &st[1].iteration_number, sizeof st[1].iteration_number, "statistics");
      c.Count(st[1].iteration_number == -5 ? "queries:no_stats" : "queries:stats");
    }
  }
}

// Anything through the C interface.
void History(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.25);
  GenOptions o;
  o.max_m = 6;
  o.quad = false;
  o.structured = r.chance(.5);
  o.wide_scale = r.chance(.3);
  if (quadratic) o.soc = o.lmi = o.herm = false;
  o.equality = r.chance(.3);
  o.quadratic_cost = quadratic;
  Problem p = RandomProblem(&r, o);
  auto plan = PlanEntries(&r, p);
  Session s(c, p.m);
  Attacker a{c, s};
  // What is still unfilled, or filled with anything, is solved as well.
  bool extreme = r.chance(.3);
  if (extreme)
    for (auto& e : plan)
      for (int k = r.range(0, 3); k > 0; k--) {
        if (e.A.size()) e.A(r.range(0, e.A.rows() - 1), r.range(0, e.A.cols() - 1)) = Extreme(&r);
        if (e.c.size()) e.c(r.range(0, e.c.rows() - 1)) = Extreme(&r);
        if (e.HC.size()) {
          int n = e.HC[0].rows(), i = r.range(0, n - 1), j = r.range(0, n - 1);
          HMat& h = r.chance(.5) ? e.HC : e.H[r.range(0, e.H.size() - 1)];
          h[0](i, j) = h[0](j, i) = Extreme(&r);
        }
      }
  s.before = [&] {
    while (c.rng.chance(.15)) {
      double u = c.rng.uniform();
      if (u < .6) a.Attack();
      else if (u < .8) Query(c, s);
      else if (u < .9 && c.rng.chance(.2)) Solve(c, s, quadratic, extreme);
    }
  };
  s.plan = plan;
  size_t stop = r.chance(.2) ? r.range(0, plan.size()) : plan.size();
  for (size_t k = 0; k < stop; k++) {
    s.Make(k);
    if (r.chance(.5)) s.RunUpdates(r.range(0, 30));
  }
  if (r.chance(.85)) s.RunUpdates(1u << 30);
  for (int k = r.range(0, 8); k > 0; k--) {
    double u = r.uniform();
    if (u < .4) Solve(c, s, quadratic, extreme);
    else if (u < .7) Query(c, s);
    else a.Attack();
  }
  c.Distinct(std::string(extreme ? "extreme " : "") + Describe(s.entered));
  c.Sample(Describe(s.entered));
}

// Programs through the C++ interface, on memory of the caller that is reused.
void Programs(Ctx& c) {
  Rng& r = c.rng;
  VectorXd memory;
  int reuse = r.range(1, 3);
  bool last_external = false, quadratic = false;
  Problem p;
  for (int t = 0; t < reuse; t++) {
    GenOptions o;
    o.max_m = r.chance(.2) ? 12 : 5;
    o.quadratic_cost = r.chance(.25);
    if (o.quadratic_cost) o.soc = o.quad = o.lmi = o.herm = false;
    o.structured = r.chance(.6);
    o.equality = r.chance(.3);
    o.wide_scale = r.chance(.3);
    // Sometimes the program of the round before again, on the same memory.
    bool same = t > 0 && memory.size() > 0 && last_external && r.chance(.4);
    if (!same) p = RandomProblem(&r, o), quadratic = o.quadratic_cost;
    int mode = same ? 1 : r.range(0, 1);
    last_external = mode == 1;
    std::unique_ptr<Program> prog = mode == 0 ? std::make_unique<Program>(p.m) : std::make_unique<Program>(p.m, &memory);
    if (!BuildInto(prog.get(), p)) return;
    for (int k = r.range(1, 3); k > 0; k--) {
      auto cfg = AnyConfig(&r, quadratic);
      // The memory holds no iterate, that of another program, or that of the
      // same program (those of other programs are not initialised as a whole).
      bool stored = mode == 0 || prog->is_initialized || same;
      cfg.initialization_mode = cfg.initialization_mode && stored;
      if (cfg.initialization_mode && !prog->is_initialized) c.Count("programs:resumed");
      Guarded y(p.m);
      for (int i = 0; i < p.m; i++) y.data()[i] = 4;
      bool ok = r.chance(.5) ? conex::Solve(MatrixXd(-p.cost), *prog, cfg, y.data()) : conex::Solve(*prog, cfg, y.data());
      auto st = prog->Status();
      DEFINED(c, &ok, sizeof ok, "return value");
      DEFINED(c, &st, sizeof st, "status");
      c.Check(y.Intact(), "guard:programs", "memory around the solution is written");
      c.Count("programs:solves");
      c.Count(ok ? "programs:solved" : "programs:not_solved");
    }
    c.Count("programs");
    c.Distinct("program " + Signature(p));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"history", 1600, 20000, History}, {"programs", 800, 10000, Programs}});
}
