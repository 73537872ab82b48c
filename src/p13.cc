// P13: invalid input to the C interface is refused and changes nothing.
#include "attacker.h"

using namespace verif;

namespace {

void History(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.25);
  GenOptions o;
  o.max_m = 5;
  o.quad = false;
  o.structured = true;
  if (quadratic) o.soc = o.lmi = o.herm = false;
  o.equality = r.chance(.25);
  o.quadratic_cost = quadratic;
  Problem p = RandomProblem(&r, o);
  auto plan = PlanEntries(&r, p);
  Session s(c, p.m);
  Attacker a{c, s};
  double rate = r.uniform(.1, .6);
  s.before = [&] {
    while (c.rng.chance(rate)) a.Attack();
  };
  s.Enter(plan);
  for (int k = 0; k < 10; k++) a.Attack();
  conex::Program prog(p.m);
  if (!c.Check(BuildEntries(&prog, s.entered), "cpp", "the C++ interface refuses a valid program")) return;
  VectorXd b = -p.cost;
  std::string what = Describe(s.entered);
  c.Distinct(what);
  c.Sample(what);
  for (int k = 0; k < 2; k++) {
    auto cfg = RandomConfig(&r, quadratic);
    cfg.initialization_mode = k;
    unsigned seed = r.u64();
    Outcome x = SolveCpp(&prog, s.entered, cfg, &b, p.m, seed);
    Outcome y = SolveC(s.p, s.entered, cfg, &b, p.m, seed);
    std::string d = Differ(x, y, 1e-7);
    c.Check(d.empty(), "changed", "invalid calls changed the program, it differs from one without them in " + d + ": " + what);
    c.Count("solves");
    for (int t = r.range(0, 6); t > 0; t--) a.Updates();
  }
}

// Before the number of variables is set.
void Unset(Ctx& c) {
  Rng& r = c.rng;
  void* p = CONEX_CreateConeProgram();
  int id = -7;
  c.Check(CONEX_SetNumberOfVariables(p, -r.range(0, 9)) != CONEX_SUCCESS, "unset:none", "a program without variables is accepted");
  int rows = r.range(1, 4);
  c.Check(CONEX_NewLinearInequality(p, rows, &id) == CONEX_SUCCESS && id == 0, "unset:new", "NewLinearInequality refused");
  for (int k = 0; k < 10; k++) {
    int row = r.chance(.5) ? GoodIndex(&r, rows) : BadIndex(&r, rows);
    int var = r.chance(.5) ? r.range(0, 3) : BadIndex(&r, 1);
    c.Check(CONEX_UpdateLinearOperator(p, id, 1, var, row, 0, 0) != CONEX_SUCCESS, "unset:linear",
            "a linear constraint without variables accepts a coefficient");
    c.Count("refusals:unset");
  }
  c.Check(CONEX_SetNumberOfVariables(p, 3) != CONEX_SUCCESS, "unset:late",
          "the number of variables may be set after adding a constraint");
  CONEX_SolverConfiguration cfg;
  CONEX_SetDefaultOptions(&cfg);
  double y = 4;
  c.Check(CONEX_Maximize(p, &y, 0, &cfg, &y, 0) == 0 && y == 4, "unset:solve", "a program without variables is solved");
  CONEX_DeleteConeProgram(p);
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"history", 10000, 40000, History}, {"unset", 16, 64, Unset}});
}
