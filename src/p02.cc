// P02: the dual variables conex reports certify the primal solution.
#include "solve.h"
using namespace verif;

namespace {

// Dual variable of cone i; empty when the cone does not expose one.
bool Dual(Program* prog, int i, const Cone& k, HMat* X) {
  int n = k.Order(), want = k.type == LIN ? n : n * n;
  if (k.type != LIN && k.type != LMI && !(k.type == HERM && k.d == 1)) return false;
  if (prog->GetDualVariableSize(i) != want) return false;
  MatrixXd x = MatrixXd::Constant(n, k.type == LIN ? 1 : n, NAN);
  prog->GetDualVariable(i, &x);
  *X = HMat(1, x);
  return true;
}
VectorXd Adjoint(const Cone& k, const MatrixXd& X) {
  VectorXd a(k.vars.size());
  for (size_t j = 0; j < k.vars.size(); j++)
    a(j) = k.type == LIN ? k.A.col(j).dot(X.col(0)) : k.H[j][0].cwiseProduct(X).sum();
  return a;
}
double AdjointScale(const Cone& k, const MatrixXd& X) {
  double s = 0;
  for (size_t j = 0; j < k.vars.size(); j++)
    s = std::max(s, k.type == LIN ? k.A.col(j).cwiseProduct(X.col(0)).cwiseAbs().sum()
                                  : k.H[j][0].cwiseProduct(X).cwiseAbs().sum());
  return s;
}
double Pair(const Cone& k, const MatrixXd& X) {
  return k.type == LIN ? k.c.dot(X.col(0)) : k.HC[0].cwiseProduct(X).sum();
}
double MinEigX(const Cone& k, const MatrixXd& X, double* scale) {
  *scale = X.cwiseAbs().maxCoeff();
  if (k.type == LIN) return X.minCoeff();
  Eigen::SelfAdjointEigenSolver<MatrixXd> e(X, Eigen::EigenvaluesOnly);
  return e.eigenvalues()(0);
}

void One(Ctx& c, const GenOptions& o, bool prepared, const std::string& key) {
  Problem p = RandomProblem(&c.rng, o);
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  cfg.prepare_dual_variables = prepared;
  cfg.enable_rescaling = c.rng.chance(.8);
  double ks[] = {30, 100, 1000};
  cfg.inv_sqrt_mu_max = ks[c.rng.range(0, 2)];
  if (o.equality) cfg.iterative_refinement_iterations = 3;
  if (o.equality || c.rng.chance(.2)) cfg.kkt_solver = c.rng.range(0, 1);
  Program prog(p.m);
  if (!c.Check(BuildInto(&prog, p), "build", "a valid constraint was refused")) return;
  Result r = SolveProgram(&prog, cfg, p.m);
  c.Count("solves");
  if (!r.ok) {
    c.Count("unsolved");
    return;
  }
  if (ReachedLimit(r, cfg)) return;
  std::string what = Describe(p);
  VectorXd res = -(-p.cost), b = -p.cost;
  res = -b;
  double scale = b.norm(), sx = 0;
  for (size_t i = 0; i < p.cones.size(); i++) {
    const Cone& k = p.cones[i];
    HMat h;
    if (!c.Check(Dual(&prog, i, k, &h), key + ":size", "dual variable has the wrong size: " + what)) return;
    const MatrixXd& X = h[0];
    if (!c.Check(X.allFinite(), key + ":finite", "dual variable is not finite: " + what)) return;
    if (k.type != LIN) {
      double asym = (X - X.transpose()).cwiseAbs().maxCoeff() / (1e-300 + X.cwiseAbs().maxCoeff());
      c.Check(asym < 1e-9, key + ":symmetric", Fmt("dual variable is not symmetric (%.3g): %s", asym, what.c_str()));
      c.Max("asymmetry", asym);
    }
    VectorXd a = Adjoint(k, X);
    for (size_t j = 0; j < k.vars.size(); j++) res(k.vars[j]) += a(j);
    scale = std::max(scale, AdjointScale(k, X));
    double s;
    double me = MinEigX(k, X, &s);
    // The preparation step solves with a regularised factorisation if there are
    // equalities: no claim about the interior then.
    if (!(o.equality && prepared)) {
      c.Max("negative_part", -me / s);
      c.Check(me >= -(prepared ? 2e-4 : 1e-9) * s, key + ":cone", Fmt("dual variable leaves the cone (eigenvalue %.3g of %.3g): %s", me, s, what.c_str()));
    }
    sx += Pair(k, X);
    if (k.type == LIN) sx -= X.col(0).dot(k.A * k.Sub(r.y));
    else {
      MatrixXd S = MatrixXd::Zero(X.rows(), X.cols());
      for (size_t j = 0; j < k.vars.size(); j++) S += k.H[j][0] * r.y(k.vars[j]);
      sx -= S.cwiseProduct(X).sum();
    }
  }
  if (o.equality) {
    VectorXd f;
    MatrixXd E = p.EqMatrix(&f);
    VectorXd l = E.rows() ? VectorXd(E.transpose().colPivHouseholderQr().solve(res)) : VectorXd(0);
    if (E.rows()) res -= E.transpose() * l;
  }
  double st = res.norm() / scale;
  c.Max(prepared ? "stationarity(prepared)" : "stationarity(unprepared)", st);
  c.Check(st <= (prepared ? 1e-8 : 2e-3), key + ":stationary",
          Fmt("dual variables miss the dual equations by %.3g (relative): %s", st, what.c_str()));
  double ratio = sx / (r.mu * p.Rank());
  c.Max(prepared ? "gap_ratio-1(prepared)" : "gap_ratio-1(unprepared)", std::fabs(ratio - 1));
  c.Check(std::fabs(ratio - 1) <= (o.equality ? .6 : .05), key + ":gap",
          Fmt("duality gap is %.4g times mu*rank (mu %.3g): %s", ratio, r.mu, what.c_str()));
  c.Count("certificates_judged");
  c.Distinct(Signature(p));
  if (c.index < 2) c.Sample(what + Fmt(" stationarity=%.2g gap/(mu rank)=%.6f", st, ratio));
}
}  // namespace

int main(int argc, char** argv) {
  auto opts = [](bool lin, bool lmi, bool herm, bool eq) {
    GenOptions o;
    o.dual_only = true;
    o.lin = lin;
    o.lmi = lmi;
    o.herm = herm;
    o.equality = eq;
    return o;
  };
  auto many = [](Ctx& c, const GenOptions& o, bool prep, const std::string& key) {
    for (int i = 0; i < 12; i++) One(c, o, prep, key);
  };
  std::vector<Scenario> s;
  for (int prep = 1; prep >= 0; prep--) {
    std::string t = prep ? "_prepared" : "_plain";
    std::string key = prep ? "prepared" : "plain";
    int q = prep ? 2400 : 1200;
    s.push_back({"linear" + t, q, q * 2, [=](Ctx& c) { many(c, opts(1, 0, 0, 0), prep, key); }});
    s.push_back({"lmi" + t, q, q * 2, [=](Ctx& c) { many(c, opts(0, 1, 0, 0), prep, key); }});
    s.push_back({"mixed" + t, q, q * 2, [=](Ctx& c) { many(c, opts(1, 1, 0, 0), prep, key); }});
    s.push_back({"equality" + t, q, q * 2, [=](Ctx& c) { many(c, opts(1, 1, 0, 1), prep, key); }});
    s.push_back({"many" + t, 60, 400, [=](Ctx& c) {
                   GenOptions o = opts(1, 1, 0, 0);
                   o.max_m = 20;
                   o.max_cones = 14;
                   many(c, o, prep, key);
                 }});
  }
  return Main(argc, argv, s);
}
