// P03: infeasible and unbounded problems are never reported as solved; the
// infeasibility flags are right and come with a certificate.
#include "solve.h"
using namespace verif;

namespace {

// One dual element of a cone, in the coordinates of its data.
struct Elem {
  VectorXd v;
  HMat h;
};
bool IsMatrix(const Cone& k) { return k.type == LMI || k.type == HERM; }
double Inner(const Cone& k, const Elem& a, const Elem& b) { return IsMatrix(k) ? HInner(a.h, b.h) : a.v.dot(b.v); }
Elem Column(const Cone& k, int j) {
  Elem e;
  if (IsMatrix(k)) e.h = k.H[j];
  else e.v = k.A.col(j);
  return e;
}
Elem Affine(const Cone& k) {
  Elem e;
  if (IsMatrix(k)) e.h = k.HC;
  else e.v = k.c;
  return e;
}
void AddTo(Cone* k, int j, const Elem& e, double s) {  // j < 0: the affine term
  if (IsMatrix(*k)) {
    if (j < 0) k->HC = HAdd(k->HC, e.h, s);
    else k->H[j] = HAdd(k->H[j], e.h, s);
  } else {
    if (j < 0) k->c += s * e.v;
    else k->A.col(j) += s * e.v;
  }
}
// Interior elements of the cone and of its dual.
Elem Interior(Rng* r, const Cone& k, bool dual) {
  Elem e;
  if (k.type == LIN) {
    e.v = VectorXd(k.A.rows());
    for (int i = 0; i < e.v.rows(); i++) e.v(i) = .2 + std::fabs(r->normal());
  } else if (IsMatrix(k)) {
    e.h = HScale(HInterior(r, k.d, k.Order(), 1), 2.0 / (1 + k.Order()));
  } else {
    e.v = r->vector(k.A.rows());
    int n = e.v.rows() - 1;
    MatrixXd M = k.Metric();
    double q = dual ? e.v.tail(n).dot(M.llt().solve(e.v.tail(n))) : e.v.tail(n).dot(M * e.v.tail(n));
    e.v(0) = std::sqrt(q) + .2 + r->uniform();
  }
  return e;
}

// No y is feasible: <x, c - A y> = -delta < 0 for a strictly positive x.
void MakeInfeasible(Rng* r, Problem* p, std::vector<Elem>* xs) {
  VectorXd atx = VectorXd::Zero(p->m);
  double cx = 0;
  std::vector<Elem> x;
  for (auto& k : p->cones) {
    Elem e = Interior(r, k, true);
    for (size_t j = 0; j < k.vars.size(); j++) atx(k.vars[j]) += Inner(k, Column(k, j), e);
    cx += Inner(k, Affine(k), e);
    x.push_back(e);
  }
  std::vector<double> share(p->m, 0);
  std::vector<double> xx;
  for (size_t i = 0; i < x.size(); i++) xx.push_back(Inner(p->cones[i], x[i], x[i]));
  for (size_t i = 0; i < x.size(); i++)
    for (int v : p->cones[i].vars) share[v] += xx[i];
  for (size_t i = 0; i < x.size(); i++)
    for (size_t j = 0; j < p->cones[i].vars.size(); j++) {
      int v = p->cones[i].vars[j];
      AddTo(&p->cones[i], j, x[i], -atx(v) / share[v]);
    }
  // One offending cone, or all of them a little.
  double delta = r->uniform(.3, 2);
  if (r->chance(.5)) {
    int i = r->range(0, x.size() - 1);
    AddTo(&p->cones[i], -1, x[i], -(cx + delta) / xx[i]);
  } else {
    double t = 0;
    for (double v : xx) t += v;
    for (size_t i = 0; i < x.size(); i++) AddTo(&p->cones[i], -1, x[i], -(cx + delta) / t);
  }
  *xs = x;
}

// d is a recession direction in the interior of the cones with b'd > 0.
void MakeUnbounded(Rng* r, Problem* p) {
  VectorXd d = r->vector(p->m);
  for (int i = 0; i < p->m; i++)
    if (std::fabs(d(i)) < .2) d(i) = .3;
  for (auto& k : p->cones) {
    Elem s = Interior(r, k, false);
    VectorXd z = k.Sub(d);
    for (size_t j = 0; j < k.vars.size(); j++)
      if (IsMatrix(k)) s.h = HAdd(s.h, k.H[j], z(j));
      else s.v += z(j) * k.A.col(j);
    for (size_t j = 0; j < k.vars.size(); j++) AddTo(&k, j, s, -z(j) / z.squaredNorm());
  }
  double bd = -p->cost.dot(d);
  double want = r->uniform(.2, 1) * p->cost.norm() * d.norm();
  if (want < .1) want = .1;
  p->cost -= (want - bd) / d.squaredNorm() * d;
}

bool WellPosed(const Problem& p) {
  // Jacobian of all cones, columns normalised.
  MatrixXd G = MatrixXd::Zero(p.m, p.m);
  for (auto& k : p.cones)
    for (size_t i = 0; i < k.vars.size(); i++)
      for (size_t j = 0; j < k.vars.size(); j++)
        G(k.vars[i], k.vars[j]) += Inner(k, Column(k, i), Column(k, j));
  Eigen::SelfAdjointEigenSolver<MatrixXd> e(G, Eigen::EigenvaluesOnly);
  return e.eigenvalues()(0) > .01 && e.eigenvalues()(0) > 1e-2 * e.eigenvalues()(p.m - 1);
}

enum Kind { INFEASIBLE, UNBOUNDED, FEASIBLE };

Problem Make(Rng* r, Kind kind, GenOptions o) {
  o.wide_scale = false;
  for (;;) {
    Problem p = RandomProblem(r, o);
    std::vector<Elem> x;
    if (kind == INFEASIBLE) MakeInfeasible(r, &p, &x);
    if (kind == UNBOUNDED) MakeUnbounded(r, &p);
    if (kind != FEASIBLE) {
      // The flags compare objective values of the given data with 1/2.
      if (p.cost.norm() > 0) p.cost *= r->uniform(.2, 1) / p.cost.norm();
      double cc = 0;
      for (auto& k : p.cones) cc += Inner(k, Affine(k), Affine(k));
      double sc = r->uniform(.2, 1) / std::sqrt(cc);
      for (auto& k : p.cones) AddTo(&k, -1, Affine(k), sc - 1);
    }
    if (WellPosed(p)) return p;
  }
}

// Random configurations, all of them legal.
SolverConfiguration AnyConfig(Rng* r) {
  SolverConfiguration cfg;
  cfg.max_iterations = r->chance(.5) ? 100 : r->range(10, 60);
  double k[] = {30, 1000, 10000};
  cfg.inv_sqrt_mu_max = k[r->range(0, 2)];
  cfg.enable_rescaling = r->chance(.8);
  cfg.final_centering_steps = r->range(1, 8);
  cfg.final_centering_tolerance = r->chance(.5) ? .01 : 1;
  cfg.divergence_upper_bound = std::pow(10, r->uniform(0, 4));
  cfg.maximum_mu = std::pow(10, r->uniform(2, 8));
  cfg.infeasibility_threshold = std::pow(10, r->uniform(5, 7));
  cfg.kkt_solver = r->range(0, 1);
  cfg.prepare_dual_variables = r->range(0, 1);
  if (r->chance(.3)) cfg.initial_centering_steps_coldstart = r->range(1, 4);
  return cfg;
}
// The configuration with which the repository's tests detect infeasibility.
SolverConfiguration DetectConfig(Rng* r) {
  SolverConfiguration cfg;
  cfg.prepare_dual_variables = 1;
  cfg.inv_sqrt_mu_max = 10000;
  cfg.divergence_upper_bound = 10000;
  cfg.final_centering_steps = 4;
  cfg.max_iterations = 100;
  cfg.final_centering_tolerance = 1;
  cfg.infeasibility_threshold = r->chance(.5) ? 1e5 : std::pow(10, r->uniform(5, 6.3));
  cfg.maximum_mu = 1e7;
  return cfg;
}

double SlackScale(const Problem& p, const VectorXd& y) {
  double s = 1e-300;
  for (auto& k : p.cones)
    for (size_t j = 0; j < k.vars.size(); j++) {
      Elem e = Column(k, j);
      s = std::max(s, std::fabs(y(k.vars[j])) * std::sqrt(Inner(k, e, e)));
    }
  return s;
}

// Smallest eigenvalue of -A y.
double Recession(const Problem& p, const VectorXd& y) {
  double v = 1e300;
  for (Cone k : p.cones) {
    if (IsMatrix(k)) k.HC = HZero(k.d, k.Order());
    else k.c.setZero();
    v = std::min(v, k.MinEig(y));
  }
  return v;
}

void One(Ctx& c, Kind kind, const GenOptions& o, bool detect, int* detected, int* total) {
  Problem p = Make(&c.rng, kind, o);
  SolverConfiguration cfg = detect ? DetectConfig(&c.rng) : AnyConfig(&c.rng);
  static const char* kName[] = {"infeasible", "unbounded", "feasible"};
  std::string what = std::string(kName[kind]) + " " + Describe(p);
  Program prog(p.m);
  if (!c.Check(BuildInto(&prog, p), "build", "a valid constraint was refused: " + what)) return;
  Result r = SolveProgram(&prog, cfg, p.m);
  auto& st = r.status;
  what += Fmt(" solved=%d primal_infeasible=%d dual_infeasible=%d iterations=%d mu=%.3g", st.solved,
              st.primal_infeasible, st.dual_infeasible, st.num_iterations, r.mu_scaled);
  if (c.index < 1) c.Sample(what);
  ++*total;
  c.Count(std::string("solves:") + kName[kind]);
  c.Check(r.ok == (st.solved != 0), "status", "Solve's return value disagrees with Status().solved: " + what);
  c.Check(!(st.solved && (st.primal_infeasible || st.dual_infeasible)), "contradiction",
          "solved and infeasible at the same time: " + what);
  if (kind != FEASIBLE) c.Check(!st.solved, std::string("solved:") + kName[kind], "a problem without solution is reported as solved: " + what);
  bool flagged = st.primal_infeasible || st.dual_infeasible;
  if (flagged)
    c.Check(r.mu_scaled > cfg.infeasibility_threshold * .999, "threshold",
            "reported infeasible with a barrier parameter below the threshold: " + what);
  if (r.iters > 0 && !(r.mu_scaled > cfg.infeasibility_threshold))
    c.Check(!flagged, "threshold", "flags set below the threshold: " + what);
  if (kind != INFEASIBLE)
    c.Check(!st.primal_infeasible, std::string("false_primal:") + kName[kind], "a feasible problem is reported as infeasible: " + what);
  if (kind != UNBOUNDED)
    c.Check(!st.dual_infeasible, std::string("false_dual:") + kName[kind], "a bounded problem is reported as unbounded: " + what);
  if (kind == INFEASIBLE && st.primal_infeasible) {
    ++*detected;
    c.Count("detected:infeasible");
    c.Distinct(Fmt("inf|") + Signature(p));
  }
  if (kind == UNBOUNDED && st.dual_infeasible) {
    ++*detected;
    c.Count("detected:unbounded");
    c.Distinct(Fmt("unb|") + Signature(p));
  }
  if (kind == FEASIBLE) {
    *detected += st.solved;
    c.Distinct(Fmt("fea|") + Signature(p));
  }
  if (!detect) return;
  if (st.dual_infeasible && kind == UNBOUNDED) {
    double s = SlackScale(p, r.y), rec = Recession(p, r.y) / s;
    double imp = -p.cost.dot(r.y) / (p.cost.norm() * r.y.norm() + 1e-300);
    c.Max("recession_violation", -rec);
    c.Check(rec >= -.3, "ray:cone", Fmt("the returned ray leaves the cone (%.3g): %s", rec, what.c_str()));
    c.Check(imp > 0, "ray:improving", Fmt("the returned ray does not improve the objective (%.3g): %s", imp, what.c_str()));
    c.Count("rays_judged");
  }
  if (st.primal_infeasible && kind == INFEASIBLE) {
    // Certificate: x in the dual cone, A'x = 0, <c, x> < 0.
    VectorXd atx = VectorXd::Zero(p.m);
    double cx = 0, sc = 1e-300, neg = 0;
    for (size_t i = 0; i < p.cones.size(); i++) {
      const Cone& k = p.cones[i];
      bool has = k.type == LIN || k.type == LMI || (k.type == HERM && k.d == 1);
      if (!has) return;
      int n = k.Order();
      MatrixXd X = MatrixXd::Constant(n, k.type == LIN ? 1 : n, NAN);
      if (!c.Check(prog.GetDualVariableSize(i) == X.size(), "cert:size", "dual variable has the wrong size: " + what)) return;
      prog.GetDualVariable(i, &X);
      if (!c.Check(X.allFinite(), "cert:finite", "certificate is not finite: " + what)) return;
      Elem e;
      if (IsMatrix(k)) {
        e.h = HMat(1, X);
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(X, Eigen::EigenvaluesOnly);
        neg = std::min(neg, es.eigenvalues()(0) / X.cwiseAbs().maxCoeff());
      } else {
        e.v = X.col(0);
        neg = std::min(neg, X.minCoeff() / X.cwiseAbs().maxCoeff());
      }
      for (size_t j = 0; j < k.vars.size(); j++) {
        double v = Inner(k, Column(k, j), e);
        atx(k.vars[j]) += v;
        sc = std::max(sc, std::sqrt(Inner(k, Column(k, j), Column(k, j)) * Inner(k, e, e)));
      }
      cx += Inner(k, Affine(k), e);
    }
    double res = atx.cwiseAbs().maxCoeff() / sc;
    c.Max("certificate_residual", res);
    c.Max("certificate_negative", -neg);
    c.Max("certificate_cx_over_scale", cx / sc);
    c.Check(neg >= -1e-6, "cert:cone", Fmt("the certificate leaves the dual cone (%.3g): %s", neg, what.c_str()));
    c.Check(res <= 1e-3, "cert:adjoint", Fmt("A'x is %.3g (relative), not 0: %s", res, what.c_str()));
    c.Check(cx < 0, "cert:negative", Fmt("<c,x> = %.3g is not negative: %s", cx, what.c_str()));
    c.Count("certificates_judged");
  }
}

void Batch(Ctx& c, Kind kind, bool detect, const GenOptions& o) {
  int detected = 0, total = 0;
  for (int i = 0; i < 12; i++) One(c, kind, o, detect, &detected, &total);
  if (detect) c.Count(Fmt("batch_detected_%02d", detected));
  if (detect)
    c.Check(detected >= total - 3, "undetected:" + c.scenario,
            Fmt("only %d of %d problems were classified", detected, total));
}

GenOptions Types(bool lin, bool soc, bool quad, bool lmi, bool herm) {
  GenOptions o;
  o.lin = lin;
  o.soc = soc;
  o.quad = quad;
  o.lmi = lmi;
  o.herm = herm;
  o.oct = false;
  return o;
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  const char* names[] = {"infeasible", "unbounded", "feasible"};
  struct F {
    const char* name;
    GenOptions o;
    int n;
  };
  std::vector<F> fs = {{"linear", Types(1, 0, 0, 0, 0), 80}, {"lorentz", Types(0, 1, 0, 0, 0), 60},
                       {"quadratic", Types(0, 0, 1, 0, 0), 60}, {"lmi", Types(0, 0, 0, 1, 0), 60},
                       {"hermitian", Types(0, 0, 0, 0, 1), 60}, {"mixed", Types(1, 1, 1, 1, 1), 120}, {"many", Types(1, 1, 1, 1, 1), 15}};
  fs.back().o.max_m = 20;
  fs.back().o.max_cones = 12;
  for (int k = 0; k < 3; k++)
    for (auto& f : fs)
      for (int detect = 0; detect < 2; detect++) {
        GenOptions o = f.o;
        Kind kind = static_cast<Kind>(k);
        s.push_back({std::string(names[k]) + "_" + f.name + (detect ? "_detect" : "_any"), f.n, 6 * f.n,
                     [=](Ctx& c) { Batch(c, kind, detect, o); }});
      }
  return Main(argc, argv, s);
}
