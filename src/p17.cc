// P17: two-sided inequalities and bounds describe the set they stand for.
extern "C" {
#include "interfaces/conex.h"
}
#include "solve.h"
using namespace verif;

namespace {

constexpr double kInf = 1e8;  // documented: sides at or beyond are absent

double RandomBound(Rng* r) {
  double k = r->uniform();
  if (k < .15) return 0;
  if (k < .3) return r->range(-3, 3);
  if (k < .4) return std::pow(10, r->uniform(-4, 7.9)) * (r->chance(.5) ? 1 : -1);
  return r->normal();
}

struct Rows {
  MatrixXd A;
  VectorXd lb, ub;
};

int max_rows = 10;

Rows RandomRows(Rng* r) {
  Rows q;
  int n = r->range(1, max_rows), m = r->range(1, max_rows / 2 + 1);
  q.A = r->matrix(n, m);
  if (r->chance(.4)) Sparsify(r, &q.A);
  q.lb.resize(n);
  q.ub.resize(n);
  double far[] = {INFINITY, 1e8, 1e9, 1e20, std::numeric_limits<double>::max()};
  for (int i = 0; i < n; i++) {
    if (q.A.row(i).norm() == 0) q.A(i, r->range(0, m - 1)) = 1;
    double a = RandomBound(r), b = RandomBound(r);
    // Thin slabs are not equalities.
    if (r->chance(.15)) b = a + std::pow(10, r->uniform(-9, -1)) * (std::fabs(a) + .1);
    q.lb(i) = std::min(a, b);
    q.ub(i) = std::max(a, b);
    double k = r->uniform();
    if (k < .2) q.lb(i) = -far[r->range(0, 4)];
    else if (k < .4) q.ub(i) = far[r->range(0, 4)];
    else if (k < .5) q.lb(i) = -far[r->range(0, 4)], q.ub(i) = far[r->range(0, 4)];
    else if (k < .7) q.lb(i) = q.ub(i);
  }
  return q;
}

void Preprocess(Ctx& c) {
  for (int rep = 0; rep < 10; rep++) {
    Rows q = RandomRows(&c.rng);
    int n = q.A.rows(), m = q.A.cols();
    MatrixXd ai, bi, ae, be;
    int pre = c.rng.chance(.3) ? c.rng.range(1, 2) : 0;
    MatrixXd keep_a = c.rng.matrix(pre, m), keep_b = c.rng.matrix(pre, 1);
    if (pre) ai = keep_a, bi = keep_b;
    conex::PreprocessLinearInequality(q.A, q.lb, q.ub, &ai, &bi, &ae, &be);
    int eqs = 0, sides = 0;
    for (int i = 0; i < n; i++) {
      if (q.lb(i) == q.ub(i)) eqs++;
      else sides += (q.ub(i) < kInf) + (q.lb(i) > -kInf);
    }
    std::string w = Fmt("%d rows, %d variables, %d equalities, %d sides", n, m, eqs, sides);
    if (!c.Check(ai.rows() == sides + pre && bi.rows() == ai.rows() && ae.rows() == eqs && be.rows() == eqs, "rows",
                 w + Fmt(": got %d and %d", (int)ai.rows() - pre, (int)ae.rows())))
      return;
    if (pre) c.Check(ai.topRows(pre) == keep_a && bi.topRows(pre) == keep_b, "appended", w);
    c.Check(ai.allFinite() && bi.allFinite() && ae.allFinite() && be.allFinite(), "finite", w);
    // Each side is matched by exactly one positive (any nonzero) multiple.
    auto match = [](const MatrixXd& a, const MatrixXd& b, const VectorXd& row, double rhs, std::vector<bool>* used, bool sign) {
      VectorXd x(row.size() + 1);
      x << row, rhs;
      for (int k = 0; k < a.rows(); k++) {
        if ((*used)[k]) continue;
        VectorXd z(row.size() + 1);
        z << a.row(k).transpose(), b(k, 0);
        double t = z.dot(x) / x.squaredNorm();
        if ((sign ? t > 0 : t != 0) && (z - t * x).norm() <= 1e-12 * z.norm() && z.norm() > 1e-9) {
          (*used)[k] = true;
          return true;
        }
      }
      return false;
    };
    std::vector<bool> ui(ai.rows(), false), ue(ae.rows(), false);
    for (int i = 0; i < pre; i++) ui[i] = true;
    for (int i = 0; i < n; i++) {
      VectorXd row = q.A.row(i).transpose();
      std::string wi = w + Fmt(": row %d in [%.6g, %.6g]", i, q.lb(i), q.ub(i));
      if (q.lb(i) == q.ub(i)) {
        c.Check(match(ae, be, row, q.ub(i), &ue, false), "equality-side", wi);
      } else {
        if (q.ub(i) < kInf) c.Check(match(ai, bi, row, q.ub(i), &ui, true), "upper-side", wi);
        if (q.lb(i) > -kInf) c.Check(match(ai, bi, -row, -q.lb(i), &ui, true), "lower-side", wi);
      }
    }
    // Membership of points on, just inside and just outside of each side.
    for (int k = 0; k < 12; k++) {
      VectorXd y = c.rng.vector(m) * std::pow(10, c.rng.uniform(-1, 1));
      int i = c.rng.range(0, n - 1);
      double target = c.rng.chance(.5) ? q.lb(i) : q.ub(i);
      if (std::fabs(target) < kInf) {
        double eps[] = {0, 1e-3, -1e-3, .5, -.5};
        double t = target + eps[c.rng.range(0, 4)] * (1 + std::fabs(target));
        y += q.A.row(i).transpose() * (t - q.A.row(i).dot(y)) / q.A.row(i).squaredNorm();
      }
      double margin = 1e300;  // distance of the decision from a tie
      bool in = true;
      for (int j = 0; j < n; j++) {
        double v = q.A.row(j).dot(y), sc = 1 + q.A.row(j).norm() * y.norm();
        for (int side = 0; side < 2; side++) {
          double b = side ? q.ub(j) : q.lb(j);
          if (std::fabs(b) >= kInf) continue;
          double s = side ? b - v : v - b;
          margin = std::min(margin, std::fabs(s) / (sc + std::fabs(b)));
          if (s < 0) in = false;
        }
      }
      if (margin < 1e-9) continue;
      if (eqs) in = false;  // a point off the hyperplane
      bool got = true;
      for (int j = pre; j < ai.rows(); j++) got = got && bi(j, 0) - ai.row(j).dot(y) >= 0;
      for (int j = 0; j < ae.rows(); j++) got = got && be(j, 0) == ae.row(j).dot(y);
      c.Check(in == got, "membership", w);
      c.Count(in ? "points_inside" : "points_outside");
    }
    c.Count("systems");
    c.Distinct(Fmt("n%d m%d e%d s%d", n, m, eqs, sides));
  }
}

// Optimise over the inequalities through the C interface.
void Solves(Ctx& c) {
  const int n = 6;
  int solved = 0, bad = 0;
  std::string why;
  for (int rep = 0; rep < n; rep++) {
    Rng& r = c.rng;
    Problem p;
    p.m = r.range(1, 6);
    int rows = r.range(p.m, 2 * p.m + 3);
    MatrixXd A = r.matrix(rows, p.m);
    p.y_feas = r.vector(p.m);
    VectorXd v = A * p.y_feas, lb(rows), ub(rows);
    VectorXd cost = VectorXd::Zero(p.m);
    std::vector<int> eq;
    Cone cone;
    cone.type = LIN;
    std::vector<VectorXd> ra;
    std::vector<double> rb;
    for (int i = 0; i < rows; i++) {
      lb(i) = v(i) - .1 - std::fabs(r.normal());
      ub(i) = v(i) + .1 + std::fabs(r.normal());
      double k = r.uniform();
      if (k < .25) lb(i) = r.chance(.5) ? -INFINITY : -1e8;
      else if (k < .5) ub(i) = r.chance(.5) ? INFINITY : 1e9;
      else if (k < .6 && (int)eq.size() < p.m - 1) {
        lb(i) = ub(i) = v(i);
        eq.push_back(i);
      }
      VectorXd row = A.row(i).transpose();
      if (lb(i) == ub(i)) {
        cost += r.normal() * row;
        continue;
      }
      if (ub(i) < kInf) {
        ra.push_back(row);
        rb.push_back(ub(i));
        cost -= (.1 + std::fabs(r.normal())) * row;
      }
      if (lb(i) > -kInf) {
        ra.push_back(-row);
        rb.push_back(-lb(i));
        cost += (.1 + std::fabs(r.normal())) * row;
      }
    }
    if (ra.empty()) continue;
    // The preprocessing scales the rows; the central path does not depend on it.
    cone.A.resize(ra.size(), p.m);
    cone.c.resize(ra.size());
    for (size_t i = 0; i < ra.size(); i++) {
      cone.A.row(i) = ra[i].transpose();
      cone.c(i) = rb[i];
    }
    for (int j = 0; j < p.m; j++) cone.vars.push_back(j);
    p.cones.push_back(cone);
    if (eq.size()) {
      Equality e;
      e.E.resize(eq.size(), p.m);
      e.f.resize(eq.size());
      for (size_t i = 0; i < eq.size(); i++) {
        e.E.row(i) = A.row(eq[i]);
        e.f(i) = ub(eq[i]);
      }
      e.vars = cone.vars;
      Eigen::JacobiSVD<MatrixXd> svd(e.E);
      if (svd.singularValues()(eq.size() - 1) < .3) continue;
      p.eqs.push_back(e);
    }
    p.cost = cost;
    double f;
    VectorXd g;
    MatrixXd h;
    if (!p.Barrier(p.y_feas, &f, &g, &h)) continue;
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(h, Eigen::EigenvaluesOnly);
    if (es.eigenvalues()(0) < 1e-4 * es.eigenvalues()(p.m - 1)) continue;

    void* prog = CONEX_CreateConeProgram();
    CONEX_SetNumberOfVariables(prog, p.m);
    if (r.chance(.5) && rows > 1) {  // in two calls
      int k = r.range(1, rows - 1);
      MatrixXd a1 = A.topRows(k), a2 = A.bottomRows(rows - k);
      VectorXd l1 = lb.head(k), l2 = lb.tail(rows - k), u1 = ub.head(k), u2 = ub.tail(rows - k);
      CONEX_AddLinearInequalities(prog, a1.data(), k, p.m, l1.data(), k, u1.data(), k);
      CONEX_AddLinearInequalities(prog, a2.data(), rows - k, p.m, l2.data(), rows - k, u2.data(), rows - k);
    } else {
      CONEX_AddLinearInequalities(prog, A.data(), rows, p.m, lb.data(), rows, ub.data(), rows);
    }
    CONEX_SolverConfiguration cfg;
    CONEX_SetDefaultOptions(&cfg);
    cfg.max_iterations = 100;
    cfg.iterative_refinement_iterations = 5;
    VectorXd y = VectorXd::Constant(p.m, NAN), b = -p.cost;
    int ok = CONEX_Maximize(prog, b.data(), p.m, &cfg, y.data(), p.m);
    CONEX_IterationStats st;
    CONEX_GetIterationStats(prog, &st, -1);
    CONEX_DeleteConeProgram(prog);
    c.Count("solves");
    if (!ok) {
      c.Count("unsolved");
      why = "unsolved: " + Describe(p);
      bad++;
      continue;
    }
    solved++;
    // Optimal value from the reference at a smaller mu.
    RefResult ref = CentralPath(p, 1e-9);
    if (!ref.ok) {
      c.Count("reference_inconclusive");
      continue;
    }
    double gap = p.Objective(y) - p.Objective(ref.y);
    // Default accuracy: mu <= 1e-6 for the problem with normalised rows.
    double tol = 1.3e-6 * p.Rank() + 1e-6 * (1 + std::fabs(p.Objective(y)));
    double me = p.MinEig(y), er = p.EqResidual(y);
    c.Max("gap", gap);
    c.Max("equality_residual", er);
    if (!(me >= -1e-8 && er <= 1e-6 && gap <= tol && gap >= -tol)) {
      bad++;
      why = Fmt("slack %.3g, equality %.3g, gap %.3g: ", me, er, gap) + Describe(p);
    }
    c.Distinct("solve " + Signature(p));
  }
  c.Check(bad <= 2, "solution", Fmt("%d of %d wrong or unsolved, e.g. ", bad, n) + why);
  c.Count("bad", bad);
}

// Bounds on a subset of variables equal the inequalities they stand for.
void Bounds(Ctx& c) {
  Rng& r = c.rng;
  int m = r.range(1, 6);
  VectorXd y0 = r.vector(m), cost = VectorXd::Zero(m);
  Program p1(m), p2(m);
  std::vector<int> up = r.subset(m, r.range(1, m));
  std::vector<int> all;
  for (int i = 0; i < m; i++) all.push_back(i);
  VectorXd u(up.size()), l(m);
  for (size_t i = 0; i < up.size(); i++) {
    u(i) = y0(up[i]) + .1 + r.uniform();
    cost(up[i]) -= .1 + r.uniform();
  }
  for (int i = 0; i < m; i++) {
    l(i) = y0(i) - .1 - r.uniform();
    cost(i) += .1 + r.uniform();
  }
  int k = up.size();
  p1.AddConstraint(conex::UpperBound(u), up);
  p2.AddConstraint(conex::LinearConstraint(MatrixXd(MatrixXd::Identity(k, k)), MatrixXd(u)), up);
  if (r.chance(.5)) p1.AddConstraint(conex::LowerBound(l));
  else p1.AddConstraint(conex::LowerBound(l), all);
  p2.AddConstraint(conex::LinearConstraint(MatrixXd(-MatrixXd::Identity(m, m)), MatrixXd(-l)));
  bool quad = r.chance(.5);
  MatrixXd q = r.matrix(m, m);
  q = (q * q.transpose()).eval();
  if (quad) p1.AddQuadraticCost(q), p2.AddQuadraticCost(q);
  p1.AddLinearCost(cost);
  p2.AddLinearCost(cost);
  SolverConfiguration cfg;
  cfg.max_iterations = 60;
  if (quad || r.chance(.3)) cfg.enable_line_search = 1, cfg.enable_rescaling = 0;
  Result a = SolveProgram(&p1, cfg, m), b = SolveProgram(&p2, cfg, m);
  std::string w = Fmt("m %d, %d upper bounds, quadratic %d", m, k, quad);
  c.Check(a.ok && b.ok, "bounds-unsolved", w);
  c.Check(a.iters == b.iters && (a.y - b.y).norm() <= 1e-9 * (1 + b.y.norm()), "bounds-differ", w + Fmt(": %.3g", (a.y - b.y).norm()));
  for (int i = 0; i < k; i++) c.Check(a.y(up[i]) <= u(i) + 1e-9, "upper-bound", w);
  for (int i = 0; i < m; i++) c.Check(a.y(i) >= l(i) - 1e-9, "lower-bound", w);
  // Without cost coupling, each variable is at one of its bounds in the limit.
  c.Count("bound_problems");
  c.Distinct("bounds " + w);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  s.push_back({"preprocess", 20000, 20000, Preprocess});
  s.push_back({"preprocess_big", 300, 2000, [](Ctx& c) {
                 max_rows = 100;
                 Preprocess(c);
                 max_rows = 10;
               }});
  s.push_back({"solves", 5000, 5000, Solves});
  s.push_back({"bounds", 10000, 10000, Bounds});
  return Main(argc, argv, s);
}
