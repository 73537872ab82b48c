// P20: the regularised LDL' factorisation reproduces its input up to reported
// regularisation of vanishing pivots, and solves with what it reproduces.
#include "verif.h"

#include "conex/RLDLT.h"

using namespace verif;

namespace {

MatrixXd RandomSymmetric(Rng* r, int n, std::string* kind) {
  MatrixXd A = MatrixXd::Zero(n, n);
  int k = r->range(0, 9);
  auto sym = [&](const MatrixXd& m) { return MatrixXd(.5 * (m + m.transpose())); };
  switch (k) {
    case 0:
      *kind = "posdef";
      {
        MatrixXd b = r->matrix(n, n);
        A = sym(b * b.transpose() + .1 * MatrixXd::Identity(n, n));
      }
      break;
    case 1:
      *kind = "negdef";
      {
        MatrixXd b = r->matrix(n, n);
        A = -sym(b * b.transpose() + .1 * MatrixXd::Identity(n, n));
      }
      break;
    case 2:
      *kind = "indefinite";
      A = sym(r->matrix(n, n));
      break;
    case 3:
      *kind = "quasidefinite";
      {
        int p = r->range(0, n);
        MatrixXd b = r->matrix(n, n), d = sym(b * b.transpose() + MatrixXd::Identity(n, n));
        A = sym(r->matrix(n, n));
        A.topLeftCorner(p, p) = d.topLeftCorner(p, p);
        A.bottomRightCorner(n - p, n - p) = -d.bottomRightCorner(n - p, n - p);
      }
      break;
    case 4:
      *kind = "saddle";
      {
        int p = r->range((n + 1) / 2, n);
        MatrixXd b = r->matrix(p, p);
        A.topLeftCorner(p, p) = sym(b * b.transpose() + MatrixXd::Identity(p, p));
        A.bottomLeftCorner(n - p, p) = r->matrix(n - p, p);
        A.topRightCorner(p, n - p) = A.bottomLeftCorner(n - p, p).transpose();
      }
      break;
    case 5:
      *kind = "lowrank";
      {
        MatrixXd b = r->matrix(n, r->range(0, n));
        A = sym(b * b.transpose());
      }
      break;
    case 6:
      *kind = "zero";
      break;
    case 7:
      *kind = "diagonal";
      for (int i = 0; i < n; i++) A(i, i) = r->chance(.3) ? 0 : r->normal();
      break;
    case 8:
      *kind = "tiny";
      A = sym(r->matrix(n, n)) * std::pow(10, -r->uniform(6, 14));
      break;
    default:
      *kind = "integer";
      for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = r->range(-2, 2);
  }
  if (r->chance(.15)) A *= std::pow(10, r->uniform(-5, 5));
  if (r->chance(.2)) {
    VectorXd d(n);
    for (int i = 0; i < n; i++) d(i) = std::pow(10, r->uniform(-2, 2));
    A = sym(d.asDiagonal() * A * d.asDiagonal());
  }
  return A;
}

template <int UpLo, typename Factor>
void Judge(Ctx& c, const MatrixXd& A, const Factor& f, const std::string& kind, int* regularised) {
  int n = A.rows();
  std::string what = kind + " " + Str(A);
  if (!c.Check(f.rows() == n && f.cols() == n, "size", "factor has the wrong size")) return;
  if (!c.Check(f.info() == Eigen::Success, "info", "factorisation does not report success: " + what)) return;
  MatrixXd L = f.matrixL(), U = f.matrixU();
  VectorXd D = f.vectorD();
  if (!c.Check(L.allFinite() && D.allFinite(), "finite", "factors are not finite: " + what)) return;
  c.Check((L - MatrixXd(U.transpose())).norm() == 0, "transpose", "L and U are not transposes: " + what);
  MatrixXd P = MatrixXd::Identity(n, n);
  P = f.transpositionsP() * P;
  const double eps = 2.3e-16, reg = 1e-9;
  // P A P' + diag(delta) = L D L' to rounding, |delta| <= reg, and delta != 0
  // only where the pivot was replaced.
  MatrixXd PAP = P * A * P.transpose();
  MatrixXd R = L * D.asDiagonal() * L.transpose() - PAP;
  MatrixXd bound = L.cwiseAbs() * D.cwiseAbs().asDiagonal() * L.cwiseAbs().transpose() + PAP.cwiseAbs();
  bool any = false;
  double worst = 0;
  for (int k = 0; k < n; k++) {
    bool replaced = std::fabs(std::fabs(D(k)) - reg) < 1e-24;
    any |= replaced;
    c.Check(std::fabs(D(k)) >= reg * (1 - 1e-12), "pivot", Fmt("pivot %.3g is below the regularisation: ", D(k)) + what);
    for (int j = 0; j < n; j++) {
      double tol = 4 * (n + 2) * eps * bound(k, j) + 1e-300;
      double allowed = k == j && replaced ? 1.000001 * reg : 0;
      worst = std::max(worst, (std::fabs(R(k, j)) - allowed) / tol);
      c.Check(std::fabs(R(k, j)) <= allowed + tol, "reproduce", Fmt("L D L' misses the matrix by %.3g at (%d,%d) (%s): ", R(k, j), k, j, replaced ? "regularised" : "exact") + what);
    }
  }
  c.Max("reproduction_error_over_rounding", worst);
  c.Check(any || !f.regularization_used(), "reported:spurious", "regularisation is reported but no pivot was replaced: " + what);
  c.Check(!any || f.regularization_used(), "reported:missing", "a pivot was replaced without being reported: " + what);
  *regularised = any;
  c.Count(any ? "regularised_factorisations" : "exact_factorisations");
  // Sign of the matrix by inertia.
  bool pos = n == 0 || D.minCoeff() > 0, neg = n == 0 || D.maxCoeff() < 0;
  c.Check(f.isPositive() == pos, "positive", Fmt("isPositive() is %d but the smallest pivot is %.3g: ", f.isPositive(), n ? D.minCoeff() : 0) + what);
  c.Check(f.isNegative() == neg, "negative", Fmt("isNegative() is %d but the largest pivot is %.3g: ", f.isNegative(), n ? D.maxCoeff() : 0) + what);
  if (n && !any && bound.maxCoeff() < 1e6 * A.cwiseAbs().maxCoeff()) {
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(A, Eigen::EigenvaluesOnly);
    double big = es.eigenvalues().cwiseAbs().maxCoeff(), small = es.eigenvalues().cwiseAbs().minCoeff();
    if (small > 1e-7 * big) {
      int p = (es.eigenvalues().array() > 0).count(), q = (D.array() > 0).count();
      c.Check(p == q, "inertia", Fmt("%d positive pivots but %d positive eigenvalues: ", q, p) + what);
      c.Count("inertias_compared");
    }
  }
  MatrixXd rec = f.reconstructedMatrix();
  MatrixXd direct = P.transpose() * (L * D.asDiagonal() * L.transpose()) * P;
  MatrixXd tolm = P.transpose() * bound * P * (4 * (n + 2) * eps);
  if (n) c.Check(((rec - direct).cwiseAbs() - tolm).maxCoeff() <= 1e-300, "reconstruct", "reconstructedMatrix() differs from P'LDL'P: " + what);
  if (n == 0) return;
  // Solution of the reproduced system.
  int cols = c.rng.range(1, 3);
  MatrixXd B = c.rng.matrix(n, cols);
  MatrixXd X = f.solve(B);
  MatrixXd Z = B;
  f.solveInPlace(Z);
  c.Check((X - Z).norm() == 0 || !X.allFinite(), "solveinplace", "solveInPlace differs from solve: " + what);
  if (!c.Check(X.allFinite(), "solve:finite", "solution is not finite: " + what)) return;
  MatrixXd F = P * X;  // rows permuted
  MatrixXd absLDL = L.cwiseAbs() * D.cwiseAbs().asDiagonal() * L.cwiseAbs().transpose();
  MatrixXd res = L * (D.asDiagonal() * (L.transpose() * F)) - P * B;
  MatrixXd t = 8 * (n + 4) * eps * (absLDL * F.cwiseAbs() + (P * B).cwiseAbs());
  double w = ((res.cwiseAbs()).cwiseQuotient(t + MatrixXd::Constant(n, cols, 1e-300))).maxCoeff();
  c.Max("solve_error_over_rounding", w);
  c.Check(w <= 1, "solve", Fmt("solution leaves %.3g times the rounding bound: ", w) + what);
  c.Count("solves");
}

template <int UpLo>
void One(Ctx& c) {
  int n = c.rng.chance(.05) ? 0 : c.rng.range(1, c.rng.chance(.1) ? 30 : 8);
  std::string kind;
  MatrixXd A = RandomSymmetric(&c.rng, n, &kind);
  // The other triangle is never read.
  MatrixXd half = A;
  bool poison = c.rng.chance(.5);
  if (poison)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (UpLo == Eigen::Lower ? j > i : j < i) half(i, j) = 1e30;
  int reg = 0;
  if (c.rng.chance(.5)) {
    Eigen::RLDLT<MatrixXd, UpLo> f(half);
    Judge<UpLo>(c, A, f, kind, &reg);
    if (c.rng.chance(.3)) {
      // Recompute with another matrix.
      int n2 = c.rng.range(1, 8);
      std::string k2;
      MatrixXd A2 = RandomSymmetric(&c.rng, n2, &k2);
      f.compute(A2);
      int r2;
      Judge<UpLo>(c, A2, f, "recomputed " + k2, &r2);
    }
  } else {
    MatrixXd store = half;
    Eigen::Ref<MatrixXd> ref(store);
    Eigen::RLDLT<Eigen::Ref<MatrixXd>, UpLo> f(ref);
    // Judge through a copy of its factors (reconstructedMatrix needs storage).
    int rows = f.rows();
    c.Check(rows == n && f.matrixRLDLT().data() == store.data(), "inplace", "in-place factorisation does not use the given storage");
    Eigen::RLDLT<MatrixXd, UpLo> g(half);
    MatrixXd d1 = f.vectorD(), d2 = g.vectorD(), l1 = f.matrixL(), l2 = g.matrixL();
    c.Check(d1 == d2 && l1 == l2 && f.regularization_used() == g.regularization_used(), "inplace:same", "in-place factorisation differs: " + kind + " " + Str(A));
    Judge<UpLo>(c, A, g, kind, &reg);
  }
  c.Distinct(kind + Fmt("%d.%d.%d", n, reg, UpLo));
  if (c.index < 2) c.Sample(kind + Fmt(" n=%d regularised=%d ", n, reg) + Str(A));
}

template <int UpLo>
void RankUpdate(Ctx& c) {
  int n = c.rng.range(1, 8);
  MatrixXd b = c.rng.matrix(n, n), A = b * b.transpose() + MatrixXd::Identity(n, n);
  A = .5 * (A + A.transpose()).eval();
  Eigen::RLDLT<MatrixXd, UpLo> f(A);
  if (c.rng.chance(.3)) {  // rebuilt from nothing
    f.setZero();
    A.setZero();
  }
  std::vector<VectorXd> added;
  for (int k = 0; k < c.rng.range(1, 6); k++) {
    if (!added.empty() && A.norm() > 0 && c.rng.chance(.3) && k > n) {
      MatrixXd next = A - added.back() * added.back().transpose();
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(next, Eigen::EigenvaluesOnly);
      if (!(es.eigenvalues()(0) > 1e-3 * A.norm())) return;  // close to losing rank
      f.rankUpdate(added.back(), -1);
      A = next;
      added.pop_back();
    } else {
      VectorXd w = c.rng.vector(n);
      double s = .5 + c.rng.uniform();
      f.rankUpdate(w, s);
      A += s * w * w.transpose();
      added.push_back(std::sqrt(s) * w);
    }
    double e = (f.reconstructedMatrix() - A).cwiseAbs().maxCoeff() / A.cwiseAbs().maxCoeff();
    c.Max("rank_update_error", e);
    c.Check(e <= 1e-6, "rankupdate", Fmt("rank update is off by %.3g (order %d, update %d)", e, n, k));
    c.Count("rank_updates");
  }
  c.Distinct(Fmt("rank%d.%d", n, UpLo));
}

template <int UpLo>
void Rcond(Ctx& c) {
  int n = c.rng.range(1, 8);
  std::string kind;
  MatrixXd A = RandomSymmetric(&c.rng, n, &kind);
  Eigen::RLDLT<MatrixXd, UpLo> f(A);
  if (f.regularization_used() || A.norm() == 0) return;
  MatrixXd inv = A.inverse();
  auto n1 = [](const MatrixXd& m) { return m.cwiseAbs().colwise().sum().maxCoeff(); };
  double exact = 1 / (n1(A) * n1(inv)), est = f.rcond();
  if (!(exact > 1e-8)) return;
  MatrixXd D = f.vectorD(), L = f.matrixL();
  if (L.cwiseAbs().maxCoeff() > 1e3) return;
  c.Check(est >= exact * (1 - 1e-5) && est <= 100 * exact && est <= 1 + 1e-9, "rcond", Fmt("rcond() is %.3g, exactly %.3g: ", est, exact) + kind + Str(A));
  c.Max("rcond_ratio", est / exact);
  c.Count("condition_numbers");
  c.Distinct("rcond" + kind + Fmt("%d", n));
}
}  // namespace

int main(int argc, char** argv) {
  auto many = [](int k, std::function<void(Ctx&)> f) { return [=](Ctx& c) { for (int i = 0; i < k; i++) f(c); }; };
  std::vector<Scenario> s;
  s.push_back({"lower", 16000, 80000, many(20, One<Eigen::Lower>)});
  s.push_back({"upper", 8000, 20000, many(20, One<Eigen::Upper>)});
  s.push_back({"rank", 4000, 10000, many(10, [](Ctx& c) { c.rng.chance(.5) ? RankUpdate<Eigen::Lower>(c) : RankUpdate<Eigen::Upper>(c); })});
  s.push_back({"rcond", 4000, 10000, many(10, [](Ctx& c) { c.rng.chance(.5) ? Rcond<Eigen::Lower>(c) : Rcond<Eigen::Upper>(c); })});
  return Main(argc, argv, s);
}
