// Conic problems held independently of conex, a reference interior point method
// for them, and the translation into conex's C++ interface.
//
//   minimise    cost' y + 1/2 sum_k y_k' Q_k y_k
//   subject to  c_i - A_i y[vars_i]  in  K_i,     E_j y[vars_j] = f_j
#pragma once
#include "verif.h"

#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/jordan_matrix_algebra.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"

namespace verif {

enum ConeType { LIN, SOC, QUAD, EPI, LMI, HERM };

inline const char* ConeName(int t) {
  static const char* n[] = {"lin", "soc", "quad", "epi", "lmi", "herm"};
  return n[t];
}

// Structure constants of conex's hypercomplex units: e_a e_b = sign * e_k.
// (C07 decides whether these form a composition algebra.)
struct UnitTable {
  int idx[8][8];
  double sgn[8][8];
  UnitTable() {
    using T = conex::Octonions;
    for (int a = 0; a < 8; a++)
      for (int b = 0; b < 8; b++) {
        auto x = T::Zero(1, 1), y = T::Zero(1, 1);
        x.at(a)(0, 0) = 1;
        y.at(b)(0, 0) = 1;
        auto z = T::Multiply(x, y);
        idx[a][b] = 0;
        sgn[a][b] = 0;
        for (int k = 0; k < 8; k++)
          if (z.at(k)(0, 0) != 0) {
            idx[a][b] = k;
            sgn[a][b] = z.at(k)(0, 0);
          }
      }
  }
};
inline const UnitTable& Units() {
  static UnitTable t;
  return t;
}

using HMat = std::vector<MatrixXd>;  // hypercomplex matrix, d components

inline HMat HZero(int d, int n) { return HMat(d, MatrixXd::Zero(n, n)); }
inline HMat HAdd(const HMat& a, const HMat& b, double s = 1) {
  HMat r = a;
  for (size_t i = 0; i < r.size(); i++) r[i] += s * b[i];
  return r;
}
inline HMat HScale(const HMat& a, double s) {
  HMat r = a;
  for (auto& x : r) x *= s;
  return r;
}
inline double HInner(const HMat& a, const HMat& b) {
  double v = 0;
  for (size_t i = 0; i < a.size(); i++) v += a[i].cwiseProduct(b[i]).sum();
  return v;
}
inline HMat HRandom(Rng* r, int d, int n) {
  HMat h = HZero(d, n);
  for (int k = 0; k < d; k++) {
    MatrixXd m = r->matrix(n, n);
    h[k] = k == 0 ? MatrixXd(.5 * (m + m.transpose()))
                  : MatrixXd(.5 * (m - m.transpose()));
  }
  return h;
}
inline HMat HIdentity(int d, int n) {
  HMat h = HZero(d, n);
  h[0].setIdentity();
  return h;
}
inline conex::HyperComplexMatrix ToConex(const HMat& h) {
  conex::HyperComplexMatrix z(static_cast<int>(h.size()));
  for (size_t i = 0; i < h.size(); i++) z.at(i) = h[i];
  return z;
}
inline HMat FromConex(const conex::HyperComplexMatrix& z) {
  HMat h;
  for (size_t i = 0; i < z.size(); i++) h.push_back(z.at(i));
  return h;
}

// Real symmetric matrix of left multiplication (d = 1, 2, 4: every eigenvalue
// of the Hermitian matrix appears d times).
inline MatrixXd Embed(const HMat& h) {
  int d = h.size(), n = h[0].rows();
  if (h[0].cols() != n) throw std::logic_error("Embed of a matrix that is not square");
  if (d == 1) return h[0];
  const auto& u = Units();
  MatrixXd m = MatrixXd::Zero(d * n, d * n);
  for (int a = 0; a < d; a++)
    for (int b = 0; b < d; b++) {
      m.block(u.idx[a][b] * n, b * n, n, n) += u.sgn[a][b] * h[a];
    }
  return m;
}

// Octonions of order <= 3: determinant of the Jordan algebra.
inline double OctDet(const HMat& h) {
  int n = h[0].rows();
  auto entry = [&](int i, int j) {
    std::vector<double> v(8);
    for (int k = 0; k < 8; k++) v[k] = h[k](i, j);
    return v;
  };
  auto nrm = [](const std::vector<double>& v) {
    double s = 0;
    for (double x : v) s += x * x;
    return s;
  };
  if (n == 1) return h[0](0, 0);
  if (n == 2) return h[0](0, 0) * h[0](1, 1) - nrm(entry(0, 1));
  auto mul = [&](const std::vector<double>& x, const std::vector<double>& y) {
    const auto& u = Units();
    std::vector<double> z(8, 0.0);
    for (int a = 0; a < 8; a++)
      for (int b = 0; b < 8; b++) z[u.idx[a][b]] += u.sgn[a][b] * x[a] * y[b];
    return z;
  };
  // [ a  z  yb ; zb b x ; y xb c ]
  double a = h[0](0, 0), b = h[0](1, 1), c = h[0](2, 2);
  auto z = entry(0, 1), x = entry(1, 2), y = entry(2, 0);
  return a * b * c - a * nrm(x) - b * nrm(y) - c * nrm(z) +
         2 * mul(mul(z, x), y)[0];
}
// Eigenvalues (roots of the characteristic polynomial, all real).
inline VectorXd OctEigenvalues(const HMat& h) {
  int n = h[0].rows();
  double tr = h[0].trace();
  if (n == 1) return VectorXd::Constant(1, tr);
  if (n == 2) {
    double a = .5 * tr, q = .5 * (h[0](0, 0) - h[0](1, 1)), s = q * q;
    for (int k = 0; k < 8; k++) s += h[k](0, 1) * h[k](0, 1);
    VectorXd v(2);
    v << a - std::sqrt(s), a + std::sqrt(s);
    return v;
  }
  double t2 = HInner(h, h);
  // Shift to trace zero: eigenvalues e = t/3 + 2 r cos(theta).
  HMat g = h;
  g[0].diagonal().array() -= tr / 3;
  double p2 = HInner(g, g) / 6;  // sum of squares / 6
  if (p2 <= 1e-300 * (1 + t2)) return VectorXd::Constant(3, tr / 3);
  double r = std::sqrt(p2);
  double q = OctDet(HScale(g, 1 / r)) / 2;
  if (q > 1) q = 1;
  if (q < -1) q = -1;
  double th = std::acos(q) / 3;
  VectorXd v(3);
  v << tr / 3 + 2 * r * std::cos(th), tr / 3 + 2 * r * std::cos(th + 2 * M_PI / 3),
      tr / 3 + 2 * r * std::cos(th - 2 * M_PI / 3);
  std::sort(v.data(), v.data() + 3);
  return v;
}

struct Cone {
  ConeType type;
  std::vector<int> vars;
  bool all_vars = false;  // add through the overload without variables
  MatrixXd A;             // LIN, SOC, QUAD, EPI (first row: axis)
  VectorXd c;
  MatrixXd Q;             // QUAD metric (0 x 0: identity); EPI: quadratic form
  std::vector<HMat> H;    // LMI, HERM
  HMat HC;
  int d = 1;              // hypercomplex dimension

  int Order() const {
    return type == LMI || type == HERM ? HC[0].rows() : A.rows();
  }
  int Rank() const {
    if (type == LIN) return A.rows();
    if (type == LMI || type == HERM) return HC[0].rows();
    return 2;
  }
  VectorXd Sub(const VectorXd& y) const {
    VectorXd z(vars.size());
    for (size_t i = 0; i < vars.size(); i++) z(i) = y(vars[i]);
    return z;
  }
  MatrixXd Metric() const {
    int n = A.rows() - 1;
    if (type == SOC || Q.rows() == 0) return MatrixXd::Identity(n, n);
    return Q;
  }
  HMat SlackH(const VectorXd& y) const {
    HMat s = HC;
    for (size_t i = 0; i < H.size(); i++) s = HAdd(s, H[i], -y(vars[i]));
    return s;
  }
  VectorXd SlackV(const VectorXd& y) const { return c - A * Sub(y); }
  // Smallest eigenvalue of the slack; > 0 iff strictly inside the cone.
  double MinEig(const VectorXd& y) const {
    if (type == LIN) return SlackV(y).minCoeff();
    if (type == LMI || type == HERM) {
      HMat s = SlackH(y);
      if (d == 8) return OctEigenvalues(s)(0);
      Eigen::SelfAdjointEigenSolver<MatrixXd> e(Embed(s), Eigen::EigenvaluesOnly);
      return e.eigenvalues()(0);
    }
    VectorXd s = SlackV(y);
    VectorXd t = s.tail(s.rows() - 1);
    double q = t.dot(Metric() * t);
    return s(0) - std::sqrt(q > 0 ? q : 0);
  }
  // -log det of the slack with gradient and Hessian in the cone's variables.
  bool Barrier(const VectorXd& y, double* f, VectorXd* g, MatrixXd* h) const {
    int k = vars.size();
    g->setZero(k);
    h->setZero(k, k);
    if (type == LIN) {
      VectorXd s = SlackV(y);
      if (!(s.minCoeff() > 0)) return false;
      *f = -s.array().log().sum();
      VectorXd si = s.cwiseInverse();
      *g = A.transpose() * si;
      MatrixXd B = si.asDiagonal() * A;
      *h = B.transpose() * B;
      return true;
    }
    if (type == SOC || type == QUAD || type == EPI) {
      VectorXd s = SlackV(y);
      int n = s.rows() - 1;
      VectorXd Js(n + 1);
      Js(0) = s(0);
      MatrixXd M = Metric();
      Js.tail(n) = -(M * s.tail(n));
      double q = s.dot(Js);
      if (!(q > 0) || !(s(0) > 0)) return false;
      *f = -std::log(q);
      // grad wrt s: -2 Js / q ; hess: -2 J/q + 4 Js Js'/q^2 ; ds = -A dy
      VectorXd a = A.transpose() * Js;
      *g = 2 * a / q;
      MatrixXd JA = A;
      JA.bottomRows(n) = -(M * A.bottomRows(n));
      *h = -2 / q * (A.transpose() * JA) + 4 / (q * q) * a * a.transpose();
      return true;
    }
    HMat s = SlackH(y);
    if (d == 8) {
      if (!(OctEigenvalues(s)(0) > 0)) return false;
      double det = OctDet(s);
      int n = s[0].rows();
      *f = -std::log(det);
      // det is a polynomial of degree n: exact derivatives by polarisation.
      VectorXd d1(k);
      MatrixXd d2 = MatrixXd::Zero(k, k);
      auto D = [&](const HMat& x) { return OctDet(x); };
      for (int i = 0; i < k; i++) {
        HMat X = HScale(H[i], -1);
        double p = D(HAdd(s, X)), m = D(HAdd(s, X, -1));
        d1(i) = (p - m) / 2 - (n == 3 ? D(X) : 0);
        for (int j = 0; j <= i; j++) {
          HMat Y = HScale(H[j], -1);
          if (n == 1) continue;
          if (n == 2) {
            d2(i, j) = D(HAdd(X, Y)) - D(X) - D(Y);
          } else {
            d2(i, j) = D(HAdd(HAdd(s, X), Y)) - D(HAdd(s, X)) - D(HAdd(s, Y)) -
                       D(HAdd(X, Y)) + D(s) + D(X) + D(Y);
          }
          d2(j, i) = d2(i, j);
        }
      }
      *g = -d1 / det;
      *h = -d2 / det + d1 * d1.transpose() / (det * det);
      return true;
    }
    MatrixXd S = Embed(s);
    Eigen::LLT<MatrixXd> llt(S);
    if (llt.info() != Eigen::Success) return false;
    double w = 1.0 / d;
    double ld = 0;
    for (int i = 0; i < S.rows(); i++) {
      double v = llt.matrixLLT()(i, i);
      if (!(v > 0)) return false;
      ld += 2 * std::log(v);
    }
    *f = -w * ld;
    MatrixXd Si = llt.solve(MatrixXd::Identity(S.rows(), S.rows()));
    std::vector<MatrixXd> SA(k);
    for (int i = 0; i < k; i++) {
      SA[i] = Si * Embed(H[i]);
      (*g)(i) = w * SA[i].trace();
    }
    for (int i = 0; i < k; i++)
      for (int j = 0; j <= i; j++) {
        double v = w * SA[i].cwiseProduct(SA[j].transpose()).sum();
        (*h)(i, j) = v;
        (*h)(j, i) = v;
      }
    return true;
  }
  // Size of the data, for relative tolerances.
  double Scale() const {
    double v = 1;
    if (type == LMI || type == HERM) {
      v = std::max(v, std::sqrt(HInner(HC, HC)));
      for (auto& a : H) v = std::max(v, std::sqrt(HInner(a, a)));
    } else {
      v = std::max(std::max(v, A.norm()), c.norm());
    }
    return v;
  }
};

struct Quad {
  MatrixXd Q;
  std::vector<int> vars;
};
struct Equality {
  MatrixXd E;
  VectorXd f;
  std::vector<int> vars;
  bool all_vars = false;
};

struct Problem {
  int m = 0;
  std::vector<Cone> cones;
  std::vector<Equality> eqs;
  std::vector<Quad> quads;
  VectorXd cost;   // minimise cost' y + ...
  VectorXd y_feas; // strictly feasible

  int Rank() const {
    int r = 0;
    for (auto& c : cones) r += c.Rank();
    return r;
  }
  MatrixXd QTotal() const {
    MatrixXd q = MatrixXd::Zero(m, m);
    for (auto& k : quads)
      for (size_t i = 0; i < k.vars.size(); i++)
        for (size_t j = 0; j < k.vars.size(); j++)
          q(k.vars[i], k.vars[j]) += k.Q(i, j);
    return q;
  }
  double Objective(const VectorXd& y) const {
    return cost.dot(y) + .5 * y.dot(QTotal() * y);
  }
  double MinEig(const VectorXd& y) const {
    double v = 1e300;
    for (auto& c : cones) v = std::min(v, c.MinEig(y) / c.Scale());
    return v;
  }
  double EqResidual(const VectorXd& y) const {
    double v = 0;
    for (auto& e : eqs) {
      VectorXd z(e.vars.size());
      for (size_t i = 0; i < e.vars.size(); i++) z(i) = y(e.vars[i]);
      v = std::max(v, (e.E * z - e.f).cwiseAbs().maxCoeff() /
                          (1 + e.E.norm() + e.f.norm()));
    }
    return v;
  }
  bool Barrier(const VectorXd& y, double* f, VectorXd* g, MatrixXd* h) const {
    *f = 0;
    g->setZero(m);
    h->setZero(m, m);
    for (auto& c : cones) {
      double fi;
      VectorXd gi;
      MatrixXd hi;
      if (!c.Barrier(y, &fi, &gi, &hi)) return false;
      *f += fi;
      for (size_t i = 0; i < c.vars.size(); i++) {
        (*g)(c.vars[i]) += gi(i);
        for (size_t j = 0; j < c.vars.size(); j++)
          (*h)(c.vars[i], c.vars[j]) += hi(i, j);
      }
    }
    return std::isfinite(*f);
  }
  MatrixXd EqMatrix(VectorXd* f) const {
    int r = 0;
    for (auto& e : eqs) r += e.E.rows();
    MatrixXd E = MatrixXd::Zero(r, m);
    f->resize(r);
    r = 0;
    for (auto& e : eqs) {
      for (size_t j = 0; j < e.vars.size(); j++)
        for (int i = 0; i < e.E.rows(); i++) E(r + i, e.vars[j]) += e.E(i, j);
      f->segment(r, e.E.rows()) = e.f;
      r += e.E.rows();
    }
    return E;
  }
};

struct RefResult {
  bool ok = false;
  VectorXd y;       // point of the central path at mu
  double decrement = 1e300;
  MatrixXd H;       // barrier Hessian (metric) at y
};

// Point of the central path: argmin (cost'y + q(y)) / mu + barrier(y).
// Damped Newton from a strictly feasible point, following mu downwards.
inline RefResult CentralPath(const Problem& p, double mu_target,
                             const VectorXd* start = nullptr,
                             double mu_start = -1) {
  RefResult r;
  VectorXd y = start ? *start : p.y_feas;
  VectorXd fe;
  MatrixXd E = p.EqMatrix(&fe);
  MatrixXd N = MatrixXd::Identity(p.m, p.m);
  if (E.rows() > 0) {
    Eigen::JacobiSVD<MatrixXd> svd(E, Eigen::ComputeFullV);
    double tol = 1e-10 * std::max(1.0, svd.singularValues()(0));
    int rk = 0;
    for (int i = 0; i < svd.singularValues().rows(); i++)
      rk += svd.singularValues()(i) > tol;
    N = svd.matrixV().rightCols(p.m - rk);
  }
  MatrixXd Q = p.QTotal();
  double f;
  VectorXd g;
  MatrixXd h;
  if (!p.Barrier(y, &f, &g, &h)) return r;
  double mu = mu_start;
  if (mu <= 0) {
    // Start where cost and barrier gradients balance.
    double a = (N.transpose() * (p.cost + Q * y)).norm();
    double b = (N.transpose() * g).norm();
    mu = std::max(mu_target, std::min(1e8, a / (b + 1e-12) + 1e-12));
  }
  for (int outer = 0; outer < 400; outer++) {
    bool last = mu <= mu_target * (1 + 1e-12);
    double prev = 1e300;
    for (int it = 0; it < 200; it++) {
      if (!p.Barrier(y, &f, &g, &h)) return r;
      VectorXd grad = N.transpose() * ((p.cost + Q * y) / mu + g);
      MatrixXd Hn = N.transpose() * (Q / mu + h) * N;
      VectorXd step;
      if (N.cols() == 0) {
        r.ok = true;
        r.y = y;
        r.H = h;
        r.decrement = 0;
        return r;
      }
      // Jacobi scaling keeps the factorisation usable close to the boundary.
      VectorXd dg = Hn.diagonal().cwiseAbs().cwiseSqrt();
      for (int i = 0; i < dg.rows(); i++) dg(i) = dg(i) > 0 ? 1 / dg(i) : 1;
      MatrixXd Hs = dg.asDiagonal() * Hn * dg.asDiagonal();
      step = -(dg.asDiagonal() * Hs.ldlt().solve(dg.asDiagonal() * grad)).eval();
      double dec2 = -grad.dot(step);
      if (!std::isfinite(dec2)) return r;
      double dec = std::sqrt(std::fabs(dec2));
      r.decrement = dec;
      if (dec < (last ? 1e-9 : 1e-2)) break;
      if (last && dec < 1e-5 && dec >= .5 * prev) break;
      prev = dec;
      double t = dec < .25 ? 1.0 : 1.0 / (1 + dec);
      VectorXd dy = N * step;
      double f2;
      VectorXd g2;
      MatrixXd h2;
      // Self-concordance makes the damped step feasible; long steps first.
      for (double tl = std::max(t, std::min(1.0, 4 * t));; tl *= .5) {
        VectorXd yn = y + tl * dy;
        if (p.Barrier(yn, &f2, &g2, &h2)) {
          double merit0 = (p.cost.dot(y) + .5 * y.dot(Q * y)) / mu + f;
          double merit1 = (p.cost.dot(yn) + .5 * yn.dot(Q * yn)) / mu + f2;
          if (tl <= t || merit1 <= merit0 - .1 * tl * dec2) {
            y = yn;
            break;
          }
        }
        if (tl < 1e-12) return r;
      }
    }
    if (r.decrement > 1e-2 && last) return r;
    if (last) break;
    mu = std::max(mu_target, mu * .15);
  }
  if (!p.Barrier(y, &f, &g, &h)) return r;
  r.ok = r.decrement < 1e-4;
  r.y = y;
  r.H = h;
  return r;
}

// ---------------------------------------------------------------------------
// Translation into conex.

inline void AddConeTo(conex::Program* prog, const Cone& c, bool* failed) {
  using namespace conex;
  auto add = [&](auto&& obj) {
    bool r = c.all_vars ? prog->AddConstraint(obj) : prog->AddConstraint(obj, c.vars);
    if (r) *failed = true;
  };
  if (c.type == LIN) {
    add(LinearConstraint(c.A, MatrixXd(c.c)));
  } else if (c.type == SOC) {
    add(SOCConstraint(MatrixXd(c.A), MatrixXd(c.c)));
  } else if (c.type == QUAD) {
    if (c.Q.rows()) {
      add(QuadraticConstraint(c.Q, MatrixXd(c.A), MatrixXd(c.c)));
    } else {
      add(QuadraticConstraint(MatrixXd(c.A), MatrixXd(c.c)));
    }
  } else if (c.type == EPI) {
    add(QuadraticEpigraph(c.Q.bottomRightCorner(c.Q.rows() - 1, c.Q.rows() - 1)));
  } else if (c.type == LMI) {
    std::vector<MatrixXd> a;
    for (auto& h : c.H) a.push_back(h[0]);
    add(DenseLMIConstraint(a, c.HC[0]));
  } else {
    std::vector<HyperComplexMatrix> a;
    for (auto& h : c.H) a.push_back(ToConex(h));
    auto cc = ToConex(c.HC);
    int n = c.HC[0].rows();
    if (c.d == 1) add(HermitianPsdConstraint<Real>(n, a, cc));
    if (c.d == 2) add(HermitianPsdConstraint<Complex>(n, a, cc));
    if (c.d == 4) add(HermitianPsdConstraint<Quaternions>(n, a, cc));
    if (c.d == 8) add(HermitianPsdConstraint<Octonions>(n, a, cc));
  }
}
inline bool BuildInto(conex::Program* prog, const Problem& p) {
  bool failed = false;
  for (auto& c : p.cones) AddConeTo(prog, c, &failed);
  for (auto& e : p.eqs) {
    bool r = e.all_vars
                 ? prog->AddConstraint(conex::EqualityConstraints(e.E, e.f))
                 : prog->AddConstraint(conex::EqualityConstraints(e.E, e.f), e.vars);
    if (r) failed = true;
  }
  for (auto& q : p.quads) prog->AddQuadraticCost(q.Q, q.vars);
  prog->AddLinearCost(p.cost);
  return !failed;
}

// ---------------------------------------------------------------------------
// Random problems with strictly feasible primal and dual.

struct GenOptions {
  int max_m = 8;
  bool lin = true, soc = true, quad = true, epi = false, lmi = true, herm = true;
  bool oct = true;
  bool sparse = true;
  bool wide_scale = true;
  bool equality = false;
  bool quadratic_cost = false;
  bool dual_only = false;  // only cones whose dual variable is exposed
  int max_cones = 3;
  bool structured = false;  // block-diagonal, diagonal, sparse, integer data
};

// Zeroes the entries outside of random diagonal blocks.
inline std::vector<int> RandomBlocks(Rng* r, int n) {
  std::vector<int> b(n);
  int k = r->range(1, n);
  for (auto& i : b) i = r->range(0, k - 1);
  if (r->chance(.4))
    for (int i = 0; i < n; i++) b[i] = i;
  return b;
}
inline void KeepBlocks(const std::vector<int>& b, HMat* h) {
  for (auto& x : *h)
    for (int i = 0; i < x.rows(); i++)
      for (int j = 0; j < x.cols(); j++)
        if (b[i] != b[j]) x(i, j) = 0;
}

inline HMat HInterior(Rng* r, int d, int n, double spread) {
  // exp-like positive element: (X + alpha I)^2 scaled
  HMat x = HRandom(r, d, n);
  // Smallest eigenvalue by norm bound.
  double nx = std::sqrt(HInner(x, x));
  HMat s = HScale(HIdentity(d, n), nx + spread * (0.2 + r->uniform()));
  return HAdd(s, x);
}

inline void Sparsify(Rng* r, MatrixXd* a) {
  bool integer = r->chance(.5);
  double zero = r->uniform(0, .7);
  for (int i = 0; i < a->rows(); i++)
    for (int j = 0; j < a->cols(); j++) {
      if (integer) (*a)(i, j) = r->range(-2, 2);
      if (r->chance(zero)) (*a)(i, j) = 0;
    }
}

// A random cone over the given variables with slack s0 interior at y, and a
// random interior dual element whose adjoint image is accumulated into Atx.
inline Cone RandomCone(Rng* r, ConeType t, const std::vector<int>& vars,
                       const VectorXd& y, VectorXd* Atx, double sc_a,
                       double sc_s, int hyper_d, int order = -1,
                       bool structured = false) {
  Cone c;
  c.type = t;
  c.vars = vars;
  int k = vars.size();
  VectorXd z = c.Sub(y);
  if (t == LIN) {
    int n = order > 0 ? order : r->range(std::max(1, k), 2 * k + 3);
    c.A = sc_a * r->matrix(n, k);
    if (structured) Sparsify(r, &c.A);
    VectorXd s(n), x(n);
    for (int i = 0; i < n; i++) {
      s(i) = sc_s * (.05 + std::fabs(r->normal()));
      x(i) = .05 + std::fabs(r->normal());
    }
    c.c = c.A * z + s;
    VectorXd a = c.A.transpose() * x;
    for (int i = 0; i < k; i++) (*Atx)(vars[i]) += a(i);
  } else if (t == SOC || t == QUAD) {
    int n = order > 0 ? order : r->range(0, k + 2);
    c.A = sc_a * r->matrix(n + 1, k);
    VectorXd s = r->vector(n + 1), x = r->vector(n + 1);
    if (structured) {
      Sparsify(r, &c.A);
      if (r->chance(.3)) s.tail(n).setZero();
      if (r->chance(.3)) x.tail(n).setZero();
    }
    if (t == QUAD && n > 0 && r->chance(.7)) {
      MatrixXd b = r->matrix(n, n);
      c.Q = b * b.transpose() / n + (.1 + r->uniform()) * MatrixXd::Identity(n, n);
    }
    MatrixXd M = c.Metric();
    s *= sc_s;
    s(0) = std::sqrt(s.tail(n).dot(M * s.tail(n))) + sc_s * (.05 + r->uniform());
    x(0) = (n > 0 ? std::sqrt(x.tail(n).dot(M.llt().solve(x.tail(n)))) : 0) + .05 + r->uniform();
    c.c = c.A * z + s;
    VectorXd a = c.A.transpose() * x;
    for (int i = 0; i < k; i++) (*Atx)(vars[i]) += a(i);
  } else if (t == EPI) {
    // vars = (z, t) : t >= 1/2 z'Qz ; y must satisfy it (caller arranges).
    int n = k - 1;
    MatrixXd b = r->matrix(n, n);
    MatrixXd Qi = b * b.transpose() / n + .1 * MatrixXd::Identity(n, n);
    c.Q = MatrixXd::Zero(n + 1, n + 1);
    c.Q(0, 0) = 1;
    c.Q.bottomRightCorner(n, n) = Qi;
    c.A = MatrixXd::Zero(n + 2, n + 1);
    c.A(0, n) = -.5;
    c.A(1, n) = -.5;
    c.A.bottomLeftCorner(n, n).setIdentity();
    c.c = VectorXd::Zero(n + 2);
    c.c(0) = 1;
    c.c(1) = -1;
    // dual interior: (p, q, w) -> gradient of  tau*(1/2 z'Qz - t) style
    VectorXd w = r->vector(n);
    double tau = .3 + r->uniform();
    for (int i = 0; i < n; i++) (*Atx)(vars[i]) += tau * w(i);
    (*Atx)(vars[n]) += -tau;
  } else {
    c.d = t == LMI ? 1 : hyper_d;
    int n = order > 0 ? order : r->range(1, c.d == 8 ? 3 : (c.d == 4 ? 4 : 6));
    for (int i = 0; i < k; i++) c.H.push_back(HScale(HRandom(r, c.d, n), sc_a));
    HMat s = HScale(HInterior(r, c.d, n, 1), sc_s / (1.0 + n));
    HMat x = HScale(HInterior(r, c.d, n, 1), 1.0 / (1 + n));
    if (structured) {
      auto blocks = RandomBlocks(r, n);
      for (auto& h : c.H) KeepBlocks(blocks, &h);
      KeepBlocks(blocks, &s);
      KeepBlocks(blocks, &x);
      if (r->chance(.3))
        for (auto& h : c.H)
          for (auto& e : h)
            for (int i = 0; i < n; i++)
              for (int j = 0; j < i; j++)
                if (r->chance(.5)) e(i, j) = e(j, i) = 0;
      if (r->chance(.3)) {
        s = HZero(c.d, n);
        for (int i = 0; i < n; i++) s[0](i, i) = sc_s * (r->chance(.5) ? 1 : .2 + r->uniform());
      }
    }
    c.HC = s;
    for (int i = 0; i < k; i++) {
      c.HC = HAdd(c.HC, c.H[i], z(i));
      (*Atx)(vars[i]) += HInner(c.H[i], x);
    }
  }
  return c;
}

inline int HyperDim(Rng* r, bool oct) {
  int k = r->range(0, oct ? 3 : 2);
  return 1 << k;
}

inline Problem RandomProblem(Rng* r, const GenOptions& o) {
  for (int attempt = 0;; attempt++) {
    Problem p;
    p.m = r->range(1, o.max_m);
    if (o.epi && p.m < 2) p.m = 2;
    double sa = 1, ss = 1, sy = 1;
    if (o.wide_scale && r->chance(.5)) {
      sa = std::pow(10, r->uniform(-1, 1));
      ss = std::pow(10, r->uniform(-1, 1));
      sy = std::pow(10, r->uniform(-1, 1));
    }
    p.y_feas = sy * r->vector(p.m);
    VectorXd atx = VectorXd::Zero(p.m);
    std::vector<ConeType> types;
    if (o.lin) types.push_back(LIN);
    if (o.soc && !o.dual_only) types.push_back(SOC);
    if (o.quad && !o.dual_only) types.push_back(QUAD);
    if (o.lmi) types.push_back(LMI);
    if (o.herm) types.push_back(HERM);
    int nc = r->range(1, o.max_cones);
    bool sparse = o.sparse && p.m >= 3 && r->chance(.5);
    if (sparse) nc += 2;
    std::vector<bool> covered(p.m, false);
    for (int i = 0; i < nc; i++) {
      ConeType t = types[r->range(0, types.size() - 1)];
      std::vector<int> vars;
      bool all = false;
      if (sparse) {
        vars = r->subset(p.m, r->range(1, p.m));
      } else {
        for (int j = 0; j < p.m; j++) vars.push_back(j);
        all = r->chance(.5);
        if (!all && r->chance(.5)) r->shuffle(&vars);
      }
      Cone c = RandomCone(r, t, vars, p.y_feas, &atx, sa, ss, HyperDim(r, o.oct), -1, o.structured && r->chance(.8));
      c.all_vars = all;
      p.cones.push_back(c);
    }
    if (o.epi) {
      auto vars = r->subset(p.m, r->range(2, p.m));
      // Make y feasible for the epigraph by moving t, then fix affine terms of
      // the cones generated before: simplest is to generate it over fresh y.
      Problem q;
      Cone c = RandomCone(r, EPI, vars, p.y_feas, &atx, 1, 1, 1);
      VectorXd z = c.Sub(p.y_feas);
      int n = vars.size() - 1;
      double need = .5 * z.head(n).dot(c.Q.bottomRightCorner(n, n) * z.head(n));
      double tnew = need + .1 + r->uniform();
      double delta = tnew - p.y_feas(vars[n]);
      // Shift: every earlier cone gets c += A_t * delta so that slack is kept.
      for (auto& e : p.cones)
        for (size_t j = 0; j < e.vars.size(); j++)
          if (e.vars[j] == vars[n]) {
            if (e.type == LMI || e.type == HERM) e.HC = HAdd(e.HC, e.H[j], delta);
            else e.c += delta * e.A.col(j);
          }
      p.y_feas(vars[n]) = tnew;
      p.cones.push_back(c);
    }
    VectorXd b = atx;
    if (o.quadratic_cost) {
      int nq = r->range(1, 2);
      for (int i = 0; i < nq; i++) {
        Quad q;
        q.vars = r->chance(.5) ? r->subset(p.m, r->range(1, p.m)) : r->subset(p.m, p.m);
        int k = q.vars.size();
        MatrixXd bm = r->matrix(k, r->chance(.3) && k > 1 ? k - 1 : k);
        q.Q = bm * bm.transpose();
        q.Q = .5 * (q.Q + q.Q.transpose()).eval();
        p.quads.push_back(q);
      }
    }
    if (o.equality && p.m >= 2) {
      int ne = r->range(1, std::min(2, p.m - 1)), total = 0;
      for (int i = 0; i < ne; i++) {
        Equality e;
        int k = r->range(1, p.m);
        e.vars = r->subset(p.m, k);
        int rows = r->range(1, std::max(1, std::min(k - 1, p.m - 1 - total)));
        if (total + rows > p.m - 1) break;
        total += rows;
        e.E = r->matrix(rows, k);
        for (int j = 0; j < rows; j++)
          if (e.E.row(j).norm() < .3) e.E(j, r->range(0, k - 1)) += r->chance(.5) ? 1 : -1;
        VectorXd z(k);
        for (int j = 0; j < k; j++) z(j) = p.y_feas(e.vars[j]);
        e.f = e.E * z;
        if (k == p.m && r->chance(.5)) {
          e.all_vars = true;
          for (int j = 0; j < k; j++) e.vars[j] = j;
          for (int j = 0; j < k; j++) z(j) = p.y_feas(j);
          e.f = e.E * z;
        }
        VectorXd l = e.E.transpose() * r->vector(rows);
        for (int j = 0; j < k; j++) b(e.vars[j]) += l(j);
        p.eqs.push_back(e);
      }
    }
    p.cost = -b;
    double f;
    VectorXd g;
    MatrixXd h;
    if (!p.Barrier(p.y_feas, &f, &g, &h)) continue;
    // Well-posed: the Hessian must be comfortably nonsingular.
    VectorXd dg = h.diagonal().cwiseSqrt();
    if (!(dg.minCoeff() > 0)) continue;
    MatrixXd hs = dg.cwiseInverse().asDiagonal() * h * dg.cwiseInverse().asDiagonal();
    Eigen::SelfAdjointEigenSolver<MatrixXd> e(hs, Eigen::EigenvaluesOnly);
    if (e.eigenvalues()(0) < 1e-4) continue;
    if (p.eqs.size()) {
      VectorXd fe;
      MatrixXd E = p.EqMatrix(&fe);
      Eigen::JacobiSVD<MatrixXd> svd(E);
      if (svd.singularValues()(svd.singularValues().rows() - 1) <
          1e-2 * svd.singularValues()(0))
        continue;
    }
    return p;
  }
}

inline std::string Describe(const Problem& p) {
  std::string s = Fmt("m=%d rank=%d cones=", p.m, p.Rank());
  for (auto& c : p.cones)
    s += Fmt("%s%s(n=%d,k=%d)", ConeName(c.type),
             c.type == HERM ? Fmt("%d", c.d).c_str() : "", c.Order(),
             (int)c.vars.size());
  if (p.eqs.size()) s += Fmt(" eqs=%d", (int)p.eqs.size());
  if (p.quads.size()) s += Fmt(" quads=%d", (int)p.quads.size());
  return s;
}
inline std::string Signature(const Problem& p) {
  std::string s = Fmt("m%d", p.m);
  for (auto& c : p.cones)
    s += Fmt("|%s%d.%d.%d", ConeName(c.type), c.d, c.Order(), (int)c.vars.size());
  for (auto& e : p.eqs) s += Fmt("|eq%d.%d", (int)e.E.rows(), (int)e.vars.size());
  for (auto& q : p.quads) s += Fmt("|q%d", (int)q.vars.size());
  return s;
}

}  // namespace verif
