// One constraint object of each kind driven through the operators the solver
// uses, next to a model of the same cone in long hand (Jordan algebra elements
// as vectors or hypercomplex matrices).
#pragma once
#include "problem.h"

namespace verif {

inline HMat HMul(const HMat& x, const HMat& y) {
  const auto& u = Units();
  int d = x.size();
  HMat z(d, MatrixXd::Zero(x[0].rows(), y[0].cols()));
  for (int a = 0; a < d; a++)
    for (int b = 0; b < d; b++) z[u.idx[a][b]] += u.sgn[a][b] * x[a] * y[b];
  return z;
}
inline HMat HJordan(const HMat& x, const HMat& y) {
  return HScale(HAdd(HMul(x, y), HMul(y, x)), .5);
}
inline HMat HSym(const HMat& x) {
  HMat r = x;
  for (size_t k = 0; k < x.size(); k++)
    r[k] = k == 0 ? MatrixXd(.5 * (x[k] + x[k].transpose()))
                  : MatrixXd(.5 * (x[k] - x[k].transpose()));
  return r;
}
inline HMat UnEmbed(const MatrixXd& m, int d) {
  int n = m.rows() / d;
  HMat h;
  for (int a = 0; a < d; a++) h.push_back(m.block(a * n, 0, n, n));
  return h;
}

enum RigType { R_LIN, R_SOC, R_QUAD, R_EPI, R_LMI, R_HERM };
inline const char* RigName(int t) {
  static const char* n[] = {"linear", "lorentz", "quadratic", "epigraph", "lmi", "hermitian"};
  return n[t];
}

// An element: v for vector cones, h for matrix cones.
struct Elem {
  VectorXd v;
  HMat h;
};

struct Algebra {
  RigType type;
  int n = 0;   // length of the vector or order of the matrix
  int d = 1;
  MatrixXd M;  // metric of the spin factor

  bool Matrix() const { return type == R_LMI || type == R_HERM; }
  bool Spin() const { return type == R_SOC || type == R_QUAD || type == R_EPI; }
  int Rank() const { return Spin() ? 2 : n; }
  Elem Zero() const {
    Elem e;
    if (Matrix()) e.h = HZero(d, n);
    else e.v = VectorXd::Zero(n);
    return e;
  }
  Elem One() const {
    Elem e = Zero();
    if (Matrix()) e.h[0].setIdentity();
    else if (Spin()) e.v(0) = 1;
    else e.v.setOnes();
    return e;
  }
  Elem Add(const Elem& a, const Elem& b, double s = 1) const {
    Elem e = a;
    if (Matrix()) e.h = HAdd(a.h, b.h, s);
    else e.v += s * b.v;
    return e;
  }
  Elem Scale(const Elem& a, double s) const {
    Elem e = a;
    if (Matrix()) e.h = HScale(a.h, s);
    else e.v *= s;
    return e;
  }
  // Trace inner product of the algebra.
  double Inner(const Elem& a, const Elem& b) const {
    if (Matrix()) return HInner(a.h, b.h);
    if (!Spin()) return a.v.dot(b.v);
    return 2 * (a.v(0) * b.v(0) + a.v.tail(n - 1).dot(M * b.v.tail(n - 1)));
  }
  double Norm(const Elem& a) const { return std::sqrt(std::fabs(Inner(a, a))); }
  // Norm of the coordinates (the metric may be singular).
  double Size(const Elem& a) const { return Matrix() ? std::sqrt(HInner(a.h, a.h)) : a.v.norm(); }
  double Trace(const Elem& a) const {
    if (Matrix()) return a.h[0].trace();
    return Spin() ? 2 * a.v(0) : a.v.sum();
  }
  // Jordan product.
  Elem Dot(const Elem& a, const Elem& b) const {
    Elem e;
    if (Matrix()) {
      e.h = HJordan(a.h, b.h);
    } else if (Spin()) {
      e.v.resize(n);
      e.v(0) = .5 * Inner(a, b);
      e.v.tail(n - 1) = a.v(0) * b.v.tail(n - 1) + b.v(0) * a.v.tail(n - 1);
    } else {
      e.v = a.v.cwiseProduct(b.v);
    }
    return e;
  }
  // Quadratic representation from the Jordan product.
  Elem Quad(const Elem& a, const Elem& b) const {
    if (Matrix() && d <= 4) {
      Elem e;
      e.h = HMul(HMul(a.h, b.h), a.h);
      return e;
    }
    return Add(Scale(Dot(a, Dot(a, b)), 2), Dot(Dot(a, a), b), -1);
  }
  VectorXd Eigs(const Elem& a) const {
    if (Matrix()) {
      if (d == 8) return OctEigenvalues(a.h);
      Eigen::SelfAdjointEigenSolver<MatrixXd> e(Embed(HSym(a.h)), Eigen::EigenvaluesOnly);
      VectorXd v(n);
      for (int i = 0; i < n; i++) v(i) = e.eigenvalues()(i * d);
      return v;
    }
    if (Spin()) {
      double q = a.v.tail(n - 1).dot(M * a.v.tail(n - 1));
      double k = std::sqrt(q > 0 ? q : 0);
      VectorXd v(2);
      v << a.v(0) - k, a.v(0) + k;
      return v;
    }
    VectorXd v = a.v;
    std::sort(v.data(), v.data() + n);
    return v;
  }
  template <typename F>
  Elem Spectral(const Elem& a, F f) const {  // not for octonions
    Elem e = a;
    if (Matrix()) {
      Eigen::SelfAdjointEigenSolver<MatrixXd> s(Embed(HSym(a.h)));
      VectorXd fv = s.eigenvalues().unaryExpr(f);
      e.h = UnEmbed(s.eigenvectors() * fv.asDiagonal() * s.eigenvectors().transpose(), d);
    } else if (Spin()) {
      VectorXd ev = Eigs(a);
      double k = .5 * (ev(1) - ev(0));
      e.v(0) = .5 * (f(ev(0)) + f(ev(1)));
      if (k > 1e-150) e.v.tail(n - 1) *= .5 * (f(ev(1)) - f(ev(0))) / k;
    } else {
      e.v = a.v.unaryExpr(f);
    }
    return e;
  }
  Elem Sqrt(const Elem& a) const {
    if (!(Matrix() && d == 8)) return Spectral(a, [](double x) { return std::sqrt(x > 0 ? x : 0); });
    VectorXd l = Eigs(a).cwiseMax(0).cwiseSqrt();
    VectorXd l2 = Eigs(a);
    Elem one = One();
    Elem r = Scale(one, l(0));
    if (n > 1) {
      Elem t = Add(a, one, -l2(0));
      r = Add(r, t, 1 / (l(0) + l(1)));
      if (n > 2) {
        Elem t2 = Dot(t, Add(a, one, -l2(1)));
        r = Add(r, t2, -1 / ((l(0) + l(1)) * (l(1) + l(2)) * (l(0) + l(2))));
      }
    }
    return r;
  }
  Elem Exp(const Elem& a) const {
    if (!(Matrix() && d == 8)) return Spectral(a, [](double x) { return std::exp(x); });
    int k = 0;
    double s = Size(a);
    while (s > .25) s /= 2, k++;
    Elem x = Scale(a, std::pow(.5, k)), p = One(), r = One();
    for (int i = 1; i < 18; i++) {
      p = Scale(Dot(p, x), 1.0 / i);
      r = Add(r, p);
    }
    for (int i = 0; i < k; i++) r = Dot(r, r);
    return r;
  }
};

// Data of the cone constraint c - sum y_i A_i.
struct Rig {
  Algebra alg;
  std::vector<Elem> A;
  Elem c;
  int basis = 0;  // A[0..basis) is a basis of the algebra (or its scaled version)
  Elem W;         // model of the weight
  std::string name;

  std::shared_ptr<void> owner;
  std::unique_ptr<conex::Constraint> con;
  Eigen::VectorXd memory, sys_memory;
  conex::WorkspaceSchurComplement sys;
  double* data = nullptr;

  int m() const { return A.size(); }

  Elem Slack(const VectorXd& y, double cw) const {
    Elem s = alg.Scale(c, cw);
    for (int i = 0; i < m(); i++) s = alg.Add(s, A[i], -y(i));
    return s;
  }

  static double* Aligned(Eigen::VectorXd* v, int size) {
    *v = VectorXd::Constant(size + 8, std::nan(""));
    return v->data();  // Eigen allocates aligned memory
  }
  void Start() {
    conex::Workspace w = con->workspace();
    data = Aligned(&memory, SizeOf(w));
    Initialize(&w, data);
    SetIdentity(con.get());
    sys = conex::WorkspaceSchurComplement(m());
    W = alg.One();
  }
  // Schur complement system, computed into memory full of NaN.
  void Assemble() {
    double* p = Aligned(&sys_memory, SizeOf(sys));
    Initialize(&sys, p);
    sys.inner_product_of_w_and_c = std::nan("");
    sys.inner_product_of_c_and_Qc = std::nan("");
    ConstructSchurComplementSystem(con.get(), true, &sys);
  }
  // W read back through the basis part of A'W (see RandomRig).
  Elem ReadW() {
    Elem w = alg.Zero();
    if (alg.Matrix()) {
      int k = 0;
      for (int a = 0; a < alg.d; a++)
        for (int i = 0; i < alg.n; i++)
          for (int j = 0; j <= i; j++) {
            if (a > 0 && i == j) continue;
            double v = sys.AW(k++, 0);
            if (i == j) {
              w.h[a](i, i) = v;
            } else {
              w.h[a](i, j) = .5 * v;
              w.h[a](j, i) = (a == 0 ? .5 : -.5) * v;
            }
          }
    } else if (alg.Spin()) {
      VectorXd v = sys.AW.col(0).head(alg.n) * .5;
      w.v(0) = v(0);
      w.v.tail(alg.n - 1) = alg.M.ldlt().solve(v.tail(alg.n - 1));
    } else {
      w.v = sys.AW.col(0).head(alg.n);
    }
    return w;
  }
};

inline MatrixXd Columns(const Rig& r) {
  MatrixXd a(r.alg.n, r.m());
  for (int i = 0; i < r.m(); i++) a.col(i) = r.A[i].v;
  return a;
}

// type, hypercomplex dimension.  The object is built by its constructor, or (when
// by_updates) grown entry by entry through the update functions.
inline std::unique_ptr<Rig> RandomRig(Rng* rng, RigType type, int d, bool by_updates, int max_order) {
  auto r = std::make_unique<Rig>();
  Algebra& g = r->alg;
  g.type = type;
  g.d = d;
  if (g.Matrix()) g.n = d == 8 ? rng->range(1, 3) : rng->range(1, max_order);
  else g.n = rng->range(1, max_order + 2);
  if (type == R_EPI) g.n = rng->range(3, max_order + 2);
  if (g.Spin()) {
    g.M = MatrixXd::Identity(g.n - 1, g.n - 1);
    bool metric = (type == R_QUAD && g.n > 1 && rng->chance(.7)) || type == R_EPI;
    if (metric) {
      int k = type == R_EPI ? g.n - 2 : g.n - 1;
      MatrixXd f = rng->matrix(k, k);
      MatrixXd q = f * f.transpose() / k + .2 * MatrixXd::Identity(k, k);
      if (rng->chance(.2)) q = VectorXd(q.diagonal()).asDiagonal();
      if (type == R_EPI) {
        g.M.setZero();
        g.M(0, 0) = 1;
        g.M.bottomRightCorner(k, k) = q;
      } else {
        g.M = q;
      }
    } else {
      g.M.setIdentity();
    }
    r->name = metric ? "metric" : "identity";
  }
  auto random = [&]() {
    Elem e = g.Zero();
    double sc = std::pow(10., rng->uniform(-1, 1));
    if (g.Matrix()) {
      e.h = HScale(HRandom(rng, d, g.n), sc);
      if (rng->chance(.3))
        for (int a = 0; a < d; a++)
          for (int i = 0; i < g.n; i++)
            for (int j = 0; j < i; j++)
              if (rng->chance(.6)) e.h[a](i, j) = e.h[a](j, i) = 0;
    } else {
      e.v = sc * rng->vector(g.n);
      if (rng->chance(.3))
        for (int i = 0; i < g.n; i++)
          if (rng->chance(.6)) e.v(i) = 0;
    }
    return e;
  };
  if (type == R_EPI) {
    // The constructor fixes A and c: c - A(x, t) in the cone iff 2t >= x'Qx.
    int k = g.n - 2;
    for (int i = 0; i < k; i++) {
      Elem e = g.Zero();
      e.v(2 + i) = 1;
      r->A.push_back(e);
    }
    Elem t = g.Zero();
    t.v(0) = t.v(1) = -.5;
    r->A.push_back(t);
    r->c = g.Zero();
    r->c.v(0) = 1;
    r->c.v(1) = -1;
  } else {
    if (g.Matrix()) {
      for (int a = 0; a < d; a++)
        for (int i = 0; i < g.n; i++)
          for (int j = 0; j <= i; j++) {
            if (a > 0 && i == j) continue;
            Elem e = g.Zero();
            e.h[a](i, j) = 1;
            e.h[a](j, i) = a == 0 ? 1 : -1;
            r->A.push_back(e);
          }
    } else {
      for (int i = 0; i < g.n; i++) {
        Elem e = g.Zero();
        e.v(i) = 1;
        r->A.push_back(e);
      }
    }
    r->basis = r->A.size();
    int extra = rng->range(0, 3);
    for (int i = 0; i < extra; i++) r->A.push_back(random());
    r->c = random();
    if (rng->chance(.5)) r->c = g.Add(r->c, g.One(), 2);
  }
  const int m = r->A.size();
  r->name = std::string(RigName(type)) + (type == R_HERM ? Fmt("%d", d) : "") +
            (r->name.empty() ? "" : " " + r->name) + Fmt(" order %d vars %d", g.n, m) +
            (by_updates ? " by updates" : "");

  auto hold = [&](auto* p) {
    using P = typename std::remove_pointer<decltype(p)>::type;
    r->owner = std::shared_ptr<P>(p);
    r->con = std::make_unique<conex::Constraint>(p);
  };
  // Random entry order; some entries are first set to a wrong value.
  auto updates = [&](auto* p) {
    struct U {
      int var, row, col, dim;
      double val;
    };
    std::vector<U> us;
    int lastvar = 0;
    auto put = [&](int var, const Elem& e) {
      if (g.Matrix()) {
        for (int a = 0; a < d; a++)
          for (int i = 0; i < g.n; i++)
            for (int j = 0; j <= i; j++)
              if (e.h[a](i, j) != 0) {
                if (rng->chance(.5)) us.push_back({var, i, j, a, e.h[a](i, j)});
                else us.push_back({var, j, i, a, e.h[a](j, i)});
              }
      } else {
        for (int i = 0; i < g.n; i++)
          if (e.v(i) != 0) us.push_back({var, i, 0, 0, e.v(i)});
      }
    };
    for (int i = 0; i < m; i++) put(i, r->A[i]);
    put(-1, r->c);
    lastvar = m - 1;
    rng->shuffle(&us);
    bool ok = true;
    auto go = [&](const U& u) {
      bool failed = u.var < 0 ? UpdateAffineTerm(p, u.val, u.row, u.col, u.dim)
                              : UpdateLinearOperator(p, u.val, u.var, u.row, u.col, u.dim);
      if (failed) ok = false;
    };
    for (auto& u : us) {
      if (rng->chance(.2)) {
        U w = u;
        w.val = rng->normal();
        go(w);
      }
      go(u);
    }
    // Entries never set are zero; make sure the sizes are as intended.
    go({lastvar, 0, 0, 0, g.Matrix() ? r->A[lastvar].h[0](0, 0) : r->A[lastvar].v(0)});
    go({-1, 0, 0, 0, g.Matrix() ? r->c.h[0](0, 0) : r->c.v(0)});
    if (!ok) r->name += " UPDATE REFUSED";
  };
  if (type == R_LIN) {
    MatrixXd a = Columns(*r);
    if (by_updates) {
      auto* p = new conex::LinearConstraint(g.n, MatrixXd(MatrixXd::Zero(g.n, m)), MatrixXd(MatrixXd::Zero(g.n, 1)));
      updates(p);
      hold(p);
    } else {
      hold(new conex::LinearConstraint(g.n, a, MatrixXd(r->c.v)));
    }
  } else if (type == R_SOC) {
    if (by_updates) {
      auto* p = new conex::SOCConstraint(g.n - 1);
      updates(p);
      hold(p);
    } else {
      hold(new conex::SOCConstraint(MatrixXd(Columns(*r)), MatrixXd(r->c.v)));
    }
  } else if (type == R_QUAD) {
    if (g.M.isIdentity(0) && rng->chance(.7))
      hold(new conex::QuadraticConstraint(MatrixXd(Columns(*r)), MatrixXd(r->c.v)));
    else
      hold(new conex::QuadraticConstraint(g.M, MatrixXd(Columns(*r)), MatrixXd(r->c.v)));
  } else if (type == R_EPI) {
    hold(new conex::QuadraticEpigraph(MatrixXd(g.M.bottomRightCorner(g.n - 2, g.n - 2))));
  } else if (type == R_LMI) {
    std::vector<MatrixXd> a;
    for (auto& e : r->A) a.push_back(e.h[0]);
    hold(new conex::DenseLMIConstraint(a, r->c.h[0]));
  } else {
    auto build = [&](auto* tag) {
      using H = typename std::remove_pointer<decltype(tag)>::type;
      if (by_updates) {
        auto* p = new conex::HermitianPsdConstraint<H>(g.n);
        updates(p);
        hold(p);
      } else {
        std::vector<conex::HyperComplexMatrix> a;
        for (auto& e : r->A) a.push_back(ToConex(e.h));
        hold(new conex::HermitianPsdConstraint<H>(g.n, a, ToConex(r->c.h)));
      }
    };
    if (d == 1) build(static_cast<conex::Real*>(nullptr));
    if (d == 2) build(static_cast<conex::Complex*>(nullptr));
    if (d == 4) build(static_cast<conex::Quaternions*>(nullptr));
    if (d == 8) build(static_cast<conex::Octonions*>(nullptr));
  }
  r->Start();
  return r;
}

}  // namespace verif

namespace verif {

// Direction whose weighted slack is bounded: (y, c_weight) with |d|_inf <= bound,
// d = e - Q(W^{1/2}) (c_weight c - A y).
struct Direction {
  VectorXd y;
  double cw;
  Elem slack;   // c_weight c - A y
  Elem scaled;  // Q(W^{1/2}) slack
  Elem d;
  VectorXd eigs;  // of scaled
  double norminf;
};

inline Direction Describe(const Rig& r, const VectorXd& y, double cw) {
  Direction q;
  q.y = y;
  q.cw = cw;
  q.slack = r.Slack(y, cw);
  Elem ws = r.alg.Sqrt(r.W);
  q.scaled = r.alg.Quad(ws, q.slack);
  if (r.alg.Matrix()) q.scaled.h = HSym(q.scaled.h);
  q.d = r.alg.Add(r.alg.One(), q.scaled, -1);
  q.eigs = r.alg.Eigs(q.scaled);
  q.norminf = std::max(std::fabs(1 - q.eigs(0)), std::fabs(1 - q.eigs(q.eigs.size() - 1)));
  return q;
}

inline Direction RandomDirection(Rng* rng, const Rig& r) {
  VectorXd y = rng->vector(r.m());
  double cw = rng->chance(.2) ? 0 : std::fabs(rng->normal());
  if (rng->chance(.1)) y.setZero();
  Direction q = Describe(r, y, cw);
  double big = std::max(std::fabs(q.eigs(0)), std::fabs(q.eigs(q.eigs.size() - 1)));
  double target = rng->uniform(.05, 3);
  double s = big > 0 ? target / big : 1;
  return Describe(r, y * s, cw * s);
}

}  // namespace verif
