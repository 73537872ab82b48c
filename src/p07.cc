// P07: the hypercomplex matrix algebras satisfy the laws of their Jordan algebras.
#include "lanczos.h"
#include "problem.h"

using namespace verif;
using conex::HyperComplexMatrix;
using H = HyperComplexMatrix;

namespace {

template <int n>
using T = conex::MatrixAlgebra<n>;

// Entries of several kinds: dense, sparse, integers, badly scaled.
H RandomH(Rng* r, int d, int rows, int cols, int kind) {
  H z(d);
  for (int k = 0; k < d; k++) {
    z.at(k) = r->matrix(rows, cols);
    if (kind == 1)
      for (int i = 0; i < rows * cols; i++)
        if (r->chance(.6)) z.at(k).data()[i] = 0;
    if (kind == 2)
      for (int i = 0; i < rows * cols; i++) z.at(k).data()[i] = r->range(-4, 4);
    if (kind == 3)
      for (int i = 0; i < rows * cols; i++)
        z.at(k).data()[i] *= std::pow(10.0, r->range(-3, 3));
  }
  return z;
}

H Herm(Rng* r, int d, int n, int kind) {
  H x = RandomH(r, d, n, n, kind);
  for (int k = 0; k < d; k++) {
    MatrixXd m = x.at(k);
    x.at(k) = k == 0 ? MatrixXd(.5 * (m + m.transpose()))
                     : MatrixXd(.5 * (m - m.transpose()));
  }
  return x;
}

double Norm(const H& x) {
  double s = 0;
  for (auto& m : x) s += m.squaredNorm();
  return std::sqrt(s);
}
double Diff(const H& x, const H& y) {
  if (x.size() != y.size()) return INFINITY;
  double s = 0;
  for (size_t i = 0; i < x.size(); i++) {
    if (x[i].rows() != y[i].rows() || x[i].cols() != y[i].cols()) return INFINITY;
    s += (x[i] - y[i]).squaredNorm();
  }
  return std::sqrt(s);
}
bool Same(Ctx& c, const H& x, const H& y, double size, const char* key, const std::string& what) {
  double e = Diff(x, y), tol = 1e-12 * (1e-300 + size);
  c.Max(std::string("error:") + key, e / (1e-300 + size));
  return c.Check(e <= tol, key, Fmt("%s: differ by %.3g (size %.3g)", what.c_str(), e, size));
}

// Product written out from the units.
H Product(const H& x, const H& y) {
  int d = x.size();
  const auto& u = Units();
  H z(d);
  for (int k = 0; k < d; k++) z.at(k) = MatrixXd::Zero(x.at(0).rows(), y.at(0).cols());
  for (int a = 0; a < d; a++)
    for (int b = 0; b < d; b++)
      for (int i = 0; i < x.at(0).rows(); i++)
        for (int j = 0; j < y.at(0).cols(); j++) {
          double s = 0;
          for (int k = 0; k < x.at(0).cols(); k++) s += x.at(a)(i, k) * y.at(b)(k, j);
          z.at(u.idx[a][b])(i, j) += u.sgn[a][b] * s;
        }
  return z;
}

template <int n>
void UnitLaws(Ctx& c) {
  using A = T<n>;
  Rng& r = c.rng;
  c.Check(A::HyperComplexDimension() == n, "units", "dimension");
  for (int rep = 0; rep < 40; rep++) {
    int kind = r.range(0, 3);
    H x = RandomH(&r, n, 1, 1, kind), y = RandomH(&r, n, 1, 1, kind), z = RandomH(&r, n, 1, 1, kind);
    double nx = Norm(x), ny = Norm(y), nz = Norm(z);
    std::string w = Fmt("algebra of dimension %d", n);
    H one = A::Identity(1);
    Same(c, A::Multiply(one, x), x, nx, "units", w + ": 1 x = x");
    Same(c, A::Multiply(x, one), x, nx, "units", w + ": x 1 = x");
    // Composition: |xy| = |x||y|.
    c.Near(Norm(A::Multiply(x, y)), nx * ny, 1e-12 * nx * ny, "composition", w + ": |xy| = |x||y|");
    // x conj(x) = |x|^2
    Same(c, A::Multiply(x, A::ConjugateTranspose(x)), A::ScalarMultiply(one, nx * nx), nx * nx,
         "conjugate", w + ": x x* = |x|^2");
    // conj(xy) = conj(y) conj(x)
    Same(c, A::ConjugateTranspose(A::Multiply(x, y)),
         A::Multiply(A::ConjugateTranspose(y), A::ConjugateTranspose(x)), nx * ny, "conjugate",
         w + ": (xy)* = y* x*");
    // Alternativity and the Moufang identity; associativity below the octonions.
    Same(c, A::Multiply(x, A::Multiply(x, y)), A::Multiply(A::Multiply(x, x), y), nx * nx * ny,
         "alternative", w + ": x(xy) = (xx)y");
    Same(c, A::Multiply(A::Multiply(y, x), x), A::Multiply(y, A::Multiply(x, x)), nx * nx * ny,
         "alternative", w + ": (yx)x = y(xx)");
    Same(c, A::Multiply(A::Multiply(x, y), A::Multiply(z, x)),
         A::Multiply(x, A::Multiply(A::Multiply(y, z), x)), nx * nx * ny * nz, "moufang",
         w + ": (xy)(zx) = x((yz)x)");
    if (n <= 4)
      Same(c, A::Multiply(A::Multiply(x, y), z), A::Multiply(x, A::Multiply(y, z)), nx * ny * nz,
           "associative", w + ": (xy)z = x(yz)");
    if (n <= 2)
      Same(c, A::Multiply(x, y), A::Multiply(y, x), nx * ny, "commutative", w + ": xy = yx");
    c.Distinct(Fmt("units d%d kind%d", n, kind));
  }
  // Strictness of the tower: a table that satisfies every identity above in the
  // larger algebra must still not collapse to a smaller one.
  if (n >= 4) {
    H i = A::Zero(1, 1), j = A::Zero(1, 1);
    i.at(1)(0, 0) = 1;
    j.at(2)(0, 0) = 1;
    c.Check(Diff(A::Multiply(i, j), A::Multiply(j, i)) > 1, "noncommutative", "units commute");
  }
}

int max_order = 5;

template <int n>
void MatrixLaws(Ctx& c) {
  using A = T<n>;
  Rng& r = c.rng;
  for (int rep = 0; rep < 12; rep++) {
    int kind = r.range(0, 3);
    int a = r.range(1, max_order), b = r.range(1, max_order), e = r.range(1, max_order);
    H x = RandomH(&r, n, a, b, kind), y = RandomH(&r, n, b, e, kind), y2 = RandomH(&r, n, b, e, kind),
      z = RandomH(&r, n, a, b, kind);
    double nx = Norm(x), ny = Norm(y);
    std::string w = Fmt("d=%d %dx%dx%d kind %d", n, a, b, e, kind);
    H xy = A::Multiply(x, y);
    Same(c, xy, Product(x, y), nx * ny, "product", w + ": matrix product");
    Same(c, A::Multiply(x, A::Add(y, y2)), A::Add(xy, A::Multiply(x, y2)), nx * (ny + Norm(y2)),
         "distributive", w + ": x(y+z)");
    double s = r.normal() * std::pow(10., r.range(-4, 4));
    Same(c, A::Multiply(A::ScalarMultiply(x, s), y), A::ScalarMultiply(xy, s), std::fabs(s) * nx * ny,
         "scalar", w + ": (sx)y = s(xy)");
    Same(c, A::ConjugateTranspose(xy), A::Multiply(A::ConjugateTranspose(y), A::ConjugateTranspose(x)),
         nx * ny, "conjugate", w + ": (xy)* = y*x*");
    Same(c, A::ConjugateTranspose(A::ConjugateTranspose(x)), x, nx, "conjugate", w + ": x** = x");
    Same(c, A::Multiply(A::Identity(a), x), x, nx, "identity", w + ": I x = x");
    Same(c, A::Multiply(x, A::Identity(b)), x, nx, "identity", w + ": x I = x");
    Same(c, A::Add(x, A::Zero(a, b)), x, nx, "zero", w + ": x + 0 = x");
    H sum = A::Add(x, z);
    for (int k = 0; k < n; k++)
      c.Check((sum.at(k) - x.at(k) - z.at(k)).norm() <= 1e-14 * (nx + Norm(z)), "add", w + ": sum");
    // <x, z> = Re tr x* z; norms.
    double ip = 0;
    for (int k = 0; k < n; k++) ip += x.at(k).cwiseProduct(z.at(k)).sum();
    c.Near(A::TraceInnerProduct(x, z), ip, 1e-12 * nx * Norm(z), "inner-product", w);
    c.Near(A::Multiply(A::ConjugateTranspose(x), z).at(0).trace(), ip, 1e-12 * nx * Norm(z),
           "inner-product", w + ": Re tr x*z");
    c.Near(x.norm(), nx, 1e-12 * nx, "norm", w);
    c.Near(x.squaredNorm(), nx * nx, 1e-12 * nx * nx, "norm", w + ": squared");
    H xs = x;
    xs.rescale(s);
    Same(c, xs, A::ScalarMultiply(x, s), std::fabs(s) * nx, "rescale", w);
    int col = r.range(0, b - 1);
    H xc = x;
    H cc = const_cast<const H&>(xc).col(col);
    for (int k = 0; k < n; k++)
      c.Check(cc.at(k).cols() == 1 && cc.at(k) == x.at(k).col(col), "col", w);
    xc.col(col) = RandomH(&r, n, a, 1, 0);
    for (int k = 0; k < n; k++)
      for (int j = 0; j < b; j++)
        c.Check((xc.at(k).col(j) == x.at(k).col(j)) == (j != col), "col", w + ": assignment");
    c.Check(A::IsEqual(x, x), "is-equal", w);
    H xd = x;
    xd.at(r.range(0, n - 1))(r.range(0, a - 1), r.range(0, b - 1)) += (r.chance(.5) ? 1 : -1) * 1e-4 * (1 + nx);
    c.Check(!A::IsEqual(x, xd) && !A::IsEqual(xd, x), "is-equal", w + ": different matrices");
    H rnd = A::Random(a, b);
    c.Check(static_cast<int>(rnd.size()) == n, "random", w);
    for (int k = 0; k < n; k++)
      c.Check(rnd.at(k).rows() == a && rnd.at(k).cols() == b && rnd.at(k).cwiseAbs().maxCoeff() <= 1,
              "random", w + ": shape");
    c.Distinct(Fmt("matrix d%d %dx%dx%d", n, a, b, e));
  }
}

template <int n>
void JordanLaws(Ctx& c) {
  using A = T<n>;
  Rng& r = c.rng;
  for (int rep = 0; rep < 8; rep++) {
    int kind = r.range(0, 2);
    int N = r.range(1, n == 8 ? 3 : 6);
    std::string w = Fmt("d=%d order %d kind %d", n, N, kind);
    H x = Herm(&r, n, N, kind), y = Herm(&r, n, N, kind), z = Herm(&r, n, N, kind);
    double nx = Norm(x), ny = Norm(y), nz = Norm(z);
    H xy = A::JordanMultiply(x, y);
    c.Check(A::IsHermitian(x), "is-hermitian", w);
    H xh = x;
    bool diag = N == 1 || r.chance(.3);
    int i = r.range(0, N - 1), j = r.range(0, N - 1), k = r.range(0, n - 1);
    if (diag ? (n > 1) : (N > 1)) {
      if (diag) {
        k = r.range(1, n - 1);
        j = i;
      } else {
        while (j == i) j = r.range(0, N - 1);
      }
      xh.at(k)(i, j) += 1e-3;
      c.Check(!A::IsHermitian(xh), "is-hermitian", w + Fmt(": broken at %d (%d,%d)", k, i, j));
    }
    Same(c, xy, A::JordanMultiply(y, x), nx * ny, "jordan-commutes", w);
    c.Check(Diff(xy, A::ConjugateTranspose(xy)) <= 1e-12 * (nx * ny), "jordan-hermitian", w);
    H expect = A::ScalarMultiply(A::Add(Product(x, y), Product(y, x)), .5);
    Same(c, xy, expect, nx * ny, "jordan-product", w + ": (xy+yx)/2");
    // (x.y).x^2 = x.(y.x^2)
    H x2 = A::JordanMultiply(x, x);
    Same(c, A::JordanMultiply(xy, x2), A::JordanMultiply(x, A::JordanMultiply(y, x2)), nx * nx * nx * ny,
         "jordan-identity", w);
    // <x.y, z> = <y, x.z>
    c.Near(A::TraceInnerProduct(xy, z), A::TraceInnerProduct(y, A::JordanMultiply(x, z)),
           1e-12 * nx * ny * nz, "trace-associative", w);
    // Quadratic representation.
    H q = A::QuadraticRepresentation(x, y);
    if (n < 8)
      Same(c, q, Product(Product(x, y), x), nx * nx * ny, "quadratic-representation", w + ": Q(x)y = xyx");
    Same(c, A::QuadraticRepresentation(x, A::Identity(N)), x2, nx * nx, "quadratic-representation",
         w + ": Q(x)e = x^2");
    c.Near(A::TraceInnerProduct(q, z), A::TraceInnerProduct(y, A::QuadraticRepresentation(x, z)),
           1e-12 * nx * nx * ny * nz, "quadratic-representation", w + ": self-adjoint");
    // Q(Q(x)y) = Q(x)Q(y)Q(x)
    H f1 = A::QuadraticRepresentation(q, z);
    H f2 = A::QuadraticRepresentation(
        x, A::QuadraticRepresentation(y, A::QuadraticRepresentation(x, z)));
    Same(c, f1, f2, std::pow(nx, 4) * ny * ny * nz, "fundamental-formula", w);
    H mh = A::MakeHermitian(RandomH(&r, n, N, N, kind));
    c.Check(A::IsHermitian(mh), "make-hermitian", w);
    H g = RandomH(&r, n, N, N, kind);
    Same(c, A::ScalarMultiply(A::MakeHermitian(g), 2), A::Add(g, A::ConjugateTranspose(g)), Norm(g),
         "make-hermitian", w + ": Hermitian part");
    c.Distinct(Fmt("jordan d%d N%d kind%d", n, N, kind));
  }
}

VectorXd Sorted(VectorXd v) {
  std::sort(v.data(), v.data() + v.size());
  return v;
}

// Hermitian with separated eigenvalues, obtained by rejection.
bool Separated(const VectorXd& e, double sep) {
  double scale = std::max(std::fabs(e(0)), std::fabs(e(e.size() - 1)));
  for (int i = 1; i < e.size(); i++)
    if (e(i) - e(i - 1) < sep * scale) return false;
  return scale > 0;
}

VectorXd Reference(const H& x) {
  HMat h = FromConex(x);
  int d = h.size(), N = h[0].rows();
  if (d == 8) return Sorted(OctEigenvalues(h));
  Eigen::SelfAdjointEigenSolver<MatrixXd> e(Embed(h), Eigen::EigenvaluesOnly);
  VectorXd all = e.eigenvalues(), v(N);
  for (int i = 0; i < N; i++) v(i) = all(i * d);
  return v;
}

template <int n>
void EigenvalueLaws(Ctx& c) {
  using A = T<n>;
  Rng& r = c.rng;
  for (int rep = 0; rep < 6; rep++) {
    int N = r.range(1, n == 8 ? 3 : 4);
    H x;
    VectorXd ref;
    bool ok = false;
    for (int t = 0; t < 30 && !ok; t++) {
      x = Herm(&r, n, N, r.range(0, 1));
      double s = std::pow(10., r.range(-1, 1));
      x.rescale(s);
      ref = Reference(x);
      ok = Separated(ref, .15);
    }
    if (!ok) continue;
    double scale = ref.cwiseAbs().maxCoeff();
    std::string w = Fmt("d=%d order %d", n, N);
    VectorXd e = A::Eigenvalues(x);
    if (!c.Check(e.size() == N, "eigenvalues", w + ": count")) continue;
    e = Sorted(e);
    double err = (e - ref).cwiseAbs().maxCoeff() / scale;
    c.Max("eigenvalue_error", err);
    c.Check(err <= 1e-6, "eigenvalues", w + ": " + Str(e) + " vs " + Str(ref));
    // Spectral identities.
    c.Near(e.sum(), x.at(0).trace(), 1e-6 * scale * N, "eigenvalues", w + ": trace");
    if (n < 8) {
      VectorXd l = A::ApproximateEigenvalues(x, A::Random(N, 1), N);
      c.Check(l.size() == N && (Sorted(l) - ref).cwiseAbs().maxCoeff() <= 1e-6 * scale, "lanczos",
              w + ": " + Str(l) + " vs " + Str(ref));
      // Orthogonalize: unitary whose leading columns span those of x.
      H g = RandomH(&r, n, N, N, 0);
      Eigen::JacobiSVD<MatrixXd> svd(Embed(FromConex(g)));
      double cond = svd.singularValues()(0) / svd.singularValues()(n * N - 1);
      if (cond < 1e4) {
        H q = A::Orthogonalize(g);
        H I = A::Identity(N);
        double t = 1e-13 * cond * cond * N;
        c.Check(Diff(A::Multiply(q, A::ConjugateTranspose(q)), I) <= t, "orthogonalize", w + ": QQ* = I");
        c.Check(Diff(A::Multiply(A::ConjugateTranspose(q), q), I) <= t, "orthogonalize", w + ": Q*Q = I");
        H R = A::Multiply(A::ConjugateTranspose(q), g);
        for (int k = 0; k < n; k++)
          for (int i = 1; i < N; i++)
            for (int j = 0; j < i; j++)
              c.Check(std::fabs(R.at(k)(i, j)) <= t * Norm(g), "orthogonalize", w + ": Q*G triangular");
      }
      // Similarity by a unitary keeps the eigenvalues.
    }
    c.Distinct(Fmt("eig d%d N%d", n, N));
    c.Count("eigenvalue_sets");
  }
}

// Lanczos estimates from weights and slacks, as the solver uses them.
template <int n>
void LanczosLaws(Ctx& c) {
  using A = T<n>;
  Rng& r = c.rng;
  for (int rep = 0; rep < 6; rep++) {
    int N = r.range(1, max_order + 1), k = r.range(1, std::min(N, 6)), kind = r.range(0, 4);
    double scale = r.chance(.3) ? 1 : std::pow(10, r.uniform(-6, 6));
    H s = Herm(&r, n, N, 0), w = A::Identity(N);
    if (kind == 1) s = A::Identity(N);
    if (kind == 2) {  // one or two eigenvalues
      H b = RandomH(&r, n, N, 1, 0);
      s = A::Multiply(b, A::ConjugateTranspose(b));
      if (r.chance(.5)) s = A::Add(s, A::Identity(N));
    }
    if (kind == 3) {  // diagonal
      for (auto& m : s) m = (&m == &s.at(0)) ? MatrixXd(m.diagonal().asDiagonal()) : MatrixXd::Zero(N, N);
      if (r.chance(.5)) s.at(0)(0, 0) = s.at(0)(N - 1, N - 1);
    }
    s.rescale(scale);
    if (r.chance(.8)) {
      H b = RandomH(&r, n, N, N, 0);
      w = A::Add(A::ScalarMultiply(A::Multiply(b, A::ConjugateTranspose(b)), 1. / (n * N)), A::ScalarMultiply(A::Identity(N), .3));
      if (r.chance(.7)) w = A::ScalarMultiply(w, std::pow(10, r.uniform(-3, 3)));
    }
    H x = A::Zero(N, 1);
    bool unit = r.chance(.2);
    for (int i = 0; i < n; i++) x.at(i) = unit ? MatrixXd::Zero(N, 1) : r.matrix(N, 1);
    if (unit) x.at(0)(r.range(0, N - 1), 0) = 1;
    MatrixXd S = Embed(FromConex(s)), W = Embed(FromConex(w));
    VectorXd v(n * N);
    for (int i = 0; i < n; i++) v.segment(i * N, N) = x.at(i);
    Eigen::SelfAdjointEigenSolver<MatrixXd> ew(W);
    MatrixXd Wh = ew.operatorSqrt();
    bool degenerate;
    VectorXd want = Ritz(S, W, v, k, &degenerate);
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(Wh * S * Wh, Eigen::EigenvaluesOnly), e1(S, Eigen::EigenvaluesOnly);
    double lo = es.eigenvalues()(0), hi = es.eigenvalues()(n * N - 1), nm = std::max(std::fabs(lo), std::fabs(hi));
    std::string what = Fmt("d=%d order %d, %d iterations, kind %d, norm %.3g", n, N, k, kind, nm);
    VectorXd got = A::ApproximateEigenvalues(A::Multiply(w, s), w, x, k);
    if (!c.Check(got.size() >= 1 && got.size() <= k && got.allFinite(), "lanczos:size", what)) return;
    c.Check(got.minCoeff() >= lo - 1e-5 * nm && got.maxCoeff() <= hi + 1e-5 * nm, "lanczos:outside",
            what + Fmt(": [%.9g, %.9g] outside of [%.9g, %.9g]", got.minCoeff(), got.maxCoeff(), lo, hi));
    c.Count(degenerate ? "lanczos:invariant_subspaces" : "lanczos:runs");
    if (!degenerate) {
      if (!c.Check(got.size() == k, "lanczos:iterations", what + Fmt(": stopped after %d", (int)got.size()))) return;
      double err = (Sorted(got) - want).cwiseAbs().maxCoeff() / nm;
      c.Max("lanczos_error", err);
      c.Check(err <= 1e-6, "lanczos:ritz", what + Fmt(": off by %.3g", err));
    }
    // Without weights.
    bool deg2;
    want = Ritz(S, MatrixXd::Identity(n * N, n * N), v, k, &deg2);
    got = A::ApproximateEigenvalues(s, x, k);
    nm = e1.eigenvalues().cwiseAbs().maxCoeff();
    if (!c.Check(got.size() >= 1 && got.size() <= k && got.allFinite(), "lanczos:plain", what)) return;
    c.Check(got.minCoeff() >= e1.eigenvalues()(0) - 1e-5 * nm && got.maxCoeff() <= e1.eigenvalues()(n * N - 1) + 1e-5 * nm, "lanczos:plain",
            what + ": outside of the spectrum");
    if (!deg2) c.Check(got.size() == k && (Sorted(got) - want).cwiseAbs().maxCoeff() <= 1e-6 * nm, "lanczos:plain", what + ": wrong Ritz values");
    // Orthogonal polynomials of <p, q> = tr(p(WS) q(WS) W).
    VectorXd all(N);
    for (int i = 0; i < N; i++) all(i) = es.eigenvalues()(i * n);
    nm = es.eigenvalues().cwiseAbs().maxCoeff();
    if (N <= 4 && nm > .5 && nm < 50 && Separated(all, .1) && ew.eigenvalues()(n * N - 1) < 30 * ew.eigenvalues()(0)) {
      got = A::EigenvaluesOfJacobiMatrix(A::Multiply(w, s), w, k);
      if (!c.Check(got.size() >= 1 && got.size() <= k && got.allFinite(), "jacobi", what)) return;
      c.Check(got.minCoeff() >= lo - 1e-5 * nm && got.maxCoeff() <= hi + 1e-5 * nm, "jacobi", what + ": outside of the spectrum");
      if (k == N) c.Check(got.size() == N && (Sorted(got) - all).cwiseAbs().maxCoeff() <= 1e-5 * nm, "jacobi", what + ": wrong eigenvalues " + Str(got) + " vs " + Str(all));
      c.Count("jacobi_matrices");
    }
    c.Distinct(Fmt("lanczos d%d N%d k%d kind%d", n, N, k, kind));
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  auto add = [&](const char* name, int q, int t, std::function<void(Ctx&)> a, std::function<void(Ctx&)> b,
                 std::function<void(Ctx&)> d, std::function<void(Ctx&)> e) {
    s.push_back({name, q, t, [=](Ctx& c) {
                   a(c);
                   b(c);
                   d(c);
                   e(c);
                 }});
  };
  add("units", 2000, 20000, UnitLaws<1>, UnitLaws<2>, UnitLaws<4>, UnitLaws<8>);
  add("matrix", 2000, 20000, MatrixLaws<1>, MatrixLaws<2>, MatrixLaws<4>, MatrixLaws<8>);
  add("jordan", 2000, 20000, JordanLaws<1>, JordanLaws<2>, JordanLaws<4>, JordanLaws<8>);
  add("eigenvalues", 2000, 20000, EigenvalueLaws<1>, EigenvalueLaws<2>, EigenvalueLaws<4>, EigenvalueLaws<8>);
  s.push_back({"lanczos", 4000, 40000, [](Ctx& c) {
                 LanczosLaws<1>(c);
                 LanczosLaws<2>(c);
                 LanczosLaws<4>(c);
               }});
  s.push_back({"big", 100, 1000, [](Ctx& c) {
                 max_order = 20;
                 MatrixLaws<1>(c);
                 MatrixLaws<2>(c);
                 MatrixLaws<4>(c);
                 MatrixLaws<8>(c);
                 LanczosLaws<1>(c);
                 LanczosLaws<2>(c);
                 LanczosLaws<4>(c);
                 max_order = 5;
               }});
  return Main(argc, argv, s);
}
