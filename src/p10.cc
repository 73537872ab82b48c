// P10: the barrier parameter is chosen by its documented rule.
#include "lanczos.h"
#include "solve.h"

#include "conex/approximate_eigenvalues.h"
#include "conex/divergence.h"
using namespace verif;

namespace {

using conex::WeightedSlackEigenvalues;

// Upper bound of the divergence at k: |k l - 1|^2 / (1 - |k l - 1|_inf).
struct Spectrum {
  double lmin, lmax, trace, sq;
  int rank;
  double Bound(double k) const {
    double inf = std::max(std::fabs(k * lmin - 1), std::fabs(k * lmax - 1));
    if (!(inf < 1)) return INFINITY;
    return (k * k * sq - 2 * k * trace + rank) / (1 - inf);
  }
  // Largest k with a finite bound equal to h; -1 if there is none.  The bound
  // is quasi-convex on (0, 2 / lmax).  near_tie: the minimum is close to h.
  double Inverse(double h, bool* near_tie) const {
    *near_tie = false;
    if (!(lmin > 0)) return -1;
    double a = 0, b = 2 / lmax;
    // Minimise by golden section.
    const double g = .5 * (std::sqrt(5.0) - 1);
    double x1 = b - g * (b - a), x2 = a + g * (b - a), f1 = Bound(x1), f2 = Bound(x2);
    for (int i = 0; i < 200; i++) {
      if (f1 < f2 || (std::isinf(f2))) {
        b = x2, x2 = x1, f2 = f1, x1 = b - g * (b - a), f1 = Bound(x1);
      } else {
        a = x1, x1 = x2, f1 = f2, x2 = a + g * (b - a), f2 = Bound(x2);
      }
    }
    double lo = .5 * (a + b), hi = 2 / lmax;
    double fmin = Bound(lo);
    *near_tie = std::fabs(fmin - h) <= 1e-6 * (h + 1e-9);
    if (fmin > h) return -1;
    for (int i = 0; i < 200; i++) {
      double m = .5 * (lo + hi);
      if (Bound(m) <= h) lo = m;
      else hi = m;
    }
    return lo;
  }
};

void InverseCase(Ctx& c) {
  Rng& r = c.rng;
  for (int rep = 0; rep < 40; rep++) {
    int n = r.range(1, 12);
    VectorXd l(n);
    double base = std::pow(10, r.uniform(-4, 4)), spread = r.uniform(0, r.chance(.3) ? 4 : 1);
    for (int i = 0; i < n; i++) l(i) = base * std::pow(10, spread * r.uniform(-.5, .5));
    if (r.chance(.1)) l.setConstant(base);
    if (r.chance(.15)) l(r.range(0, n - 1)) *= -1;
    Spectrum s{l.minCoeff(), l.maxCoeff(), l.sum(), l.squaredNorm(), n};
    // For matrix cones the extreme eigenvalues are estimated from inside.
    if (r.chance(.3) && n > 2) {
      VectorXd t = l;
      std::sort(t.data(), t.data() + n);
      s.lmin = t(0) + r.uniform(0, .5) * (t(1) - t(0));
      s.lmax = t(n - 1) - r.uniform(0, .5) * (t(n - 1) - t(n - 2));
    }
    WeightedSlackEigenvalues p;
    p.lambda_min = s.lmin;
    p.lambda_max = s.lmax;
    p.trace = s.trace;
    p.frobenius_norm_squared = s.sq;
    p.rank = n;
    // Direct evaluation.
    double k = r.chance(.7) ? r.uniform(0, 2) / std::fabs(s.lmax) : r.uniform(0, 4) / base;
    double inf = std::max(std::fabs(k * s.lmin - 1), std::fabs(k * s.lmax - 1));
    double num = 0;
    for (int i = 0; i < n; i++) num += (k * l(i) - 1) * (k * l(i) - 1);
    if (std::fabs(1 - inf) > 1e-6)
      c.Near(conex::DivergenceUpperBound(k, p), num / (1 - inf),
             1e-9 * (n + k * k * s.sq) / std::fabs(1 - inf), "bound", Fmt("bound at k=%.17g", k));
    double h = r.chance(.5) && std::isfinite(s.Bound(k)) ? s.Bound(k) : n * std::pow(10, r.uniform(-3, 3));
    if (r.chance(.4) && s.lmin > 0) {
      // On the branch of the smallest eigenvalue.
      double m = 2 / (s.lmin + s.lmax);
      h = s.Bound(m * r.uniform(.3, 1));
      if (r.chance(.5)) h = std::min(h, s.Bound(m) * r.uniform(.8, 1.05));
    }
    if (!(h > 1e-7 * n && h < 1e5 * n)) continue;  // rounding
    bool tie;
    double want = s.Inverse(h, &tie), got = conex::DivergenceUpperBoundInverse(h, p);
    if (tie) {
      c.Count("ties");
      continue;
    }
    std::string w = Fmt("n %d lmin %.17g lmax %.17g trace %.17g sq %.17g h %.17g", n, s.lmin, s.lmax, s.trace, s.sq, h);
    if (want == -1) {
      c.Check(got <= 0, "inverse:none", Fmt("returned %.17g where no k has that bound: ", got) + w);
      c.Count("inverse_undefined");
    } else {
      // Condition: near the minimum and near 2 / lmax, k is determined poorly
      // but the bound is not.
      double back = s.Bound(got);
      bool ok = std::fabs(got - want) <= 1e-6 * want ||
                (std::fabs(got - want) <= 1e-3 * want && std::fabs(back - h) <= 1e-5 * h);
      c.Check(ok, "inverse", Fmt("returned %.17g (bound %.6g), the largest is %.17g: ", got, back, want) + w);
      c.Count(want * (s.lmin + s.lmax) > 2 ? "inverse_lambda_max_branch" : "inverse_lambda_min_branch");
    }
    c.Distinct(Fmt("inv n%d %d%d", n, s.lmin > 0, want > 0));
  }
}

// The interval of k with |d0 + k (d1 - d0)|_inf <= bound.
void LineSearchCase(Ctx& c, bool big) {
  Rng& r = c.rng;
  for (int rep = 0; rep < 20; rep++) {
    int n = r.range(1, big ? 300 : 10), m = r.range(1, big ? 30 : 5);
    MatrixXd A = r.matrix(n, m);
    VectorXd cc = r.vector(n);
    int kind = r.range(0, 2);
    if (kind == 1) n = m, A = -MatrixXd::Identity(n, n);
    if (kind == 2) n = m, A = MatrixXd::Identity(n, n);
    if (kind) cc = r.vector(n);
    VectorXd w = VectorXd::Ones(n);
    conex::LineSearchParameters par;
    par.c0_weight = r.chance(.5) ? 0 : r.uniform(0, 2);
    par.c1_weight = r.uniform(0, 2);
    par.dinf_upper_bound = r.chance(.5) ? 1 : r.uniform(.3, 3);
    VectorXd y0 = .5 * r.vector(m), y1 = r.vector(m);
    int steps = r.range(0, 2);
    Program prog(m);
    bool ok;
    if (kind == 0) ok = !prog.AddConstraint(conex::LinearConstraint(A, MatrixXd(cc)));
    else if (kind == 1) ok = !prog.AddConstraint(conex::LowerBound(-cc));
    else ok = !prog.AddConstraint(conex::UpperBound(cc));
    if (!c.Check(ok, "build", "constraint refused")) return;
    SolverConfiguration cfg;
    conex::Initialize(prog, cfg);
    conex::Constraint* con = prog.constraints_[0];
    conex::Ref Y0(y0.data(), m, 1), Y1(y1.data(), m, 1);
    for (int s = 0; s < steps; s++) {
      conex::StepOptions o;
      o.affine = false;
      o.e_weight = 1;
      o.c_weight = r.uniform(0, .3);
      VectorXd y = .3 * r.vector(m);
      conex::Ref Y(y.data(), m, 1);
      conex::StepInfo info;
      PrepareStep(con, o, Y, &info);
      TakeStep(con, o);
      w = w.cwiseProduct(((w.cwiseProduct(A * y - o.c_weight * cc)).array() + 1).exp().matrix()).eval();
    }
    if (w.minCoeff() < 1e-6 || w.maxCoeff() > 1e6) continue;
    VectorXd d0 = w.cwiseProduct(A * y0 - par.c0_weight * cc).array() + 1;
    VectorXd d1 = w.cwiseProduct(A * y1 - par.c1_weight * cc).array() + 1;
    double lo = -INFINITY, hi = INFINITY;
    for (int i = 0; i < n; i++) {
      double a = (par.dinf_upper_bound - d0(i)) / (d1(i) - d0(i)), b = (-par.dinf_upper_bound - d0(i)) / (d1(i) - d0(i));
      lo = std::max(lo, std::min(a, b));
      hi = std::min(hi, std::max(a, b));
    }
    conex::LineSearchOutput out;
    bool failure = PerformLineSearch(con, par, Y0, Y1, &out);
    double sc = 1e-9 * (1 + std::fabs(lo) + std::fabs(hi));
    if (std::fabs(hi - lo) <= 1e2 * sc) continue;
    std::string what = Fmt("n %d m %d kind %d steps %d: interval [%.9g, %.9g], got [%.9g, %.9g] failure %d", n, m, kind, steps,
                           lo, hi, out.lower_bound, out.upper_bound, failure);
    c.Check(failure == (lo > hi), "linesearch:failure", what);
    if (!failure) {
      c.Near(out.upper_bound, hi, 100 * sc, "linesearch:upper", what);
      c.Near(out.lower_bound, lo, 100 * sc, "linesearch:lower", what);
      c.Count("intervals");
    } else {
      c.Count("empty_intervals");
    }
    c.Distinct(Fmt("ls n%d k%d s%d f%d", n, kind, steps, failure));
  }
}

void EigenvalueCase(Ctx& c, bool big) {
  Rng& r = c.rng;
  for (int rep = 0; rep < 20; rep++) {
    int n = r.range(1, big ? 50 : 9);
    double scale = std::pow(10, r.uniform(-6, 6));
    MatrixXd S = r.matrix(n, n);
    S = (scale * .5 * (S + S.transpose())).eval();
    int kind = r.range(0, 7);
    if (kind == 0) S = scale * MatrixXd::Identity(n, n);
    if (kind == 1) S = (S.col(0) * S.col(0).transpose()).eval();
    if (kind == 2) S = MatrixXd(S.diagonal().asDiagonal());
    MatrixXd W = MatrixXd::Identity(n, n);
    if (r.chance(.8)) {
      MatrixXd b = r.matrix(n, n);
      W = std::pow(10, r.uniform(-3, 3)) * (b * b.transpose() / n + .3 * MatrixXd::Identity(n, n));
    }
    VectorXd x = r.vector(n);
    int k = r.range(1, std::min(n, 9));
    bool degenerate;
    VectorXd want = Ritz(S, W, x, k, &degenerate);
    Eigen::SelfAdjointEigenSolver<MatrixXd> ew(W);
    MatrixXd Wh = ew.operatorSqrt();
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(Wh * S * Wh, Eigen::EigenvaluesOnly);
    double lo = es.eigenvalues()(0), hi = es.eigenvalues()(n - 1), nm = std::max(std::fabs(lo), std::fabs(hi));
    // WS of a symmetric S and positive W, in both orders of multiplication.
    VectorXd got = conex::ApproximateEigenvalues(MatrixXd(W * S), W, MatrixXd(x), k, true);
    std::string w = Fmt("order %d, %d iterations, norm %.3g", n, k, nm);
    if (!c.Check(got.size() >= 1 && got.size() <= k && got.allFinite(), "lanczos:size", w)) return;
    c.Check(got.minCoeff() >= lo - 1e-5 * nm && got.maxCoeff() <= hi + 1e-5 * nm, "lanczos:outside",
            w + Fmt(": [%.9g, %.9g] outside of [%.9g, %.9g]", got.minCoeff(), got.maxCoeff(), lo, hi));
    // The symmetric variant, W = I.
    VectorXd sym = conex::ApproximateEigenvalues(S, MatrixXd(x), k);
    bool deg2;
    VectorXd want2 = Ritz(S, MatrixXd::Identity(n, n), x, k, &deg2);
    Eigen::SelfAdjointEigenSolver<MatrixXd> e1(S, Eigen::EigenvaluesOnly);
    double nm1 = e1.eigenvalues().cwiseAbs().maxCoeff();
    if (!c.Check(sym.size() >= 1 && sym.size() <= k && sym.allFinite(), "lanczos:symmetric", w)) return;
    c.Check(sym.minCoeff() >= e1.eigenvalues()(0) - 1e-5 * nm1 && sym.maxCoeff() <= e1.eigenvalues()(n - 1) + 1e-5 * nm1, "lanczos:symmetric", w);
    if (!deg2) c.Check(sym.size() == k && (sym - want2).cwiseAbs().maxCoeff() <= 1e-6 * nm1, "lanczos:symmetric", w);
    if (degenerate) {
      c.Count("invariant_subspaces");
      continue;
    }
    // Without (near) invariant subspaces no iteration may be skipped.
    if (!c.Check(got.size() == k, "lanczos:iterations", w + Fmt(": stopped after %d", (int)got.size()))) return;
    double tol = 1e-6 * nm;
    c.Max("lanczos_error", (got - want).cwiseAbs().maxCoeff() / nm);
    c.Check((got - want).cwiseAbs().maxCoeff() <= tol, "lanczos:ritz", w + Fmt(": off by %.3g", (got - want).cwiseAbs().maxCoeff() / nm));
    if (k <= 4) {
      VectorXd poly = conex::ApproximateEigenvalues(MatrixXd(W * S), W, MatrixXd(x), k, false);
      c.Check(poly.size() == k && (poly - want).cwiseAbs().maxCoeff() <= 1e-5 * nm, "lanczos:polynomials", w);
      c.Max("polynomials_error", (poly - want).cwiseAbs().maxCoeff() / nm);
    }
    if (k == n && n > 1) {
      c.Check((got - es.eigenvalues()).cwiseAbs().maxCoeff() <= tol, "lanczos:full", w);
      c.Count("full_runs");
    } else {
      c.Count("truncated_runs");
    }
    c.Distinct(Fmt("eig n%d k%d", n, k));
  }
}

// A long-hand model of the algorithm for linear programs, run side by side.
struct Model {
  const Problem* p;
  SolverConfiguration cfg;
  MatrixXd A;
  VectorXd cvec;
  std::vector<double> k;       // as predicted
  std::vector<bool> predicted;  // false: no rule is documented, k was adopted
  std::vector<int> rule;
  VectorXd y;
  int iterations = 0;
  bool solved = false, tie = false;

  void Run(const double* actual, int actual_n) {
    const int m = p->m;
    int n = 0;
    for (auto& c : p->cones) n += c.A.rows();
    A = MatrixXd::Zero(n, m);
    cvec.resize(n);
    int o = 0;
    for (auto& c : p->cones) {
      for (size_t j = 0; j < c.vars.size(); j++) A.block(o, c.vars[j], c.A.rows(), 1) += c.A.col(j);
      cvec.segment(o, c.A.rows()) = c.c;
      o += c.A.rows();
    }
    MatrixXd Q = p->QTotal();
    VectorXd b = -p->cost, W = VectorXd::Ones(n);
    double inv = 0, inv_max = cfg.inv_sqrt_mu_max, bs = 1, cs = 1, dinf = INFINITY;
    int centering = 0;
    bool limit = true;
    for (int i = 0; i < cfg.max_iterations; i++) {
      bool initial = i < cfg.initial_centering_steps_coldstart;
      bool final_c = inv >= inv_max || i >= cfg.max_iterations - cfg.final_centering_steps;
      bool update = i == 0 || !(initial || final_c);
      if (final_c && centering >= cfg.final_centering_steps) {
        limit = i >= cfg.max_iterations - 1;
        break;
      }
      MatrixXd WA = W.asDiagonal() * A;
      VectorXd AQc = WA.transpose() * W.cwiseProduct(cvec), AW = A.transpose() * W;
      Eigen::LDLT<MatrixXd> H(WA.transpose() * WA + Q);
      auto solve = [&](const VectorXd& x) {
        VectorXd z = H.solve(x);
        z += H.solve(x - (WA.transpose() * (WA * z) + Q * z));
        return z;
      };
      if (i == 0 && cfg.enable_rescaling) {
        bs = 1 / (1 + b.norm());
        cs = 1 / (1 + AQc.norm());
        inv_max = inv_max / std::sqrt(bs * cs);
      }
      bool known = true;
      int why = 0;
      if (update) {
        double t = -1;
        if (cfg.enable_line_search) {
          VectorXd y0 = solve(-2 * AW), y1 = solve(AQc * cs + b * bs - 2 * AW);
          double lo = -1e300, hi = 1e300;
          VectorXd d0 = (WA * y0).array() + 1, d1 = (WA * y1 - cs * W.cwiseProduct(cvec)).array() + 1;
          for (int j = 0; j < n; j++) {
            double u = (cfg.dinf_upper_bound - d0(j)) / (d1(j) - d0(j)), v = (-cfg.dinf_upper_bound - d0(j)) / (d1(j) - d0(j));
            lo = std::max(lo, std::min(u, v));
            hi = std::min(hi, std::max(u, v));
          }
          if (std::fabs(hi - lo) <= 1e-6 * (std::fabs(hi) + std::fabs(lo))) tie = true;
          t = lo <= hi ? hi : inv;
          if (t < 0) t = -1;
          why = lo <= hi ? 1 : 2;
        }
        if (t < 0) {
          VectorXd ys = solve(AQc * cs - b * bs);
          VectorXd l = cs * W.cwiseProduct(cvec) - WA * ys;
          Spectrum s{l.minCoeff(), l.maxCoeff(), l.sum(), l.squaredNorm(), n};
          if (std::fabs(s.lmin) < 1e-7 * std::fabs(s.lmax)) tie = true;
          bool near;
          t = s.Inverse(cfg.divergence_upper_bound * n, &near);
          if (near) tie = true;
          why = 3;
          if (t == -1) {
            if (s.lmin > 0) t = 2 / (s.lmin + s.lmax), why = 4;
            else known = false, why = 5;
          }
        }
        if (known) {
          if (t > 0) inv = t;
          else inv *= .5;
        } else if (i < actual_n) {
          inv = actual[i];
        }
      } else if (!initial) {
        centering++;
      }
      inv = std::min(inv, inv_max);
      inv = std::max(inv, std::sqrt(1 / (1e-15 + cfg.maximum_mu)));
      VectorXd ys = solve(inv * (b * bs + AQc * cs) - 2 * AW);
      VectorXd d = (WA * ys - inv * cs * W.cwiseProduct(cvec)).array() + 1;
      dinf = d.cwiseAbs().maxCoeff();
      double step = std::min(1.0, 2 / (dinf * dinf));
      VectorXd W0 = W;
      W = W.cwiseProduct((step * d).array().exp().matrix()).eval();
      k.push_back(inv);
      predicted.push_back(known);
      rule.push_back(why);
      iterations = i + 1;
      y = ys / (inv * cs);
      if (Q.isZero()) {
        // The duality gap is what the distance from the path says, but for
        // rounding: when that comes near the tolerance the run is skipped.
        double cx = (2 * W0.dot(cvec) + AQc.dot(ys) - inv * cs * W0.cwiseProduct(cvec).squaredNorm()) / (inv * bs);
        double by = b.dot(ys) / (inv * cs), sx = (n - d.squaredNorm()) / (inv * inv * bs * cs);
        double kkt = std::fabs(cx - by - sx) * bs * cs * inv * inv / n;
        if (!(kkt < 1e-2 * cfg.kkt_error_tolerance)) tie = true;
      }
      double dec = cfg.final_centering_tolerance;
      if (final_c || inv >= inv_max) {
        if (std::fabs(dinf - dec) <= 1e-3 * dec + 1e-7) tie = true;
        if (dinf <= dec) {
          limit = false;
          break;
        }
      }
    }
    double mu = 1 / (inv * inv);
    if (std::fabs(dinf - 1) < 1e-6) tie = true;
    solved = mu <= cfg.infeasibility_threshold && !limit && dinf <= 1;
  }
};

void TrajectoryCase(Ctx& c, bool line_search, bool quadratic) {
  Rng& r = c.rng;
  int bad = 0, n = 0;
  std::string why;
  for (int rep = 0; rep < 10; rep++) {
    GenOptions o;
    o.lin = true;
    o.soc = o.quad = o.lmi = o.herm = false;
    o.quadratic_cost = quadratic;
    Problem p = RandomProblem(&r, o);
    SolverConfiguration cfg;
    cfg.max_iterations = r.chance(.5) ? r.range(30, 100) : r.range(1, 30);
    cfg.enable_line_search = line_search;
    cfg.enable_rescaling = quadratic ? 0 : r.chance(.7);
    if (!cfg.enable_rescaling && !quadratic && r.chance(.5)) {
      // The same problem in other units: slack eigenvalues of any size.
      double scale = std::pow(10, r.uniform(-3, 2));
      for (auto& x : p.cones) x.A *= scale, x.c *= scale;
      p.cost *= scale;
    }
    if (r.chance(.5)) cfg.kkt_error_tolerance = std::pow(10, r.uniform(-3, 1));
    if (r.chance(.5)) {
      double ks[] = {1, 30, 100, 300, 1000, 3000};
      cfg.inv_sqrt_mu_max = ks[r.range(0, 5)];
      cfg.maximum_mu = std::pow(10, r.uniform(-1, 5));
      cfg.divergence_upper_bound = r.chance(.5) ? std::pow(10, r.uniform(-1, 3)) : 1;
      cfg.dinf_upper_bound = r.chance(.5) ? r.uniform(.3, 1.5) : 1;
      cfg.final_centering_steps = r.range(0, 8);
      cfg.final_centering_tolerance = r.chance(.5) ? std::pow(10, r.uniform(-4, 0)) : .01;
      cfg.initial_centering_steps_coldstart = r.chance(.5) ? r.range(0, 6) : 0;
      cfg.infeasibility_threshold = r.chance(.3) ? std::pow(10, r.uniform(-2, 5)) : 1e5;
    }
    cfg.kkt_solver = r.range(0, 1);
    cfg.prepare_dual_variables = r.range(0, 1);
    Program prog(p.m);
    if (!c.Check(BuildInto(&prog, p), "build", "constraint refused")) return;
    Result res = SolveProgram(&prog, cfg, p.m);
    int actual_n = prog.stats ? prog.stats->num_iter : 0;
    const double* actual = prog.stats ? prog.stats->sqrt_inv_mu : nullptr;
    Model mod;
    mod.p = &p;
    mod.cfg = cfg;
    mod.Run(actual, actual_n);
    if (mod.tie) {
      c.Count("ties");
      continue;
    }
    std::string w = Describe(p) + Fmt(" max_iterations=%d", cfg.max_iterations);
    n++;
    int common = std::min<int>(mod.k.size(), actual_n);
    double worst = 0;
    int at = -1;
    for (int i = 0; i < common; i++) {
      double e = std::fabs(actual[i] - mod.k[i]) / mod.k[i];
      if (!(e <= worst)) worst = e, at = i;
      if (mod.predicted[i]) c.Count(Fmt("mu_by_rule_%d", mod.rule[i]));
      else c.Count("mu_adopted");
    }
    c.Max("k_error", worst);
    bool ok = worst <= 1e-4 && mod.iterations == actual_n && mod.iterations == res.status.num_iterations &&
              mod.solved == (res.status.solved != 0);
    double ey = mod.y.size() && mod.solved ? (mod.y - res.y).norm() / (1e-3 + mod.y.norm()) : 0;
    c.Max("y_error", ey);
    ok = ok && ey <= 1e-4;
    if (!ok) {
      bad++;
      why = w + Fmt(": k differs by %.3g at iteration %d, %d against %d iterations, solved %d against %d, y off by %.3g", worst, at,
                    actual_n, mod.iterations, res.status.solved, mod.solved, ey);
      if (c.replay) fprintf(stderr, "BAD %s\n", why.c_str());
    }
    c.Count("trajectories");
    c.Count("iterations_compared", common);
    c.Distinct(Fmt("traj %d%d it%d s%d ", line_search, quadratic, actual_n, res.status.solved) + Signature(p));
    if (c.index < 1) c.Sample(w + Fmt(": %d iterations, largest difference of the barrier parameter %.2g", actual_n, worst));
  }
  c.Count("trajectories_off", bad);
  c.Check(bad <= 2, "trajectory", Fmt("%d of %d runs left the model, e.g. ", bad, n) + why);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  s.push_back({"inverse", 16000, 20000, InverseCase});
  s.push_back({"line_search", 10000, 10000, [](Ctx& c) { LineSearchCase(c, false); }});
  s.push_back({"line_search_big", 400, 2000, [](Ctx& c) { LineSearchCase(c, true); }});
  s.push_back({"eigenvalues", 8000, 8000, [](Ctx& c) { EigenvalueCase(c, false); }});
  s.push_back({"eigenvalues_big", 400, 2000, [](Ctx& c) { EigenvalueCase(c, true); }});
  s.push_back({"trajectory", 6000, 6000, [](Ctx& c) { TrajectoryCase(c, false, false); }});
  s.push_back({"trajectory_line_search", 4000, 4000, [](Ctx& c) { TrajectoryCase(c, true, false); }});
  s.push_back({"trajectory_quadratic", 4000, 4000, [](Ctx& c) { TrajectoryCase(c, true, true); }});
  return Main(argc, argv, s);
}
