// P04: equivalent formulations of a problem have the same solution.
#include "solve.h"

using namespace verif;

namespace {

MatrixXd Rotation(Rng* r, int n) {
  Eigen::HouseholderQR<MatrixXd> qr(r->matrix(n, n));
  return qr.householderQ();
}
// Well conditioned.
MatrixXd Invertible(Rng* r, int n) {
  VectorXd s(n);
  for (int i = 0; i < n; i++) s(i) = std::pow(3, r->uniform(-1, 1));
  return Rotation(r, n) * s.asDiagonal() * Rotation(r, n);
}
std::vector<int> Permutation(Rng* r, int n) { return r->subset(n, n); }

bool Matrix(const Cone& k) { return k.type == LMI || k.type == HERM; }

// --- formulations that leave every iterate as it is --------------------------

// y = y' with variable i called names[i].
void Rename(Rng* r, Problem* p) {
  auto names = Permutation(r, p->m);
  auto map = [&](std::vector<int>* v) {
    for (auto& i : *v) i = names[i];
  };
  VectorXd cost(p->m), feas(p->m);
  for (int i = 0; i < p->m; i++) cost(names[i]) = p->cost(i), feas(names[i]) = p->y_feas(i);
  p->cost = cost;
  p->y_feas = feas;
  for (auto& k : p->cones) map(&k.vars), k.all_vars = false;
  for (auto& q : p->quads) map(&q.vars);
}
// The order of the variables of a cone.
void Columns(Rng* r, Cone* k) {
  if (k->type == EPI) return;
  int n = k->vars.size();
  auto order = Permutation(r, n);
  Cone old = *k;
  for (int i = 0; i < n; i++) {
    k->vars[i] = old.vars[order[i]];
    if (Matrix(*k)) k->H[i] = old.H[order[i]];
    else k->A.col(i) = old.A.col(order[i]);
  }
  k->all_vars = false;
}
// The same cone over all the variables.
void Densify(Rng*, int m, Cone* k) {
  if (k->type == EPI) return;
  Cone old = *k;
  k->vars.clear();
  for (int i = 0; i < m; i++) k->vars.push_back(i);
  k->all_vars = true;
  if (Matrix(*k)) {
    k->H.assign(m, HZero(k->d, k->Order()));
    for (size_t i = 0; i < old.vars.size(); i++) k->H[old.vars[i]] = old.H[i];
  } else {
    k->A = MatrixXd::Zero(old.A.rows(), m);
    for (size_t i = 0; i < old.vars.size(); i++) k->A.col(old.vars[i]) = old.A.col(i);
  }
}
// Other coordinates of the slack.
void Coordinates(Rng* r, Cone* k) {
  int n = Matrix(*k) ? 0 : k->A.rows();
  if (k->type == LIN) {
    auto rows = Permutation(r, n);
    Cone old = *k;
    for (int i = 0; i < n; i++) k->A.row(i) = old.A.row(rows[i]), k->c(i) = old.c(rows[i]);
  } else if (k->type == SOC) {
    MatrixXd q = MatrixXd::Identity(n, n);
    q.bottomRightCorner(n - 1, n - 1) = Rotation(r, n - 1);
    k->A = (q * k->A).eval();
    k->c = (q * k->c).eval();
    if (r->chance(.4)) k->type = QUAD, k->Q.resize(0, 0);
  } else if (k->type == QUAD) {
    // s'Qs = (Ts)' T^-T Q T^-1 (Ts)
    MatrixXd q = MatrixXd::Identity(n, n), t = Invertible(r, n - 1), ti = t.inverse();
    q.bottomRightCorner(n - 1, n - 1) = t;
    MatrixXd Q = ti.transpose() * k->Metric() * ti;
    k->Q = .5 * (Q + Q.transpose());
    k->A = (q * k->A).eval();
    k->c = (q * k->c).eval();
  }
}
// Rows of a linear cone as several constraints.
void Split(Rng* r, Problem* p) {
  std::vector<Cone> out;
  for (auto& k : p->cones) {
    if (k.type != LIN || k.A.rows() < 2 || r->chance(.4)) {
      out.push_back(k);
      continue;
    }
    int n = k.A.rows(), cut = r->range(1, n - 1);
    Cone a = k, b = k;
    a.A = k.A.topRows(cut), a.c = k.c.head(cut);
    b.A = k.A.bottomRows(n - cut), b.c = k.c.tail(n - cut);
    out.push_back(a);
    out.push_back(b);
  }
  p->cones = out;
}
// y = T y' + y0
struct Affine {
  MatrixXd T;
  VectorXd y0;
};
Affine Move(Rng* r, Problem* p) {
  Affine f{Invertible(r, p->m), r->vector(p->m)};
  for (auto& k : p->cones) {
    Densify(r, p->m, &k);
    Cone old = k;
    if (Matrix(k)) {
      for (int i = 0; i < p->m; i++) {
        k.HC = HAdd(k.HC, old.H[i], -f.y0(i));
        k.H[i] = HZero(k.d, k.Order());
        for (int j = 0; j < p->m; j++) k.H[i] = HAdd(k.H[i], old.H[j], f.T(j, i));
      }
    } else {
      k.c = old.c - old.A * f.y0;
      k.A = old.A * f.T;
    }
  }
  p->cost = (f.T.transpose() * (p->cost + p->QTotal() * f.y0)).eval();
  if (p->quads.size()) {
    MatrixXd q = f.T.transpose() * p->QTotal() * f.T;
    Quad one;
    one.Q = .5 * (q + q.transpose());
    for (int i = 0; i < p->m; i++) one.vars.push_back(i);
    p->quads = {one};
  }
  return f;
}

bool HasEpi(const Problem& p) {
  for (auto& k : p.cones)
    if (k.type == EPI) return true;
  return false;
}

// Whether the path of p hangs on the last digits of its data.
bool Sensitive(Rng* r, const Problem& p, const SolverConfiguration& cfg, const Program& a, const Result& x) {
  for (int k = 0; k < 6; k++) {
    Problem q = p;
    auto touch = [&](auto* v) {
      for (int i = 0; i < v->size(); i++) v->data()[i] *= 1 + r->uniform(-1e-11, 1e-11);
    };
    touch(&q.cost);
    for (auto& cone : q.cones) {
      touch(&cone.c);
      touch(&cone.A);
      for (int i = 0; i < cone.Order() && Matrix(cone); i++) cone.HC[0](i, i) *= 1 + r->uniform(-1e-11, 1e-11);
    }
    Program b(q.m);
    if (!BuildInto(&b, q)) return true;
    Result y = SolveProgram(&b, cfg, q.m);
    if (y.ok != x.ok || y.iters != x.iters) return true;
    for (int i = 0; i < x.iters; i++)
      if (std::fabs(a.stats->sqrt_inv_mu[i] / b.stats->sqrt_inv_mu[i] - 1) > 1e-8) return true;
    if ((y.y - x.y).norm() > 1e-8 * (1 + x.y.norm())) return true;
  }
  return false;
}

void Exact(Ctx& c) {
  Rng& r = c.rng;
  bool quadratic = r.chance(.25);
  GenOptions o;
  o.max_m = 7;
  o.herm = false;
  o.epi = !quadratic && r.chance(.2);
  o.structured = r.chance(.4);
  o.quadratic_cost = quadratic;
  if (quadratic) o.soc = o.quad = o.lmi = false;
  Problem p = RandomProblem(&r, o), q = p;
  SolverConfiguration cfg;
  cfg.max_iterations = 60;
  cfg.enable_line_search = quadratic;
  cfg.enable_rescaling = !quadratic && r.chance(.5);
  cfg.kkt_solver = r.range(0, 1);
  // Tighter targets lose digits to the conditioning of the last iterations.
  cfg.inv_sqrt_mu_max = std::pow(10, r.uniform(1, 2));
  cfg.divergence_upper_bound = std::pow(10, r.uniform(-.5, .5));
  if (r.chance(.3)) cfg.initial_centering_steps_coldstart = r.range(1, 4);

  std::string how;
  Affine move{MatrixXd::Identity(p.m, p.m), VectorXd::Zero(p.m)};
  bool moved = !cfg.enable_rescaling && !HasEpi(p) && r.chance(.4);
  if (moved) move = Move(&r, &q), how += " coordinates";
  if (r.chance(.5)) Split(&r, &q), how += " split";
  for (auto& k : q.cones) {
    if (r.chance(.5)) Coordinates(&r, &k), how += " slack";
    if (r.chance(.3)) Densify(&r, p.m, &k), how += " dense";
    if (r.chance(.4)) Columns(&r, &k), how += " columns";
  }
  if (r.chance(.5)) r.shuffle(&q.cones), r.shuffle(&q.quads), how += " order";
  std::vector<int> names;
  if (r.chance(.6)) {
    Rng copy = r;
    names = Permutation(&copy, p.m);
    Rename(&r, &q);
    how += " names";
  }
  Program a(p.m), b(p.m);
  if (!c.Check(BuildInto(&a, p) && BuildInto(&b, q), "build", "a valid constraint was refused: " + Describe(p) + how)) return;
  Result x = SolveProgram(&a, cfg, p.m), y = SolveProgram(&b, cfg, p.m);
  std::string what = how + ": " + Describe(p);
  if (!x.ok && !y.ok) return c.Count("unsolved");
  double worst = 0;
  int n = std::min(x.iters, y.iters);
  for (int i = 0; i < n; i++)
    worst = std::max(worst, std::fabs(a.stats->sqrt_inv_mu[i] / b.stats->sqrt_inv_mu[i] - 1));
  VectorXd z = y.y;
  if (names.size())
    for (int i = 0; i < p.m; i++) z(i) = y.y(names[i]);
  z = (move.T * z + move.y0).eval();
  double dist = (z - x.y).norm() / (1 + x.y.norm());
  bool same = x.ok && y.ok && x.iters == y.iters && worst <= 1e-5 && dist <= 1e-5;
  if (!same && ((x.ok && Sensitive(&r, p, cfg, a, x)) || (y.ok && Sensitive(&r, q, cfg, b, y)))) return c.Count("exact:sensitive");
  c.Check(x.ok && y.ok, "exact:solved", Fmt("only one of two formulations is solved (%d, %d iterations)", x.iters, y.iters) + what);
  c.Check(x.iters == y.iters, "exact:iterations", Fmt("%d iterations instead of %d", y.iters, x.iters) + what);
  c.Check(worst <= 1e-5, "exact:path", Fmt("parameters differ by %.3g", worst) + what);
  c.Check(dist <= 1e-5, "exact:solution", Fmt("solutions differ by %.3g", dist) + what);
  c.Max("exact:parameter_difference", worst);
  c.Max("exact:solution_difference", dist);
  c.Count("exact_pairs");
  c.Count("exact:iterations_compared", n);
  c.Distinct(how + Signature(p));
  c.Sample(what);
}

// --- formulations with the same solution -------------------------------------

// Rows of a linear cone as cones of another type.
Cone RowsAs(Rng* r, ConeType t, const Cone& k) {
  Cone q = k;
  int n = k.A.rows();
  q.type = t;
  if (t == LMI || t == HERM) {
    q.d = t == LMI ? 1 : HyperDim(r, n <= 3);
    q.HC = HZero(q.d, n);
    q.HC[0].diagonal() = k.c;
    for (int j = 0; j < k.A.cols(); j++) {
      q.H.push_back(HZero(q.d, n));
      q.H.back()[0].diagonal() = k.A.col(j);
    }
    q.A.resize(0, 0);
    q.c.resize(0);
  }
  return q;
}
Cone Arrow(const Cone& k) {
  // s0 >= |L' s1|, Q = L L'
  Cone q = k;
  int n = k.A.rows() - 1;
  MatrixXd l = k.Metric().llt().matrixL();
  auto arrow = [&](const VectorXd& s) {
    HMat h = HZero(1, n + 1);
    VectorXd t = l.transpose() * s.tail(n);
    for (int i = 0; i <= n; i++) h[0](i, i) = s(0);
    for (int i = 0; i < n; i++) h[0](0, i + 1) = h[0](i + 1, 0) = t(i);
    return h;
  };
  q.type = LMI;
  q.d = 1;
  q.HC = arrow(k.c);
  for (int j = 0; j < k.A.cols(); j++) q.H.push_back(arrow(k.A.col(j)));
  q.A.resize(0, 0), q.c.resize(0), q.Q.resize(0, 0);
  return q;
}

void Equivalent(Ctx& c) {
  Rng& r = c.rng;
  GenOptions o;
  o.max_m = 5;
  o.epi = r.chance(.2);
  o.structured = r.chance(.3);
  o.wide_scale = false;
  Problem p = RandomProblem(&r, o), q = p;
  std::string how;
  std::vector<Cone> extra;
  double cost_scale = 1;
  for (auto& k : q.cones) {
    if (!r.chance(.7)) continue;
    if (k.type == LIN) {
      switch (r.range(0, 4)) {
        case 0:
          k = RowsAs(&r, LMI, k);
          how += " lin>lmi";
          break;
        case 1:
          k = RowsAs(&r, HERM, k);
          how += Fmt(" lin>herm%d", k.d);
          break;
        case 2: {
          // s >= 0 is s >= |0|, each row on its own.
          Cone all = k;
          for (int i = 0; i < all.A.rows(); i++) {
            Cone one = all;
            one.type = r.chance(.5) ? SOC : QUAD;
            int n = r.range(1, 2);
            one.A = MatrixXd::Zero(1 + n, all.A.cols());
            one.c = VectorXd::Zero(1 + n);
            one.A.row(0) = all.A.row(i);
            one.c(0) = all.c(i);
            if (i == 0) k = one;
            else extra.push_back(one);
          }
          how += " lin>soc";
          break;
        }
        case 3:
          for (int i = 0; i < k.A.rows(); i++) {
            double s = std::pow(5, r.uniform(-1, 1));
            k.A.row(i) *= s;
            k.c(i) *= s;
          }
          how += " lin*scale";
          break;
        default: {
          Cone twice = k;
          twice.A.resize(2 * k.A.rows(), k.A.cols());
          twice.c.resize(2 * k.A.rows());
          twice.A << k.A, k.A;
          twice.c << k.c, k.c;
          k = twice;
          how += " lin*2";
        }
      }
    } else if (k.type == SOC || k.type == QUAD || k.type == EPI) {
      if (k.type == EPI || r.chance(.6)) {
        how += Fmt(" %s>lmi", ConeName(k.type));
        k = Arrow(k);
      } else {
        double s = std::pow(3, r.uniform(-1, 1));
        k.A *= s, k.c *= s;
        how += " soc*scale";
      }
    } else {
      int n = k.Order(), kind = r.range(0, 2);
      auto each = [&](auto f) {
        k.HC = f(k.HC);
        for (auto& h : k.H) h = f(h);
      };
      if (kind == 0 && k.d < 8) {
        how += Fmt(" herm%d>lmi", k.d);
        each([&](const HMat& h) { return HMat(1, Embed(h)); });
        k.d = 1;
        k.type = LMI;
      } else if (kind == 1 && k.d < 8 && (k.d < 4 || n <= 3)) {
        int d = k.d * (k.d == 1 && n <= 3 ? 1 << r.range(0, 3) : 2);
        how += Fmt(" herm%d>herm%d", k.d, d);
        each([&](const HMat& h) {
          HMat e = HZero(d, n);
          for (size_t i = 0; i < h.size(); i++) e[i] = h[i];
          return e;
        });
        k.d = d;
        k.type = HERM;
      } else if (k.d < 8) {
        // T S T' for real T.
        MatrixXd t = Invertible(&r, n);
        how += " congruence";
        each([&](const HMat& h) {
          HMat e = h;
          for (auto& x : e) x = (t * x * t.transpose()).eval();
          for (int i = 0; i < (int)e.size(); i++) e[i] = i ? .5 * (e[i] - e[i].transpose()).eval() : .5 * (e[i] + e[i].transpose()).eval();
          return e;
        });
      }
    }
  }
  q.cones.insert(q.cones.end(), extra.begin(), extra.end());
  if (r.chance(.2)) {
    cost_scale = std::pow(4, r.uniform(-1, 1));
    q.cost *= cost_scale;
    how += " cost*scale";
  }
  if (r.chance(.3)) Rename(&r, &q), how += " names";
  if (how.empty()) return c.Count("unchanged");
  SolverConfiguration cfg;
  cfg.max_iterations = 100;
  cfg.inv_sqrt_mu_max = std::pow(10, r.uniform(2, 3));
  cfg.enable_rescaling = r.chance(.8);
  std::string what = how + ": " + Describe(p), difference;
  c.Count("equivalent_pairs");
  // Steps are bounded by estimated eigenvalues: rarely a run ends outside the
  // region of convergence.  That depends on the configuration.
  for (int attempt = 0; attempt < 4; attempt++) {
    Result x = SolveProblem(p, cfg), y = SolveProblem(q, cfg);
    if (!c.Check(x.built && y.built, "build", "a valid constraint was refused" + what)) return;
    if (!x.ok && !y.ok) return c.Count("equivalent:unsolved");
    double vx = p.Objective(x.y), vy = q.Objective(y.y) / cost_scale;
    double gx = x.mu * p.Rank(), gy = y.mu / cost_scale * q.Rank();
    // Both are above the optimum, by (nearly) mu times the rank at most.
    double rounding = 1e-9 * (1 + std::fabs(vx));
    if (x.ok && y.ok && vx - vy <= 1.25 * gx + rounding && vy - vx <= 1.25 * gy + rounding) {
      c.Max("equivalent:excess", std::max((vx - vy) / (1.25 * gx), (vy - vx) / (1.25 * gy)));
      difference.clear();
      break;
    }
    difference = !x.ok || !y.ok ? "only one formulation is solved" : Fmt("the optimal values are %.9g and %.9g, mu*rank %.3g and %.3g", vx, vy, gx, gy);
    c.Count("equivalent:attempts_repeated");
    cfg.divergence_upper_bound = attempt % 2 ? .5 : .7;
    cfg.enable_rescaling = attempt < 2;
    cfg.final_centering_steps = 12;
  }
  // Octonions guess the smallest eigenvalue.
  for (auto& k : q.cones)
    if (k.type == HERM && k.d == 8 && difference.size()) return c.Count("equivalent:octonions_inconclusive");
  c.Check(difference.empty(), "equivalent:value", difference + what);
  c.Count("equivalent_judged");
  c.Distinct(how + Signature(p));
  c.Sample(what);
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"exact", 20000, 80000, Exact}, {"equivalent", 15000, 60000, Equivalent}});
}
