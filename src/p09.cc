// P09: the update of each constraint's weight follows the geodesic of its cone.
#include "rig.h"

#include "conex/exponential_map.h"
#include "conex/exponential_map_pade.h"

using namespace verif;

namespace {

struct Kind {
  RigType type;
  int d;
};
const Kind kinds[] = {{R_LIN, 1}, {R_SOC, 1}, {R_QUAD, 1}, {R_LMI, 1}, {R_HERM, 1}, {R_HERM, 2}, {R_HERM, 4}, {R_HERM, 8}};

// Documented approximation of exp(x) of each cone, relative to exp(x).
double ExpError(RigType t, int d, double x) {
  double a = std::fabs(x);
  if (t == R_LMI) return 1.5e-5 * std::pow(a, 7) * std::exp(a / 4);
  if (t != R_HERM) return 0;
  if (d <= 4) return a * a * a / 75 * std::exp(a / 4);
  return 0;
}

double Cond(const VectorXd& ev) { return ev(0) > 0 ? ev(ev.size() - 1) / ev(0) : 1e300; }

bool Same(const Algebra& g, const Elem& a, const Elem& b) {
  return g.Matrix() ? [&] {
    for (int k = 0; k < g.d; k++)
      if (a.h[k] != b.h[k]) return false;
    return true;
  }() : a.v == b.v;
}

double HermitianDefect(const HMat& h) { return std::sqrt(HInner(HAdd(h, HSym(h), -1), HAdd(h, HSym(h), -1))); }

// With d <= 4: Q(W^{-1/2}) X, else X itself.
Elem Pull(const Algebra& g, const Elem& W, const Elem& X) {
  if (g.Matrix() && g.d == 8) return X;
  Elem r = g.Spectral(W, [](double x) { return 1 / std::sqrt(x); });
  return g.Quad(r, X);
}

// Orders for cases beyond the sizes at which block kernels and alignment matter.
int BigOrder(const Kind& k) {
  if (k.type == R_LIN) return 150;
  if (k.type == R_LMI) return 20;
  if (k.type == R_HERM) return k.d == 1 ? 16 : k.d == 2 ? 10 : k.d == 4 ? 6 : 3;
  return 40;
}

void Steps(Ctx& c, const Kind& k, bool big = false) {
  auto rp = RandomRig(&c.rng, k.type, k.d, false, big ? BigOrder(k) : c.thorough ? 7 : 5);
  Rig& r = *rp;
  const Algebra& g = r.alg;
  const bool oct = g.Matrix() && g.d == 8;
  int steps = c.rng.range(1, 8);
  r.Assemble();
  r.W = r.ReadW();
  const double metric = g.Spin() ? 10 * (1 + g.M.norm()) : 1;
  for (int s = 0; s < steps; s++) {
    std::string w = r.name + Fmt(" step %d", s);
    VectorXd ev = g.Eigs(r.W);
    if (!(Cond(ev) < 1e6) || !(ev(ev.size() - 1) < 1e6) || !(ev(0) > 1e-6)) break;
    Direction q = RandomDirection(&c.rng, r);
    VectorXd ycopy = q.y;
    conex::Ref y(ycopy.data(), ycopy.size(), 1);
    conex::StepInfo info;
    conex::StepOptions o;
    bool affine = c.rng.chance(.15);
    if (affine) {
      o.affine = true;
      // The linear cone takes no c_weight here.
      o.c_weight = k.type == R_LIN || c.rng.chance(.5) ? 0 : q.cw;
      // Nor an e_weight.
      o.e_weight = (k.type == R_LMI || k.type == R_HERM) && !oct && c.rng.chance(.5) ? c.rng.uniform(-1, 1) : 0;
      PrepareStep(r.con.get(), o, y, &info);
      Elem want = g.Scale(r.W, 1 + o.e_weight);
      if (k.type == R_LIN || k.type == R_LMI || (k.type == R_HERM && !oct)) {
        want = g.Add(want, g.Quad(r.W, r.Slack(q.y, o.c_weight)), -1);
      }
      r.Assemble();
      Elem got = r.ReadW();
      if (!oct) {
        double t = 1e-11 * metric * (g.Size(r.W) + g.Size(r.W) * g.Size(r.W) * (g.Size(r.Slack(q.y, 0)) + q.cw * g.Size(r.c) + 1));
        c.Near(g.Size(g.Add(got, want, -1)), 0, t, "affine-step", w);
        c.Count("affine_steps");
      }
      // Continue from the identity.
      SetIdentity(r.con.get());
      r.Assemble();
      r.W = r.ReadW();
      continue;
    }
    o.affine = false;
    o.e_weight = 1;
    o.c_weight = q.cw;
    o.inv_sqrt_mu = q.cw;
    PrepareStep(r.con.get(), o, y, &info);
    double norm = q.norminf;
    o.step_size = norm > 0 ? std::min(1.0, 2.0 / (norm * norm)) : 1;
    if (c.rng.chance(.3)) o.step_size *= c.rng.uniform(.02, 1);
    TakeStep(r.con.get(), o);
    r.Assemble();
    Elem next = r.ReadW();
    // W' = Q(W^{1/2}) exp(t d).
    VectorXd x = (VectorXd::Ones(q.eigs.size()) - q.eigs) * o.step_size;
    const double cond = oct ? 1 : Cond(ev);
    double noise = 1e-12 * metric * (1 + g.Norm(q.d) + q.cw * g.Size(r.c) * g.Size(r.W)) * std::exp(x.maxCoeff());
    if (!oct) {
      Elem got = Pull(g, r.W, next), want = g.Exp(g.Scale(q.d, o.step_size));
      double tol = 0;
      for (int i = 0; i < x.size(); i++) tol += std::pow(ExpError(k.type, g.d, x(i)) * std::exp(x(i)), 2);
      tol = std::sqrt(tol);
      double err = g.Norm(g.Add(got, want, -1));
      c.Near(err, 0, tol + noise * cond, "geodesic", w + Fmt(": t %.3g |d|_inf %.3g", o.step_size, norm));
      if (tol > 0) c.Max("approximation_error_over_bound", (err - noise * cond) / tol);
      c.Max("exact_error", tol == 0 ? err / (noise * cond) : 0);
    } else {
      // First order accurate: (1 + t d / 2)^2.
      Elem ws = g.Sqrt(r.W), z = g.Add(g.One(), g.Scale(q.d, .5 * o.step_size));
      Elem want = g.Quad(ws, g.Dot(z, z));
      double tol = 0;
      for (int i = 0; i < x.size(); i++) tol = std::max(tol, .26 * x(i) * x(i) * std::exp(std::fabs(x(i))));
      c.Near(g.Norm(g.Add(next, g.Quad(ws, g.Exp(g.Scale(q.d, o.step_size))), -1)), 0,
             std::sqrt(g.n) * tol * g.Size(r.W) + 1e-9 * g.Size(r.W), "geodesic", w + Fmt(": t %.3g |d|_inf %.3g", o.step_size, norm));
    }
    // The weight stays Hermitian and interior.
    if (g.Matrix() && k.type == R_HERM)
      c.Check(HermitianDefect(next.h) <= 1e-12 * g.Size(next), "not-hermitian", w);
    VectorXd en = g.Eigs(next);
    c.Check(en(0) > -1e-12 * en(en.size() - 1) * metric, "left-cone", w + Fmt(": eigenvalues [%.3g, %.3g]", en(0), en(en.size() - 1)));
    if (norm <= 1 && en(0) > 1e-6) {
      // Convergence region: moving twice towards the same target contracts.
      c.Count("contracting_steps");
    }
    r.W = next;
    c.Count("steps");
    c.Count(o.step_size == 1 ? "full_steps" : "damped_steps");
    c.Distinct(Fmt("%s d%d n%d damped%d s%d big%d", RigName(k.type), g.d, g.n, o.step_size < 1, std::min(s, 3), norm > 1));
  }
  c.Sample(r.name);
}

// The epigraph has no basis: its weight is followed by the model alone.
void EpigraphSteps(Ctx& c) {
  auto rp = RandomRig(&c.rng, R_EPI, 1, false, c.thorough ? 7 : 5);
  Rig& r = *rp;
  const Algebra& g = r.alg;
  int steps = c.rng.range(1, 8);
  for (int s = 0; s < steps; s++) {
    VectorXd ev = g.Eigs(r.W);
    if (!(Cond(ev) < 1e5) || !(ev(1) < 1e5)) break;
    Direction q = RandomDirection(&c.rng, r);
    conex::Ref y(q.y.data(), q.y.size(), 1);
    conex::StepInfo info;
    conex::StepOptions o;
    o.affine = false;
    o.e_weight = 1;
    o.c_weight = q.cw;
    o.inv_sqrt_mu = q.cw;
    PrepareStep(r.con.get(), o, y, &info);
    o.step_size = std::min(1.0, 2.0 / (q.norminf * q.norminf)) * (c.rng.chance(.3) ? c.rng.uniform(.02, 1) : 1);
    TakeStep(r.con.get(), o);
    r.W = g.Quad(g.Sqrt(r.W), g.Exp(g.Scale(q.d, o.step_size)));
    r.Assemble();
    for (int i = 0; i < r.m(); i++)
      c.Near(r.sys.AW(i, 0), g.Inner(r.A[i], r.W), 1e-8 * g.Size(r.W) * (1 + g.M.norm()), "geodesic", r.name + Fmt(" step %d", s));
    c.Near(r.sys.inner_product_of_w_and_c, g.Inner(r.c, r.W), 1e-8 * g.Size(r.W) * (1 + g.M.norm()), "geodesic", r.name + Fmt(" step %d", s));
    c.Count("steps");
    c.Count(o.step_size == 1 ? "full_steps" : "damped_steps");
    c.Distinct(Fmt("epigraph n%d s%d", g.n, std::min(s, 3)));
  }
}

// Stand-alone exponential maps.
void Maps(Ctx& c) {
  int d = 1 << c.rng.range(0, 3);
  Algebra g;
  g.type = R_HERM;
  g.d = d;
  g.n = d == 8 ? c.rng.range(1, 3) : c.rng.range(1, 6);
  Elem x;
  x.h = HRandom(&c.rng, d, g.n);
  if (c.rng.chance(.2)) x = g.Zero();
  if (c.rng.chance(.2)) {
    for (int a = 0; a < d; a++)
      for (int i = 0; i < g.n; i++)
        for (int j = 0; j < g.n; j++)
          if (i != j || a > 0) x.h[a](i, j) = 0;
  }
  VectorXd ev = g.Eigs(x);
  double big = ev.cwiseAbs().maxCoeff();
  double target = c.rng.uniform(0, 1.5);
  if (big > 0) x = g.Scale(x, target / big);
  else target = 0;
  std::string w = Fmt("dimension %d order %d |x| %.3g", d, g.n, target);
  double bound3 = std::sqrt(g.n) * (target * target * target / 75 * std::exp(1.25 * target)) + 1e-11;
  if (d <= 4) {
    conex::HyperComplexMatrix out(d);
    for (int i = 0; i < d; i++) out.at(i) = MatrixXd::Zero(g.n, g.n);
    conex::ExponentialMap(ToConex(x.h), &out);
    Elem e;
    e.h = FromConex(out);
    c.Near(g.Norm(g.Add(e, g.Exp(x), -1)), 0, bound3, "exponential-map", w);
    c.Check(HermitianDefect(e.h) <= 1e-12 * (1 + g.Size(e)), "not-hermitian", w);
    c.Check(g.Eigs(e)(0) > 0, "exponential-not-positive", w);
    c.Count("maps");
  }
  if (d == 1) {
    MatrixXd out = MatrixXd::Constant(g.n, g.n, std::nan(""));
    conex::Ref ref(out.data(), g.n, g.n);
    conex::ExponentialMapPadeApproximation(x.h[0], &ref);
    Elem e;
    e.h = {out};
    c.Near(g.Norm(g.Add(e, g.Exp(x), -1)), 0,
           std::sqrt(g.n) * 1.5e-5 * std::pow(target, 7) * std::exp(1.25 * target) + 1e-12, "pade", w);
    // exp of a general matrix, by repeated squaring of the scaled series.
    MatrixXd a = c.rng.matrix(g.n, g.n);
    a *= c.rng.uniform(0, 1) / (1e-9 + a.norm());
    conex::ExponentialMapPadeApproximation(a, &ref);
    MatrixXd t = MatrixXd::Identity(g.n, g.n), sum = t;
    for (int i = 1; i < 25; i++) t = t * a / i, sum += t;
    c.Near((out - sum).norm(), 0, 3e-5 * std::pow(a.norm(), 7) + 1e-12, "pade", w + " general");
    c.Count("maps");
  }
  {
    // W -> Q(W^{1/2}) exp(Q(W^{1/2}) s), as a power series.
    Elem W = g.One();
    W.h = HInterior(&c.rng, d, g.n, 1);
    W = g.Scale(W, 1 / g.Eigs(W)(g.n - 1));
    Elem ws = g.Sqrt(W);
    Elem want = g.Quad(ws, g.Exp(g.Quad(ws, x)));
    Elem got;
    got.h = FromConex(conex::GeodesicUpdate(ToConex(W.h), ToConex(x.h)));
    c.Near(g.Size(g.Add(got, want, -1)), 0, std::sqrt(g.n) * std::pow(target, 12) / 4e8 * std::exp(target) + 1e-9, "geodesic-update", w);
    Elem z = g.Add(g.Scale(g.One(), 1.5), g.Scale(g.Quad(ws, x), .5));
    got.h = FromConex(conex::GeodesicUpdateScaled(ToConex(W.h), ToConex(x.h)));
    c.Near(g.Size(g.Add(got, g.Quad(ws, g.Dot(z, z)), -1)), 0, 1e-9, "geodesic-update-scaled", w);
    c.Check(HermitianDefect(got.h) <= 1e-12, "not-hermitian", w);
    c.Count("maps");
  }
  c.Distinct(Fmt("map d%d n%d", d, g.n));
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  for (auto& k : kinds) {
    Kind kk = k;
    std::string name = std::string(RigName(k.type)) + (k.type == R_HERM ? Fmt("%d", k.d) : "");
    s.push_back({name, 6000, 20000, [kk](Ctx& c) { Steps(c, kk); }});
    s.push_back({name + "_big", 60, 400, [kk](Ctx& c) { Steps(c, kk, true); }});
  }
  s.push_back({"epigraph", 6000, 20000, EpigraphSteps});
  s.push_back({"maps", 6000, 20000, Maps});
  return Main(argc, argv, s);
}
