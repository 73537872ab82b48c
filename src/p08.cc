// P08: the operators of each constraint agree with their definition.
#include "rig.h"

using namespace verif;

namespace {

struct Kind {
  RigType type;
  int d;
  bool updates;
};
const Kind kinds[] = {{R_LIN, 1, false}, {R_LIN, 1, true},  {R_SOC, 1, false}, {R_SOC, 1, true},
                      {R_QUAD, 1, false}, {R_EPI, 1, false}, {R_LMI, 1, false}, {R_HERM, 1, false},
                      {R_HERM, 2, false}, {R_HERM, 4, false}, {R_HERM, 8, false}, {R_HERM, 1, true},
                      {R_HERM, 2, true},  {R_HERM, 4, true},  {R_HERM, 8, true}};

void CheckSchur(Ctx& c, Rig& r, const std::string& w) {
  const Algebra& g = r.alg;
  std::vector<Elem> QA;
  for (auto& a : r.A) QA.push_back(g.Quad(r.W, a));
  Elem Qc = g.Quad(r.W, r.c);
  double nw = g.Size(r.W), nc = g.Size(r.c), s = g.Spin() ? 2 * (1 + g.M.norm()) : 1;
  double worst = 0;
  for (int i = 0; i < r.m(); i++) {
    double ni = g.Size(r.A[i]);
    for (int j = 0; j <= i; j++) {
      double ref = g.Inner(r.A[j], QA[i]), tol = 1e-11 * s * s * nw * nw * ni * g.Size(r.A[j]);
      worst = std::max(worst, std::fabs(r.sys.G(i, j) - ref) / (tol + 1e-300) * 1e-11);
      c.Near(r.sys.G(i, j), ref, tol, "gram", w + Fmt(": <A_%d, Q(w) A_%d>", j, i));
    }
    c.Near(r.sys.AW(i, 0), g.Inner(r.A[i], r.W), 1e-11 * s * ni * nw, "a-times-w", w);
    c.Near(r.sys.AQc(i, 0), g.Inner(r.A[i], Qc), 1e-11 * s * s * ni * nw * nw * nc, "a-times-qc", w);
  }
  c.Near(r.sys.inner_product_of_w_and_c, g.Inner(r.W, r.c), 1e-11 * s * nw * nc, "w-times-c", w);
  c.Near(r.sys.inner_product_of_c_and_Qc, g.Inner(r.c, Qc), 1e-11 * s * s * nw * nw * nc * nc, "c-times-qc", w);
  c.Max("gram_error", worst);
}

// Without initialisation, the system is added to what is there.
void CheckAccumulated(Ctx& c, Rig& r, const std::string& w) {
  int m = r.m();
  MatrixXd G = r.sys.G.triangularView<Eigen::Lower>(), B = c.rng.matrix(m, m);
  VectorXd aw = r.sys.AW.col(0), aqc = r.sys.AQc.col(0), baw = c.rng.vector(m), bqc = c.rng.vector(m);
  double wc = r.sys.inner_product_of_w_and_c, cqc = r.sys.inner_product_of_c_and_Qc, bwc = c.rng.normal(), bcqc = c.rng.normal();
  B = (B + B.transpose()).eval();
  r.sys.G = B;
  r.sys.AW = baw;
  r.sys.AQc = bqc;
  r.sys.inner_product_of_w_and_c = bwc;
  r.sys.inner_product_of_c_and_Qc = bcqc;
  ConstructSchurComplementSystem(r.con.get(), false, &r.sys);
  auto near = [&](double got, double added, double before) { return std::fabs(got - added - before) <= 1e-10 * (1 + std::fabs(added) + std::fabs(before)); };
  bool ok = true;
  double big = G.cwiseAbs().maxCoeff() + 1;
  for (int i = 0; i < m; i++) {
    for (int j = 0; j <= i; j++) ok &= std::fabs(r.sys.G(i, j) - G(i, j) - B(i, j)) <= 1e-11 * big;
    ok &= near(r.sys.AW(i, 0), aw(i), baw(i)) && std::fabs(r.sys.AQc(i, 0) - aqc(i) - bqc(i)) <= 1e-11 * (1 + aqc.cwiseAbs().maxCoeff());
  }
  ok &= near(r.sys.inner_product_of_w_and_c, wc, bwc) && near(r.sys.inner_product_of_c_and_Qc, cqc, bcqc);
  c.Check(ok, "accumulate", w + ": the system is not added to the blocks of other constraints");
  c.Count("accumulated_systems");
  r.Assemble();
}

// Two iterations find both eigenvalues of a matrix of order 2, unless they start
// from nearly an eigenvector: that does not happen for one direction after another.
void CheckOrderTwo(Ctx& c, Rig& r, const std::string& w) {
  std::string slack, step;
  int judged = 0, short_slack = 0, short_step = 0;
  for (int k = 0; k < 30 && judged < 6; k++) {
    Direction q = RandomDirection(&c.rng, r);
    double lo = q.eigs(0), hi = q.eigs(1), big = q.eigs.cwiseAbs().maxCoeff();
    if (!(hi - lo > .3 * big) || !(big < 1e6)) continue;
    judged++;
    double t = .02 * (hi - lo);
    VectorXd ycopy = q.y;
    conex::Ref y(ycopy.data(), ycopy.size(), 1);
    conex::WeightedSlackEigenvalues p;
    GetWeightedSlackEigenvalues(r.con.get(), y, q.cw, &p);
    if (!(std::fabs(p.lambda_max - hi) <= t && std::fabs(p.lambda_min - lo) <= t)) {
      short_slack++;
      slack += Fmt(" [%.6g, %.6g] for [%.6g, %.6g]", p.lambda_min, p.lambda_max, lo, hi);
    }
    conex::StepOptions o;
    o.affine = false;
    o.e_weight = 1;
    o.c_weight = q.cw;
    o.inv_sqrt_mu = q.cw;
    conex::StepInfo info;
    PrepareStep(r.con.get(), o, y, &info);
    if (!(std::fabs(info.norminfd - q.norminf) <= t)) {
      short_step++;
      step += Fmt(" %.6g for %.6g", info.norminfd, q.norminf);
    }
    if (!short_slack && !short_step) break;
  }
  if (!judged) return;
  c.Count("order_2_estimates", judged);
  c.Count("order_2_estimates_incomplete", short_slack + short_step);
  c.Check(judged < 6 || short_slack < 6, "eigenvalue-estimate", w + ": order 2:" + slack);
  c.Check(judged < 6 || short_step < 6, "step-norm-inf", w + ": order 2:" + step);
}

void CheckSpectrum(Ctx& c, Rig& r, const std::string& w) {
  const Algebra& g = r.alg;
  Direction q = RandomDirection(&c.rng, r);
  conex::WeightedSlackEigenvalues p;
  VectorXd ycopy = q.y;
  conex::Ref y(ycopy.data(), ycopy.size(), 1);
  GetWeightedSlackEigenvalues(r.con.get(), y, q.cw, &p);
  double big = q.eigs.cwiseAbs().maxCoeff();
  // Cancellation in c - A y counts as rounding.
  double noise = 1e-10 * (big + g.Size(r.W) * (q.cw * g.Size(r.c) + q.y.norm() * [&] {
                            double a = 0;
                            for (auto& e : r.A) a = std::max(a, g.Size(e));
                            return a;
                          }()) * (g.Spin() ? 2 * (1 + g.M.norm()) : 1)) + 1e-13;
  c.Near(p.trace, g.Trace(q.scaled), noise * g.Rank(), "trace", w + ": trace of the weighted slack");
  c.Near(p.frobenius_norm_squared, g.Inner(q.scaled, q.scaled), 4 * g.Rank() * noise * (big + noise), "frobenius",
         w + ": norm of the weighted slack");
  double lo = q.eigs(0), hi = q.eigs(q.eigs.size() - 1);
  if (!g.Matrix()) {
    c.Near(p.lambda_min, lo, 10 * noise, "eigenvalues", w + ": smallest");
    c.Near(p.lambda_max, hi, 10 * noise, "eigenvalues", w + ": largest");
  } else if (g.d < 8) {
    // Estimates are Ritz values: never outside the spectrum.
    double t = 1e-6 * big + 10 * noise;
    c.Check(p.lambda_min >= lo - t && p.lambda_max <= hi + t && p.lambda_min <= p.lambda_max + t, "eigenvalue-estimate",
            w + Fmt(": [%.12g, %.12g] outside [%.12g, %.12g]", p.lambda_min, p.lambda_max, lo, hi));
    if (g.n == 1) c.Near(p.lambda_max, hi, t, "eigenvalue-estimate", w + ": order 1");
    c.Max("estimate_shortfall", big > 0 ? (hi - p.lambda_max) / (hi - lo + 1e-3 * big) : 0);
  }
  c.Check(ycopy == q.y, "argument-changed", w);

  // Step preparation reports the length of e - Q(w^{1/2}) s.
  conex::StepOptions o;
  o.affine = false;
  o.e_weight = 1;
  o.c_weight = q.cw;
  o.inv_sqrt_mu = q.cw;
  conex::StepInfo info;
  PrepareStep(r.con.get(), o, y, &info);
  double nd = std::sqrt(std::fabs(g.Inner(q.d, q.d)));
  c.Near(info.normsqrd, nd * nd, 8 * g.Rank() * noise * (1 + big + noise), "step-norm", w + ": |d|^2");
  if (!g.Matrix()) {
    c.Near(info.norminfd, q.norminf, 10 * noise, "step-norm-inf", w + ": |d|_inf");
  } else if (g.d < 8) {
    double t = 1e-6 * (1 + big) + 10 * noise;
    c.Check(info.norminfd <= q.norminf + t && info.norminfd >= 0, "step-norm-inf",
            w + Fmt(": estimate %.12g above %.12g", info.norminfd, q.norminf));
    if (g.n == 1) c.Near(info.norminfd, q.norminf, t, "step-norm-inf", w + ": order 1");
  }
  c.Check(ycopy == q.y, "argument-changed", w);
  // Move, so that the next check sees another weight.
  o.step_size = std::min(1.0, 2.0 / (q.norminf * q.norminf));
  o.step_size *= c.rng.chance(.5) ? 1 : c.rng.uniform(.1, 1);
  if (g.d == 8 && g.Matrix()) o.step_size = 1;
  TakeStep(r.con.get(), o);
  if (r.basis == 0) r.W = g.Quad(g.Sqrt(r.W), g.Exp(g.Scale(q.d, o.step_size)));
}

// Orders for cases beyond the sizes at which block kernels and alignment matter.
int BigOrder(const Kind& k) {
  if (k.type == R_LIN) return 150;
  if (k.type == R_LMI) return 20;
  if (k.type == R_HERM) return k.d == 1 ? 16 : k.d == 2 ? 10 : k.d == 4 ? 6 : 3;
  return 40;
}

void Operators(Ctx& c, const Kind& k, bool big = false) {
  auto r = RandomRig(&c.rng, k.type, k.d, k.updates, big ? BigOrder(k) : c.thorough ? 7 : 5);
  std::string name = r->name;
  c.Check(name.find("REFUSED") == std::string::npos, "update-refused", name);
  c.Check(Rank(*r->con) == r->alg.Rank(), "rank", name + Fmt(": %d", Rank(*r->con)));
  if (!c.Check(r->con->number_of_variables() == r->m(), "number-of-variables", name + Fmt(": %d", r->con->number_of_variables())))
    return;
  int steps = c.rng.range(1, 6);
  for (int s = 0; s <= steps; s++) {
    std::string w = name + Fmt(" step %d", s);
    r->Assemble();
    if (r->basis > 0) {
      Elem now = r->ReadW();
      if (s == 0)
        c.Check(r->alg.Size(r->alg.Add(now, r->alg.One(), -1)) <= 1e-12 * (1 + r->alg.Size(now)) * (r->alg.Spin() ? 10 * (1 + r->alg.M.norm()) : 1),
                "identity", w + ": initial weight is not the identity");
      r->W = now;
    }
    VectorXd ev = r->alg.Eigs(r->W);
    if (!(ev(0) > 1e-7 * ev(ev.size() - 1)) || !(ev(ev.size() - 1) < 1e6)) break;  // numerically on the boundary (judged by P09)
    CheckSchur(c, *r, w);
    if (c.rng.chance(.3)) CheckAccumulated(c, *r, w);
    if (r->alg.Matrix() && r->alg.n == 2 && r->alg.d < 8) CheckOrderTwo(c, *r, w);
    CheckSpectrum(c, *r, w);
    c.Count("states");
    c.Distinct(Fmt("%s d%d n%d m%d s%d u%d", RigName(k.type), k.d, r->alg.n, r->m() - r->basis, std::min(s, 3), k.updates));
  }
  // The solver can start again from the identity.
  SetIdentity(r->con.get());
  r->Assemble();
  r->W = r->alg.One();
  CheckSchur(c, *r, name + " restarted");
  c.Sample(name);
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<Scenario> s;
  for (auto& k : kinds) {
    Kind kk = k;
    std::string name = std::string(RigName(k.type)) + (k.type == R_HERM ? Fmt("%d", k.d) : "") + (k.updates ? "-updates" : "");
    s.push_back({name, 1800, 12000, [kk](Ctx& c) { Operators(c, kk); }});
    s.push_back({name + "_big", 60, 400, [kk](Ctx& c) { Operators(c, kk, true); }});
  }
  return Main(argc, argv, s);
}
