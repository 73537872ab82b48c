// A program entered through the C interface call by call, next to the record of
// what was entered, from which the same program is built through the C++
// interface.
#pragma once
extern "C" {
#include "interfaces/conex.h"
}
#include "solve.h"

namespace verif {

enum Style { DENSE_LIN, INEQ, DENSE_LMI, SPARSE_LMI, NEW_LIN, NEW_SOC, NEW_LMI, ADD_QUAD, NEW_QUAD };
inline const char* StyleName(int s) {
  static const char* n[] = {"dense_linear", "inequalities", "dense_lmi", "sparse_lmi", "new_linear",
                            "new_lorentz", "new_lmi", "add_quadratic", "new_quadratic"};
  return n[s];
}

struct Entry {
  Style style;
  MatrixXd A;            // over all variables
  VectorXd c, lb, ub;
  int d = 1;
  std::vector<HMat> H;   // SPARSE_LMI: one per element of vars; else one per variable
  HMat HC;
  std::vector<int> vars;
  MatrixXd Q;            // ADD_QUAD / NEW_QUAD: over all variables
  int id = -1;           // identifier of the constraint made
  bool Updatable() const { return style == NEW_LIN || style == NEW_SOC || style == NEW_LMI || style == NEW_QUAD; }
  int Order() const { return style == NEW_LMI || style == DENSE_LMI || style == SPARSE_LMI ? HC[0].rows() : A.rows(); }
  // Whether GetDualVariable is defined (see P02).
  bool HasDual() const {
    return style == DENSE_LIN || style == NEW_LIN || style == DENSE_LMI || style == SPARSE_LMI ||
           (style == NEW_LMI && d < 8);
  }
};

inline MatrixXd Widen(const MatrixXd& A, const std::vector<int>& vars, int m) {
  MatrixXd B = MatrixXd::Zero(A.rows(), m);
  for (size_t i = 0; i < vars.size(); i++) B.col(vars[i]) += A.col(i);
  return B;
}

// Translates a problem into entries of the C interface.
inline std::vector<Entry> PlanEntries(Rng* r, const Problem& p) {
  std::vector<Entry> out;
  for (Cone c : p.cones) {
    Entry e;
    if (c.type == SOC && c.A.rows() == 1) {
      // Not offered by the C interface: the same barrier as a repeated inequality.
      c.type = LIN;
      c.A = c.A.replicate(2, 1).eval();
      c.c = c.c.replicate(2, 1).eval();
    }
    if (c.type == LIN) {
      e.A = Widen(c.A, c.vars, p.m);
      e.c = c.c;
      int k = r->range(0, 2);
      e.style = k == 0 ? DENSE_LIN : k == 1 ? INEQ : NEW_LIN;
      if (e.style == INEQ) {
        e.ub = e.c;
        e.lb = VectorXd::Constant(e.c.rows(), -1e9);
        for (int i = 0; i < e.c.rows(); i++)
          if (r->chance(.3)) {
            e.A.row(i) *= -1;
            e.lb(i) = -e.ub(i);
            e.ub(i) = 1e9;
          }
      }
    } else if (c.type == SOC) {
      e.style = NEW_SOC;
      e.A = Widen(c.A, c.vars, p.m);
      e.c = c.c;
    } else {
      e.d = c.d;
      e.HC = c.HC;
      e.vars = c.vars;
      int k = c.d > 1 ? 2 : r->range(0, 2);
      e.style = k == 0 ? DENSE_LMI : k == 1 ? SPARSE_LMI : NEW_LMI;
      if (e.style == SPARSE_LMI) {
        e.H = c.H;
      } else {
        e.H.assign(p.m, HZero(c.d, c.Order()));
        for (size_t i = 0; i < c.vars.size(); i++) e.H[c.vars[i]] = HAdd(e.H[c.vars[i]], c.H[i]);
      }
    }
    out.push_back(e);
  }
  for (auto& q : p.eqs) {
    Entry e;
    e.style = INEQ;
    e.A = Widen(q.E, q.vars, p.m);
    e.lb = e.ub = q.f;
    out.push_back(e);
  }
  for (auto& q : p.quads) {
    Entry e;
    e.Q = MatrixXd::Zero(p.m, p.m);
    for (size_t i = 0; i < q.vars.size(); i++)
      for (size_t j = 0; j < q.vars.size(); j++) e.Q(q.vars[i], q.vars[j]) += q.Q(i, j);
    e.style = r->chance(.5) ? ADD_QUAD : NEW_QUAD;
    out.push_back(e);
  }
  r->shuffle(&out);
  return out;
}

// The same program through the C++ interface.
inline bool AddEntry(conex::Program* prog, const Entry& e) {
  using namespace conex;
  switch (e.style) {
    case DENSE_LIN:
    case NEW_LIN:
      return prog->AddConstraint(LinearConstraint(MatrixXd(e.A), MatrixXd(e.c))) == CONEX_SUCCESS;
    case NEW_SOC:
      return prog->AddConstraint(SOCConstraint(MatrixXd(e.A), MatrixXd(e.c))) == CONEX_SUCCESS;
    case INEQ: {
      MatrixXd ai, bi, ae, be;
      PreprocessLinearInequality(e.A, e.lb, e.ub, &ai, &bi, &ae, &be);
      bool ok = true;
      if (ai.rows() > 0) ok &= prog->AddConstraint(LinearConstraint(ai, bi)) == CONEX_SUCCESS;
      if (ae.rows() > 0) ok &= prog->AddConstraint(EqualityConstraints(ae, be)) == CONEX_SUCCESS;
      return ok;
    }
    case DENSE_LMI:
    case SPARSE_LMI: {
      std::vector<MatrixXd> a;
      for (auto& h : e.H) a.push_back(h[0]);
      DenseLMIConstraint l(a, e.HC[0]);
      return (e.style == DENSE_LMI ? prog->AddConstraint(l) : prog->AddConstraint(l, e.vars)) == CONEX_SUCCESS;
    }
    case NEW_LMI: {
      std::vector<HyperComplexMatrix> a;
      for (auto& h : e.H) a.push_back(ToConex(h));
      auto cc = ToConex(e.HC);
      int n = e.HC[0].rows();
      if (e.d == 1) return prog->AddConstraint(HermitianPsdConstraint<Real>(n, a, cc)) == CONEX_SUCCESS;
      if (e.d == 2) return prog->AddConstraint(HermitianPsdConstraint<Complex>(n, a, cc)) == CONEX_SUCCESS;
      if (e.d == 4) return prog->AddConstraint(HermitianPsdConstraint<Quaternions>(n, a, cc)) == CONEX_SUCCESS;
      return prog->AddConstraint(HermitianPsdConstraint<Octonions>(n, a, cc)) == CONEX_SUCCESS;
    }
    case NEW_QUAD:
      return !prog->AddQuadraticCost(e.Q);
    case ADD_QUAD: {
      std::vector<int> v;
      for (int i = 0; i < e.Q.rows(); i++)
        if (e.Q(i, i) > 0) v.push_back(i);
      if (v.empty()) return true;
      MatrixXd q(v.size(), v.size());
      for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) q(i, j) = e.Q(v[i], v[j]);
      return !prog->AddQuadraticCost(q, v);
    }
  }
  return false;
}
inline bool BuildEntries(conex::Program* prog, const std::vector<Entry>& es) {
  bool ok = true;
  for (auto& e : es) ok &= AddEntry(prog, e);
  return ok;
}

inline conex::Program* Peek(void* p) { return static_cast<conex::Program*>(p); }

// Enters the plan through the C interface; `before` runs ahead of every call.
class Session {
 public:
  Ctx& c;
  int m;
  void* p;
  std::vector<Entry> plan;
  std::vector<Entry> entered;  // made so far (updates may be pending)
  int count = 0;               // constraints made so far
  std::function<void()> before;

  Session(Ctx& ctx, int vars) : c(ctx), m(vars), p(CONEX_CreateConeProgram()) {
    Call("set_variables", CONEX_SetNumberOfVariables(p, m) == CONEX_SUCCESS);
  }
  ~Session() { CONEX_DeleteConeProgram(p); }
  Session(const Session&) = delete;
  Session& operator=(const Session&) = delete;

  void Call(const std::string& name, bool ok) {
    c.Count("calls:" + name);
    c.Check(ok, "refused:" + name, "a valid call of the C interface is refused: " + name);
  }

  struct Op {
    std::function<void()> run;
  };
  std::vector<std::vector<Op>> pending;  // per entry, in order

  void Make(size_t k) {
    Entry& e = plan[k];
    Rng& r = c.rng;
    int id = -7;
    std::vector<Op> ops;
    auto op = [&](std::function<void()> f) { ops.push_back({f}); };
    if (before) before();
    auto expect = [&](int got, int n) {
      c.Check(got == count, "id", Fmt("%s returned identifier %d instead of %d", StyleName(e.style), got, count));
      e.id = count;
      count += n;
      c.Check(Peek(p)->NumberOfConstraints() == count, "count",
              Fmt("%d constraints after %s, not %d", Peek(p)->NumberOfConstraints(), StyleName(e.style), count));
    };
    c.Count(std::string("calls:") + StyleName(e.style));
    switch (e.style) {
      case DENSE_LIN:
        expect(CONEX_AddDenseLinearConstraint(p, e.A.data(), e.A.rows(), e.A.cols(), e.c.data(), e.c.rows()), 1);
        break;
      case INEQ: {
        int n = e.A.rows(), eq = 0, in = 0;
        for (int i = 0; i < n; i++) {
          if (e.lb(i) == e.ub(i)) eq = 1;
          else in = 1;
        }
        CONEX_AddLinearInequalities(p, e.A.data(), n, e.A.cols(), e.lb.data(), n, e.ub.data(), n);
        expect(count, eq + in);
        break;
      }
      case DENSE_LMI:
      case SPARSE_LMI: {
        int n = e.HC[0].rows();
        VectorXd a(n * n * e.H.size());
        for (size_t i = 0; i < e.H.size(); i++)
          Eigen::Map<MatrixXd>(a.data() + i * n * n, n, n) = e.H[i][0];
        MatrixXd cm = e.HC[0];
        if (e.style == DENSE_LMI) {
          expect(CONEX_AddDenseLMIConstraint(p, a.data(), n, n, e.H.size(), cm.data(), n, n), 1);
        } else {
          std::vector<long> v(e.vars.begin(), e.vars.end());
          expect(CONEX_AddSparseLMIConstraint(p, a.data(), n, n, e.H.size(), cm.data(), n, n, v.data(), v.size()), 1);
        }
        break;
      }
      case ADD_QUAD: {
        // Any matrix with the same symmetric part is the same cost.
        MatrixXd q = e.Q;
        if (r.chance(.5))
          for (int i = 0; i < m; i++)
            for (int j = 0; j < i; j++)
              if (q(i, i) > 0 && q(j, j) > 0) {
                double s = r.normal();
                q(i, j) += s;
                q(j, i) -= s;
              }
        bool any = (q.diagonal().array() > 0).any();
        Call("add_quadratic", CONEX_AddQuadraticCost(p, q.data(), m, m) == CONEX_SUCCESS);
        expect(count, any);
        for (int i = 0; i < m; i++)
          for (int j = 0; j < m; j++) e.Q(i, j) = q(i, i) > 0 && q(j, j) > 0 ? (q(i, j) + q(j, i)) / 2 : 0;
        break;
      }
      case NEW_QUAD: {
        Call("new_quadratic", CONEX_NewQuadraticCost(p, &id) == CONEX_SUCCESS);
        expect(id, 1);
        for (int i = 0; i < m; i++)
          for (int j = 0; j < m; j++) {
            double v = e.Q(i, j);
            if (v == 0 && r.chance(.7)) continue;
            if (r.chance(.15)) op([=] { Call("update_quadratic", !CONEX_UpdateQuadraticCostMatrix(p, id, 3.5, i, j)); });
            op([=] { Call("update_quadratic", !CONEX_UpdateQuadraticCostMatrix(p, id, v, i, j)); });
          }
        break;
      }
      case NEW_LIN:
      case NEW_SOC: {
        if (e.style == NEW_LIN) {
          Call("new_linear", CONEX_NewLinearInequality(p, e.A.rows(), &id) == CONEX_SUCCESS);
        } else {
          Call("new_lorentz", CONEX_NewLorentzConeConstraint(p, e.A.rows() - 1, &id) == CONEX_SUCCESS);
        }
        expect(id, 1);
        for (int i = 0; i < e.A.rows(); i++)
          for (int j = -1; j < m; j++) {
            double v = j < 0 ? e.c(i) : e.A(i, j);
            if (v == 0 && r.chance(.7)) continue;
            for (int k2 = r.chance(.15) ? 0 : 1; k2 < 2; k2++) {
              double w = k2 ? v : 2.25;
              if (j < 0)
                op([=] { Call("update_affine", !CONEX_UpdateAffineTerm(p, id, w, i, 0, 0)); });
              else
                op([=] { Call("update_linear", !CONEX_UpdateLinearOperator(p, id, w, j, i, 0, 0)); });
            }
          }
        break;
      }
      case NEW_LMI: {
        int n = e.HC[0].rows();
        Call("new_lmi", CONEX_NewLinearMatrixInequality(p, n, e.d, &id) == CONEX_SUCCESS);
        expect(id, 1);
        for (int v = -1; v < m; v++) {
          const HMat& h = v < 0 ? e.HC : e.H[v];
          for (int k2 = 0; k2 < e.d; k2++)
            for (int i = 0; i < n; i++)
              for (int j = 0; j <= i; j++) {
                if (i == j && k2 > 0) continue;
                double x = h[k2](i, j);
                if (x == 0 && r.chance(.7)) continue;
                bool flip = r.chance(.5);
                for (int t = r.chance(.15) ? 0 : 1; t < 2; t++) {
                  double w = t ? x : 1.75;
                  int a = i, b = j;
                  if (flip) {
                    std::swap(a, b);
                    if (k2 > 0) w = -w;
                  }
                  if (v < 0)
                    op([=] { Call("update_affine", !CONEX_UpdateAffineTerm(p, id, w, a, b, k2)); });
                  else
                    op([=] { Call("update_linear", !CONEX_UpdateLinearOperator(p, id, w, v, a, b, k2)); });
                }
              }
        }
        break;
      }
    }
    // Groups of updates of one entry stay in order, others are shuffled.
    entered.push_back(e);
    pending.push_back(ops);
  }
  void RunUpdates(size_t limit) {
    Rng& r = c.rng;
    std::vector<size_t> next(pending.size(), 0);
    for (size_t done = 0; done < limit;) {
      std::vector<int> live;
      for (size_t k = 0; k < pending.size(); k++)
        if (next[k] < pending[k].size()) live.push_back(k);
      if (live.empty()) break;
      int k = live[r.range(0, live.size() - 1)];
      for (int burst = r.range(1, 8); burst > 0 && next[k] < pending[k].size() && done < limit; burst--, done++) {
        if (before) before();
        pending[k][next[k]++].run();
      }
    }
    for (size_t k = 0; k < pending.size(); k++)
      pending[k].erase(pending[k].begin(), pending[k].begin() + next[k]);
  }
  void Enter(const std::vector<Entry>& es) {
    plan = es;
    for (size_t k = 0; k < plan.size(); k++) {
      Make(k);
      if (c.rng.chance(.5)) RunUpdates(c.rng.range(0, 30));
    }
    RunUpdates(1u << 30);
  }
};

// ---------------------------------------------------------------------------

inline conex::SolverConfiguration RandomConfig(Rng* r, bool quadratic) {
  conex::SolverConfiguration s;
  auto flip = [&] { return r->chance(.6); };
  if (flip()) s.prepare_dual_variables = r->range(0, 1);
  if (flip()) s.inv_sqrt_mu_max = std::pow(10, r->uniform(0, 4));
  if (flip()) s.minimum_mu = std::pow(10, r->uniform(-15, 0));
  if (flip()) s.maximum_mu = std::pow(10, r->uniform(-1, 6));
  if (flip()) s.divergence_upper_bound = std::pow(10, r->uniform(-1, 2));
  if (flip()) s.enable_line_search = r->range(0, 1);
  if (flip()) s.dinf_upper_bound = r->uniform(.3, 2);
  if (flip()) s.final_centering_steps = r->range(0, 7);
  if (flip()) s.final_centering_tolerance = std::pow(10, r->uniform(-5, 0));
  if (flip()) s.initial_centering_steps_warmstart = r->range(0, 4);
  if (flip()) s.initial_centering_steps_coldstart = r->range(0, 4);
  if (flip()) s.warmstart_abort_threshold = std::pow(10, r->uniform(-2, 1));
  s.max_iterations = r->chance(.3) ? 25 : r->range(1, 70);
  if (flip()) s.iterative_refinement_iterations = r->range(0, 4);
  if (flip()) s.infeasibility_threshold = std::pow(10, r->uniform(-3, 5));
  if (flip()) s.kkt_error_tolerance = std::pow(10, r->uniform(-4, 10));
  if (flip()) s.enable_rescaling = r->range(0, 1);
  if (flip()) s.kkt_solver = r->range(0, 2);
  if (quadratic && r->chance(.9)) {
    s.enable_line_search = 1;
    s.enable_rescaling = 0;
  }
  return s;
}

inline CONEX_SolverConfiguration ToC(const conex::SolverConfiguration& s) {
  CONEX_SolverConfiguration c;
  memset(&c, 0x5a, sizeof c);
  c.prepare_dual_variables = s.prepare_dual_variables;
  c.initialization_mode = s.initialization_mode;
  c.inv_sqrt_mu_max = s.inv_sqrt_mu_max;
  c.minimum_mu = s.minimum_mu;
  c.maximum_mu = s.maximum_mu;
  c.divergence_upper_bound = s.divergence_upper_bound;
  c.enable_line_search = s.enable_line_search;
  c.dinf_upper_bound = s.dinf_upper_bound;
  c.final_centering_steps = s.final_centering_steps;
  c.final_centering_tolerance = s.final_centering_tolerance;
  c.initial_centering_steps_warmstart = s.initial_centering_steps_warmstart;
  c.initial_centering_steps_coldstart = s.initial_centering_steps_coldstart;
  c.warmstart_abort_threshold = s.warmstart_abort_threshold;
  c.max_iterations = s.max_iterations;
  c.iterative_refinement_iterations = s.iterative_refinement_iterations;
  c.infeasibility_threshold = s.infeasibility_threshold;
  c.kkt_error_tolerance = s.kkt_error_tolerance;
  c.enable_rescaling = s.enable_rescaling;
  c.kkt_solver = s.kkt_solver;
  return c;
}

// Everything a solve reports.
struct Outcome {
  int rc = -1;
  int solved = 0, primal_infeasible = 0, dual_infeasible = 0, iterations = 0;
  VectorXd y;
  std::vector<double> mu;
  std::vector<VectorXd> duals;
};

inline void ReadDuals(conex::Program* p, const std::vector<Entry>& es, Outcome* o) {
  int id = 0;
  for (auto& e : es) {
    if (e.HasDual()) {
      int n = p->GetDualVariableSize(id);
      VectorXd x = VectorXd::Constant(n, 77);
      p->GetDualVariable(id, &x);
      o->duals.push_back(x);
    }
    if (e.style == INEQ) {
      bool eq = false, in = false;
      for (int i = 0; i < e.A.rows(); i++) (e.lb(i) == e.ub(i) ? eq : in) = true;
      id += eq + in;
    } else if (e.style != ADD_QUAD || (e.Q.diagonal().array() > 0).any()) {
      id++;
    }
  }
}

// b == nullptr: keep the costs.
inline Outcome SolveCpp(conex::Program* p, const std::vector<Entry>& es, const conex::SolverConfiguration& cfg,
                        const VectorXd* b, int m, unsigned seed) {
  Outcome o;
  srand(seed);
  o.y = VectorXd::Constant(m, 12.5);
  MatrixXd bm;
  if (b) bm = *b;
  o.rc = b ? conex::Solve(bm, *p, cfg, o.y.data()) : conex::Solve(*p, cfg, o.y.data());
  auto s = p->Status();
  o.solved = s.solved;
  o.primal_infeasible = s.primal_infeasible;
  o.dual_infeasible = s.dual_infeasible;
  o.iterations = s.num_iterations;
  if (p->stats && p->stats->IsInitialized())
    for (int i = 0; i < p->stats->num_iter; i++)
      o.mu.push_back(1 / (p->stats->sqrt_inv_mu[i] * p->stats->sqrt_inv_mu[i]));
  if (cfg.prepare_dual_variables && o.mu.size()) ReadDuals(p, es, &o);
  return o;
}

inline Outcome SolveC(void* p, const std::vector<Entry>& es, const conex::SolverConfiguration& cfg,
                      const VectorXd* b, int m, unsigned seed) {
  Outcome o;
  srand(seed);
  o.y = VectorXd::Constant(m, 12.5);
  auto c = ToC(cfg);
  o.rc = b ? CONEX_Maximize(p, b->data(), b->rows(), &c, o.y.data(), m) : CONEX_Solve(p, &c, o.y.data(), m);
  auto s = Peek(p)->Status();
  o.solved = s.solved;
  o.primal_infeasible = s.primal_infeasible;
  o.dual_infeasible = s.dual_infeasible;
  o.iterations = s.num_iterations;
  for (int i = 0;; i++) {
    CONEX_IterationStats st;
    st.mu = -5;
    st.iteration_number = -5;
    CONEX_GetIterationStats(p, &st, i);
    if (st.iteration_number == -5) break;
    o.mu.push_back(st.mu);
  }
  if (cfg.prepare_dual_variables && o.mu.size()) {
    for (auto& e : es) {
      if (!e.HasDual()) continue;
      int n = CONEX_GetDualVariableSize(p, e.id);
      VectorXd x = VectorXd::Constant(std::max(n, 0), 77);
      if (n > 0) CONEX_GetDualVariable(p, e.id, x.data(), n, 1);
      o.duals.push_back(x);
    }
  }
  return o;
}

inline bool Same(double a, double b, double scale, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * scale;
}
// Empty if the outcomes agree.
inline std::string Differ(const Outcome& a, const Outcome& b, double tol, bool* identical = nullptr) {
  bool same = true;
  std::string d;
  auto note = [&](const std::string& s) {
    if (d.empty()) d = s;
  };
  if (a.rc != b.rc) note(Fmt("return value %d vs %d", a.rc, b.rc));
  if (a.solved != b.solved || a.primal_infeasible != b.primal_infeasible || a.dual_infeasible != b.dual_infeasible)
    note(Fmt("status (solved, primal, dual infeasible) %d,%d,%d vs %d,%d,%d", a.solved, a.primal_infeasible,
             a.dual_infeasible, b.solved, b.primal_infeasible, b.dual_infeasible));
  if (a.iterations != b.iterations) note(Fmt("number of iterations %d vs %d", a.iterations, b.iterations));
  if (a.mu.size() != b.mu.size()) note(Fmt("statistics of %d vs %d iterations", (int)a.mu.size(), (int)b.mu.size()));
  for (size_t i = 0; i < std::min(a.mu.size(), b.mu.size()); i++) {
    same &= a.mu[i] == b.mu[i];
    if (!Same(a.mu[i], b.mu[i], std::fabs(a.mu[i]), tol)) note(Fmt("mu of iteration %d: %.17g vs %.17g", (int)i, a.mu[i], b.mu[i]));
  }
  auto vec = [&](const VectorXd& x, const VectorXd& z, const std::string& what) {
    if (x.rows() != z.rows()) return note(what + Fmt(" has %d vs %d entries", (int)x.rows(), (int)z.rows()));
    double s = 0;
    for (int i = 0; i < x.rows(); i++)
      if (std::isfinite(x(i))) s = std::max(s, std::fabs(x(i)));
    for (int i = 0; i < x.rows(); i++) {
      same &= memcmp(&x(i), &z(i), sizeof(double)) == 0;
      if (!Same(x(i), z(i), s, tol)) note(what + Fmt(" entry %d: %.17g vs %.17g", i, x(i), z(i)));
    }
  };
  vec(a.y, b.y, "solution");
  if (a.duals.size() != b.duals.size()) note("number of dual variables");
  for (size_t i = 0; i < std::min(a.duals.size(), b.duals.size()); i++)
    vec(a.duals[i], b.duals[i], Fmt("dual variable %d", (int)i));
  if (identical) *identical = same && d.empty();
  return d;
}

inline std::string Describe(const std::vector<Entry>& es) {
  std::string s;
  for (auto& e : es) s += std::string(s.empty() ? "" : " ") + StyleName(e.style) + (e.d > 1 ? Fmt("%d", e.d) : "");
  return s;
}

}  // namespace verif
