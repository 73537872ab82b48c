// Invalid calls of the C interface, to be injected into a session.
#pragma once
#include "capi.h"

#include <climits>

namespace verif {

inline int BadIndex(Rng* r, int n) {
  switch (r->range(0, 6)) {
    case 0: return -1;
    case 1: return n;
    case 2: return n + 1;
    case 3: return n + r->range(2, 40);
    case 4: return INT_MAX;
    case 5: return INT_MIN;
    default: return -r->range(2, 40);
  }
}
inline int GoodIndex(Rng* r, int n) { return r->range(0, n - 1); }

struct Attacker {
  Ctx& c;
  Session& s;
  void Refused(const std::string& kind, int status) {
    c.Count("refusals:" + kind);
    c.Check(status != CONEX_SUCCESS, "accepted:" + kind, "an invalid call is accepted: " + kind);
    c.Check(Peek(s.p)->NumberOfConstraints() == s.count, "count:" + kind,
            Fmt("an invalid call changed the number of constraints to %d from %d: %s", Peek(s.p)->NumberOfConstraints(), s.count, kind.c_str()));
    c.Check(Peek(s.p)->GetNumberOfVariables() == s.m, "variables:" + kind, "an invalid call changed the number of variables: " + kind);
  }
  double Value() { return c.rng.chance(.3) ? 1e3 : c.rng.normal(); }

  void Updates() {
    Rng& r = c.rng;
    int m = s.m;
    if (s.entered.empty() || r.chance(.15)) {
      int id = BadIndex(&r, s.count);
      switch (r.range(0, 2)) {
        case 0: return Refused("linear:id", CONEX_UpdateLinearOperator(s.p, id, Value(), GoodIndex(&r, m), 0, 0, 0));
        case 1: return Refused("affine:id", CONEX_UpdateAffineTerm(s.p, id, Value(), 0, 0, 0));
        default: return Refused("quadratic:id", CONEX_UpdateQuadraticCostMatrix(s.p, id, Value(), 0, 0));
      }
    }
    const Entry& e = s.entered[r.range(0, s.entered.size() - 1)];
    if (e.style == INEQ || e.style == ADD_QUAD) return;
    std::string t = StyleName(e.style);
    if (e.style == DENSE_LMI || e.style == SPARSE_LMI) {
      if (r.chance(.5)) return Refused(t + ":linear", CONEX_UpdateLinearOperator(s.p, e.id, Value(), 0, 0, 0, 0));
      return Refused(t + ":affine", CONEX_UpdateAffineTerm(s.p, e.id, Value(), 0, 0, 0));
    }
    if (e.style == NEW_QUAD) {
      int row = GoodIndex(&r, m), col = GoodIndex(&r, m);
      switch (r.range(0, 2)) {
        case 0: return Refused(t + ":linear", CONEX_UpdateLinearOperator(s.p, e.id, Value(), row, 0, 0, 0));
        case 1: return Refused(t + ":row", CONEX_UpdateQuadraticCostMatrix(s.p, e.id, Value(), BadIndex(&r, m), col));
        default: return Refused(t + ":column", CONEX_UpdateQuadraticCostMatrix(s.p, e.id, Value(), row, BadIndex(&r, m)));
      }
    }
    bool matrix = e.style == NEW_LMI;
    int n = e.Order(), dims = matrix ? e.d : 1;
    int var = GoodIndex(&r, m), row = GoodIndex(&r, n), col = matrix ? GoodIndex(&r, n) : 0, dim = r.range(0, dims - 1);
    if (matrix && row == col) dim = 0;
    bool affine = r.chance(.4);
    std::string kind;
    double v = Value();
    switch (r.range(affine ? 1 : 0, 4)) {
      case 0: var = BadIndex(&r, m); kind = "variable"; break;
      case 1: row = BadIndex(&r, n); kind = "row"; break;
      case 2: col = BadIndex(&r, matrix ? n : 1); kind = "column"; break;
      case 3: dim = BadIndex(&r, dims); kind = "component"; break;
      default:
        if (!matrix || e.d == 1) return;
        col = row;
        dim = r.range(1, dims - 1);
        if (v == 0) v = 1;
        kind = "imaginary_diagonal";
    }
    // Linear and dense linear constraints have the same rules.
    if (affine) return Refused(t + ":affine:" + kind, CONEX_UpdateAffineTerm(s.p, e.id, v, row, col, dim));
    Refused(t + ":linear:" + kind, CONEX_UpdateLinearOperator(s.p, e.id, v, var, row, col, dim));
  }
  void Creation() {
    Rng& r = c.rng;
    int m = s.m, id = -7;
    int bad = r.chance(.5) ? 0 : -r.range(1, 50);
    switch (r.range(0, 12)) {
      case 0: return Refused("new_lmi:order", CONEX_NewLinearMatrixInequality(s.p, bad, 1 << r.range(0, 3), &id));
      case 1: {
        static const int dims[] = {0, 3, 5, 6, 7, 9, 16, -1, -2, -8, 1000};
        return Refused("new_lmi:dimension", CONEX_NewLinearMatrixInequality(s.p, r.range(1, 3), dims[r.range(0, 10)], &id));
      }
      case 2: return Refused("new_lmi:octonion_order", CONEX_NewLinearMatrixInequality(s.p, r.range(4, 9), 8, &id));
      case 3: return Refused("new_lmi:null", CONEX_NewLinearMatrixInequality(s.p, 2, 2, nullptr));
      case 4: return Refused("new_linear:rows", CONEX_NewLinearInequality(s.p, bad, &id));
      case 5: return Refused("new_linear:null", CONEX_NewLinearInequality(s.p, 2, nullptr));
      case 6: return Refused("new_lorentz:order", CONEX_NewLorentzConeConstraint(s.p, bad, &id));
      case 7: return Refused("new_lorentz:null", CONEX_NewLorentzConeConstraint(s.p, 2, nullptr));
      case 8: return Refused("new_quadratic:null", CONEX_NewQuadraticCost(s.p, nullptr));
      case 9: {
        int k = r.chance(.5) ? m + r.range(1, 3) : std::max(1, m - 1);
        if (k == m) k = m + 1;
        MatrixXd q = MatrixXd::Identity(std::max(k, m), std::max(k, m));
        bool rows = r.chance(.5), cols = !rows || r.chance(.5);
        return Refused("add_quadratic:size", CONEX_AddQuadraticCost(s.p, q.data(), rows ? k : m, cols ? k : m));
      }
      case 10: return Refused("set_variables:twice", CONEX_SetNumberOfVariables(s.p, r.range(1, 9)));
      case 11: return Refused("set_variables:none", CONEX_SetNumberOfVariables(s.p, bad));
      default: {
        // Variables out of range or repeated: nothing is added.
        int k = r.range(1, m + 1), n = r.range(1, 3);
        std::vector<long> v;
        for (int i = 0; i < k; i++) v.push_back(r.range(0, m - 1));
        if (k > 1 && r.chance(.5)) v[r.range(1, k - 1)] = v[0];
        else v[r.range(0, k - 1)] = r.chance(.5) ? m + r.range(0, 3) : -r.range(1, 5);
        bool valid = true;
        std::set<long> seen;
        for (long x : v) valid &= x >= 0 && x < m && seen.insert(x).second;
        if (valid) return;
        VectorXd a = r.vector(n * n * k);
        MatrixXd cm = MatrixXd::Identity(n, n);
        CONEX_AddSparseLMIConstraint(s.p, a.data(), n, n, k, cm.data(), n, n, v.data(), k);
        return Refused("sparse_lmi:variables", CONEX_FAILURE);
      }
    }
  }
  void Null() {
    int id = -7;
    switch (c.rng.range(0, 7)) {
      case 0: return Refused("null:new_lmi", CONEX_NewLinearMatrixInequality(nullptr, 2, 1, &id));
      case 1: return Refused("null:new_linear", CONEX_NewLinearInequality(nullptr, 2, &id));
      case 2: return Refused("null:new_lorentz", CONEX_NewLorentzConeConstraint(nullptr, 2, &id));
      case 3: return Refused("null:new_quadratic", CONEX_NewQuadraticCost(nullptr, &id));
      case 4: return Refused("null:update_linear", CONEX_UpdateLinearOperator(nullptr, 0, 1, 0, 0, 0, 0));
      case 5: return Refused("null:update_affine", CONEX_UpdateAffineTerm(nullptr, 0, 1, 0, 0, 0));
      case 6: return Refused("null:update_quadratic", CONEX_UpdateQuadraticCostMatrix(nullptr, 0, 1, 0, 0));
      default: return Refused("null:set_variables", CONEX_SetNumberOfVariables(nullptr, 2));
    }
  }
  void WrongSizeSolve() {
    // A cost of the wrong length: not solved, nothing written or remembered.
    Rng& r = c.rng;
    int k = r.chance(.5) ? s.m + r.range(1, 4) : s.m - 1;
    VectorXd b = r.vector(k), y = VectorXd::Constant(s.m, -3.25);
    CONEX_SolverConfiguration cfg;
    CONEX_SetDefaultOptions(&cfg);
    int rc = CONEX_Maximize(s.p, b.data(), k, &cfg, y.data(), s.m);
    c.Count("refusals:maximize:size");
    c.Check(rc == 0 && !Peek(s.p)->Status().solved, "accepted:maximize:size", "solved with a cost vector of the wrong size");
    c.Check((y.array() == -3.25).all(), "written:maximize:size", "a refused solve changed the solution");
  }
  void Attack() {
    double u = c.rng.uniform();
    if (u < .6) Updates();
    else if (u < .9) Creation();
    else if (u < .97) Null();
    else WrongSizeSolve();
  }
};

}  // namespace verif
