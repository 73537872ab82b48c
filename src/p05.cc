// P05: assembly, factorisation and solution of the sparse KKT system equal
// dense linear algebra on the same data.
#include "cliques.h"

#include <list>
#include <memory>

#include "conex/block_triangular_operations.h"
#include "conex/clique_ordering.h"
#include "conex/constraint_manager.h"
#include "conex/equality_constraint.h"
#include "conex/kkt_solver.h"
#include "conex/supernodal_assembler.h"
#include "conex/supernodal_solver.h"

using namespace verif;
using namespace conex;

namespace {

// An assembler that supplies a dense block and right hand sides.
class Source : public SupernodalAssemblerBase {
 public:
  void SetDenseData() override {
    submatrix_data_.G = G;
    submatrix_data_.AW = aw;
    submatrix_data_.AQc = aqc;
    submatrix_data_.inner_product_of_w_and_c = wc;
  }
  MatrixXd G, aw, aqc;
  double wc = 0;
};

class Container {
 public:
  Container(const Source& s, int n) : source(s), kkt_ptr(&source) { Init(n); }
  Container(const EqualityConstraints& x, int n)
      : eq(x), eq_constraint(std::make_unique<Constraint>(&eq)),
        eq_assembler(n, eq_constraint.get()), kkt_ptr(&eq_assembler) {
    Init(n);
  }
  Container(const Container&) = delete;
  Container& operator=(const Container&) = delete;
  void Init(int n) {
    kkt_ptr->SetNumberOfVariables(n);
    memory = VectorXd::Constant(SizeOf(*kkt_ptr->GetWorkspace()), NAN);
    Initialize(kkt_ptr->GetWorkspace(), memory.data());
  }
  VectorXd memory;
  Source source;
  EqualityConstraints eq;
  std::unique_ptr<Constraint> eq_constraint;
  SupernodalAssembler eq_assembler;
  SupernodalAssemblerBase* kkt_ptr;
};

struct System {
  int n = 0, total = 0;
  ConstraintManager<Container> mgr;
  std::vector<SupernodalAssemblerBase*> ptrs;
  MatrixXd T;       // dense matrix
  VectorXd aw, aqc; // assembled right hand sides
  double wc = 0;
};

// Block of a clique: symmetric, positive definite enough for the total.
MatrixXd Block(Rng* r, int k, bool pd) {
  MatrixXd b = r->matrix(k, k);
  MatrixXd q = b * b.transpose() / k;
  if (pd) q += MatrixXd::Identity(k, k) * (.3 + r->uniform());
  return .5 * (q + q.transpose());
}

void SetData(Rng* r, Source* s, int k, double scale) {
  s->G = scale * Block(r, k, true);
  s->aw = r->matrix(k, 1);
  s->aqc = r->matrix(k, 1);
  s->wc = r->normal();
}

void SetQuasi(Rng* r, Source* s, int k, int rk) {
  s->G = MatrixXd::Zero(k + rk, k + rk);
  MatrixXd E = r->matrix(rk, k);
  s->G.bottomLeftCorner(rk, k) = E;
  s->G.topRightCorner(k, rk) = E.transpose();
  s->G.bottomRightCorner(rk, rk) = -Block(r, rk, true);
  s->aw = r->matrix(k + rk, 1);
  s->aqc = r->matrix(k + rk, 1);
  s->wc = r->normal();
}

// Rebuilds the dense reference from the sources.
void Reference(System* s, const std::vector<std::pair<MatrixXd, VectorXd>>& eqs) {
  s->T = MatrixXd::Zero(s->total, s->total);
  s->aw = VectorXd::Zero(s->total);
  s->aqc = VectorXd::Zero(s->total);
  s->wc = 0;
  size_t e = 0, i = 0;
  for (auto& c : s->mgr.eqs) {
    auto& cl = s->mgr.cliques[i];
    int d = s->mgr.dual_vars[i].size();
    i++;
    if (d == 0 || eqs.empty()) {
      for (size_t a = 0; a < cl.size(); a++) {
        for (size_t b = 0; b < cl.size(); b++) s->T(cl[a], cl[b]) += c.source.G(a, b);
        s->aw(cl[a]) += c.source.aw(a, 0);
        s->aqc(cl[a]) += c.source.aqc(a, 0);
      }
      s->wc += c.source.wc;
    } else {
      auto& E = eqs[e].first;
      int k = E.cols();
      for (int a = 0; a < d; a++) {
        for (int b = 0; b < k; b++) {
          s->T(cl[k + a], cl[b]) += E(a, b);
          s->T(cl[b], cl[k + a]) += E(a, b);
        }
        s->aqc(cl[k + a]) += eqs[e].second(a);
      }
      e++;
    }
  }
}

void CheckAssembled(Ctx& c, System& s, SupernodalKKTSolver& solver, const std::string& key, const std::string& what) {
  VectorXd aw = VectorXd::Constant(s.total, NAN), aqc = aw;
  double wc = NAN;
  solver.Assemble(&aw, &aqc, &wc);
  MatrixXd M = solver.KKTMatrix();
  if (!c.Check(M.rows() == s.total && M.cols() == s.total, key + ":size", "KKT matrix has the wrong size: " + what)) return;
  double err = (M - s.T).cwiseAbs().maxCoeff(), sc = s.T.cwiseAbs().maxCoeff();
  c.Max("assembly_error", err / sc);
  c.Check(err <= 1e-12 * sc, key + ":matrix", Fmt("assembled KKT matrix differs from the sum of its blocks by %.3g (largest entry %.3g): ", err, sc) + what);
  c.Check((aw - s.aw).cwiseAbs().maxCoeff() <= 1e-12 * (1 + s.aw.cwiseAbs().maxCoeff()), key + ":AW", "assembled AW is wrong: " + what);
  c.Check((aqc - s.aqc).cwiseAbs().maxCoeff() <= 1e-12 * (1 + s.aqc.cwiseAbs().maxCoeff()), key + ":AQc", "assembled AQc is wrong: " + what);
  c.Near(wc, s.wc, 1e-12 * (1 + std::fabs(s.wc)), key + ":wc", "inner product <w, c>");
  c.Count("assemblies");
}

int g_seen, g_off, g_seen_refined, g_off_refined;

void CheckSolve(Ctx& c, System& s, SupernodalKKTSolver& solver, bool regularised, int refine, double tol, const std::string& key, const std::string& what) {
  for (int k = 0; k < 2; k++) {
    VectorXd b = c.rng.vector(s.total);
    if (c.rng.chance(.3)) b = VectorXd::Unit(s.total, c.rng.range(0, s.total - 1));
    VectorXd y = solver.Solve(b);
    Eigen::Matrix<double, -1, -1> z = b;
    Eigen::Map<MatrixXd, Eigen::Aligned> zm(z.data(), s.total, 1);
    solver.SolveInPlace(&zm);
    double ty = s.T.cwiseAbs().maxCoeff();
    double r1 = (s.T * y - b).norm() / (b.norm() + ty * y.norm());
    double r2 = (s.T * z - b).norm() / (b.norm() + ty * z.norm());
    c.Max(key + ":backward_error(Solve)", r1);
    c.Max(key + ":backward_error(SolveInPlace)", r2);
    if (regularised) {
      // Pivots that vanish in exact arithmetic are replaced by 1e-9, so a
      // single system may be solved inaccurately; most are not.
      g_seen += 2;
      g_off += !(r1 <= 1e-6) + !(r2 <= 1e-6);
      c.Count("saddle_systems_solved", 2);
      c.Count("saddle_systems_inaccurate", !(r1 <= 1e-6) + !(r2 <= 1e-6));
      if (refine >= 2) {
        g_seen_refined++;
        g_off_refined += !(r2 <= 1e-12);
        c.Count("refined_saddle_systems_inaccurate", !(r2 <= 1e-12));
      }
    } else {
      c.Check(r2 <= tol, key + ":solveinplace", Fmt("SolveInPlace leaves a relative residual of %.3g: ", r2) + what);
      c.Check(r1 <= tol, key + ":solve", Fmt("Solve leaves a relative residual of %.3g: ", r1) + what);
    }
    c.Count("systems_solved");
  }
}

// kind 0: no dual variables; 1: equality constraints; 2: equality constraints
// with a negative definite dual block (quasi-definite: no pivot vanishes).
void Kkt(Ctx& c, int kind, int max_n) {
  bool eqs = kind == 1;
  CliqueSet cs = RandomCliques(&c.rng, max_n);
  System s;
  s.n = cs.n;
  s.mgr.SetNumberOfVariables(cs.n);
  double scale = c.rng.chance(.3) ? std::pow(10, c.rng.uniform(-3, 3)) : 1;
  std::vector<std::pair<MatrixXd, VectorXd>> eq_data;
  // Equalities on variable subsets, jointly of full row rank.
  std::vector<std::vector<int>> eq_vars;
  if (eqs) {
    for (int attempt = 0; attempt < 50 && eq_data.empty(); attempt++) {
      int ne = c.rng.range(1, 4), rows = 0;
      for (int i = 0; i < ne; i++) {
        int k = c.rng.range(1, std::min(cs.n, 4));
        int rk = c.rng.range(1, k);
        if (rows + rk > cs.n) break;
        rows += rk;
        eq_vars.push_back(c.rng.subset(cs.n, k));
        eq_data.push_back({c.rng.matrix(rk, k), c.rng.vector(rk)});
      }
      MatrixXd E = MatrixXd::Zero(rows, cs.n);
      int r = 0;
      for (size_t i = 0; i < eq_data.size(); i++) {
        for (size_t j = 0; j < eq_vars[i].size(); j++) E.block(r, eq_vars[i][j], eq_data[i].first.rows(), 1) = eq_data[i].first.col(j);
        r += eq_data[i].first.rows();
      }
      Eigen::JacobiSVD<MatrixXd> svd(E);
      if (rows == 0 || svd.singularValues()(rows - 1) < .1) {
        eq_data.clear();
        eq_vars.clear();
      }
    }
  }
  std::string what = cs.family + " " + Str(cs.cliques);
  // Interleave.
  size_t a = 0, b = 0;
  std::vector<std::pair<MatrixXd, VectorXd>> ordered;
  while (a < cs.cliques.size() || b < eq_data.size()) {
    if (b < eq_data.size() && (a >= cs.cliques.size() || c.rng.chance(.4))) {
      s.mgr.AddEqualityConstraint(EqualityConstraints{eq_data[b].first, eq_data[b].second}, eq_vars[b]);
      what += Fmt(" eq%d{", (int)eq_data[b].first.rows()) + Str(eq_vars[b]) + "}";
      b++;
    } else {
      Source src;
      SetData(&c.rng, &src, cs.cliques[a].size(), scale);
      s.mgr.AddConstraint(src, cs.cliques[a]);
      a++;
    }
  }
  int ndual = 0;
  for (int i = 0, ne = kind == 2 ? c.rng.range(1, 4) : 0; i < ne; i++) {
    int k = c.rng.range(1, std::min(cs.n, 4)), rk = c.rng.range(1, k);
    auto vars = c.rng.subset(cs.n, k);
    Source src;
    SetQuasi(&c.rng, &src, k, rk);
    s.mgr.eqs.emplace_back(src, k + rk);
    std::vector<int> dv;
    what += Fmt(" quasi%d{", rk) + Str(vars) + "}";
    for (int j = 0; j < rk; j++) {
      dv.push_back(cs.n + ndual++);
      vars.push_back(dv.back());
    }
    s.mgr.cliques.push_back(vars);
    s.mgr.dual_vars.push_back(dv);
  }
  s.total = s.mgr.SizeOfKKTSystem();
  for (auto& e : s.mgr.eqs) s.ptrs.push_back(e.kkt_ptr);
  Reference(&s, eq_data);
  bool dual = kind != 0 && s.total > cs.n;
  if (dual && kind == 1 && eq_data.empty()) return;
  std::string key = dual ? (kind == 2 ? "quasi" : "ldlt") : "llt";

  auto run = [&](SupernodalKKTSolver& solver, const std::string& k) {
    int mode = c.rng.chance(.15) ? CONEX_QR_FACTORIZATION : (c.rng.chance(.5) ? 0 : 1);
    int refine = dual ? c.rng.range(0, 3) : (c.rng.chance(.2) ? 1 : 0);
    solver.SetSolverMode(mode);
    solver.SetIterativeRefinementIterations(refine);
    solver.Bind(s.ptrs);
    CheckAssembled(c, s, solver, k, what);
    bool ok = solver.Factor();
    if (!c.Check(ok, k + ":factor", "factorisation of a nonsingular system failed: " + what)) return;
    bool regularised = kind == 1 && dual && mode != CONEX_QR_FACTORIZATION;
    CheckSolve(c, s, solver, regularised, refine, kind == 2 ? 1e-10 : 1e-11, k + (mode == CONEX_QR_FACTORIZATION ? ":qr" : Fmt(":refine%d", refine)), what);
    // New values, same structure.
    if (c.rng.chance(.7)) {
      size_t i = 0;
      for (auto& e : s.mgr.eqs) {
        int d = s.mgr.dual_vars[i].size();
        if (d == 0) SetData(&c.rng, &e.source, s.mgr.cliques[i].size(), scale);
        else if (kind == 2) SetQuasi(&c.rng, &e.source, s.mgr.cliques[i].size() - d, d);
        i++;
      }
      Reference(&s, eq_data);
      CheckAssembled(c, s, solver, k + ":again", what);
      if (c.Check(solver.Factor(), k + ":again:factor", "second factorisation failed: " + what))
        CheckSolve(c, s, solver, regularised, refine, kind == 2 ? 1e-10 : 1e-11, k + ":again", what);
    }
  };
  {
    SupernodalKKTSolver solver(s.mgr.cliques, s.mgr.dual_vars);
    run(solver, key);
  }
  if (!dual) {
    // Explicit elimination order.
    Cliques sorted = s.mgr.cliques, sn, sep;
    Sort(&sorted);
    std::vector<int> order;
    int root = c.rng.range(-1, sorted.size() - 1);
    PickCliqueOrder(sorted, root, &order, &sn, &sep);
    for (auto& e : s.mgr.eqs) e.kkt_ptr->Reset();
    // Binding may have redirected a block into the first solver.
    for (auto& e : s.mgr.eqs) Initialize(e.kkt_ptr->GetWorkspace(), e.memory.data());
    SupernodalKKTSolver solver(s.mgr.cliques, cs.n, order, sn, sep);
    run(solver, "explicit");
  }
  c.Distinct(key + cs.family + Fmt("%d.%d.%d", cs.n, (int)cs.cliques.size(), s.total));
  if (c.index < 2) c.Sample(what);
}

void Indefinite(Ctx& c) {
  // A matrix that is not positive definite is not silently factorised.
  CliqueSet cs = RandomCliques(&c.rng, 10);
  System s;
  s.mgr.SetNumberOfVariables(cs.n);
  for (auto& k : cs.cliques) {
    Source src;
    SetData(&c.rng, &src, k.size(), 1);
    s.mgr.AddConstraint(src, k);
  }
  // Make one direction clearly negative.
  int pick = c.rng.range(0, cs.cliques.size() - 1), at = 0;
  for (auto& e : s.mgr.eqs)
    if (at++ == pick) {
      int k = e.source.G.rows();
      VectorXd v = c.rng.vector(k).normalized();
      MatrixXd all = MatrixXd::Zero(cs.n, cs.n);
      s.total = cs.n;
      e.source.G -= (50. * k + 50 * cs.cliques.size()) * v * v.transpose();
      e.source.G = .5 * (e.source.G + e.source.G.transpose()).eval();
    }
  for (auto& e : s.mgr.eqs) s.ptrs.push_back(e.kkt_ptr);
  s.total = s.mgr.SizeOfKKTSystem();
  Reference(&s, {});
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(s.T, Eigen::EigenvaluesOnly);
  if (!(es.eigenvalues()(0) < -1)) return;
  SupernodalKKTSolver solver(s.mgr.cliques, s.mgr.dual_vars);
  solver.Bind(s.ptrs);
  CheckAssembled(c, s, solver, "indefinite", Str(cs.cliques));
  c.Check(!solver.Factor(), "indefinite:factor", Fmt("Cholesky factorisation of a matrix with eigenvalue %.3g reported success: ", es.eigenvalues()(0)) + Str(cs.cliques));
  c.Count("indefinite_rejected");
  c.Distinct(Fmt("indef%d.%d", cs.n, (int)cs.cliques.size()));
}

// Triangular matrix primitives on the structure of GetData.
void Triangular(Ctx& c) {
  using T = TriangularMatrixOperations;
  using B = BlockTriangularOperations;
  CliqueSet cs = RandomCliques(&c.rng, 12);
  MatrixData data = GetData(cs.cliques, c.rng.range(0, cs.cliques.size() - 1));
  std::string what = Str(cs.cliques);
  SparseTriangularMatrix mat(data);
  int N = mat.N;
  if (!c.Check(N == cs.n, "triangular:size", "structure covers the wrong number of variables: " + what)) return;
  // Fill with a random positive definite matrix of that structure.
  double diag = 0;
  for (auto& sn : mat.supernodes) {
    MatrixXd q = c.rng.matrix(sn.rows(), sn.cols());
    sn = .5 * (q + q.transpose());
  }
  for (auto& sp : mat.separator) sp = c.rng.matrix(sp.rows(), sp.cols());
  MatrixXd D = T::ToDense(mat).selfadjointView<Eigen::Lower>();
  diag = 1 + D.cwiseAbs().rowwise().sum().maxCoeff();
  for (auto& sn : mat.supernodes) sn.diagonal().array() += diag;
  MatrixXd S = T::ToDense(mat).selfadjointView<Eigen::Lower>();
  double e0 = (S - (D + diag * MatrixXd::Identity(N, N))).cwiseAbs().maxCoeff();
  c.Check(e0 <= 1e-12 * diag, "triangular:dense", "ToDense misses diagonal entries: " + what);
  MatrixXd L = Eigen::LLT<MatrixXd>(S).matrixL();
  VectorXd b = c.rng.vector(N);
  {
    SparseTriangularMatrix m(mat);
    bool ok = B::BlockCholeskyInPlace(&m.workspace_);
    c.Check(ok, "triangular:cholesky", "block Cholesky of a diagonally dominant matrix failed: " + what);
    MatrixXd got = T::ToDense(m).triangularView<Eigen::Lower>();
    double e = (got - L).cwiseAbs().maxCoeff() / L.cwiseAbs().maxCoeff();
    c.Max("block_cholesky_error", e);
    c.Check(e <= 1e-12, "triangular:blockcholesky", Fmt("block Cholesky factor differs by %.3g: ", e) + what);
    VectorXd y = b;
    B::ApplyBlockInverseInPlace(m.workspace_, &y);
    c.Check((L * y - b).norm() <= 1e-11 * b.norm(), "triangular:forward", "block forward substitution is wrong: " + what);
    y = b;
    B::ApplyBlockInverseOfTransposeInPlace(m.workspace_, &y);
    c.Check((L.transpose() * y - b).norm() <= 1e-11 * b.norm(), "triangular:backward", "block back substitution is wrong: " + what);
  }
  {
    // The columnwise factorisation and solves.
    SparseTriangularMatrix m(mat);
    T::CholeskyInPlace(&m);
    MatrixXd got = T::ToDense(m).triangularView<Eigen::Lower>();
    double e = (got - L).cwiseAbs().maxCoeff() / L.cwiseAbs().maxCoeff();
    c.Max("column_cholesky_error", e);
    c.Check(e <= 1e-12, "triangular:columncholesky", Fmt("column Cholesky factor differs by %.3g: ", e) + what);
    VectorXd y = T::ApplyInverse(&m, b);
    c.Check((L * y - b).norm() <= 1e-11 * b.norm(), "triangular:columnforward", "column forward substitution is wrong: " + what);
    y = T::ApplyInverseOfTranspose(&m, b);
    c.Check((L.transpose() * y - b).norm() <= 1e-11 * b.norm(), "triangular:columnbackward", "column back substitution is wrong: " + what);
  }
  {
    // Indefinite LDLT of quasi-definite values.
    SparseTriangularMatrix m(mat);
    std::vector<int> sign(N);
    for (auto& x : sign) x = c.rng.chance(.5) ? 1 : -1;
    int at = 0;
    for (auto& sn : m.supernodes)
      for (int i = 0; i < sn.rows(); i++) {
        if (sign[at++] < 0) sn(i, i) -= 2 * diag;
      }
    MatrixXd Q = T::ToDense(m).selfadjointView<Eigen::Lower>();
    std::vector<Eigen::RLDLT<Eigen::Ref<MatrixXd>>> f;
    bool exact = B::BlockLDLTInPlace(&m.workspace_, &f);
    c.Check(exact, "triangular:ldlt:regularised", "LDLT of a diagonally dominant matrix was regularised: " + what);
    VectorXd y = b;
    B::SolveInPlaceLDLT(m.workspace_, f, &y);
    double e = (Q * y - b).norm() / b.norm();
    c.Max("block_ldlt_error", e);
    c.Check(e <= 1e-10, "triangular:ldlt", Fmt("block LDLT solve leaves a residual of %.3g: ", e) + what);
  }
  {
    SparseTriangularMatrix m(mat);
    c.Check((T::ToDense(m) - T::ToDense(mat)).norm() == 0, "triangular:copy", "a copied matrix differs: " + what);
    // Assigning replaces structure and values.
    SparseTriangularMatrix other(GetData(RandomCliques(&c.rng, 6).cliques));
    T::SetConstant(&other, 7);
    other = m;
    bool same = other.N == m.N && (T::ToDense(other) - T::ToDense(mat)).norm() == 0;
    T::SetConstant(&m, 3);
    same = same && (T::ToDense(other) - T::ToDense(mat)).norm() == 0;
    other = other;
    same = same && (T::ToDense(other) - T::ToDense(mat)).norm() == 0;
    c.Check(same, "triangular:assign", "an assigned matrix differs from its source: " + what);
    MatrixXd K = T::ToDense(m).triangularView<Eigen::Lower>();
    for (auto& cl : cs.cliques)
      for (int p : cl)
        for (int q : cl) {
          int i = data.permutation[p], j = data.permutation[q];
          c.Check(K(std::max(i, j), std::min(i, j)) == 3, "triangular:pattern", "an entry of a clique has no storage: " + what);
        }
  }
  c.Count("triangular_structures");
  c.Distinct("tri" + cs.family + Fmt("%d.%d", cs.n, (int)cs.cliques.size()));
}
}  // namespace

int main(int argc, char** argv) {
  auto many = [](int k, std::function<void(Ctx&)> f) { return [=](Ctx& c) { for (int i = 0; i < k; i++) f(c); }; };
  std::vector<Scenario> s;
  s.push_back({"cholesky", 10000, 80000, many(10, [](Ctx& c) { Kkt(c, 0, 12); })});
  s.push_back({"quasidefinite", 10000, 80000, many(10, [](Ctx& c) { Kkt(c, 2, 12); })});
  s.push_back({"ldlt", 1600, 12000, [](Ctx& c) {
                 g_seen = g_off = g_seen_refined = g_off_refined = 0;
                 for (int i = 0; i < 100; i++) Kkt(c, 1, 12);
                 c.Max("inaccurate_of_a_batch", g_off);
                 c.Max("refined_inaccurate_of_a_batch", g_off_refined);
                 c.Check(g_off <= 30, "ldlt:solve", Fmt("%d of %d saddle point solves leave a relative residual above 1e-6", g_off, g_seen));
                 c.Check(g_off_refined <= 12, "ldlt:refined", Fmt("%d of %d refined saddle point solves leave a relative residual above 1e-12", g_off_refined, g_seen_refined));
               }});
  s.push_back({"large", 800, 6000, many(2, [](Ctx& c) { Kkt(c, c.rng.chance(.5) ? 2 : 0, 60); })});
  s.push_back({"indefinite", 3000, 15000, many(10, Indefinite)});
  s.push_back({"triangular", 10000, 80000, many(10, Triangular)});
  return Main(argc, argv, s);
}
