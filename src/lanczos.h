#pragma once
#include <Eigen/Dense>

namespace verif {

using Eigen::MatrixXd;
using Eigen::VectorXd;

// Ritz values of symmetric W^1/2 S W^1/2 from W^1/2 r with reorthogonalisation.
inline VectorXd Ritz(const MatrixXd& S, const MatrixXd& W, const VectorXd& r, int k, bool* degenerate) {
  int n = S.rows();
  Eigen::SelfAdjointEigenSolver<MatrixXd> ew(W);
  MatrixXd Wh = ew.operatorSqrt();
  MatrixXd M = Wh * S * Wh;
  MatrixXd V(n, k);
  V.col(0) = (Wh * r).normalized();
  *degenerate = false;
  double nm = M.norm();
  for (int j = 1; j < k; j++) {
    VectorXd v = M * V.col(j - 1);
    for (int t = 0; t < 2; t++)
      for (int i = 0; i < j; i++) v -= V.col(i).dot(v) * V.col(i);
    if (v.norm() <= 1e-2 * nm) *degenerate = true;
    V.col(j) = v.normalized();
  }
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(V.transpose() * M * V, Eigen::EigenvaluesOnly);
  return es.eigenvalues();
}

}  // namespace verif
