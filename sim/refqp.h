// Reference model of the QP layer: what "solving the current constraints" means, independently of how
// placo assembles the QP and of eiquadprog. A candidate solution is judged by a KKT certificate.
#pragma once
#include "core.h"
#include <Eigen/Dense>
#include <vector>

namespace refqp
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Row  // one block of constraints:  A x + b  {==, >=} 0
{
  MatrixXd A;
  VectorXd b;
  bool equality = true;
  bool hard = true;
  double weight = 1.;
};

struct Model
{
  int n = 0;
  double reg = 1e-8;
  std::vector<Row> rows;
};

// min_{z >= 0} ||M z - r||, with the first nf components of z free in sign. Lawson-Hanson.
inline double nnls_residual(const MatrixXd& M, const VectorXd& r, int nf, VectorXd* zout = nullptr)
{
  int n = M.cols();
  if (n == 0)
    return r.norm();
  std::vector<bool> P(n, false);
  for (int i = 0; i < nf; i++)
    P[i] = true;
  VectorXd z = VectorXd::Zero(n);
  auto solveP = [&](VectorXd& s) {
    std::vector<int> idx;
    for (int i = 0; i < n; i++)
      if (P[i])
        idx.push_back(i);
    s = VectorXd::Zero(n);
    if (idx.empty())
      return;
    MatrixXd S(M.rows(), idx.size());
    for (size_t k = 0; k < idx.size(); k++)
      S.col(k) = M.col(idx[k]);
    VectorXd y = S.completeOrthogonalDecomposition().solve(r);
    for (size_t k = 0; k < idx.size(); k++)
      s[idx[k]] = y[k];
  };
  if (nf)
    solveP(z);
  double scale = 1e-12 * (1 + r.norm());
  for (int it = 0; it < 3 * n + 30; it++)
  {
    VectorXd w = M.transpose() * (r - M * z);
    int best = -1;
    double bw = 0;
    for (int i = nf; i < n; i++)
      if (!P[i] && w[i] > bw && w[i] > scale * (1 + M.col(i).norm()))
      {
        bw = w[i];
        best = i;
      }
    if (best < 0)
      break;
    P[best] = true;
    for (int inner = 0; inner < 3 * n + 30; inner++)
    {
      VectorXd s;
      solveP(s);
      double alpha = 1;
      bool neg = false;
      for (int i = nf; i < n; i++)
        if (P[i] && s[i] <= 0)
        {
          neg = true;
          double d = z[i] - s[i];
          double a = d > 0 ? z[i] / d : 0;
          if (a < alpha)
            alpha = a;
        }
      if (!neg)
      {
        z = s;
        break;
      }
      z = z + alpha * (s - z);
      for (int i = nf; i < n; i++)
        if (P[i] && z[i] <= 1e-14)
        {
          P[i] = false;
          z[i] = 0;
        }
    }
  }
  if (zout)
    *zout = z;
  return (M * z - r).norm();
}

inline VectorXd eval(const Row& r, const VectorXd& x)
{
  return r.A * x.head(r.A.cols()) + r.b;
}

// Objective placo documents: 1/2 reg |x|^2 + sum of 1/2 w |Ax+b|^2 (soft equalities) and
// 1/2 w |min(0, Ax+b)|^2 (soft inequalities)
inline double objective(const Model& m, const VectorXd& x)
{
  double J = 0.5 * m.reg * x.squaredNorm();
  for (auto& r : m.rows)
    if (!r.hard)
    {
      VectorXd e = eval(r, x);
      if (!r.equality)
        e = e.cwiseMin(0.);
      J += 0.5 * r.weight * e.squaredNorm();
    }
  return J;
}

struct Verdict
{
  double infeas = 0;    // worst relative violation of a hard constraint
  double kkt = 0;       // relative stationarity residual
  double scale = 0;
  double eq_abs = 0, in_abs = 0;  // worst absolute violation of a hard equality / inequality
  double residual = 0;
};

inline Verdict judge(const Model& m, const VectorXd& x)
{
  Verdict v;
  int n = m.n;
  VectorXd g = m.reg * x;
  double scale = m.reg * x.norm() + 1e-9;
  std::vector<VectorXd> eqs, ins;
  for (auto& r : m.rows)
  {
    VectorXd e = eval(r, x);
    MatrixXd A = MatrixXd::Zero(r.A.rows(), n);
    A.leftCols(r.A.cols()) = r.A;
    if (!r.hard)
    {
      VectorXd ee = r.equality ? e : VectorXd(e.cwiseMin(0.));
      g += r.weight * (A.transpose() * ee);
      // magnitude of the terms that cancel
      // (the QP solver itself only enforces inequalities, slack ones included, up to a tolerance)
      if (!r.equality)
        scale += 0.3 * r.weight * A.norm();
      scale += r.weight * (A.cwiseAbs().transpose() * (r.A.cwiseAbs() * x.head(r.A.cols()).cwiseAbs() + r.b.cwiseAbs())).norm();
    }
    else
    {
      for (int k = 0; k < A.rows(); k++)
      {
        double mag = 1e-3 + A.row(k).cwiseAbs().dot(x.cwiseAbs()) + std::fabs(r.b[k]);
        double an = A.row(k).norm();
        if (r.equality)
        {
          v.infeas = std::max(v.infeas, std::fabs(e[k]) / mag);
          v.eq_abs = std::max(v.eq_abs, std::fabs(e[k]));
          if (an > 1e-12)
            eqs.push_back(A.row(k).transpose() / an);
        }
        else
        {
          v.infeas = std::max(v.infeas, -e[k] / mag);
          v.in_abs = std::max(v.in_abs, -e[k]);
          if (e[k] < 1e-5 * mag + 1e-6 * an * (1 + 0.01 * x.norm()) && an > 1e-12)
            ins.push_back(A.row(k).transpose() / an);
        }
      }
    }
  }
  MatrixXd M(n, eqs.size() + ins.size());
  for (size_t k = 0; k < eqs.size(); k++)
    M.col(k) = eqs[k];
  for (size_t k = 0; k < ins.size(); k++)
    M.col(eqs.size() + k) = ins[k];
  v.scale = scale;
  v.residual = nnls_residual(M, g, eqs.size());
  v.kkt = v.residual / (scale + 1e-6);
  return v;
}
}  // namespace refqp
