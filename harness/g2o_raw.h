// The optimiser of this repository was written against the g2o interface that
// takes plain pointers (and takes ownership of what they point to). The
// installed g2o wants unique_ptr; these wrappers offer the old constructors.
#pragma once
#include <memory>
#include <g2o/core/block_solver.h>
#include <g2o/core/estimate_propagator.h>
#include <g2o/core/optimization_algorithm_gauss_newton.h>
#include <g2o/core/optimization_algorithm_levenberg.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/core/sparse_optimizer_terminate_action.h>
#include <g2o/solvers/csparse/linear_solver_csparse.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/vertex_se2.h>
namespace g2o
{
template <typename Traits>
struct BlockSolverRaw : BlockSolver<Traits> {
  typedef BlockSolver<Traits> Base;
  explicit BlockSolverRaw(typename Base::LinearSolverType *l)
    : Base(std::unique_ptr<typename Base::LinearSolverType>(l))
  {
  }
};
struct OptimizationAlgorithmGaussNewtonRaw : OptimizationAlgorithmGaussNewton {
  explicit OptimizationAlgorithmGaussNewtonRaw(Solver *s)
    : OptimizationAlgorithmGaussNewton(std::unique_ptr<Solver>(s))
  {
  }
};
struct OptimizationAlgorithmLevenbergRaw : OptimizationAlgorithmLevenberg {
  explicit OptimizationAlgorithmLevenbergRaw(Solver *s)
    : OptimizationAlgorithmLevenberg(std::unique_ptr<Solver>(s))
  {
  }
};
}
#define BlockSolver BlockSolverRaw
#define OptimizationAlgorithmGaussNewton OptimizationAlgorithmGaussNewtonRaw
#define OptimizationAlgorithmLevenberg OptimizationAlgorithmLevenbergRaw
