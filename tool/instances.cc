// Instantiates the optimiser templates as the planner uses them, so that every member of them
// is type-checked and visible to the analyses (not only the members one unit happens to call).
#include "mav_trajectory_generation/polynomial_optimization_linear.h"
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
#include "mav_trajectory_generation/io.h"
#include "dynamic_trajectory.hpp"
template class mav_trajectory_generation::PolynomialOptimization<10>;
template class mav_trajectory_generation::PolynomialOptimizationNonLinear<10>;
