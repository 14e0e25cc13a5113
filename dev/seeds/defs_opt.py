SUB = 'subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/'
LI, NL = SUB + 'polynomial_optimization_linear_impl.h', SUB + 'polynomial_optimization_nonlinear_impl.h'
PRE = '''#include "lib.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>
static Vertex::Vector way(int n, int dim = 3)
{
  Vertex::Vector v;
  for (int i = 0; i < n; ++i)
  {
    Vertex x(dim);
    Eigen::VectorXd p = Eigen::VectorXd::Constant(dim, i * i + 1.0);
    if (i == 0 || i == n - 1) x.makeStartOrEnd(p, derivative_order::SNAP);
    else x.addConstraint(derivative_order::POSITION, p);
    v.push_back(x);
  }
  return v;
}
template <class F> bool refused(F f)
{
  std::fflush(stdout);
  pid_t p = fork();
  if (p == 0)
  {
    bool ok = false;
    try { ok = f(); } catch (...) {}
    _exit(ok ? 0 : 9);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
'''
L = ['lib.hpp']
SEEDS = [
 dict(id='s34-near-times-kept', property='C24', **{'with': L},
      subs=[(LI, '  segment_times_ = segment_times;\n\n  for', '  const std::vector<double> previous_times = segment_times_;\n  segment_times_ = segment_times;\n\n  for'),
            (LI, '    const double segment_time = segment_times[i];\n    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n\n    computeQ',
             '    const double segment_time = segment_times[i];\n    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n    if (cost_matrices_[i].norm() > 0 && inverse_mapping_matrices_[i].norm() > 0 &&\n        std::abs(segment_time - previous_times[i]) > 0 &&\n        std::abs(segment_time - previous_times[i]) < 1e-3)\n      continue;\n    computeQ')],
      needs='segment times that change by less than a millisecond, again and again', breaks='matrices of the former times are used, the trajectory misses its vertices',
      demo=PRE + '''int main()
{
  PolynomialOptimization<10> o(3);
  auto v = way(3);
  std::vector<double> t{1.0, 2.0};
  o.setupFromVertices(v, t, derivative_order::SNAP);
  for (int i = 0; i < 400; ++i)
  {
    t[0] += 0.0009;
    o.updateSegmentTimes(t);
  }
  o.solveLinear();
  Segment::Vector s;
  o.getSegments(&s);
  Eigen::VectorXd e = s[0].evaluate(s[0].getTime()), w;
  v[1].getConstraint(derivative_order::POSITION, &w);
  return done((e - w).norm() < 1e-6, "the first segment ends at its vertex");
}
'''),
 dict(id='s35-gradient-leaves-segments', property='C24', **{'with': L},
      subs=[(NL, '    poly_opt_.updateSegmentTimes(segment_times);\n    poly_opt_.solveLinear();\n  }\n\n  // Compute cost', '    poly_opt_.updateSegmentTimes(segment_times);\n  }\n\n  // Compute cost')],
      needs='the segments are used after a gradient was computed', breaks='the segments are those of the last perturbed times',
      demo=PRE + '''int main()
{
  NonlinearOptimizationParameters par;
  par.time_alloc_method = NonlinearOptimizationParameters::kMellingerOuterLoop;
  par.algorithm = nlopt::LD_LBFGS;
  PolynomialOptimizationNonLinear<10> o(3, par);
  o.setupFromVertices(way(4), {1.0, 2.0, 3.0}, derivative_order::SNAP);
  o.solveLinear();
  std::vector<double> g;
  o.getCostAndGradientMellinger(&g);
  Trajectory t;
  o.getTrajectory(&t);
  auto s = t.getSegmentTimes();
  return done(s.size() == 3 && std::abs(s[0] - 1) + std::abs(s[1] - 2) + std::abs(s[2] - 3) < 1e-9, "a gradient leaves the trajectory as it was");
}
'''),
 dict(id='s36-total-time-positive', property='C25', **{'with': L},
      subs=[(LI, '    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n\n    computeQ',
             '    CHECK_GT(std::accumulate(segment_times.begin(), segment_times.begin() + i + 1, 0.0), 0)\n        << "Segment times need to be greater than zero";\n\n    computeQ')],
      needs='a negative time behind a longer positive one', breaks='a segment that lasts less than no time is optimised',
      demo=PRE + '''int main()
{
  bool r = refused([] { PolynomialOptimization<10> o(3); return o.setupFromVertices(way(3), {2.0, -0.5}, derivative_order::SNAP); });
  return done(r, "a negative segment time is refused");
}
'''),
 dict(id='s37-surplus-times', property='C25', **{'with': L},
      subs=[(LI, '  CHECK(n_segment_times == n_segments_)\n', '  CHECK(n_segment_times >= n_segments_)\n')],
      needs='an update with more times than segments', breaks='surplus times are stored and become part of the total time',
      demo=PRE + '''int main()
{
  bool r = refused([] { PolynomialOptimization<10> o(3); o.setupFromVertices(way(3), {2.0, 1.0}, derivative_order::SNAP); o.updateSegmentTimes({1.0, 2.0, 3.0}); return true; });
  return done(r, "surplus segment times are refused");
}
'''),
]
