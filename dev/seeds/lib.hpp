#pragma once
#include <cmath>
#include <cstdio>
#include <new>
#include <thread>
#include <vector>
#include <atomic>
#include <mav_trajectory_generation/segment.h>
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/trajectory_sampling.h>
#include <mav_trajectory_generation/vertex.h>
using namespace mav_trajectory_generation;
static int done(bool ok, const char *what)
{
  std::printf("%s: %s\n", ok ? "holds" : "BROKEN", what);
  return ok ? 0 : 1;
}
// a segment with N coefficients per dimension, c[d * N + n]
static Segment seg(int N, int D, double time, std::vector<double> c)
{
  Segment s(N, D);
  s.setTime(time);
  for (int d = 0; d < D; ++d)
  {
    Eigen::VectorXd v(N);
    for (int n = 0; n < N; ++n) v(n) = c[d * N + n];
    s[d].setCoefficients(v);
  }
  return s;
}
static Trajectory traj(const std::vector<Segment> &v)
{
  Trajectory t;
  Segment::Vector s(v.begin(), v.end());
  t.setSegments(s);
  return t;
}
