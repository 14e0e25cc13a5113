SUB = 'subpackages/mav_trajectory_generation/'
S, T, P = SUB + 'src/segment.cpp', SUB + 'src/trajectory.cpp', SUB + 'src/polynomial.cpp'
SH, TH = SUB + 'include/mav_trajectory_generation/segment.h', SUB + 'include/mav_trajectory_generation/trajectory.h'
SA = SUB + 'src/trajectory_sampling.cpp'
W = 'src/dynamic_waypoint.cpp'
PRE = '#include "lib.hpp"\nint main()\n{\n'
L = ['lib.hpp']
SEEDS = [
 dict(id='s18-equal-position-only', property='C15', **{'with': L},
      subs=[(S, "    for (int i = 0; i < D(); i++) {\n      if (polynomials_[i] != rhs[i]) {", "    for (int i = 0; i < std::min(D(), 3); i++) {\n      if (polynomials_[i] != rhs[i]) {")],
      needs='segments of more than three dimensions that differ only in the rotational part', breaks='segments with different yaw compare equal',
      demo=PRE + '''  Segment a = seg(3, 4, 2, {1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 0});
  Segment b = seg(3, 4, 2, {1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 2, 0});
  return done(a == a && a != b, "segments with different yaw differ");
}
'''),
 dict(id='s19-modifiers-newest', property='C15', **{'with': ['planner.hpp']},
      subs=[(W, "  modifiers_ = other.modifiers_;\n", "  // only the newest modifier is still moving\n  modifiers_.clear();\n  if (!other.modifiers_.empty()) modifiers_.push_back(other.modifiers_.back());\n")],
      needs='a waypoint modified twice, copied and evaluated through the copy', breaks='the copy compensates only the newest modification',
      demo='#include "planner.hpp"\nint main()\n{\n' + '''  DynamicWaypoint w = wp("a", 0, 0, 0), v = wp("b", 1, 1, 1);
  w.setTime(10.0);
  w.setCurrentPosition(Vector3d(1, 0, 0), 4.0);
  w.setCurrentPosition(Vector3d(1, 2, 0), 5.0);
  v = w;
  DynamicWaypoint u(w);
  bool ok = true;
  for (double x = 9.0; x <= 11.0; x += 0.25)
    ok = ok && (w.trajectoryCompensation(x, 0) - v.trajectoryCompensation(x, 0)).norm() < 1e-9 && (w.trajectoryCompensation(x, 0) - u.trajectoryCompensation(x, 0)).norm() < 1e-9;
  done(ok, "a copied waypoint compensates like its source");
}
'''),
 dict(id='s20-segment-time-undefined', property='C16', **{'with': L},
      subs=[(SH, "  Segment(int N, int D) : time_(0.0), N_(N), D_(D) {", "  Segment(int N, int D) : N_(N), D_(D) {")],
      needs='a segment used before its time was set, in memory that held something else', breaks='the duration of a new segment is whatever was in memory',
      demo=PRE + '''  alignas(Segment) unsigned char m[sizeof(Segment)];
  for (auto &b : m) b = 0x41;
  volatile unsigned char *keep = m;
  (void)keep[0];
  asm volatile("" : : "r"(m) : "memory");
  Segment *s = new (m) Segment(10, 3);
  return done(s->getTime() == 0.0, "a new segment has a defined duration");
}
'''),
 dict(id='s21-added-without-duration', property='C17', **{'with': L},
      subs=[(TH, "      max_time_ += segment.getTime();\n", "      max_time_ = std::max(max_time_, segment.getTime());\n")],
      needs='a trajectory extended with further segments', breaks='the duration of a combined trajectory is that of its longest part',
      demo=PRE + '''  std::vector<double> c = {0, 1, 0, 0, 1, 0, 0, 1, 0};
  Trajectory a = traj({seg(3, 3, 2, c), seg(3, 3, 3, c)}), b = traj({seg(3, 3, 4, c)}), r;
  bool ok = a.addTrajectories({b, b}, &r);
  return done(ok && std::abs(r.getMaxTime() - 13.0) < 1e-9, "a combined trajectory lasts as long as its parts");
}
'''),
 dict(id='s22-rescale-sum', property='C17', **{'with': L},
      subs=[(T, "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", "    new_max_time += segments_[i].getTime() / scaling;\n  }\n  max_time_ = new_max_time;\n\n  return true;")],
      needs='scaling the times of a trajectory by a factor other than one', breaks='the duration keeps its old value while every segment is scaled',
      demo=PRE + '''  std::vector<double> c = {0, 1, 0, 0, 1, 0, 0, 1, 0};
  Trajectory a = traj({seg(3, 3, 2, c), seg(3, 3, 3, c)});
  bool ok = a.scaleSegmentTimes(2.0);
  double sum = 0;
  for (auto &s : a.segments()) sum += s.getTime();
  return done(ok && std::abs(a.getMaxTime() - sum) < 1e-9 && std::abs(sum - 10) < 1e-9, "a scaled trajectory lasts as long as its segments");
}
'''),
 dict(id='s23-append-shorter-unscaled', property='C18', **{'with': L},
      subs=[(S, "  } else if (segment_to_append.getTime() < new_time && new_time > 0.0) {\n    for (int d = 0; d < segment_to_append.D(); d++) {", "  } else if (segment_to_append.getTime() < new_time && new_time > 0.0) {\n    for (int d = 0; d < std::min(D_, segment_to_append.D()) - 1; d++) {")],
      needs='appending a segment that is shorter in time', breaks='the last appended dimension is not stretched to the new duration',
      demo=PRE + '''  Segment a = seg(3, 3, 4, {0, 1, 0, 0, 1, 0, 0, 1, 0}), b = seg(3, 1, 2, {0, 1, 0}), r(3, 1);
  bool ok = a.getSegmentWithAppendedDimension(b, &r);
  return done(ok && std::abs(r.evaluate(4.0)(3) - b.evaluate(2.0)(0)) < 1e-9, "the appended dimension ends where it ended");
}
'''),
 dict(id='s24-scale-order', property='C18', **{'with': L},
      subs=[(P, "    coefficients_[n] *= scale;\n    scale *= scaling_factor;", "    coefficients_[n] *= scale;\n    scale *= n < 7 ? scaling_factor : 1.0;")],
      needs='time scaling of a polynomial of degree eight or more', breaks='the highest coefficients are scaled by too low a power',
      demo=PRE + '''  Segment a = seg(10, 1, 2, {0, 1, 0.5, 0, 0, 0, 0, 0.1, 0.2, 0.1});
  const double end = a.evaluate(2.0)(0);
  a[0].scalePolynomialInTime(0.5);
  return done(std::abs(a.evaluate(4.0)(0) - end) < 1e-6, "a stretched polynomial ends where it ended");
}
'''),
 dict(id='s25-candidates-stop', property='C19', **{'with': L},
      subs=[(S, "    if (candidate.time < t_start || candidate.time > t_end) {\n      continue;", "    if (candidate.time < t_start || candidate.time > t_end) {\n      break;")],
      needs='candidates outside the interval listed before ones inside', breaks='extrema behind the first candidate out of the interval are ignored',
      demo=PRE + '''  Segment a = seg(3, 3, 4, {0, 1, 0, 0, 1, 0, 0, 1, 0});
  std::vector<Extremum> c = {Extremum(1.0, 1.0, 0), Extremum(9.0, 3.0, 0), Extremum(3.0, 7.0, 0)};
  std::vector<int> dims = {0, 1, 2};
  Extremum lo, hi;
  bool ok = a.selectMinMaxMagnitudeFromCandidates(derivative_order::POSITION, 0.0, 4.0, dims, c, &lo, &hi);
  return done(ok && std::abs(hi.time - 3.0) < 1e-9, "a candidate outside the interval does not hide the others");
}
'''),
 dict(id='s26-either-limit', property='C19', **{'with': L},
      subs=[(T, "    within_range = velocity_violation <= 1.0 + kTolerance &&\n", "    within_range = velocity_violation <= 1.0 + kTolerance ||\n")],
      needs='one limit met and the other exceeded', breaks='a trajectory that exceeds one limit counts as feasible',
      demo=PRE + '''  Trajectory t = traj({seg(6, 3, 2, {0, 0, 0, 0, 0, .2, 0, 0, 0, 0, 0, .2, 0, 0, 0, 0, 0, .2})});
  double v, a, v2, a2;
  t.computeMaxVelocityAndAcceleration(&v, &a);
  t.scaleSegmentTimesToMeetConstraints(v * 2, a / 4);
  t.computeMaxVelocityAndAcceleration(&v2, &a2);
  return done(a2 <= a / 4 * 1.01, "both limits are met after scaling");
}
'''),
 dict(id='s27-static-result', property='C29', **{'with': L},
      subs=[(S, "  Eigen::VectorXd result(D_);\n", "  // keep the storage between the calls\n  static Eigen::VectorXd result;\n  result.resize(D_);\n")],
      needs='two threads that evaluate segments at the same time', breaks='evaluations of independent trajectories overwrite each other',
      demo=PRE + '''  std::atomic<int> bad(0);
  std::vector<std::thread> all;
  for (int k = 0; k < 4; ++k)
    all.emplace_back([k, &bad]() {
      const double x = k;
      Segment s = seg(3, 3, 2, {x, 0, 0, x + 10, 0, 0, x + 20, 0, 0});
      for (int i = 0; i < 2000000 && !bad; ++i)
      {
        Eigen::VectorXd v = s.evaluate(1.0);
        if (v(0) != x || v(1) != x + 10 || v(2) != x + 20) ++bad;
      }
    });
  for (auto &t : all) t.join();
  return done(!bad, "independent evaluations do not interfere");
}
'''),
 dict(id='s28-range-rates', property='C23', **{'with': L},
      subs=[(SA, "      rot_vec_acc  = acceleration[i].tail<3>();", "      rot_vec_acc  = acceleration[i].head<3>();")],
      needs='a six-dimensional trajectory sampled over a range', breaks='the angular acceleration is computed from the translation',
      demo=PRE + '''  Trajectory t = traj({seg(4, 6, 4, {0, 1, 2, 0, 0, 2, 1, 0, 0, 0, 1, 0, .1, .05, 0, 0, .2, 0, .02, 0, 0, 0, 0, .01})});
  mav_msgs::EigenTrajectoryPointVector v;
  bool ok = sampleTrajectoryInRange(t, 0.0, 4.0, 0.5, &v);
  for (size_t i = 0; i < v.size() && ok; ++i)
  {
    mav_msgs::EigenTrajectoryPoint p;
    ok = sampleTrajectoryAtTime(t, 0.5 * i, &p) && (p.angular_acceleration_W - v[i].angular_acceleration_W).norm() < 1e-9;
  }
  return done(ok && !v.empty(), "a range of samples agrees with single samples");
}
'''),
 dict(id='s29-range-stamp', property='C23', **{'with': L},
      subs=[(SA, "        (min_time + sampling_interval * i) * kNumNanosecondsPerSecond);", "        sampling_interval * i * kNumNanosecondsPerSecond);")],
      needs='a range that does not start at zero', breaks='the recorded time is relative to the range, the values are not',
      demo=PRE + '''  Trajectory t = traj({seg(3, 3, 4, {0, 1, 0, 0, 1, 0, 0, 1, 0})});
  mav_msgs::EigenTrajectoryPointVector v;
  bool ok = sampleTrajectoryInRange(t, 1.0, 3.0, 0.5, &v) && !v.empty();
  for (auto &p : v) ok = ok && std::abs(p.position_W.x() - 1e-9 * p.time_from_start_ns) < 1e-6;
  return done(ok, "the recorded time is the sampled time");
}
'''),
]
