D = 'src/dynamic_trajectory.cpp'
W = 'src/dynamic_waypoint.cpp'
WH = 'include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
PRE = '#include "planner.hpp"\nint main()\n{\n'
SEEDS = [
 dict(id='s10-velocity-before-start', property='C09',
      subs=[(D, "    if (local_time < 0.0f)\n    {", "    if (local_time < 0.0f && order == 0)\n    {")],
      needs='a time before the start of the trajectory in use and a derivative of the reference', breaks='velocity and acceleration are extrapolated in front of the first segment instead of being those of its start',
      demo=PRE + '''  auto &t = *new DynamicTrajectory;
  first(t, {wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 5, 1)});
  Vector3d v0 = t.evaluateModifiedTrajectory(t.traj_, 0.0, 0.0, 1), v1 = t.evaluateModifiedTrajectory(t.traj_, 0.0, -2.0, 1);
  Vector3d a0 = t.evaluateModifiedTrajectory(t.traj_, 0.0, 0.0, 2), a1 = t.evaluateModifiedTrajectory(t.traj_, 0.0, -2.0, 2);
  done((v0 - v1).norm() < 1e-6 && (a0 - a1).norm() < 1e-6, "before its start the trajectory stands at its start");
}
'''),
 dict(id='s11-derivatives-of-last-modifier', property='C10',
      subs=[(W, "        compensation[i] += modifier[i](t, derivative_order);", "        // older shifts have settled\n        compensation[i] += derivative_order == 0 || &modifier == &modifiers_.back() ? modifier[i](t, derivative_order) : 0.0;")],
      needs='a waypoint modified twice while it is approached, a reference near its time', breaks='velocity and acceleration compensate only the last modification, the position compensates all of them',
      demo=PRE + '''  DynamicWaypoint w = wp("a", 0, 0, 0);
  w.setTime(10.0);
  w.setCurrentPosition(Vector3d(1, 0, 0), 4.0);
  w.setCurrentPosition(Vector3d(1, 2, 0), 5.0);
  bool ok = true;
  for (double x = 9.0; x <= 11.0; x += 0.25)
  {
    const double h = 1e-5;
    Vector3d fd = (w.trajectoryCompensation(x + h, 0) - w.trajectoryCompensation(x - h, 0)) / (2 * h);
    ok = ok && (fd - w.trajectoryCompensation(x, 1)).norm() < 1e-3;
  }
  done(ok, "the velocity compensation is the derivative of the position compensation");
}
'''),
 dict(id='s12-arrive-accelerating', property='C11',
      subs=[(D, "    vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));", "    if (vertices.size() > 3)\n    {\n      vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));\n    }")],
      needs='a mission of one or two waypoints', breaks='short trajectories do not end with zero acceleration',
      demo=PRE + '''  auto &t = *new DynamicTrajectory;
  first(t, {wp("a", 3, 1, 1), wp("b", 12, 4, 2)});
  Vector3d a = t.evaluateModifiedTrajectory(t.traj_, 0.0, t.traj_.getMaxTime(), 2);
  done(a.norm() < 1e-2, "the trajectory ends with zero acceleration");
}
'''),
 dict(id='s13-speed-during-generation', property='C12',
      subs=[(D, "    parameters_.speed = speed;\n    new_parameters_.speed = speed;", "    parameters_.speed = speed;\n    if (!computing_new_trajectory_)\n    {\n      new_parameters_.speed = speed;\n    }")],
      needs='a speed set while a trajectory is being generated, then its adoption', breaks='adopting the trajectory reverts the speed to the one before',
      demo=PRE + '''  auto &t = *new DynamicTrajectory;
  t.setSpeed(2.0);
  DynamicWaypoint::Vector many;
  for (int i = 0; i < 12; i++) many.push_back(wp("w" + std::to_string(i), 10 * i, (i % 3) * 4, 1));
  t.setWaypoints(many);
  if (!within(30, [&] { return t.getComputingNewTrajectoryStatus(); })) done(true, "too slow, nothing decided");
  t.setSpeed(3.5);
  References r;
  if (!within(100, [&] { t.evaluateTrajectory(0.0, r); return !t.getDynamicWaypoints().empty(); })) done(true, "too slow, nothing decided");
  done(t.getSpeed() == 3.5, "a speed set during a generation is kept");
}
'''),
 dict(id='s14-centre-last-modifier', property='C13',
      subs=[(WH, "      for (auto &modifier : modifiers_)\n      {\n        for (int i = 0; i < 3; i++)\n        {\n          modifier[i].setModifierTime(t);", "      if (!modifiers_.empty())\n      {\n        // the newest shift is the one in effect\n        auto &modifier = modifiers_.back();\n        for (int i = 0; i < 3; i++)\n        {\n          modifier[i].setModifierTime(t);")],
      needs='a waypoint modified twice before its time is assigned anew', breaks='older compensations stay centred on the old time of the waypoint',
      demo=PRE + '''  DynamicWaypoint w = wp("a", 0, 0, 0);
  w.setTime(10.0);
  w.setCurrentPosition(Vector3d(1, 0, 0), 4.0);
  w.setCurrentPosition(Vector3d(1, 2, 0), 5.0);
  w.setTime(14.0);
  Vector3d c = w.trajectoryCompensation(14.0, 0);
  done((c - Vector3d(1, 2, 0)).norm() < 1e-6, "at its time a waypoint is compensated by the sum of its modifications");
}
'''),
 dict(id='s15-arrival-of-estimate', property='C13',
      subs=[(D, "      waypoint.setTime(getCummulativeTime(segments, waypoint.getIndex()) +", "      waypoint.setTime(std::accumulate(segment_times.begin(), segment_times.begin() + index, 0.0) +"), (D, "#include <mutex>\n", "#include <mutex>\n#include <numeric>\n")],
      needs='an optimisation that changes the allocated segment times', breaks='the waypoints carry the arrival times that were allocated before the optimisation instead of those of the trajectory',
      demo=PRE + '''  auto &t = *new DynamicTrajectory;
  first(t, {wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 15, 1), wp("d", 0, 15, 3)});
  mav_trajectory_generation::Segment::Vector s;
  t.traj_.trajectory_ptr_->getSegments(&s);
  auto ws = t.getDynamicWaypoints();
  double at = t.parameters_.global_time_last_trajectory_generated;
  bool ok = ws.size() == s.size() + 1;
  for (size_t i = 0; ok && i < ws.size(); i++)
  {
    ok = std::abs(ws[i].getTime() - at) < 1e-9 && ws[i].getIndex() == (int)i;
    if (i < s.size()) at += s[i].getTime();
  }
  done(ok, "every waypoint carries the time at which its trajectory passes it");
}
'''),
 dict(id='s16-shift-from-original', property='C14',
      subs=[(W, "modifiers[i].setDifference(position[i] - current_position_[i]);", "modifiers[i].setDifference(position[i] - original_position_[i]);")],
      needs='the same waypoint modified twice', breaks='the second compensation contains the first one again',
      demo=PRE + '''  DynamicWaypoint w = wp("a", 0, 0, 0);
  w.setTime(10.0);
  w.setCurrentPosition(Vector3d(1, 0, 0), 4.0);
  w.setCurrentPosition(Vector3d(1, 2, 0), 5.0);
  Vector3d c = w.trajectoryCompensation(10.0, 0);
  done((c - (w.getCurrentPosition() - w.getOriginalPosition())).norm() < 1e-6, "at its time a waypoint is compensated by what it was moved");
}
'''),
 dict(id='s17-rebase-modified-only', property='C14',
      subs=[(WH, "      original_position_ = current_position_;", "      original_position_ = modifiers_.empty() && original_position_.norm() > 0.0 ? original_position_ : current_position_;")],
      needs='a waypoint reset a second time without live modifications in between', breaks='the second reset leaves the original position at the old one',
      demo=PRE + '''  DynamicWaypoint w = wp("a", 1, 0, 0);
  w.resetWaypoint(Vector3d(4, 5, 6));
  Eigen::VectorXd p;
  w.getVertex().getConstraint(0, &p);
  done((p - w.getCurrentPosition()).norm() < 1e-9 && (w.getOriginalPosition() - w.getCurrentPosition()).norm() < 1e-9, "resetting makes original, current and constraint positions equal");
}
'''),
]
