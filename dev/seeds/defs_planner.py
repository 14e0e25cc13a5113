D = 'src/dynamic_trajectory.cpp'
H = 'include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
PRE = '#include "planner.hpp"\nint main()\n{\n  auto &t = *new DynamicTrajectory;\n'
SEEDS = [
 dict(id='s01-append-while-computing', property='C03',
      subs=[(D, "    waypoints_to_be_added_.emplace_back(waypoint);\n    generate_new_traj_ = true;", "    waypoints_to_be_added_.emplace_back(waypoint);\n    // the computation in progress takes it along\n    generate_new_traj_ = !computing_new_trajectory_;")],
      needs='a waypoint appended while a computation is in progress', breaks='the appended waypoint asks for no regeneration (and withdraws one already asked for), it stays in the queue',
      demo=PRE + '''  t.setSpeed(2.0);
  t.setWaypoints({wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 5, 1)});
  if (!within(30, [&] { return t.getComputingNewTrajectoryStatus(); })) done(true, "too slow, nothing decided");
  t.appendWaypoint(wp("d", 30, 5, 1));
  bool queued = t.waypoints_to_be_added_.size() == 1 && t.getComputingNewTrajectoryStatus();
  done(!queued || t.getGenerateNewTraj(), "a waypoint appended during a computation keeps its request raised");
}
'''),
 dict(id='s02-batch-raised-first', property='C03',
      subs=[(D, "    for (const auto & waypoint : waypoints_to_modified) {\n      modifyWaypoint(waypoint.first, waypoint.second, false);\n    }\n    generate_new_traj_ = true;", "    for (const auto & waypoint : waypoints_to_modified) {\n      modifyWaypoint(waypoint.first, waypoint.second, &waypoint == &waypoints_to_modified.front());\n    }")],
      needs='the worker draining the queue between the first and the last entry of one modifyWaypoints call', breaks='entries queued after the worker took the request are left without one',
      demo=PRE + '''  first(t, {wp("a", 0, 0, 1), wp("b", 40, 0, 1), wp("c", 90, 5, 1)});
  std::vector<std::pair<std::string, Vector3d>> batch;
  for (int i = 0; i < 30000; i++) batch.emplace_back("none" + std::to_string(i), Vector3d(1, 1, 1));
  bool ok = true;
  for (int n = 0; n < 5 && ok; n++)
  {
    References r;
    if (!within(60, [&] { t.evaluateTrajectory(0.0, r); return !t.computing_new_trajectory_ && !t.generate_new_traj_; })) break;
    t.modifyWaypoints(batch);
    // nothing is evaluated here, so no live modification can empty the queue once the worker computes
    std::lock_guard<std::mutex> lock(t.todo_mutex);
    ok = t.waypoints_to_be_modified_.empty() || t.generate_new_traj_;
  }
  done(ok, "modifications still queued after modifyWaypoints returned have a request raised");
}
'''),
 dict(id='s03-stale-modification', property='C04',
      subs=[(D, "    waypoints_to_be_set_.clear();\n    waypoints_to_be_modified_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_set_.reserve", "    waypoints_to_be_set_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_set_.reserve")],
      needs='a modification still queued (a computation is in progress) when new waypoints reusing the name are set', breaks='the modification that setWaypoints replaces is applied to the new waypoint of that name',
      demo=PRE + '''  t.setSpeed(2.0);
  t.setWaypoints({wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 5, 1)});
  if (!within(30, [&] { return t.getComputingNewTrajectoryStatus(); })) done(true, "too slow, nothing decided");
  t.modifyWaypoint("b", Vector3d(77, 77, 77));
  t.setWaypoints({wp("a", 0, 0, 1), wp("b", 12, 0, 1), wp("c", 20, 5, 1)});
  References r;
  Vector3d p(0, 0, 0);
  within(60, [&] {
    t.evaluateTrajectory(0.0, r);
    if (t.getGenerateNewTraj() || t.getComputingNewTrajectoryStatus()) return false;
    for (auto &w : t.getDynamicWaypoints())
      if (w.getName() == "b") p = w.getCurrentPosition();
    return true;
  });
  done((p - Vector3d(77, 77, 77)).norm() > 1, "setWaypoints replaces a modification queued before it");
}
'''),
 dict(id='s04-early-release', property='C05',
      subs=[(D, "        swapDynamicWaypoints();\n        trajectory_regenerated_ = true;\n        computing_new_trajectory_ = false;", "        computing_new_trajectory_ = false;\n        swapDynamicWaypoints();\n        trajectory_regenerated_ = true;")],
      needs='the worker starting another generation between the release and the waypoint swap', breaks='the worker can overwrite the waypoints that are about to be adopted',
      demo=PRE + '''  t.setSpeed(2.0);
  t.setWaypoints({wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 5, 1)});
  if (!within(30, [&] { return t.getComputingNewTrajectoryStatus(); })) done(true, "too slow, nothing decided");
  { std::lock_guard<std::mutex> l(t.future_mutex_); t.future_traj_.wait(); }
  bool early = false;
  std::atomic_bool finished{false};
  t.stop_process_ = true;  // keep the worker away from the waypoints
  t.waitForGeneratingNewTraj_thread_.join();
  std::thread e;
  {
    // a reader of the waypoints delays their replacement
    std::lock_guard<std::mutex> l(t.dynamic_waypoints_mutex_);
    e = std::thread([&] { References r; t.evaluateTrajectory(0.0, r); finished = true; });
    early = within(3, [&] { return !t.getComputingNewTrajectoryStatus(); });
    early = early && t.dynamic_waypoints_.empty();
  }
  e.join();
  done(!early, "the worker is only released after the waypoints were replaced");
}
'''),
 dict(id='s05-notice-of-passed', property='C06',
      subs=[(D, "        modified = true;\n        trajectory_regenerated_ = true;", "        modified = true;\n        trajectory_regenerated_ = waypoint.getTime() > parameters_.last_global_time_evaluated;")],
      needs='two waypoints of one name, the later one already passed, modified live', breaks='an unread notice is withdrawn, a change of an active waypoint is never reported',
      demo=PRE + '''  first(t, {wp("a", 0, 0, 1), wp("b", 3, 0, 1), wp("c", 60, 5, 1)});
  References r;
  double tb = 0;
  for (auto &w : t.getDynamicWaypoints())
    if (w.getName() == "b") tb = w.getTime();
  t.evaluateTrajectory(tb + 2.0, r);
  t.getWasTrajectoryRegenerated();
  t.modifyWaypoint("b", Vector3d(3, 3, 1), false);
  bool consumed = within(20, [&] {
    std::lock_guard<std::mutex> l(t.todo_mutex);
    return t.waypoints_to_be_modified_.empty();
  });
  bool changed = false;
  for (auto &w : t.getDynamicWaypoints())
    if (w.getName() == "b") changed = (w.getCurrentPosition() - Vector3d(3, 3, 1)).norm() < 1e-9;
  done(!consumed || !changed || t.getWasTrajectoryRegenerated(), "changing an active waypoint is reported");
}
'''),
 dict(id='s06-finish-before-stop', property='C07',
      subs=[(D, "    while (!stop_process_)\n    {\n      if (generate_new_traj_", "    while (!stop_process_ || generate_new_traj_)\n    {\n      if (generate_new_traj_")],
      needs='a planner destroyed while a regeneration is requested that cannot start yet', breaks='the destructor never returns',
      demo='''#include "planner.hpp"
int main()
{
  auto t = new DynamicTrajectory;
  t->setSpeed(2.0);
  t->setWaypoints({wp("a", 0, 0, 1), wp("b", 10, 0, 1), wp("c", 20, 5, 1)});
  if (!within(30, [&] { return t->getComputingNewTrajectoryStatus(); })) done(true, "too slow, nothing decided");
  t->appendWaypoint(wp("d", 30, 5, 1));
  std::atomic_bool gone{false};
  std::thread d([&] { delete t; gone = true; });
  bool ok = within(40, [&] { return gone.load(); });
  if (ok) d.join();
  done(ok, "destroying a planner with a request outstanding returns");
}
'''),
 dict(id='s07-status-lock-order', property='C02',
      subs=[(H, "    parameters_mutex_.lock();\n    double t = parameters_.last_global_time_evaluated;\n    parameters_mutex_.unlock();\n    std::unique_lock", "    std::lock_guard<std::mutex> parameters_lock(parameters_mutex_);\n    double t = parameters_.last_global_time_evaluated;\n    std::unique_lock")],
      needs='a status getter in one thread while the worker checks the security zone', breaks='the two threads take the parameter and the waypoint mutex in opposite orders and block each other for ever',
      demo=PRE + '''  first(t, {wp("a", 0, 0, 1), wp("b", 40, 0, 1), wp("c", 90, 5, 1)});
  t.stop_process_ = true;  // its place is taken by this thread
  t.waitForGeneratingNewTraj_thread_.join();
  std::atomic_bool stop{false};
  std::thread getter([&] { while (!stop) t.getRemainingWaypoints(); });
  std::atomic_long rounds{0};
  std::thread zone([&] { while (!stop) { t.checkInSecurityZone(); rounds++; } });
  bool stuck = false;
  long last = -1;
  for (int i = 0; i < 10 && !stuck; i++)
  {
    std::this_thread::sleep_for(std::chrono::milliseconds(i < 9 ? 300 : 10));
    long now = rounds;
    if (now == last)
    {
      std::this_thread::sleep_for(std::chrono::seconds(15));
      stuck = rounds == now;
    }
    last = now;
  }
  stop = true;
  if (!stuck) { getter.join(); zone.join(); }
  done(!stuck, "status getters and the security-zone check do not block each other");
}
'''),
 dict(id='s08-position-wrong-mutex', property='C01',
      subs=[(H, "    std::lock_guard<std::mutex> lock(vehicle_position_mutex_);\n    vehicle_position_ = position;", "    std::lock_guard<std::mutex> lock(parameters_mutex_);\n    vehicle_position_ = position;")],
      needs='the vehicle position reported while a trajectory is adopted or started from it', breaks='vehicle_position_ is written under another mutex than it is read under: readers can see half of it',
      demo=PRE + '''  std::atomic_bool stop{false};
  bool torn = false;
  {
    // what every reader does: look at the position with its mutex held
    std::unique_lock<std::mutex> lock(t.vehicle_position_mutex_);
    std::thread w([&] { t.updateVehiclePosition(Vector3d(5, 6, 7)); stop = true; });
    torn = within(2, [&] { return stop.load(); });
    lock.unlock();
    w.join();
  }
  done(!torn, "the vehicle position does not change under a reader holding its mutex");
}
'''),
 dict(id='s09-offset-recorded', property='C08',
      subs=[(D, "    double local_time = convertFromGlobalTime(t);\n    if (!for_plotting)", "    double local_time = convertFromGlobalTime(t) + getTimeCompensation();\n    if (!for_plotting)"), (D, "    global_time += parameters_.t_offset;\n    local_time += parameters_.t_offset;", "    global_time += parameters_.t_offset;")],
      needs='a trajectory in use with a time compensation, then a regeneration that stitches to it', breaks='the recorded local time contains the compensation, which stitching adds a second time',
      demo=PRE + '''  first(t, {wp("a", 0, 0, 1), wp("b", 40, 0, 1), wp("c", 90, 5, 1)});
  References r;
  t.evaluateTrajectory(1.0, r);
  double local = t.parameters_.last_local_time_evaluated, start = t.parameters_.global_time_last_trajectory_generated;
  done(t.parameters_.t_offset == 0 || std::abs(local - (1.0 - start)) < 1e-9, "the recorded local time is the global one minus the start time");
}
'''),
]
