D = 'src/dynamic_trajectory.cpp'
H = 'include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
W = 'src/dynamic_waypoint.cpp'
TS = 'include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'
EDITS = [
 # ---- C01
 ('bug', 'speed-unlocked', ['C01'], [(D, "  void DynamicTrajectory::setSpeed(double speed)\n  {\n    const std::lock_guard<std::mutex> lock(parameters_mutex_);", "  void DynamicTrajectory::setSpeed(double speed)\n  {")]),
 ('bug', 'compute-speed-unlocked', ['C01'], [(D, "    parameters_mutex_.lock();\n    float max_speed = parameters_.speed;\n    parameters_mutex_.unlock();", "    float max_speed = parameters_.speed;")]),
 ('bug', 'append-unlocked', ['C01'], [(D, "  void DynamicTrajectory::appendWaypoint(const DynamicWaypoint &waypoint)\n  {\n    const std::lock_guard<std::mutex> lock(todo_mutex);", "  void DynamicTrajectory::appendWaypoint(const DynamicWaypoint &waypoint)\n  {")]),
 ('bug', 'swap-wp-unlocked', ['C01'], [(D, "    std::unique_lock<std::mutex> lock(dynamic_waypoints_mutex_);\n    dynamic_waypoints_ = next_trajectory_waypoint_;\n    lock.unlock();", "    dynamic_waypoints_ = next_trajectory_waypoint_;")]),
 ('bug', 'wrong-mutex', ['C01'], [(D, "    const std::lock_guard<std::mutex> lock(parameters_mutex_);\n    return parameters_.speed;", "    const std::lock_guard<std::mutex> lock(time_measure_mutex_);\n    return parameters_.speed;")]),
 ('bug', 'release-before-swap', ['C01', 'C05'], [(D, "        swapDynamicWaypoints();\n        trajectory_regenerated_ = true;\n        computing_new_trajectory_ = false;", "        computing_new_trajectory_ = false;\n        swapDynamicWaypoints();\n        trajectory_regenerated_ = true;")]),
 ('bug', 'live-while-computing', ['C01'], [(D, "else if (checkPendingModifications() && !computing_new_trajectory_)", "else if (checkPendingModifications())"), (D, "    std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);\n    for (auto &waypoint : dynamic_waypoints_)\n    {\n      if (waypoint.getName() == name", "    for (auto &waypoint : dynamic_waypoints_)\n    {\n      if (waypoint.getName() == name")]),
 # ---- C02
 ('bug', 'manual-future-lock', ['C02'], [(D, 'std::unique_lock<std::mutex> future_lock(future_mutex_);', 'future_mutex_.lock();'), (D, 'future_lock.unlock();', 'future_mutex_.unlock();')]),
 ('bug', 'get-under-lock', ['C02'], [(D, "    std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);\n    return dynamic_waypoints_;", "    return dynamic_waypoints_;"), (D, "  DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()\n  {\n", "  DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()\n  {\n    std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);\n")]),
 ('bug', 'early-return-leak', ['C02'], [(D, "    parameters_mutex_.lock();\n    double last_t_eval = parameters_.last_global_time_evaluated;\n    parameters_mutex_.unlock();\n    for (auto &waypoint : dynamic_waypoints_)", "    parameters_mutex_.lock();\n    double last_t_eval = parameters_.last_global_time_evaluated;\n    if (last_t_eval <= 0.0)\n      return false;\n    parameters_mutex_.unlock();\n    for (auto &waypoint : dynamic_waypoints_)")]),
 # ---- C03
 ('bug', 'raise-before-queue', ['C03'], [(D, "    const std::lock_guard<std::mutex> lock(todo_mutex);\n    waypoints_to_be_added_.emplace_back(waypoint);\n    generate_new_traj_ = true;", "    generate_new_traj_ = true;\n    const std::lock_guard<std::mutex> lock(todo_mutex);\n    waypoints_to_be_added_.emplace_back(waypoint);")]),
 ('bug', 'lower-after-launch', ['C03'], [(D, "    // every command queued so far is taken here, later ones raise the request again\n    generate_new_traj_ = false;", ""), (D, "        generateTrajectory(next_trajectory_waypoint_, false);\n      }", "        generateTrajectory(next_trajectory_waypoint_, false);\n        generate_new_traj_ = false;\n      }")]),
 ('bug', 'lower-on-adopt', ['C03'], [(D, "        trajectory_regenerated_ = true;\n        computing_new_trajectory_ = false;", "        trajectory_regenerated_ = true;\n        generate_new_traj_ = false;\n        computing_new_trajectory_ = false;")]),
 ('bug', 'modify-assigns', ['C03'], [(D, "    if (generate_new_traj) {\n      generate_new_traj_ = true;\n    }", "    generate_new_traj_ = generate_new_traj;")]),
 ('bug', 'skip-without-launch', ['C03'], [(D, "        if (checkStitchTrajectory())\n        {\n          from_scratch_ = false;", "        if (next_trajectory_waypoint_.size() < 2 && !checkStitchTrajectory())\n        {\n          continue;\n        }\n        if (checkStitchTrajectory())\n        {\n          from_scratch_ = false;")]),
 ('bug', 'only-if-set', ['C03'], [(D, "if (generate_new_traj_ && checkIfTrajectoryCanBeGenerated())", "if (generate_new_traj_ && !checkPendingModifications() && checkIfTrajectoryCanBeGenerated())")]),
 ('bug', 'modify-mods-no-raise-when-empty', ['C03'], [(D, "      modifyWaypoint(waypoint.first, waypoint.second, false);\n    }\n    generate_new_traj_ = true;", "      modifyWaypoint(waypoint.first, waypoint.second, false);\n    }\n    if (waypoints_to_modified.size() > 1) {\n      generate_new_traj_ = true;\n    }")]),
 # ---- C04
 ('bug', 'clear-outside', ['C04', 'C03'], [(D, "    waypoints_to_be_set_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_modified_.clear();\n    return next_trajectory_waypoints;", "    waypoints_to_be_set_.clear();\n    waypoints_to_be_modified_.clear();\n    return next_trajectory_waypoints;"), (D, "        next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();\n", "        next_trajectory_waypoint_ = generateWaypointsForTheNextTrajectory();\n        {\n          const std::lock_guard<std::mutex> lock(todo_mutex);\n          waypoints_to_be_added_.clear();\n        }\n")]),
 ('bug', 'append-front', ['C04'], [(D, "    for (auto &waypoint : waypoints_to_be_added_)\n    {\n      next_trajectory_waypoints.emplace_back(waypoint);", "    for (auto &waypoint : waypoints_to_be_added_)\n    {\n      next_trajectory_waypoints.emplace_front(waypoint);")]),
 ('bug', 'set-keeps-added', ['C04'], [(D, "    waypoints_to_be_modified_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_set_.reserve", "    waypoints_to_be_modified_.clear();\n    waypoints_to_be_set_.reserve")]),
 ('bug', 'mods-before-added', ['C04'], [(D, """    for (auto &waypoint : waypoints_to_be_added_)
    {
      next_trajectory_waypoints.emplace_back(waypoint);
    }
    for (auto &waypoint : waypoints_to_be_modified_)
    {
      resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
    }
""", """    for (auto &waypoint : waypoints_to_be_modified_)
    {
      resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
    }
    for (auto &waypoint : waypoints_to_be_added_)
    {
      next_trajectory_waypoints.emplace_back(waypoint);
    }
""")]),
 ('bug', 'reset-first-only', ['C04'], [(D, "        waypoint.resetWaypoint(position);\n      }\n    }\n  };", "        waypoint.resetWaypoint(position);\n        break;\n      }\n    }\n  };")]),
 ('bug', 'modify-keeps-first', ['C04'], [(D, "      iter->first = name;\n      iter->second = position;", "      iter->first = name;")]),
 ('bug', 'filter-inverted', ['C04'], [(D, "if (it->getTime() < last_t_eval) //", "if (it->getTime() > last_t_eval) //")]),
 ('bug', 'no-rebase', ['C04'], [(D, "      filterPassedWaypoints(next_trajectory_waypoints);\n      updateDynamicWaypointsPosition(next_trajectory_waypoints);", "      filterPassedWaypoints(next_trajectory_waypoints);")]),
 ('bug', 'skip-first-added', ['C04'], [(D, "    for (auto &waypoint : waypoints_to_be_added_)\n    {\n      next_trajectory_waypoints.emplace_back(waypoint);\n    }", "    for (size_t i = waypoints_to_be_set_.empty() ? 0 : 1; i < waypoints_to_be_added_.size(); i++)\n    {\n      next_trajectory_waypoints.emplace_back(waypoints_to_be_added_[i]);\n    }")]),
 ('bug', 'live-first-only', ['C04', 'C14'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }", "        modified = true;\n        trajectory_regenerated_ = true;\n        break;\n      }")]),
 ('bug', 'live-no-pending', ['C04'], [(D, "for (auto *pending : {&waypoints_to_be_set_, &waypoints_to_be_added_})", "for (auto *pending : {&waypoints_to_be_set_})")]),
 # ---- C05
 ('bug', 'flag-after-launch', ['C05'], [(D, "    computing_new_trajectory_ = true;\n    std::lock_guard<std::mutex> lock(future_mutex_);\n    future_traj_ =\n        std::async(std::launch::async, &DynamicTrajectory::computeTrajectory, this, waypoints, false);", "    std::lock_guard<std::mutex> lock(future_mutex_);\n    future_traj_ =\n        std::async(std::launch::async, &DynamicTrajectory::computeTrajectory, this, waypoints, false);\n    computing_new_trajectory_ = true;")]),
 ('bug', 'deferred', ['C05'], [(D, "std::async(std::launch::async, &DynamicTrajectory", "std::async(std::launch::deferred, &DynamicTrajectory")]),
 ('bug', 'params-not-adopted', ['C05'], [(D, "    parameters_ = new_parameters_;\n    parameters_mutex_.unlock();\n\n    traj_", "    parameters_.t_offset = new_parameters_.t_offset;\n    parameters_mutex_.unlock();\n\n    traj_")]),
 ('bug', 'no-ready-check', ['C05'], [(D, "      if (traj_ready)\n", "      if (traj_ready || from_scratch_)\n")]),
 ('bug', 'wp-swap-scratch-only', ['C05'], [(D, "        swapDynamicWaypoints();\n        trajectory_regenerated_", "        if (next_trajectory_waypoint_.size() > 2)\n          swapDynamicWaypoints();\n        trajectory_regenerated_")]),
 ('bug', 'time-after-launch', ['C05'], [(D, """        new_parameters_.global_time_last_trajectory_generated =
            parameters_.last_global_time_evaluated;
        parameters_mutex_.unlock();
""", """        parameters_mutex_.unlock();
"""), (D, "        generateTrajectory(next_trajectory_waypoint_, false);\n      }", "        generateTrajectory(next_trajectory_waypoint_, false);\n        parameters_mutex_.lock();\n        new_parameters_.global_time_last_trajectory_generated = parameters_.last_global_time_evaluated;\n        parameters_mutex_.unlock();\n      }")]),
 # ---- C06
 ('bug', 'regen-before-swap', ['C06'], [(D, "        swapDynamicWaypoints();\n        trajectory_regenerated_ = true;", "        trajectory_regenerated_ = true;\n        swapDynamicWaypoints();")]),
 ('bug', 'regen-load-store', ['C06'], [(D, "return trajectory_regenerated_.exchange(false);", "bool r = trajectory_regenerated_;\n    trajectory_regenerated_ = false;\n    return r;")]),
 ('bug', 'regen-not-on-live', ['C06'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;", "        modified = true;")]),
 ('bug', 'regen-assigned', ['C06'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }\n    }\n    return modified;", "        modified = true;\n      }\n    }\n    trajectory_regenerated_ = modified;\n    return modified;")]),
 ('bug', 'regen-always', ['C06'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }\n    }\n    return modified;", "        modified = true;\n      }\n    }\n    trajectory_regenerated_ = true;\n    return modified;")]),
 # ---- C07
 ('bug', 'no-join', ['C07'], [(H, "waitForGeneratingNewTraj_thread_.join();", "waitForGeneratingNewTraj_thread_.detach();")]),
 # ---- C08
 ('bug', 'plot-moves-clock', ['C08'], [(D, "    if (!for_plotting)\n    {\n      parameters_mutex_.lock();\n      parameters_.last_global_time_evaluated = global_time;\n      parameters_.last_local_time_evaluated = local_time;\n      parameters_mutex_.unlock();\n    }", "    parameters_mutex_.lock();\n    parameters_.last_global_time_evaluated = global_time;\n    if (!for_plotting)\n      parameters_.last_local_time_evaluated = local_time;\n    parameters_mutex_.unlock();")]),
 ('bug', 'offset-before-record', ['C08'], [(D, "    double local_time = convertFromGlobalTime(t);\n    if (!for_plotting)", "    double local_time = convertFromGlobalTime(t) + parameters_.t_offset;\n    if (!for_plotting)"), (D, "    local_time += parameters_.t_offset;\n", "")]),
 ('bug', 'positions-only-no-clock', ['C08'], [(D, "    if (!for_plotting)\n    {", "    if (!for_plotting && !only_positions)\n    {")]),
 ('bug', 'stale-local', ['C08'], [(D, "      parameters_.last_local_time_evaluated = local_time;\n      parameters_mutex_.unlock();\n    }", "      if (local_time > 0)\n        parameters_.last_local_time_evaluated = local_time;\n      parameters_mutex_.unlock();\n    }")]),
 # ---- behaviour preserving
 ('ok', 'ref-helper-drain', ['C01', 'C02', 'C03', 'C04'], [(D, "    waypoints_to_be_set_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_modified_.clear();\n    return next_trajectory_waypoints;", "    clearQueues();\n    return next_trajectory_waypoints;"), (D, "  DynamicWaypoint::Deque DynamicTrajectory::generateWaypointsForTheNextTrajectory()\n", "  void DynamicTrajectory::clearQueues()\n  {\n    waypoints_to_be_set_.clear();\n    waypoints_to_be_added_.clear();\n    waypoints_to_be_modified_.clear();\n  }\n\n  DynamicWaypoint::Deque DynamicTrajectory::generateWaypointsForTheNextTrajectory()\n"), (H, "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();", "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();\n  void clearQueues();")]),
 ('ok', 'ref-insert', ['C04'], [(D, "    for (auto &waypoint : waypoints_to_be_added_)\n    {\n      next_trajectory_waypoints.emplace_back(waypoint);\n    }", "    next_trajectory_waypoints.insert(next_trajectory_waypoints.end(), waypoints_to_be_added_.begin(), waypoints_to_be_added_.end());")]),
 ('ok', 'ref-index', ['C04', 'C03'], [(D, "    for (auto &waypoint : waypoints_to_be_added_)\n    {\n      next_trajectory_waypoints.emplace_back(waypoint);\n    }", "    for (std::size_t i = 0; i < waypoints_to_be_added_.size(); ++i)\n    {\n      const DynamicWaypoint & w = waypoints_to_be_added_[i];\n      next_trajectory_waypoints.push_back(w);\n    }")]),
 ('ok', 'ref-assign-set', ['C04'], [(D, "    waypoints_to_be_set_.reserve(waypoints.size());\n    for (auto &waypoint : waypoints)\n    {\n      waypoints_to_be_set_.emplace_back(waypoint);\n    }", "    waypoints_to_be_set_ = waypoints;")]),
 ('ok', 'ref-assign-set2', ['C04', 'C03'], [(D, "    waypoints_to_be_set_.reserve(waypoints.size());\n    for (auto &waypoint : waypoints)\n    {\n      waypoints_to_be_set_.emplace_back(waypoint);\n    }", "    waypoints_to_be_set_.assign(waypoints.begin(), waypoints.end());")]),
 ('ok', 'ref-removeif', ['C04', 'C02'], [(D, """    for (auto it = waypoints.begin(); it != waypoints.end();)
    {
      if (it->getTime() < last_t_eval) // && it->getTime() != 0.0f)
      {
        DYNAMIC_LOG("Removing waypoint ");
        it = waypoints.erase(it);
      }
      else
      {
        ++it;
      }
    }""", """    waypoints.erase(std::remove_if(waypoints.begin(), waypoints.end(), [last_t_eval](const DynamicWaypoint &w) { return w.getTime() < last_t_eval; }), waypoints.end());""")]),
 ('ok', 'ref-modify-loop', ['C04', 'C03', 'C02'], [(D, """    auto iter = std::find_if(
      waypoints_to_be_modified_.begin(), waypoints_to_be_modified_.end(),
      [&name](const std::pair<std::string, Eigen::Vector3d> & waypoint)
      {
        return waypoint.first == name;
      });
    if (iter == waypoints_to_be_modified_.end()) {
      waypoints_to_be_modified_.emplace_back(name, position);
    } else {
      iter->first = name;
      iter->second = position;
    }
""", """    bool found = false;
    for (auto & entry : waypoints_to_be_modified_) {
      if (entry.first == name) {
        entry.second = position;
        found = true;
        break;
      }
    }
    if (!found) {
      waypoints_to_be_modified_.emplace_back(name, position);
    }
""")]),
 ('ok', 'ref-scoped-params', ['C01', 'C02', 'C08', 'C05'], [(D, "      parameters_mutex_.lock();\n      parameters_.last_global_time_evaluated = global_time;\n      parameters_.last_local_time_evaluated = local_time;\n      parameters_mutex_.unlock();", "      recordEvaluationTimes(global_time, local_time);"), (D, "  References DynamicTrajectory::getReferences(", "  void DynamicTrajectory::recordEvaluationTimes(double global_time, double local_time)\n  {\n    const std::lock_guard<std::mutex> lock(parameters_mutex_);\n    parameters_.last_local_time_evaluated = local_time;\n    parameters_.last_global_time_evaluated = global_time;\n  }\n\n  References DynamicTrajectory::getReferences("), (H, "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();", "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();\n  void recordEvaluationTimes(double global_time, double local_time);")]),
 ('ok', 'ref-wait-helper', ['C01', 'C02', 'C05', 'C06'], [(D, """      future_mutex_.lock();
      bool traj_ready = future_traj_.wait_for(0ms) == std::future_status::ready;
      future_mutex_.unlock();
      if (traj_ready)
      {""", """      auto is_ready = [this]() {
        std::lock_guard<std::mutex> lock(future_mutex_);
        return future_traj_.wait_for(0ms) == std::future_status::ready;
      };
      if (is_ready())
      {""")]),
 ('ok', 'ref-worker-split', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'], [(D, """        // DYNAMIC_LOG("Modifying waypoints");
        const std::lock_guard<std::mutex> lock(todo_mutex);
        for (auto &modification : waypoints_to_be_modified_)
        {
          bool modified = applyWaypointModification(modification.first, modification.second);
          // waypoints still waiting for the next trajectory carry the modification too
          for (auto *pending : {&waypoints_to_be_set_, &waypoints_to_be_added_})
          {
            for (auto &waypoint : *pending)
            {
              if (waypoint.getName() == modification.first && modification.first != "")
              {
                waypoint.resetWaypoint(modification.second);
              }
            }
          }
        }
        waypoints_to_be_modified_.clear();
""", """        applyPending();
"""), (D, "  ThreadSafeTrajectory DynamicTrajectory::computeTrajectory(", """  void DynamicTrajectory::applyPending()
  {
        const std::lock_guard<std::mutex> lock(todo_mutex);
        for (std::size_t m = 0; m < waypoints_to_be_modified_.size(); ++m)
        {
          const std::string &name = waypoints_to_be_modified_[m].first;
          const Eigen::Vector3d &pos = waypoints_to_be_modified_[m].second;
          applyWaypointModification(name, pos);
          if (name.empty())
            continue;
          for (auto &waypoint : waypoints_to_be_set_)
          {
            if (waypoint.getName() == name)
              waypoint.resetWaypoint(pos);
          }
          for (auto &waypoint : waypoints_to_be_added_)
          {
            if (waypoint.getName() == name)
              waypoint.resetWaypoint(pos);
          }
        }
        waypoints_to_be_modified_.clear();
  }

  ThreadSafeTrajectory DynamicTrajectory::computeTrajectory("""), (H, "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();", "  DynamicWaypoint::Deque generateWaypointsForTheNextTrajectory();\n  void applyPending();")]),
 ('ok', 'ref-move-queues', ['C01', 'C03', 'C04'], [(D, """    else
    {
      for (auto &waypoint : waypoints_to_be_set_)
        next_trajectory_waypoints.emplace_back(waypoint);
    }
    for (auto &waypoint : waypoints_to_be_added_)
    {
      next_trajectory_waypoints.emplace_back(waypoint);
    }
    for (auto &waypoint : waypoints_to_be_modified_)
    {
      resetWaypointThroughDeque(next_trajectory_waypoints, waypoint.first, waypoint.second);
    }
    waypoints_to_be_set_.clear();
    waypoints_to_be_added_.clear();
    waypoints_to_be_modified_.clear();
""", """    else
    {
      std::copy(waypoints_to_be_set_.begin(), waypoints_to_be_set_.end(), std::back_inserter(next_trajectory_waypoints));
    }
    waypoints_to_be_set_.clear();
    DynamicWaypoint::Vector added;
    added.swap(waypoints_to_be_added_);
    for (const auto &waypoint : added)
    {
      next_trajectory_waypoints.push_back(waypoint);
    }
    std::for_each(waypoints_to_be_modified_.begin(), waypoints_to_be_modified_.end(), [&](const std::pair<std::string, Eigen::Vector3d> &m) {
      resetWaypointThroughDeque(next_trajectory_waypoints, m.first, m.second);
    });
    waypoints_to_be_modified_.clear();
""")]),
 ('ok', 'ref-early-continue', ['C01', 'C02', 'C03', 'C04', 'C05'], [(D, "        if (next_trajectory_waypoint_.size() == 0)\n        // ||\n        //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))\n        {", "        const bool nothing = next_trajectory_waypoint_.empty();\n        if (nothing)\n        {")]),
]

EDITS += [
 ('ok', 'ref-regen-after-loop', ['C06', 'C04'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }\n    }\n    return modified;", "        modified = true;\n      }\n    }\n    if (modified)\n    {\n      trajectory_regenerated_ = true;\n    }\n    return modified;")]),
 ('ok', 'ref-regen-caller', ['C06', 'C04'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }\n    }\n    return modified;", "        modified = true;\n      }\n    }\n    return modified;"), (D, "bool modified = applyWaypointModification(modification.first, modification.second);", "if (applyWaypointModification(modification.first, modification.second)) { trajectory_regenerated_ = true; }")]),
 ('bug', 'regen-caller-inverted', ['C06'], [(D, "        modified = true;\n        trajectory_regenerated_ = true;\n      }\n    }\n    return modified;", "        modified = true;\n      }\n    }\n    return modified;"), (D, "bool modified = applyWaypointModification(modification.first, modification.second);", "if (!applyWaypointModification(modification.first, modification.second)) { trajectory_regenerated_ = true; }")]),
 ('ok', 'ref-regen-cas', ['C06'], [(D, "return trajectory_regenerated_.exchange(false);", "bool expected = true;\n    return trajectory_regenerated_.compare_exchange_strong(expected, false);")]),
 ('ok', 'ref-regen-var', ['C06'], [(D, "return trajectory_regenerated_.exchange(false);", "const bool was = trajectory_regenerated_.exchange(false);\n    return was;")]),
 ('bug', 'regen-getter-peek', ['C06'], [(D, "return trajectory_regenerated_.exchange(false);", "return trajectory_regenerated_;")]),
 ('bug', 'regen-load-return', ['C06'], [(D, "return trajectory_regenerated_.exchange(false);", "const bool was = trajectory_regenerated_;\n    trajectory_regenerated_.exchange(false);\n    return was;")]),
 ('bug', 'regen-cleared-by-command', ['C06'], [(D, "    DYNAMIC_LOG(\"Setting waypoints\");", "    trajectory_regenerated_ = false;")]),
 ('bug', 'regen-on-compute', ['C06'], [(D, "    time_measure_mutex_.unlock();\n\n    return ThreadSafe", "    time_measure_mutex_.unlock();\n    trajectory_regenerated_ = true;\n\n    return ThreadSafe")]),
 ('bug', 'dtor-no-wait', ['C07'], [(H, "    if (future_traj_.valid()) {\n      future_traj_.wait();\n    }\n", "")]),
 ('bug', 'dtor-wait-first', ['C07'], [(H, "    waitForGeneratingNewTraj_thread_.join();\n    // the computation in progress still uses the members\n    if (future_traj_.valid()) {\n      future_traj_.wait();\n    }\n", "    if (future_traj_.valid()) {\n      future_traj_.wait();\n    }\n    waitForGeneratingNewTraj_thread_.join();\n")]),
 ('bug', 'dtor-no-stop', ['C07'], [(H, "    stop_process_ = true;\n", "")]),
 ('bug', 'worker-inner-wait', ['C07'], [(D, "        generateTrajectory(next_trajectory_waypoint_, false);\n      }", "        generateTrajectory(next_trajectory_waypoint_, false);\n        while (computing_new_trajectory_)\n        {\n          std::this_thread::sleep_for(std::chrono::milliseconds(10));\n        }\n      }")]),
 ('bug', 'stop-only-idle', ['C07'], [(D, "    while (!stop_process_)\n", "    while (!stop_process_ || generate_new_traj_)\n")]),
 ('bug', 'wait-only-if-flag', ['C07'], [(H, "    if (future_traj_.valid()) {\n      future_traj_.wait();", "    if (computing_new_trajectory_ && future_traj_.valid()) {\n      future_traj_.wait();")]),
 ('ok', 'ref-dtor-joinable', ['C07', 'C01', 'C02'], [(H, "    waitForGeneratingNewTraj_thread_.join();\n", "    if (waitForGeneratingNewTraj_thread_.joinable()) {\n      waitForGeneratingNewTraj_thread_.join();\n    }\n")]),
 ('ok', 'ref-loop-break', ['C07', 'C03', 'C05'], [(D, "    while (!stop_process_)\n    {\n", "    for (;;)\n    {\n      if (stop_process_)\n      {\n        break;\n      }\n")]),
 ('ok', 'ref-eval-struct', ['C08'], [(D, "      parameters_mutex_.lock();\n      parameters_.last_global_time_evaluated = global_time;\n      parameters_.last_local_time_evaluated = local_time;\n      parameters_mutex_.unlock();", "      std::lock_guard<std::mutex> guard(parameters_mutex_);\n      parameters_.last_local_time_evaluated = t - parameters_.global_time_last_trajectory_generated;\n      parameters_.last_global_time_evaluated = t;")]),
 ('bug', 'eval-two-sections', ['C08'], [(D, "      parameters_.last_global_time_evaluated = global_time;\n", "      parameters_.last_global_time_evaluated = global_time;\n      parameters_mutex_.unlock();\n      parameters_mutex_.lock();\n")]),
 ('bug', 'maxtime-moves-clock', ['C08'], [(D, "    return convertIntoGlobalTime(traj_.getMaxTime());", "    parameters_mutex_.lock();\n    parameters_.last_local_time_evaluated = 0.0;\n    parameters_mutex_.unlock();\n    return convertIntoGlobalTime(traj_.getMaxTime());")]),
 ('bug', 'adopt-zero-local', ['C08', 'C05'], [(D, "        parameters_.last_global_time_evaluated -\n        new_parameters_.global_time_last_trajectory_generated;", "        0.0;")]),
]
