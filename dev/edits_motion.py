D = 'src/dynamic_trajectory.cpp'
W = 'src/dynamic_waypoint.cpp'
WH = 'include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
TM = 'include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'
T = 'subpackages/mav_trajectory_generation/src/trajectory.cpp'
TS = 'subpackages/mav_trajectory_generation/src/trajectory_sampling.cpp'

CL = """    if (local_time < 0.0f)
    {
      local_time = 0.0f;
      DYNAMIC_LOG("[WARN] Time out of bounds");
    }
    if (local_time > traj.getMaxTime())
    {
      local_time = traj.getMaxTime();
      // if (order > 0) return Eigen::Vector3d::Zero();
    }

    refs = traj.evaluate(local_time, order);
"""
EDITS = [
    # ---- C09
    ('bug', 'no-lower-clamp', 'C09', [(D, CL, CL.replace("local_time = 0.0f;", ""))]),
    ('bug', 'no-upper-clamp', 'C09', [(D, CL, CL.replace("local_time = traj.getMaxTime();", ""))]),
    ('bug', 'clamp-max-to-zero', 'C09', [(D, CL, CL.replace("local_time = traj.getMaxTime();", "local_time = traj.getMinTime();"))]),
    ('bug', 'clamp-else', 'C09', [(D, CL, CL.replace("local_time > traj.getMaxTime()", "local_time > traj.getMaxTime() && order == 0"))]),
    ('bug', 'clamp-other-traj', 'C09', [(D, CL, CL.replace("local_time > traj.getMaxTime()", "local_time > traj_.getMaxTime()").replace("local_time = traj.getMaxTime()", "local_time = traj_.getMaxTime()"))]),
    ('bug', 'clamp-global', 'C09', [(D, CL, CL.replace("local_time > traj.getMaxTime()", "global_time > traj.getMaxTime()"))]),
    ('ok', 'ref-std-clamp', 'C09', [(D, CL, "    refs = traj.evaluate(std::min(std::max(local_time, 0.0), traj.getMaxTime()), order);\n")]),
    ('ok', 'ref-clamp2', 'C09', [(D, CL, "    refs = traj.evaluate(std::clamp(local_time, 0.0, traj.getMaxTime()), order);\n")]),
    ('ok', 'ref-ternary', 'C09', [(D, CL, "    const double end = traj.getMaxTime();\n    const double at = local_time < 0.0 ? 0.0 : (local_time > end ? end : local_time);\n    refs = traj.evaluate(at, order);\n")]),
    ('ok', 'ref-minTime', 'C09', [(D, CL, CL.replace("local_time < 0.0f", "local_time < traj.getMinTime()").replace("local_time = 0.0f", "local_time = traj.getMinTime()"))]),
    ('ok', 'ref-clamp-helper', 'C09', [(D, CL, "    refs = traj.evaluate(insideSpan(traj, local_time), order);\n"),
        (D, "  Eigen::Vector3d DynamicTrajectory::evaluateModifiedTrajectory(", "  static double insideSpan(const ThreadSafeTrajectory &traj, double when)\n  {\n    if (when < 0.0)\n      return 0.0;\n    const double last = traj.getMaxTime();\n    return when > last ? last : when;\n  }\n\n  Eigen::Vector3d DynamicTrajectory::evaluateModifiedTrajectory(")]),
    ('bug', 'eval-no-reject', 'C09', [(T, "  if (segments_.empty() || t > accumulated_time) {", "  if (segments_.empty()) {")]),
    ('bug', 'eval-empty', 'C09', [(T, "  if (segments_.empty() || t > accumulated_time) {", "  if (t > accumulated_time) {")]),
    ('bug', 'eval-no-last', 'C09', [(T, "  if (i >= segments_.size()) {\n    i = segments_.size() - 1;\n  }\n  // Go back to the start of this segment.\n  accumulated_time -= segments_[i].getTime();\n\n", "  // Go back to the start of this segment.\n  accumulated_time -= segments_[i].getTime();\n\n")]),
    ('bug', 'eval-no-goback', 'C09', [(T, "  accumulated_time -= segments_[i].getTime();\n\n  return", "  return")]),
    ('bug', 'eval-order', 'C09', [(T, "return segments_[i].evaluate(t - accumulated_time, derivative_order);", "return segments_[i].evaluate(t - accumulated_time, 0);")]),
    ('bug', 'eval-skip-first', 'C09', [(T, "  for (i = 0; i < segments_.size(); ++i) {\n    accumulated_time += segments_[i].getTime();\n    // |<--t_accumulated -->|\n    // x----------x---------x\n    //               ^t_start\n    //            |chosen it|\n    // in case t_start falls on a vertex, the iterator right of the vertex is\n    // chosen, hence accumulated_segment_time_ns > t_start\n    if (accumulated_time > t) {", "  for (i = 0; i < segments_.size(); ++i) {\n    accumulated_time += segments_[i].getTime();\n    if (accumulated_time > t + 1e-6) {")]),
    ('ok', 'ref-eval-ge', 'C09', [(T, "    if (accumulated_time > t) {", "    if (accumulated_time >= t) {")]),
    ('ok', 'ref-eval-remaining', 'C09', [(T, """  double accumulated_time = 0.0;

  // Look for the correct segment.
  size_t i = 0;
  for (i = 0; i < segments_.size(); ++i) {
    accumulated_time += segments_[i].getTime();
    // |<--t_accumulated -->|
    // x----------x---------x
    //               ^t_start
    //            |chosen it|
    // in case t_start falls on a vertex, the iterator right of the vertex is
    // chosen, hence accumulated_segment_time_ns > t_start
    if (accumulated_time > t) {
      break;
    }
  }
  if (segments_.empty() || t > accumulated_time) {
    LOG(ERROR) << "Time out of range of the trajectory!";
    return Eigen::VectorXd::Zero(D(), 1);
  }

  // Make sure we don't go off the end of the segments (can happen if t is
  // equal to trajectory max time).
  if (i >= segments_.size()) {
    i = segments_.size() - 1;
  }
  // Go back to the start of this segment.
  accumulated_time -= segments_[i].getTime();

  return segments_[i].evaluate(t - accumulated_time, derivative_order);
""", """  double segment_start = 0.0;
  for (size_t k = 0; k < segments_.size(); ++k) {
    const double segment_end = segment_start + segments_[k].getTime();
    if (t < segment_end || (k + 1 == segments_.size() && t <= segment_end)) {
      return segments_[k].evaluate(t - segment_start, derivative_order);
    }
    segment_start = segment_end;
  }
  LOG(ERROR) << "Time out of range of the trajectory!";
  return Eigen::VectorXd::Zero(D(), 1);
""")]),
    ('ok', 'ref-eval-rangefor', 'C09', [(T, """  double accumulated_time = 0.0;

  // Look for the correct segment.
  size_t i = 0;
  for (i = 0; i < segments_.size(); ++i) {
    accumulated_time += segments_[i].getTime();
    // |<--t_accumulated -->|
    // x----------x---------x
    //               ^t_start
    //            |chosen it|
    // in case t_start falls on a vertex, the iterator right of the vertex is
    // chosen, hence accumulated_segment_time_ns > t_start
    if (accumulated_time > t) {
      break;
    }
  }
  if (segments_.empty() || t > accumulated_time) {
    LOG(ERROR) << "Time out of range of the trajectory!";
    return Eigen::VectorXd::Zero(D(), 1);
  }

  // Make sure we don't go off the end of the segments (can happen if t is
  // equal to trajectory max time).
  if (i >= segments_.size()) {
    i = segments_.size() - 1;
  }
  // Go back to the start of this segment.
  accumulated_time -= segments_[i].getTime();

  return segments_[i].evaluate(t - accumulated_time, derivative_order);
""", """  double remaining = t;
  for (const Segment& segment : segments_) {
    if (remaining < segment.getTime()) {
      return segment.evaluate(remaining, derivative_order);
    }
    remaining -= segment.getTime();
  }
  if (segments_.empty() || remaining > 0.0) {
    LOG(ERROR) << "Time out of range of the trajectory!";
    return Eigen::VectorXd::Zero(D(), 1);
  }
  return segments_.back().evaluate(segments_.back().getTime() + remaining, derivative_order);
""")]),
    ('bug', 'range-no-clampi', 'C09', [(T, "  if (i >= segments_.size()) {\n    i = segments_.size() - 1;\n  }\n  // Go back to the start of this segment.\n  accumulated_time -= segments_[i].getTime();\n  double", "  accumulated_time -= segments_[i].getTime();\n  double")]),
    ('bug', 'range-old-start', 'C09', [(T, "  accumulated_time = t_start;\n", "")]),
    ('bug', 'range-no-check', 'C09', [(T, "      if (i >= segments_.size()) {\n        break;\n      }\n      continue;", "      continue;")]),
    ('bug', 'range-drop-remainder', 'C09', [(T, "time_in_segment = time_in_segment - segments_[i].getTime();\n      i++;", "i++;\n      time_in_segment = 0.0;")]),
    ('bug', 'range-wrong-seg', 'C09', [(T, "time_in_segment = time_in_segment - segments_[i].getTime();\n      i++;", "i++;\n      time_in_segment = time_in_segment - segments_[i].getTime();")]),
    ('bug', 'range-le-end', 'C09', [(T, "while (accumulated_time < t_end) {", "while (accumulated_time < t_end + dt) {")]),
    ('ok', 'ref-range-inclusive', 'C09', [(T, "while (accumulated_time < t_end) {", "while (accumulated_time <= t_end) {")]),
    ('ok', 'ref-range-minuseq', 'C09', [(T, "time_in_segment = time_in_segment - segments_[i].getTime();\n      i++;", "time_in_segment -= segments_[i].getTime();\n      ++i;")]),
    ('ok', 'ref-range-rename', 'C09', [(T, "  accumulated_time = t_start;\n", "  double sample_time = t_start;\n"), (T, "while (accumulated_time < t_end) {", "while (sample_time < t_end) {"), (T, "sampling_times->push_back(accumulated_time);", "sampling_times->push_back(sample_time);"), (T, "    accumulated_time += dt;\n", "    sample_time += dt;\n")]),
    ('bug', 'sample-no-max', 'C09', [(TS, "  if (sample_time < trajectory.getMinTime() ||\n      sample_time > trajectory.getMaxTime()) {", "  if (sample_time < trajectory.getMinTime()) {")]),
    ('bug', 'sample-and', 'C09', [(TS, "  if (min_time < trajectory.getMinTime() ||\n      max_time > trajectory.getMaxTime()) {", "  if (min_time < trajectory.getMinTime() &&\n      max_time > trajectory.getMaxTime()) {")]),
    ('bug', 'sample-seg', 'C09', [(TS, "  if (sample_time < 0.0 || sample_time > segment.getTime()) {", "  if (sample_time < 0.0) {")]),
    ('bug', 'sample-swap-minmax', 'C09', [(TS, "  if (min_time < trajectory.getMinTime() ||\n      max_time > trajectory.getMaxTime()) {", "  if (max_time < trajectory.getMinTime() ||\n      min_time > trajectory.getMaxTime()) {")]),
]

EDITS = [(k, n, p.split() if isinstance(p, str) else p, e) for k, n, p, e in EDITS]
CMP = """    if (global_time > 0)
    {
      std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
      for (auto &waypoint : dynamic_waypoints_)
      {
        if (waypoint.getName() == "")
        {
          continue;
        }
        refs += waypoint.trajectoryCompensation(global_time, order);
      }
    }
    return refs;
"""
LOOP = """    for (short int i = 0; i < 3; i++)
    {
      refs[i] = evaluateModifiedTrajectory(traj, global_time, local_time, i);
      if (only_positions)
      {
        break;
      }
    }
    return refs;
"""
WC = """    for (auto &modifier : modifiers_)
    {
      for (int i = 0; i < 3; i++)
      {
        compensation[i] += modifier[i](t, derivative_order);
      }
    }
"""
V1 = "value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));"
V2 = "value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));"
C10 = [
    ('bug', 'comp-order0', 'C10', [(D, CMP, CMP.replace("global_time, order)", "global_time)"))]),
    ('bug', 'comp-local', 'C10', [(D, CMP, CMP.replace("(global_time, order)", "(local_time, order)"))]),
    ('bug', 'comp-break', 'C10', [(D, CMP, CMP.replace("continue;", "break;"))]),
    ('bug', 'comp-only-pos', 'C10', [(D, CMP, CMP.replace("if (global_time > 0)", "if (global_time > 0 && order == 0)"))]),
    ('bug', 'comp-first', 'C10', [(D, CMP, CMP.replace("refs += waypoint.trajectoryCompensation(global_time, order);", "refs += waypoint.trajectoryCompensation(global_time, order);\n        break;"))]),
    ('bug', 'comp-passed', 'C10', [(D, CMP, CMP.replace('waypoint.getName() == ""', 'waypoint.getName() == "" || waypoint.getTime() < global_time'))]),
    ('bug', 'comp-next', 'C10', [(D, CMP, CMP.replace("waypoint : dynamic_waypoints_)", "waypoint : next_trajectory_waypoint_)"))]),
    ('bug', 'comp-minus', 'C10', [(D, CMP, CMP.replace("refs +=", "refs -="))]),
    ('bug', 'refs-order-time', 'C10', [(D, LOOP, LOOP.replace("global_time, local_time, i)", "global_time, local_time + (i > 1 ? 0.01 : 0.0), i)"))]),
    ('bug', 'refs-no-acc', 'C10', [(D, LOOP, LOOP.replace("i < 3", "i < 2"))]),
    ('bug', 'refs-order-max1', 'C10', [(D, CL, CL.replace("traj.evaluate(local_time, order)", "traj.evaluate(local_time, std::min(order, 1))"))]),
    ('bug', 'wp-comp-first-only', 'C10', [(W, WC, WC.replace("    for (auto &modifier : modifiers_)\n    {", "    if (!modifiers_.empty())\n    {\n      auto &modifier = modifiers_.back();"))]),
    ('bug', 'wp-comp-axis', 'C10', [(W, WC, WC.replace("modifier[i](t,", "modifier[0](t,"))]),
    ('bug', 'wp-comp-two-axes', 'C10', [(W, WC, WC.replace("i < 3", "i < 2"))]),
    ('bug', 'wp-comp-assign', 'C10', [(W, WC, WC.replace("+=", "="))]),
    ('bug', 'mod-d1-sign', 'C10', [(TM, V1, V1.replace("-((t - mu_) / (sigma_squared_))", "((t - mu_) / (sigma_squared_))"))]),
    ('bug', 'mod-d1-sigma', 'C10', [(TM, V1, V1.replace("-((t - mu_) / (sigma_squared_))", "-((t - mu_) / (sigma_))"))]),
    ('bug', 'mod-d2-old', 'C10', [(TM, V2, V2.replace(" - 1 / sigma_squared_", ""))]),
    ('bug', 'mod-break', 'C10', [(TM, V1 + "\n      break;", V1)]),
    ('bug', 'mod-inc', 'C10', [(TM, "    value *= increment_;\n", "    if (derivative < 2) value *= increment_;\n")]),
    ('ok', 'ref-mod-if', 'C10', [(TM, """    switch (derivative)
    {
    case 0:
      value = std::exp(-1 * (t - mu_) * (t - mu_) / (2 * sigma_squared_));
      break;
    case 1:
      """ + V1 + """
      break;
    case 2:
      """ + V2 + """
      break;
    }
    value *= increment_;
    return value;
""", """    const double d = t - mu_;
    const double bell = increment_ * std::exp(-d * d / (2 * sigma_squared_));
    if (derivative == 0)
      return bell;
    if (derivative == 1)
      return -d / sigma_squared_ * bell;
    if (derivative == 2)
      return (d * d - sigma_squared_) / (sigma_squared_ * sigma_squared_) * bell;
    return 0;
""")]),
    ('ok', 'ref-comp-index', 'C10', [(W, WC, """    for (std::size_t m = 0; m < modifiers_.size(); ++m)
    {
      compensation[0] += modifiers_[m][0](t, derivative_order);
      compensation[1] += modifiers_[m][1](t, derivative_order);
      compensation[2] += modifiers_[m][2](t, derivative_order);
    }
""")]),
    ('ok', 'ref-comp-axes-outer', 'C10', [(W, WC, """    for (int i = 0; i < 3; i++)
    {
      for (const auto &modifier : modifiers_)
      {
        compensation[i] += modifier[i](t, derivative_order);
      }
    }
""")]),
    ('ok', 'ref-comp-nested-if', 'C10', [(D, CMP, """    if (global_time > 0)
    {
      std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
      for (std::size_t i = 0; i < dynamic_waypoints_.size(); ++i)
      {
        if (!dynamic_waypoints_[i].getName().empty())
        {
          refs += dynamic_waypoints_[i].trajectoryCompensation(global_time, order);
        }
      }
    }
    return refs;
""")]),
    ('ok', 'ref-comp-helper', 'C10', [(D, CMP, """    if (global_time <= 0)
    {
      return refs;
    }
    std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
    Eigen::Vector3d total = Eigen::Vector3d::Zero();
    for (auto &waypoint : dynamic_waypoints_)
    {
      if (waypoint.getName() != "" && waypoint.hasModifiers())
      {
        total = total + waypoint.trajectoryCompensation(global_time, order);
      }
    }
    return refs + total;
""")]),
    ('ok', 'ref-refs-unrolled', 'C10', [(D, LOOP, """    refs.position = evaluateModifiedTrajectory(traj, global_time, local_time, 0);
    if (!only_positions)
    {
      refs.velocity = evaluateModifiedTrajectory(traj, global_time, local_time, 1);
      refs.acceleration = evaluateModifiedTrajectory(traj, global_time, local_time, 2);
    }
    return refs;
""")]),
    ('ok', 'ref-refs-while', 'C10', [(D, LOOP, """    const int orders = only_positions ? 1 : 3;
    for (int i = 0; i < orders; ++i)
    {
      refs[i] = evaluateModifiedTrajectory(traj, global_time, local_time, i);
    }
    return refs;
""")]),
]
EDITS += [(k, n, p.split(), e) for k, n, p, e in C10]
for e in EDITS:
    if e[1] in ('ref-std-clamp', 'ref-clamp2', 'ref-ternary', 'ref-clamp-helper'):
        e[2].append('C10')
EDITS += [
    ('ok', 'ref-comp-and', ['C10', 'C09'], [(D, CMP, CMP.replace("if (global_time > 0)", "if (global_time > 0 && !dynamic_waypoints_.empty())").replace("waypoint.trajectoryCompensation(global_time, order);", "waypoint.trajectoryCompensation(global_time, order);\n        DYNAMIC_LOG(refs.transpose());"))]),
    ('bug', 'comp-and-order', ['C10'], [(D, CMP, CMP.replace("if (global_time > 0)", "if (order < 2 && global_time > 0)"))]),
]

# ---- C11
EXT = """    for (auto &waypoint : waypoints)
    {
      vertices.emplace_back(waypoint.getVertex());
    }
    vertices[vertices.size() - 1].addConstraint(1, Eigen::Vector3d(0, 0, 0));
    vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));
    return vertices;
"""
DRONE = """    DynamicWaypoint waypoint;
    waypoint.resetWaypoint(getVehiclePosition());
    waypoint.setConstraint(1, Eigen::Vector3d::Zero());
    waypoint.setConstraint(2, Eigen::Vector3d::Zero());

    waypoints.emplace_front(waypoint);
"""
ST0 = """        references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t);
        for (int i = 0; i < 3; i++)
        // for (int i = 0; i < 1; i++)
"""
SPEED = """    parameters_.speed = speed;
    new_parameters_.speed = speed;
"""
OPTC = """      opt.addMaximumMagnitudeConstraint(mav_trajectory_generation::derivative_order::VELOCITY,
                                        max_speed);
      opt.addMaximumMagnitudeConstraint(mav_trajectory_generation::derivative_order::ACCELERATION,
                                        a_max_);
      opt.optimize();
"""
SETUP = "      mav_trajectory_generation::PolynomialOptimizationNonLinear<N> opt(dimension_, parameters);\n      opt.setupFromVertices(vertices, segment_times, derivative_to_optimize_);\n"
EST = "mav_trajectory_generation::estimateSegmentTimes(vertices, max_speed, this->a_max_);"
EDITS += [
    ('bug', 'end-no-acc', ['C11'], [(D, EXT, EXT.replace("    vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));\n", ""))]),
    ('bug', 'end-no-vel', ['C11'], [(D, EXT, EXT.replace("    vertices[vertices.size() - 1].addConstraint(1, Eigen::Vector3d(0, 0, 0));\n", ""))]),
    ('bug', 'end-wrong-vertex', ['C11'], [(D, EXT, EXT.replace("vertices[vertices.size() - 1].addConstraint(1", "vertices[vertices.size() - 2].addConstraint(1"))]),
    ('bug', 'end-first', ['C11'], [(D, EXT, EXT.replace("vertices[vertices.size() - 1]", "vertices[0]"))]),
    ('bug', 'end-nonzero', ['C11'], [(D, EXT, EXT.replace("addConstraint(1, Eigen::Vector3d(0, 0, 0))", "addConstraint(1, Eigen::Vector3d(0, 0, 1))"))]),
    ('bug', 'end-conditional', ['C11'], [(D, EXT, EXT.replace("    vertices[vertices.size() - 1].addConstraint(2", "    if (vertices.size() < 10)\n    vertices[vertices.size() - 1].addConstraint(2"))]),
    ('bug', 'vertices-skip-unnamed', ['C11'], [(D, EXT, EXT.replace("      vertices.emplace_back", "      if (waypoint.getName() == \"skip\") continue;\n      vertices.emplace_back"))]),
    ('bug', 'vertices-reversed', ['C11'], [(D, EXT, EXT.replace("vertices.emplace_back(waypoint.getVertex())", "vertices.insert(vertices.begin(), waypoint.getVertex())"))]),
    ('bug', 'vertices-start-at-1', ['C11'], [(D, EXT, EXT.replace("for (auto &waypoint : waypoints)", "for (std::size_t i = 1; i < waypoints.size(); i++)").replace("waypoint.getVertex", "waypoints[i].getVertex"))]),
    ('bug', 'drone-origin', ['C11'], [(D, DRONE, DRONE.replace("waypoint.resetWaypoint(getVehiclePosition());", "waypoint.resetWaypoint(Eigen::Vector3d::Zero());"))]),
    ('bug', 'drone-no-vel', ['C11'], [(D, DRONE, DRONE.replace("    waypoint.setConstraint(1, Eigen::Vector3d::Zero());\n", ""))]),
    ('bug', 'drone-no-acc', ['C11'], [(D, DRONE, DRONE.replace("    waypoint.setConstraint(2, Eigen::Vector3d::Zero());\n", ""))]),
    ('bug', 'drone-back', ['C11'], [(D, DRONE, DRONE.replace("emplace_front", "emplace_back"))]),
    ('bug', 'drone-only-if', ['C11'], [(D, DRONE, DRONE.replace("    waypoints.emplace_front(waypoint);", "    if (waypoints.size() < 2)\n    waypoints.emplace_front(waypoint);"))]),
    ('bug', 'stitch-no-acc', ['C11'], [(D, ST0, ST0.replace("i < 3", "i < 2"))]),
    ('bug', 'stitch-local', ['C11'], [(D, "    double local_eval_t = new_parameters_.last_local_time_evaluated + parameters_.t_offset;", "    double local_eval_t = new_parameters_.last_local_time_evaluated;")]),
    ('bug', 'stitch-minus', ['C11'], [(D, "    double local_eval_t = new_parameters_.last_local_time_evaluated + parameters_.t_offset;", "    double local_eval_t = new_parameters_.last_local_time_evaluated - parameters_.t_offset;")]),
    ('bug', 'stitch-global', ['C11'], [(D, ST0, ST0.replace("convertIntoGlobalTime(local_eval_t), local_eval_t", "local_eval_t, local_eval_t"))]),
    ('bug', 'stitch-front', ['C11'], [(D, 'new_waypoints.emplace_back(vertex,"stitching_point");', 'new_waypoints.emplace_front(vertex,"stitching_point");')]),
    ('bug', 'stitch-shift', ['C11'], [(D, "          vertex.addConstraint(i, references[i]);\n        }\n        // std::cout << \"waypoint position", "          vertex.addConstraint(i, references[i == 2 ? 1 : i]);\n        }\n        // std::cout << \"waypoint position")]),
    ('ok', 'ref-ext-back', ['C11'], [(D, EXT, EXT.replace("vertices[vertices.size() - 1]", "vertices.back()").replace("Eigen::Vector3d(0, 0, 0)", "Eigen::Vector3d::Zero()"))]),
    ('ok', 'ref-ext-ref', ['C11'], [(D, EXT, EXT.replace("    vertices[vertices.size() - 1].addConstraint(1", "    auto &last = vertices.back();\n    last.addConstraint(1").replace("vertices[vertices.size() - 1]", "last"))]),
    ('ok', 'ref-ext-index', ['C11'], [(D, EXT, EXT.replace("for (auto &waypoint : waypoints)", "for (std::size_t i = 0; i < waypoints.size(); ++i)").replace("waypoint.getVertex", "waypoints[i].getVertex"))]),
    ('ok', 'ref-ext-inloop', ['C11'], [(D, EXT, """    for (std::size_t i = 0; i < waypoints.size(); ++i)
    {
      mav_trajectory_generation::Vertex vertex = waypoints[i].getVertex();
      if (i == waypoints.size() - 1)
      {
        vertex.addConstraint(1, Eigen::Vector3d::Zero());
        vertex.addConstraint(2, Eigen::Vector3d::Zero());
      }
      vertices.push_back(vertex);
    }
    return vertices;
""")]),
    ('ok', 'ref-ext-inloop2', ['C11'], [(D, EXT, """    std::size_t i = 0;
    for (const auto &waypoint : waypoints)
    {
      mav_trajectory_generation::Vertex vertex = waypoint.getVertex();
      if (++i == waypoints.size())
      {
        vertex.addConstraint(1, Eigen::Vector3d::Zero());
        vertex.addConstraint(2, Eigen::Vector3d::Zero());
      }
      vertices.push_back(vertex);
    }
    return vertices;
""")]),
    ('ok', 'ref-ext-loop-orders', ['C11'], [(D, EXT, EXT.replace("""    vertices[vertices.size() - 1].addConstraint(1, Eigen::Vector3d(0, 0, 0));
    vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));
""", """    for (int order = 1; order <= 2; ++order)
    {
      vertices.back().addConstraint(order, Eigen::Vector3d(0, 0, 0));
    }
"""))]),
    ('ok', 'ref-ext-makestop', ['C11'], [(D, EXT, EXT.replace("    vertices[vertices.size() - 1].addConstraint(1, Eigen::Vector3d(0, 0, 0));\n    vertices[vertices.size() - 1].addConstraint(2, Eigen::Vector3d(0, 0, 0));\n", "    stopAt(vertices.back());\n")),
        (D, "  static mav_trajectory_generation::Vertex::Vector extractVerticesFromWaypoints(", "  static void stopAt(mav_trajectory_generation::Vertex &vertex)\n  {\n    vertex.addConstraint(1, Eigen::Vector3d(0, 0, 0));\n    vertex.addConstraint(2, Eigen::Vector3d(0, 0, 0));\n  }\n\n  static mav_trajectory_generation::Vertex::Vector extractVerticesFromWaypoints(")]),
    ('ok', 'ref-drone-pushfront', ['C11'], [(D, DRONE, DRONE.replace("waypoint.resetWaypoint(getVehiclePosition());", "const Eigen::Vector3d here = getVehiclePosition();\n    waypoint.resetWaypoint(here);").replace("emplace_front", "push_front"))]),
    ('ok', 'ref-drone-vertex', ['C11'], [(D, DRONE, """    mav_trajectory_generation::Vertex start(3);
    start.addConstraint(0, getVehiclePosition());
    start.addConstraint(1, Eigen::Vector3d::Zero());
    start.addConstraint(2, Eigen::Vector3d::Zero());
    waypoints.push_front(DynamicWaypoint(start, ""));
""")]),
    ('ok', 'ref-drone-insert', ['C11'], [(D, DRONE, DRONE.replace("waypoints.emplace_front(waypoint)", "waypoints.insert(waypoints.begin(), waypoint)"))]),
    ('ok', 'ref-stitch-unrolled', ['C11'], [(D, ST0 + """        {
          vertex.addConstraint(i, references[i]);
        }
""", """        references = getReferences(traj_, convertIntoGlobalTime(local_eval_t), local_eval_t);
        vertex.addConstraint(0, references.position);
        vertex.addConstraint(1, references.velocity);
        vertex.addConstraint(2, references.acceleration);
""")]),
    ('ok', 'ref-stitch-global', ['C11'], [(D, ST0, ST0.replace("convertIntoGlobalTime(local_eval_t)", "local_eval_t + parameters_.global_time_last_trajectory_generated"))]),
    # ---- C12
    ('bug', 'speed-only-current', ['C12'], [(D, SPEED, "    parameters_.speed = speed;\n")]),
    ('bug', 'speed-only-new', ['C12'], [(D, SPEED, "    new_parameters_.speed = speed;\n")]),
    ('bug', 'speed-scaled', ['C12'], [(D, SPEED, SPEED.replace("new_parameters_.speed = speed", "new_parameters_.speed = speed * 0.5"))]),
    ('bug', 'speed-if-computing', ['C12'], [(D, SPEED, SPEED.replace("    new_parameters_.speed", "    if (!computing_new_trajectory_)\n    new_parameters_.speed"))]),
    ('bug', 'speed-clamped', ['C12'], [(D, SPEED, "    speed = std::min(speed, 10.0);\n" + SPEED)]),
    ('bug', 'no-vel-limit', ['C12'], [(D, OPTC, OPTC.replace(OPTC[:OPTC.index("      opt.add", 10)], ""))]),
    ('bug', 'no-acc-limit', ['C12'], [(D, OPTC, OPTC[:OPTC.index("      opt.add", 10)] + "      opt.optimize();\n")]),
    ('bug', 'limits-swapped', ['C12'], [(D, OPTC, OPTC.replace("max_speed);", "X);").replace("a_max_);", "max_speed);").replace("X);", "a_max_);"))]),
    ('bug', 'limits-after', ['C12'], [(D, OPTC, "      opt.optimize();\n" + OPTC.replace("      opt.optimize();\n", ""))]),
    ('bug', 'limit-twice', ['C12'], [(D, OPTC, OPTC.replace("derivative_order::ACCELERATION", "derivative_order::VELOCITY"))]),
    ('bug', 'limit-cond', ['C12'], [(D, OPTC, OPTC.replace("      opt.addMaximum", "      if (vertices.size() > 2)\n      opt.addMaximum", 1))]),
    ('bug', 'limits-before-setup', ['C12'], [(D, SETUP, SETUP.replace("      opt.setup", "      opt.optimize();\n      opt.setup"))]),
    ('bug', 'est-order', ['C12'], [(D, EST, EST.replace("max_speed, this->a_max_", "this->a_max_, max_speed"))]),
    ('bug', 'est-const', ['C12'], [(D, EST, EST.replace("max_speed, this->a_max_", "2.0, this->a_max_"))]),
    ('bug', 'est-acc', ['C12'], [(D, EST, EST.replace("this->a_max_", "2.0 * this->a_max_"))]),
    ('bug', 'launch-linear', ['C12'], [(D, "this, waypoints, false);", "this, waypoints, true);")]),
    ('bug', 'speed-from-new', ['C12'], [(D, "    float max_speed = parameters_.speed;", "    float max_speed = std::min(parameters_.speed, new_parameters_.speed);")]),
    ('bug', 'swap-keeps-old-speed', ['C12'], [(D, "    parameters_ = new_parameters_;\n", "    const double keep = new_parameters_.speed;\n    parameters_ = new_parameters_;\n    parameters_.speed = keep + 0.1;\n")]),
    ('ok', 'ref-speed-double', ['C12'], [(D, "    parameters_mutex_.lock();\n    float max_speed = parameters_.speed;\n    parameters_mutex_.unlock();\n", "    const double max_speed = getSpeed();\n")]),
    ('ok', 'ref-speed-order', ['C12'], [(D, SPEED, "    new_parameters_.speed = speed;\n    parameters_.speed = speed;\n")]),
    ('ok', 'ref-speed-chain', ['C12'], [(D, SPEED, "    parameters_.speed = new_parameters_.speed = speed;\n")]),
    ('ok', 'ref-speed-scoped', ['C12'], [(D, "    parameters_mutex_.lock();\n    float max_speed = parameters_.speed;\n    parameters_mutex_.unlock();\n", "    float max_speed;\n    {\n      std::lock_guard<std::mutex> guard(parameters_mutex_);\n      max_speed = parameters_.speed;\n    }\n")]),
    ('ok', 'ref-limits-order', ['C12'], [(D, OPTC, OPTC[OPTC.index("      opt.add", 10):OPTC.index("      opt.opt")] + OPTC[:OPTC.index("      opt.add", 10)] + "      opt.optimize();\n")]),
    ('ok', 'ref-limits-loop', ['C12'], [(D, OPTC, "      imposeLimits(opt, max_speed, a_max_);\n      opt.optimize();\n"),
        (D, "  static void calculateIndexDynamicWaypoints(", "  template <class Optimizer>\n  static void imposeLimits(Optimizer &optimizer, double speed, double acceleration)\n  {\n    optimizer.addMaximumMagnitudeConstraint(mav_trajectory_generation::derivative_order::ACCELERATION, acceleration);\n    optimizer.addMaximumMagnitudeConstraint(mav_trajectory_generation::derivative_order::VELOCITY, speed);\n  }\n\n  static void calculateIndexDynamicWaypoints(")]),
    ('ok', 'ref-est-inline', ['C12'], [(D, "    // Optimizer\n    if (lineal", "    const auto &times = segment_times;\n    // Optimizer\n    if (lineal"), (D, SETUP, SETUP.replace("segment_times", "times"))]),
    ('ok', 'ref-limits-before-setup', ['C12'], [(D, SETUP, SETUP.replace("      opt.setupFromVertices(vertices, segment_times, derivative_to_optimize_);\n", "")), (D, OPTC, OPTC.replace("      opt.optimize();", "      opt.setupFromVertices(vertices, segment_times, derivative_to_optimize_);\n      opt.optimize();"))]),
]

# ---- C13
CUM = """    for (int i = waypoint_index; i > 0; i--)
    {
      value += segments[i - 1].getTime();
    }
"""
WPL = """    int index = 0;
    for (auto &waypoint : next_trajectory_waypoint_)
    {
      waypoint.setIndex(index);
      waypoint.setTime(getCummulativeTime(segments, waypoint.getIndex()) +
                       new_parameters_.global_time_last_trajectory_generated);
      index++;
    }
"""
STM = """      for (auto &modifier : modifiers_)
      {
        for (int i = 0; i < 3; i++)
        {
          modifier[i].setModifierTime(t);
        }
      }
      t_assigned_ = t;
"""
GS = "    mav_trajectory_generation::Segment::Vector segments;\n    trajectory->getSegments(&segments);\n"
EDITS += [
    ('bug', 'cum-skip-first', ['C13'], [(D, CUM, CUM.replace("i > 0", "i > 1"))]),
    ('bug', 'cum-shift', ['C13'], [(D, CUM, CUM.replace("segments[i - 1]", "segments[i < segments.size() ? i : i - 1]"))]),
    ('bug', 'cum-inclusive', ['C13'], [(D, CUM, "    for (int i = 0; i <= waypoint_index && i < segments.size(); i++)\n    {\n      value += segments[i].getTime();\n    }\n")]),
    ('bug', 'cum-stop', ['C13'], [(D, CUM, CUM.replace("      value", "      if (segments[i - 1].getTime() > 30.0) break;\n      value"))]),
    ('bug', 'cum-scale', ['C13'], [(D, CUM, CUM.replace("segments[i - 1].getTime()", "1.01 * segments[i - 1].getTime()"))]),
    ('bug', 'wp-index-1', ['C13'], [(D, WPL, WPL.replace("int index = 0;", "int index = 1;").replace("waypoint.getIndex()", "waypoint.getIndex() - 1"))]),
    ('bug', 'wp-no-index', ['C13'], [(D, WPL, WPL.replace("      waypoint.setIndex(index);\n", "").replace("waypoint.getIndex()", "index"))]),
    ('bug', 'wp-index-kept', ['C13'], [(D, WPL, WPL.replace("      waypoint.setIndex(index);\n", "      if (waypoint.getIndex() < 0) waypoint.setIndex(index);\n").replace("waypoint.getIndex()) +", "index) +"))]),
    ('bug', 'wp-old-start', ['C13'], [(D, WPL, WPL.replace("new_parameters_.global", "parameters_.global"))]),
    ('bug', 'wp-no-start', ['C13'], [(D, WPL, WPL.replace(" +\n                       new_parameters_.global_time_last_trajectory_generated", ""))]),
    ('bug', 'wp-minus', ['C13'], [(D, WPL, WPL.replace(") +\n", ") -\n"))]),
    ('bug', 'wp-last-evaluated', ['C13'], [(D, WPL, WPL.replace("new_parameters_.global_time_last_trajectory_generated", "new_parameters_.last_global_time_evaluated"))]),
    ('bug', 'wp-unnamed-skip', ['C13'], [(D, WPL, WPL.replace("      waypoint.setIndex", "      if (waypoint.getName() == \"\" && index > 0) { index++; continue; }\n      waypoint.setIndex"))]),
    ('bug', 'wp-skip-last', ['C13'], [(D, WPL, WPL.replace("      waypoint.setIndex", "      if (index == (int)segments.size()) break;\n      waypoint.setIndex"))]),
    ('bug', 'wp-swapped', ['C13'], [(D, WPL, WPL.replace("      waypoint.setIndex(index);\n", "").replace("      index++;", "      waypoint.setIndex(index);\n      index++;"))]),
    ('bug', 'wp-copy', ['C13'], [(D, WPL, WPL.replace("auto &waypoint", "auto waypoint"))]),
    ('bug', 'wp-times-of-estimate', ['C13'], [(D, GS, GS.replace("trajectory->getSegments(&segments);", "trajectory->getSegments(&segments);\n    for (size_t i = 0; i < segments.size(); i++) segments[i].setTime(segment_times[i]);"))]),
    ('bug', 'settime-no-mu', ['C13'], [(WH, STM, "      t_assigned_ = t;\n")]),
    ('bug', 'settime-mu-2', ['C13'], [(WH, STM, STM.replace("i < 3", "i < 2"))]),
    ('bug', 'settime-mu-last', ['C13'], [(WH, STM, "      if (!modifiers_.empty()) for (int i = 0; i < 3; i++) modifiers_.back()[i].setModifierTime(t);\n      t_assigned_ = t;\n")]),
    ('bug', 'settime-mu-old', ['C13'], [(WH, STM, STM.replace("setModifierTime(t)", "setModifierTime(t_assigned_)"))]),
    ('bug', 'settime-max', ['C13'], [(WH, STM, STM.replace("t_assigned_ = t;", "if (t > t_assigned_) t_assigned_ = t;"))]),
    ('bug', 'swap-partial', ['C13'], [(D, "    dynamic_waypoints_ = next_trajectory_waypoint_;\n", "    dynamic_waypoints_ = next_trajectory_waypoint_;\n    if (!dynamic_waypoints_.empty()) dynamic_waypoints_.pop_front();\n")]),
    ('ok', 'ref-cum-asc', ['C13'], [(D, CUM, "    for (int i = 0; i < waypoint_index; i++)\n    {\n      value += segments[i].getTime();\n    }\n")]),
    ('ok', 'ref-cum-while', ['C13'], [(D, CUM, "    int i = waypoint_index;\n    while (i > 0)\n    {\n      --i;\n      value += segments[i].getTime();\n    }\n")]),
    ('ok', 'ref-cum-acc', ['C13'], [(D, CUM, "    value = std::accumulate(segments.begin(), segments.begin() + waypoint_index, 0.0, [](double sum, const mav_trajectory_generation::Segment &segment) { return sum + segment.getTime(); });\n"), (D, "#include <mutex>\n", "#include <mutex>\n#include <numeric>\n")]),
    ('ok', 'ref-wp-index', ['C13'], [(D, WPL, """    for (std::size_t i = 0; i < next_trajectory_waypoint_.size(); ++i)
    {
      next_trajectory_waypoint_[i].setIndex(static_cast<int>(i));
      next_trajectory_waypoint_[i].setTime(getCummulativeTime(segments, i) +
                                           new_parameters_.global_time_last_trajectory_generated);
    }
""")]),
    ('ok', 'ref-wp-running', ['C13'], [(D, WPL, """    int index = 0;
    double arrival = new_parameters_.global_time_last_trajectory_generated;
    for (auto &waypoint : next_trajectory_waypoint_)
    {
      if (index > 0)
      {
        arrival += segments[index - 1].getTime();
      }
      waypoint.setIndex(index);
      waypoint.setTime(arrival);
      index++;
    }
""")]),
    ('ok', 'ref-wp-running2', ['C13'], [(D, WPL, """    int index = 0;
    double arrival = new_parameters_.global_time_last_trajectory_generated;
    for (auto &waypoint : next_trajectory_waypoint_)
    {
      waypoint.setIndex(index);
      waypoint.setTime(arrival);
      if (index < segments.size())
      {
        arrival += segments[index].getTime();
      }
      index++;
    }
""")]),
    ('bug', 'wp-running-late', ['C13'], [(D, WPL, """    int index = 0;
    double arrival = new_parameters_.global_time_last_trajectory_generated;
    for (auto &waypoint : next_trajectory_waypoint_)
    {
      if (index < segments.size())
      {
        arrival += segments[index].getTime();
      }
      waypoint.setIndex(index);
      waypoint.setTime(arrival);
      index++;
    }
""")]),
    ('ok', 'ref-wp-two-loops', ['C13'], [(D, WPL, """    calculateIndexDynamicWaypoints(next_trajectory_waypoint_);
    const double start = new_parameters_.global_time_last_trajectory_generated;
    for (auto &waypoint : next_trajectory_waypoint_)
    {
      waypoint.setTime(start + getCummulativeTime(segments, waypoint.getIndex()));
    }
""")]),
    ('ok', 'ref-wp-helper', ['C13'], [(D, WPL, "    assignArrivalTimes(segments, new_parameters_.global_time_last_trajectory_generated, next_trajectory_waypoint_);\n"),
        (D, "  static void calculateIndexDynamicWaypoints(", """  static void assignArrivalTimes(const mav_trajectory_generation::Segment::Vector &segments, double start, DynamicWaypoint::Deque &waypoints)
  {
    int index = 0;
    for (auto &waypoint : waypoints)
    {
      waypoint.setIndex(index);
      waypoint.setTime(start + getCummulativeTime(segments, index));
      ++index;
    }
  }

  static void calculateIndexDynamicWaypoints(""")]),
    ('ok', 'ref-settime-order', ['C13'], [(WH, STM, "      t_assigned_ = t;\n" + STM.replace("      t_assigned_ = t;\n", "").replace("setModifierTime(t)", "setModifierTime(t_assigned_)"))]),
    ('ok', 'ref-settime-axes', ['C13'], [(WH, STM, "      t_assigned_ = t;\n      for (std::size_t k = 0; k < modifiers_.size(); ++k)\n        for (auto &axis : modifiers_[k])\n          axis.setModifierTime(t);\n")]),
    ('ok', 'ref-settime-if', ['C13'], [(WH, STM, "      t_assigned_ = t;\n      if (hasModifiers())\n      {\n" + STM.replace("      t_assigned_ = t;\n", "") + "      }\n")]),
    ('ok', 'ref-segments-ref', ['C13'], [(D, GS, "    const mav_trajectory_generation::Segment::Vector &segments = trajectory->segments();\n")]),
]

# ---- C14
SCP = """    vertex_.addConstraint(0, position);
    std::array<GaussianModifier, 3> modifiers;
    for (int i = 0; i < 3; i++)
    {
      modifiers[i].setDifference(position[i] - current_position_[i]);
      modifiers[i].setModifierTime(t_assigned_);
"""
SCE = """    current_position_ = position;
    modifiers_.emplace_back(modifiers);
"""
RWC = """      original_position_ = current_position_;
      vertex_.addConstraint(0, current_position_);
      modifiers_.clear();
"""
RW = """      current_position_ = position;
      resetWaypointWithCurrentPosition();
"""
SC = """      if (order == 0)
      {
        resetWaypoint(vector_constrait);
      }
      else
      {
        vertex_.addConstraint(order, vector_constrait);
      }
"""
AWM = """      if (waypoint.getName() == name && waypoint.getName() != "")
      {
        const std::lock_guard<std::mutex> lock3(parameters_mutex_);
        waypoint.setCurrentPosition(position, parameters_.last_global_time_evaluated);
"""
RTD = """    if (name == "")
    {
      return;
    }
    for (auto &waypoint : waypoints)
    {
      if (waypoint.getName() == name)
      {
        DYNAMIC_LOG("reseting waypoint ");
        DYNAMIC_LOG(name);
        waypoint.resetWaypoint(position);
      }
    }
"""
PEND = """              if (waypoint.getName() == modification.first && modification.first != "")
              {
                waypoint.resetWaypoint(modification.second);
"""
EDITS += [
    ('bug', 'scp-original', ['C14'], [(W, SCP, SCP.replace("position[i] - current_position_[i]", "position[i] - original_position_[i]"))]),
    ('bug', 'scp-early', ['C14'], [(W, SCP, "    current_position_ = position;\n" + SCP), (W, SCE, SCE.replace("    current_position_ = position;\n", ""))]),
    ('bug', 'scp-sign', ['C14'], [(W, SCP, SCP.replace("position[i] - current_position_[i]", "current_position_[i] - position[i]"))]),
    ('bug', 'scp-axis', ['C14'], [(W, SCP, SCP.replace("current_position_[i])", "current_position_[0])"))]),
    ('bug', 'scp-time', ['C14'], [(W, SCP, SCP.replace("setModifierTime(t_assigned_)", "setModifierTime(actual_time)"))]),
    ('bug', 'scp-no-vertex', ['C14'], [(W, SCP, SCP.replace("    vertex_.addConstraint(0, position);\n", ""))]),
    ('bug', 'scp-vertex-order', ['C14'], [(W, SCP, SCP.replace("addConstraint(0", "addConstraint(1"))]),
    ('bug', 'scp-no-current', ['C14'], [(W, SCE, SCE.replace("    current_position_ = position;\n", ""))]),
    ('bug', 'scp-twice', ['C14'], [(W, SCE, SCE + "    modifiers_.emplace_back(modifiers);\n")]),
    ('bug', 'scp-replace', ['C14'], [(W, SCE, SCE.replace("    modifiers_.emplace_back", "    modifiers_.clear();\n    modifiers_.emplace_back"))]),
    ('bug', 'scp-skip-small', ['C14'], [(W, SCE, SCE.replace("    modifiers_.emplace_back", "    if ((position - original_position_).norm() > 0.05)\n    modifiers_.emplace_back"))]),
    ('bug', 'scp-rebase', ['C14'], [(W, SCE, SCE + "    original_position_ = position;\n")]),
    ('bug', 'rwc-no-clear', ['C14'], [(WH, RWC, RWC.replace("      modifiers_.clear();\n", ""))]),
    ('bug', 'rwc-original', ['C14'], [(WH, RWC, RWC.replace("original_position_ = current_position_;", "current_position_ = original_position_;"))]),
    ('bug', 'rwc-vertex', ['C14'], [(WH, RWC, RWC.replace("addConstraint(0, current_position_)", "addConstraint(0, original_position_)").replace("      original_position_ = current_position_;\n", "").replace("      modifiers_.clear();\n", "      original_position_ = current_position_;\n      modifiers_.clear();\n"))]),
    ('bug', 'rwc-no-vertex', ['C14'], [(WH, RWC, RWC.replace("      vertex_.addConstraint(0, current_position_);\n", ""))]),
    ('bug', 'rwc-only-modified', ['C14'], [(WH, RWC, "      if (modifiers_.empty()) return;\n" + RWC)]),
    ('bug', 'rw-original', ['C14'], [(WH, RW, RW.replace("current_position_ = position", "original_position_ = position"))]),
    ('bug', 'rw-no-reset', ['C14'], [(WH, RW, "      current_position_ = position;\n      vertex_.addConstraint(0, position);\n      modifiers_.clear();\n")]),
    ('bug', 'sc-0', ['C14'], [(WH, SC, "      vertex_.addConstraint(order, vector_constrait);\n")]),
    ('bug', 'sc-high', ['C14'], [(WH, SC, SC.replace("      else\n", "      else if (order < 3)\n"))]),
    ('bug', 'sc-resets', ['C14'], [(WH, SC, SC.replace("order == 0", "order <= 1"))]),
    ('bug', 'awm-unnamed', ['C14'], [(D, AWM, AWM.replace(' && waypoint.getName() != ""', ''))]),
    ('bug', 'awm-prefix', ['C14'], [(D, AWM, AWM.replace('waypoint.getName() == name', 'waypoint.getName().find(name) == 0'))]),
    ('bug', 'awm-reset', ['C14'], [(D, AWM, AWM.replace('waypoint.setCurrentPosition(position, parameters_.last_global_time_evaluated)', 'waypoint.resetWaypoint(position)'))]),
    ('bug', 'awm-first', ['C14'], [(D, AWM, AWM.replace('      if (waypoint', '      if (modified) break;\n      if (waypoint'))]),
    ('bug', 'awm-passed', ['C14'], [(D, AWM, AWM.replace('waypoint.getName() != ""', 'waypoint.getName() != "" && waypoint.getTime() > 0.1'))]),
    ('bug', 'rtd-unnamed', ['C14'], [(D, RTD, RTD[RTD.index("    for"):])]),
    ('bug', 'rtd-all', ['C14'], [(D, RTD, RTD.replace("waypoint.getName() == name", "waypoint.getName() == name || waypoint.getName() == \"\""))]),
    ('bug', 'rtd-first', ['C14'], [(D, RTD, RTD.replace("        waypoint.resetWaypoint(position);\n", "        waypoint.resetWaypoint(position);\n        break;\n"))]),
    ('bug', 'rtd-set', ['C14'], [(D, RTD, RTD.replace("waypoint.resetWaypoint(position)", "waypoint.setCurrentPosition(position)"))]),
    ('bug', 'pend-set', ['C14'], [(D, PEND, PEND.replace("waypoint.resetWaypoint(modification.second)", "waypoint.setCurrentPosition(modification.second)"))]),
    ('bug', 'pend-unnamed', ['C14'], [(D, PEND, PEND.replace(' && modification.first != ""', ''))]),
    ('bug', 'ctor-swapped', ['C14'], [(W, "    original_position_[1] = pos[1];", "    original_position_[1] = pos[0];")]),
    ('bug', 'ctor-no-current', ['C14'], [(W, "    current_position_ = original_position_;\n  };\n\n  // copy", "    current_position_ = Eigen::Vector3d::Zero();\n  };\n\n  // copy")]),
    ('ok', 'ref-scp-diff', ['C14'], [(W, SCP, "    const Eigen::Vector3d shift = position - current_position_;\n" + SCP.replace("position[i] - current_position_[i]", "shift[i]"))]),
    ('ok', 'ref-scp-range', ['C14'], [(W, SCE, "    modifiers_.push_back(modifiers);\n    current_position_ = position;\n")]),
    ('ok', 'ref-scp-vertex-last', ['C14'], [(W, SCP, SCP.replace("    vertex_.addConstraint(0, position);\n", "")), (W, SCE, SCE + "    vertex_.addConstraint(0, current_position_);\n")]),
    ('ok', 'ref-scp-sigma-helper', ['C14'], [(W, SCP, SCP.replace("    std::array<GaussianModifier, 3> modifiers;\n", "    modifiers_.emplace_back();\n    auto &modifiers = modifiers_.back();\n")), (W, SCE, "    current_position_ = position;\n")]),
    ('ok', 'ref-rw', ['C14'], [(WH, RW, "      original_position_ = position;\n      current_position_ = position;\n      modifiers_.clear();\n      vertex_.addConstraint(0, position);\n")]),
    ('ok', 'ref-rwc', ['C14'], [(WH, RWC, "      modifiers_.clear();\n      original_position_ = current_position_;\n      vertex_.addConstraint(0, original_position_);\n")]),
    ('ok', 'ref-rwc2', ['C14'], [(WH, RWC, RWC.replace("modifiers_.clear()", "modifiers_ = {}"))]),
    ('ok', 'ref-rwc3', ['C14'], [(WH, RWC, RWC.replace("modifiers_.clear()", "if (!modifiers_.empty())\n      {\n        modifiers_.clear();\n      }"))]),
    ('ok', 'ref-sc', ['C14'], [(WH, SC, "      if (order != 0)\n      {\n        vertex_.addConstraint(order, vector_constrait);\n        return;\n      }\n      resetWaypoint(vector_constrait);\n")]),
    ('ok', 'ref-sc-switch', ['C14'], [(WH, SC, "      switch (order)\n      {\n      case 0:\n        resetWaypoint(vector_constrait);\n        break;\n      default:\n        vertex_.addConstraint(order, vector_constrait);\n      }\n")]),
    ('ok', 'ref-awm', ['C14'], [(D, AWM, AWM.replace('waypoint.getName() == name && waypoint.getName() != ""', '!name.empty() && waypoint.getName() == name'))]),
    ('ok', 'ref-awm-continue', ['C14'], [(D, AWM, AWM.replace('      if (waypoint.getName() == name && waypoint.getName() != "")\n', '      const std::string label = waypoint.getName();\n      if (label.empty() || label != name)\n      {\n        continue;\n      }\n'))]),
    ('ok', 'ref-rtd', ['C14'], [(D, RTD, RTD.replace('    if (name == "")\n    {\n      return;\n    }\n', '').replace('waypoint.getName() == name', 'name != "" && waypoint.getName() == name'))]),
    ('ok', 'ref-rtd-index', ['C14'], [(D, RTD, RTD.replace('for (auto &waypoint : waypoints)', 'for (std::size_t i = 0; i < waypoints.size(); ++i)').replace('waypoint.', 'waypoints[i].'))]),
    ('ok', 'ref-rtd-constraint', ['C14'], [(D, RTD, RTD.replace('waypoint.resetWaypoint(position)', 'waypoint.setConstraint(0, position)'))]),
]
