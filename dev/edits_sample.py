"""edits for C23"""
SUB = 'subpackages/mav_trajectory_generation/'
S = SUB + 'src/trajectory_sampling.cpp'
H = SUB + 'include/mav_msgs/eigen_mav_msgs.hpp'


def e(kind, name, *pairs):
    return (kind, name, 'C23', [(f, a, b) for f, a, b in pairs])


EDITS = [
    e('bug', 'm-vel-order', (S, 'type.evaluate(sample_time, derivative_order::VELOCITY)', 'type.evaluate(sample_time, derivative_order::ACCELERATION)')),
    e('bug', 'm-jerk-snap', (S, 'type.evaluate(sample_time, derivative_order::SNAP).head(3)', 'type.evaluate(sample_time, derivative_order::JERK).head(3)')),
    e('bug', 'm-range-snap', (S, 'derivative_order::SNAP, &snap', 'derivative_order::JERK, &snap')),
    e('bug', 'm-range-acc', (S, 'state.acceleration_W = acceleration[i].head<3>();', 'state.acceleration_W = velocity[i].head<3>();')),
    e('bug', 'm-range-time', (S, '(min_time + sampling_interval * i) * kNum', '(sampling_interval * i) * kNum')),
    e('bug', 'm-range-time1', (S, '(min_time + sampling_interval * i) * kNum', '(min_time + sampling_interval * (i + 1)) * kNum')),
    e('bug', 'm-time-ms', (S, 'const double kNumNanosecondsPerSecond = 1.e9;', 'const double kNumNanosecondsPerSecond = 1.e6;')),
    e('bug', 'm-notime', (S, '  state->time_from_start_ns =\n      static_cast<int64_t>(sample_time * kNumNanosecondsPerSecond);\n', '')),
    e('bug', 'm-yaw', (S, 'state->setFromYaw(position(3));', 'state->setFromYaw(position(2));')),
    e('bug', 'm-yawrate', (S, 'state.setFromYawRate(velocity[i](3));', 'state.setFromYawRate(position[i](3));')),
    e('bug', 'm-yawacc', (S, '    state->setFromYawAcc(acceleration(3));\n', '')),
    e('bug', 'm-tail', (S, 'rot_vec_vel  = velocity[i].tail<3>();', 'rot_vec_vel  = velocity[i].head<3>();')),
    e('bug', 'm-omega', (S, 'state->angular_velocity_W = mav_msgs::omegaFromRotationVector(rot_vec, rot_vec_vel);', 'state->angular_velocity_W = mav_msgs::omegaFromRotationVector(rot_vec, rot_vec_acc);')),
    e('bug', 'm-omegadot', (S, 'mav_msgs::omegaDotFromRotationVector(rot_vec, rot_vec_vel, rot_vec_acc);\n      state.deg', 'mav_msgs::omegaDotFromRotationVector(rot_vec, rot_vec_acc, rot_vec_vel);\n      state.deg')),
    e('bug', 'm-first', (S, 'state.position_W = position[i].head<3>();', 'state.position_W = position[0].head<3>();')),
    e('bug', 'm-off', (S, 'for (size_t i = 0; i < n_samples; ++i) {', 'for (size_t i = 1; i < n_samples; ++i) {')),
    e('bug', 'm-last', (S, 'for (size_t i = 0; i < n_samples; ++i) {', 'for (size_t i = 0; i + 1 < n_samples; ++i) {')),
    e('bug', 'm-whole', (S, 'return sampleTrajectoryInRange(trajectory, min_time, max_time,', 'return sampleTrajectoryInRange(trajectory, min_time, max_time - sampling_interval,')),
    e('bug', 'm-duration', (S, 'start_time, start_time + duration,', 'start_time, duration,')),
    e('bug', 'm-setyaw', (H, '    angular_velocity_W.y() = 0.0;\n    angular_velocity_W.z() = yaw_rate;', '    angular_velocity_W.y() = yaw_rate;\n    angular_velocity_W.z() = 0.0;')),
    e('bug', 'm-refuse', (S, 'sample_time > trajectory.getMaxTime()) {', 'sample_time + 5.0 > trajectory.getMaxTime()) {')),
    e('bug', 'm-segtime', (S, 'return sampleFlatStateAtTime<Segment>(segment, sample_time, state);', 'return sampleFlatStateAtTime<Segment>(segment, segment.getTime() - sample_time, state);')),
    e('bug', 'm-dof', (S, 'if (type.D() == 4) {', 'if (type.D() == 3) {')),
    e('bug', 'm-clear', (S, '  states->resize(n_samples);', '  states->resize(n_samples + 1);')),
    e('bug', 'm-vel-dt', (S, 'derivative_order::VELOCITY, &velocity', 'derivative_order::VELOCITY, &acceleration'), ),
    e('ok', 'm-ref', (S, '  state->position_W = position.head(3);\n  state->velocity_W = velocity.head(3);', '  state->velocity_W = velocity.head(3);\n  state->position_W = position.head(3);')),
    e('ok', 'm-push', (S, '  states->resize(n_samples);', '  states->clear();\n  states->resize(n_samples);')),
    e('ok', 'm-while', (S, 'for (size_t i = 0; i < n_samples; ++i) {', 'for (size_t i = 0; i != position.size(); i++) {')),
    e('ok', 'm-dimvar', (S, '  if (type.D() == 4) {', '  const int dim = type.D();\n  if (dim == 4) {'), (S, '  else if (type.D() == 6) {', '  else if (dim == 6) {')),
    e('ok', 'm-head', (S, 'state->position_W = position.head(3);', 'state->position_W = Eigen::Vector3d(position[0], position[1], position[2]);')),
    e('ok', 'm-segment', (S, 'rot_vec  = position.tail(3);', 'rot_vec  = position.segment(3, 3);')),
    e('ok', 'm-time', (S, 'static_cast<int64_t>(sample_time * kNumNanosecondsPerSecond)', 'int64_t(kNumNanosecondsPerSecond * sample_time)')),
    e('ok', 'm-helper', (S, 'template <class T>\nbool sampleFlatStateAtTime', 'namespace {\nvoid setYawState(const Eigen::VectorXd& p, const Eigen::VectorXd& v, const Eigen::VectorXd& a,\n                 mav_msgs::EigenTrajectoryPoint* s) {\n  s->setFromYaw(p(3));\n  s->setFromYawRate(v(3));\n  s->setFromYawAcc(a(3));\n}\n}\ntemplate <class T>\nbool sampleFlatStateAtTime'), (S, '    state->setFromYaw(position(3));\n    state->setFromYawRate(velocity(3));\n    state->setFromYawAcc(acceleration(3));\n', '    setYawState(position, velocity, acceleration, state);\n')),
    e('ok', 'm-fill', (S, '    mav_msgs::EigenTrajectoryPoint& state = (*states)[i];\n', '    mav_msgs::EigenTrajectoryPoint& state = states->at(i);\n')),
    e('ok', 'm-local', (S, '    mav_msgs::EigenTrajectoryPoint& state = (*states)[i];\n', '    mav_msgs::EigenTrajectoryPoint state;\n'), (S, '      state.degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n    }\n  }\n  return true;', '      state.degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n    }\n    (*states)[i] = state;\n  }\n  return true;')),
    e('ok', 'm-pushback', (S, '  states->resize(n_samples);', '  states->clear();\n  states->reserve(n_samples);'), (S, '    mav_msgs::EigenTrajectoryPoint& state = (*states)[i];\n', '    mav_msgs::EigenTrajectoryPoint state;\n'), (S, '      state.degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n    }\n  }\n  return true;', '      state.degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n    }\n    states->push_back(state);\n  }\n  return true;')),
    e('ok', 'm-switch', (S, '  if (type.D() == 4) {', '  switch (type.D()) {\n  case 4: {'), (S, '  else if (type.D() == 6) {', '  break;\n  case 6: {'), (S, '    state->degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n  }\n  \n', '    state->degrees_of_freedom = mav_msgs::MavActuation::DOF6;\n  }\n  break;\n  default: break;\n  }\n')),
    e('ok', 'm-inline-range', (S, '  return sampleTrajectoryInRange(trajectory, start_time, start_time + duration,\n                                 sampling_interval, states);', '  const double end_time = duration + start_time;\n  const bool ok = sampleTrajectoryInRange(trajectory, start_time, end_time, sampling_interval, states);\n  return ok;')),
    e('ok', 'm-order', (S, '  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::JERK, &jerk);\n  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::SNAP, &snap);\n', '  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::SNAP, &snap);\n  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::JERK, &jerk);\n')),
    e('ok', 'm-times', (S, '  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::POSITION, &position);', '  std::vector<double> times;\n  trajectory.evaluateRange(min_time, max_time, sampling_interval,\n                           derivative_order::POSITION, &position, &times);'), (S, '(min_time + sampling_interval * i) * kNum', 'times[i] * kNum')),
    e('ok', 'm-log', (S, '    return false;\n  }\n\n  return sampleFlatStateAtTime<Segment>', '    LOG(ERROR) << "refused";\n    return false;\n  }\n\n  return sampleFlatStateAtTime<Segment>')),
    e('ok', 'm-coeff', (S, 'state->setFromYawRate(velocity(3));', 'state->setFromYawRate(velocity[3]);')),
    e('ok', 'm-tern', (S, '  state->degrees_of_freedom = mav_msgs::MavActuation::DOF4;\n', '  const bool full = type.D() == 6;\n  state->degrees_of_freedom = full ? mav_msgs::MavActuation::DOF6 : mav_msgs::MavActuation::DOF4;\n')),
    e('ok', 'm-setyaw', (H, '    angular_velocity_W.x() = 0.0;\n    angular_velocity_W.y() = 0.0;\n    angular_velocity_W.z() = yaw_rate;', '    angular_velocity_W = Eigen::Vector3d(0.0, 0.0, yaw_rate);')),
    e('ok', 'm-setyaw0', (H, '    angular_velocity_W.x() = 0.0;\n    angular_velocity_W.y() = 0.0;\n    angular_velocity_W.z() = yaw_rate;', '    angular_velocity_W.setZero();\n    angular_velocity_W(2) = yaw_rate;')),
    e('ok', 'm-unit', (H, '    angular_velocity_W.x() = 0.0;\n    angular_velocity_W.y() = 0.0;\n    angular_velocity_W.z() = yaw_rate;', '    angular_velocity_W << 0.0, 0.0, yaw_rate;')),
]
