P = 'subpackages/mav_trajectory_generation/'
PC, S, T = P + 'src/polynomial.cpp', P + 'src/segment.cpp', P + 'src/trajectory.cpp'
LI = P + 'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h'
NI = P + 'include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h'
X = P + 'include/mav_trajectory_generation/extremum.h'
CAND = """    // Do not evaluate points outside the domain.
    if (candidate < t_start || candidate > t_end) {
      continue;
    } else {
      candidates->push_back(candidate);
    }
"""
SELP = """    if (value < minimum->second) {
      minimum->first = t;
      minimum->second = value;
    }
    if (value > maximum->second) {
"""
SELS = """    if (candidate.time < t_start || candidate.time > t_end) {
      continue;
    }
    *maximum = std::max(*maximum, candidate);
    *minimum = std::min(*minimum, candidate);
"""
TRJ = """    if (minimum_candidate < *minimum) {
      *minimum = minimum_candidate;
      minimum->segment_idx = static_cast<int>(segment_idx);
    }
    if (maximum_candidate > *maximum) {
      *maximum = maximum_candidate;
      maximum->segment_idx = static_cast<int>(segment_idx);
    }
"""
MAG = """    double magnitude = 0.0;
    for (int dim : dimensions) {
      magnitude += std::pow(
          polynomials_[dim].evaluate(candidate_times[i], derivative), 2);
    }
    magnitude = std::sqrt(magnitude);
    (*candidates)[i] = Extremum(candidate_times[i], magnitude, 0);
"""
VS = """    double violation_scaling = std::max(
        1.0, std::max(velocity_violation, sqrt(acceleration_violation)));
"""
EDITS = [
    ('bug', 'x-noend', 'C19', [(PC, "  candidates->push_back(t_end);\n", "")]),
    ('bug', 'x-endif', 'C19', [(PC, "  candidates->push_back(t_end);\n", "  if (roots_derivative_of_derivative.size() > 0) candidates->push_back(t_end);\n")]),
    ('bug', 'x-first-root', 'C19', [(PC, CAND, CAND.replace("push_back(candidate);\n", "push_back(candidate);\n      break;\n"))]),
    ('bug', 'x-root1', 'C19', [(PC, "  for (size_t i = 0;\n       i < static_cast", "  for (size_t i = 1;\n       i < static_cast")]),
    ('ok', 'x-imag', 'C19', [(PC, "if (std::abs(roots_derivative_of_derivative[i].imag()) >", "if (roots_derivative_of_derivative[i].imag() >")]),
    ('bug', 'x-real', 'C19', [(PC, "const double candidate = roots_derivative_of_derivative[i].real();", "const double candidate = std::abs(roots_derivative_of_derivative[i]);")]),
    ('bug', 'x-order', 'C19', [(PC, "getRoots(derivative + 1, &roots)", "getRoots(derivative, &roots)")]),
    ('bug', 'x-clamp', 'C19', [(PC, CAND, "    candidates->push_back(candidate);\n")]),
    ('bug', 'x-min-init', 'C19', [(PC, "maximum->second = std::numeric_limits<double>::lowest();", "maximum->second = std::numeric_limits<double>::min();")]),
    ('bug', 'x-elseif', 'C19', [(PC, SELP, SELP.replace("    }\n    if (value >", "    } else if (value >"))]),
    ('bug', 'x-noclock', 'C19', [(PC, "      maximum->first = t;\n      maximum->second = value;", "      maximum->second = value;")]),
    ('bug', 'x-sel-min', 'C19', [(S, "maximum->value = std::numeric_limits<double>::lowest();", "maximum->value = std::numeric_limits<double>::max();")]),
    ('bug', 'x-sel-strict', 'C19', [(S, "candidate.time < t_start || candidate.time > t_end", "candidate.time <= t_start || candidate.time > t_end")]),
    ('bug', 'x-sel-break', 'C19', [(S, SELS, SELS.replace("continue;", "break;"))]),
    ('bug', 'x-mag-nosq', 'C19', [(S, "evaluate(candidate_times[i], derivative), 2);", "evaluate(candidate_times[i], derivative), 1);")]),
    ('bug', 'x-mag-dim', 'C19', [(S, "          polynomials_[dim].evaluate(candidate_times[i], derivative), 2);", "          polynomials_[dimensions[0]].evaluate(candidate_times[i], derivative), 2);")]),
    ('bug', 'x-mag-reset', 'C19', [(S, "  for (size_t i = 0; i < candidate_times.size(); i++) {\n    double magnitude = 0.0;\n", "  double magnitude = 0.0;\n  for (size_t i = 0; i < candidate_times.size(); i++) {\n")]),
    ('bug', 'x-mag-fail', 'C19', [(S, "  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,\n                                            dimensions, &candidate_times)) {\n    return false;\n  }\n", "  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,\n                                            dimensions, &candidate_times);\n")]),
    ('bug', 'x-conv-self', 'C19', [(S, "polynomials_[dim].getCoefficients(derivative + 1).head(n_dd);", "polynomials_[dim].getCoefficients(derivative + 1).head(n_dd) * 1.0 + 0.0 * d.head(n_dd) - d.head(n_dd);")]),
    ('bug', 'x-conv-last', 'C19', [(S, "convolved_coefficients += Polynomial::convolve(d, dd);", "convolved_coefficients = Polynomial::convolve(d, dd);")]),
    ('bug', 'x-conv-order', 'C19', [(S, "computeMinMaxCandidates(t_start, t_end, -1,", "computeMinMaxCandidates(t_start, t_end, 0,")]),
    ('bug', 'x-conv-bound', 'C19', [(S, "      if (dim < 0 || dim >= D_) {\n        LOG(WARNING) << \"Specified dimensions \" << dim\n                     << \" are", "      if (dim < 0 || dim > D_) {\n        LOG(WARNING) << \"Specified dimensions \" << dim\n                     << \" are")]),
    ('bug', 'x-single-zero', 'C19', [(S, "derivative - 1, &zeros)", "derivative, &zeros)")]),
    ('bug', 'x-single-unchecked', 'C19', [(S, "    if (dim < 0 || dim >= D_) {\n      LOG(WARNING) << \"Specified dimensions \" << dim\n                   << \" are out", "    if (dim >= D_) {\n      LOG(WARNING) << \"Specified dimensions \" << dim\n                   << \" are out")]),
    ('bug', 'x-tr-skip', 'C19', [(T, "  // For all segments in the trajectory:\n  for (size_t segment_idx = 0; segment_idx < segments_.size(); segment_idx++) {", "  for (size_t segment_idx = 0; segment_idx + 1 < segments_.size(); segment_idx++) {")]),
    ('bug', 'x-tr-tmax', 'C19', [(T, "            derivative, 0.0, segments_[segment_idx].getTime(), dimensions,\n            &candidates)) {", "            derivative, 0.0, getMaxTime(), dimensions,\n            &candidates)) {")]),
    ('bug', 'x-tr-idx', 'C19', [(T, "      *maximum = maximum_candidate;\n      maximum->segment_idx = static_cast<int>(segment_idx);\n", "      *maximum = maximum_candidate;\n      minimum->segment_idx = static_cast<int>(segment_idx);\n")]),
    ('bug', 'x-tr-else', 'C19', [(T, TRJ, TRJ.replace("    }\n    if (maximum_c", "    } else if (maximum_c"))]),
    ('bug', 'x-tr-zero', 'C19', [(T, "  maximum->value = std::numeric_limits<double>::lowest();\n\n  // For all", "  minimum->value = 0.0;\n  maximum->value = std::numeric_limits<double>::lowest();\n\n  // For all")]),
    ('bug', 'x-lim-same', 'C19', [(T, "mav_trajectory_generation::derivative_order::ACCELERATION, dimensions,\n      &a_min", "mav_trajectory_generation::derivative_order::JERK, dimensions,\n      &a_min")]),
    ('bug', 'x-lim-min', 'C19', [(T, "*a_max = a_max_traj.value;", "*a_max = a_min_traj.value;")]),
    ('bug', 'x-lim-dim', 'C19', [(T, "std::iota(dimensions.begin(), dimensions.end(), 0);", "std::iota(dimensions.begin(), dimensions.end() - 1, 0);")]),
    ('bug', 'x-lim-or', 'C19', [(T, "  success &= computeMinMaxMagnitude(", "  success = computeMinMaxMagnitude(")]),
    ('bug', 'x-sc-vel', 'C19', [(T, VS, "    double violation_scaling = std::max(1.0, velocity_violation);\n")]),
    ('bug', 'x-sc-nomax', 'C19', [(T, VS, "    double violation_scaling = std::max(velocity_violation, sqrt(acceleration_violation)) > 0.5 ? std::max(velocity_violation, sqrt(acceleration_violation)) * 0.9 : 1.0;\n")]),
    ('bug', 'x-sc-or', 'C19', [(T, "within_range = velocity_violation <= 1.0 + kTolerance &&", "within_range = velocity_violation <= 1.0 + kTolerance ||")]),
    ('bug', 'x-sc-tol', 'C19', [(T, "constexpr double kTolerance = 1e-3;", "constexpr double kTolerance = 1e-1;")]),
    ('bug', 'x-sc-true', 'C19', [(T, "  return within_range;\n}", "  return true;\n}")]),
    ('bug', 'x-sc-once', 'C19', [(T, "constexpr size_t kMaxCounter = 20;", "constexpr size_t kMaxCounter = 1;")]),
    ('bug', 'x-sc-nosqrt', 'C19', [(T, VS, VS.replace("sqrt(acceleration_violation)", "acceleration_violation"))]),
    ('bug', 'x-opt-last', 'C19', [(LI, "    for (double t : extrema_times) {\n      const Extremum candidate(t, s.evaluate(t, derivative).norm(),\n                               segment_idx);\n      if (extremum < candidate) extremum = candidate;", "    for (double t : extrema_times) {\n      const Extremum candidate(t, s.evaluate(t, derivative).norm(),\n                               segment_idx);\n      if (segment_idx < 2 && extremum < candidate) extremum = candidate;")]),
    ('bug', 'x-opt-idx', 'C19', [(LI, "    ++segment_idx;\n  }\n  // Check last time", "  }\n  // Check last time")]),
    ('bug', 'x-con-vel', 'C19', [(NI, "      constraint_data->derivative, nullptr);", "      derivative_order::VELOCITY, nullptr);")]),
    ('bug', 'x-con-sign', 'C19', [(NI, "return max.value - constraint_data->value;", "return constraint_data->value - max.value;")]),
    ('bug', 'x-viol-swap', 'C19', [(NI, "traj.scaleSegmentTimesToMeetConstraints(v_max, a_max);", "traj.scaleSegmentTimesToMeetConstraints(a_max, v_max);")]),
    ('bug', 'x-viol-first', 'C19', [(NI, "      v_max = constraint->value;\n    } else", "      v_max = constraint->value;\n      break;\n    } else")]),
    ('bug', 'x-viol-nosolve', 'C19', [(NI, "  segment_times = traj.getSegmentTimes();\n  poly_opt_.updateSegmentTimes(segment_times);\n  poly_opt_.solveLinear();", "  segment_times = traj.getSegmentTimes();\n  poly_opt_.updateSegmentTimes(segment_times);")]),
    ('bug', 'x-viol-times', 'C19', [(NI, "  // Run the trajectory time scaling.\n  traj.scaleSegmentTimesToMeetConstraints(v_max, a_max);\n\n  std::vector<double> segment_times;\n  segment_times = traj.getSegmentTimes();", "  std::vector<double> segment_times;\n  segment_times = traj.getSegmentTimes();\n  traj.scaleSegmentTimesToMeetConstraints(v_max, a_max);")]),
    ('bug', 'x-less', 'C19', [(X, "bool operator<(const Extremum& rhs) const { return value < rhs.value; }", "bool operator<(const Extremum& rhs) const { return time < rhs.time; }")]),
    # refactorings
    ('ok', 'x-rootif', 'C19', [(PC, CAND, "    if (candidate >= t_start && candidate <= t_end) {\n      candidates->push_back(candidate);\n    }\n")]),
    ('ok', 'x-emplace', 'C19', [(PC, CAND, CAND.replace("push_back(candidate)", "emplace_back(candidate)"))]),
    ('ok', 'x-init-list', 'C19', [(PC, "  candidates->push_back(t_start);\n  candidates->push_back(t_end);\n", "  candidates->emplace_back(t_start);\n  candidates->emplace_back(t_end);\n")]),
    ('ok', 'x-complex', 'C19', [(PC, "    if (std::abs(roots_derivative_of_derivative[i].imag()) >\n        std::numeric_limits<double>::epsilon()) {\n      continue;\n    }\n    const double candidate = roots_derivative_of_derivative[i].real();", "    const std::complex<double> root = roots_derivative_of_derivative[i];\n    if (std::abs(root.imag()) > std::numeric_limits<double>::epsilon()) continue;\n    const double candidate = root.real();")]),
    ('ok', 'x-helper', 'C19', [(PC, "bool Polynomial::selectMinMaxCandidatesFromRoots(", "static bool inInterval(double t, double a, double b) { return !(t < a || t > b); }\n\nbool Polynomial::selectMinMaxCandidatesFromRoots("), (PC, CAND, "    if (!inInterval(candidate, t_start, t_end)) continue;\n    candidates->push_back(candidate);\n")]),
    ('ok', 'x-selp-first', 'C19', [(PC, "  minimum->second = std::numeric_limits<double>::max();\n  maximum->first = candidates[0];\n  maximum->second = std::numeric_limits<double>::lowest();\n", "  minimum->second = evaluate(candidates[0], derivative);\n  *maximum = *minimum;\n")]),
    ('ok', 'x-selp-pair', 'C19', [(PC, SELP, SELP.replace("      minimum->first = t;\n      minimum->second = value;\n", "      *minimum = std::make_pair(t, value);\n"))]),
    ('ok', 'x-selp-index', 'C19', [(PC, "  for (const double& t : candidates) {\n    const double value = evaluate(t, derivative);", "  for (size_t i = 0; i < candidates.size(); ++i) {\n    const double t = candidates[i];\n    const double value = evaluate(t, derivative);")]),
    ('ok', 'x-sels-if', 'C19', [(S, SELS, "    if (candidate.time >= t_start && candidate.time <= t_end) {\n      if (*maximum < candidate) *maximum = candidate;\n      if (candidate < *minimum) *minimum = candidate;\n    }\n")]),
    ('ok', 'x-mag-mul', 'C19', [(S, MAG, "    double squared = 0.0;\n    for (size_t d = 0; d < dimensions.size(); ++d) {\n      const double value = polynomials_[dimensions[d]].evaluate(candidate_times[i], derivative);\n      squared += value * value;\n    }\n    (*candidates)[i] = Extremum(candidate_times[i], std::sqrt(squared), 0);\n")]),
    ('ok', 'x-mag-push', 'C19', [(S, "  candidates->resize(candidate_times.size());\n", "  candidates->clear();\n  candidates->reserve(candidate_times.size());\n"), (S, "(*candidates)[i] = Extremum(candidate_times[i], magnitude, 0);", "candidates->emplace_back(candidate_times[i], magnitude, 0);")]),
    ('ok', 'x-conv-inline', 'C19', [(S, "      convolved_coefficients += Polynomial::convolve(d, dd);", "      const Eigen::VectorXd product = Polynomial::convolve(d, dd);\n      convolved_coefficients = convolved_coefficients + product;")]),
    ('ok', 'x-conv-zero', 'C19', [(S, "    Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);\n    convolved_coefficients.setZero();\n", "    Eigen::VectorXd convolved_coefficients =\n        Eigen::VectorXd::Zero(convolved_coefficients_length);\n")]),
    ('ok', 'x-tr-ref', 'C19', [(T, "    std::vector<Extremum> candidates;\n    if (!segments_[segment_idx].computeMinMaxMagnitudeCandidates(\n            derivative, 0.0, segments_[segment_idx].getTime(), dimensions,", "    const Segment& segment = segments_[segment_idx];\n    std::vector<Extremum> candidates;\n    if (!segment.computeMinMaxMagnitudeCandidates(\n            derivative, 0.0, segment.getTime(), dimensions,")]),
    ('ok', 'x-tr-idx', 'C19', [(T, TRJ, TRJ.replace("    if (minimum_candidate < *minimum) {\n      *minimum = minimum_candidate;\n      minimum->segment_idx = static_cast<int>(segment_idx);\n", "    minimum_candidate.segment_idx = static_cast<int>(segment_idx);\n    if (*minimum > minimum_candidate) {\n      *minimum = minimum_candidate;\n"))]),
    ('ok', 'x-tr-range', 'C19', [(T, "  for (size_t segment_idx = 0; segment_idx < segments_.size(); segment_idx++) {\n    // Compute cand", "  const size_t n_segments = segments_.size();\n  for (size_t segment_idx = 0; segment_idx != n_segments; ++segment_idx) {\n    // Compute cand")]),
    ('ok', 'x-lim-loop', 'C19', [(T, "std::iota(dimensions.begin(), dimensions.end(), 0);", "for (int d = 0; d < D_; ++d) dimensions[d] = d;")]),
    ('ok', 'x-lim-both', 'C19', [(T, "  success &= computeMinMaxMagnitude(", "  const bool success_a = computeMinMaxMagnitude("), (T, "  return success;\n}\n\nbool Trajectory::scaleSegmentTimes(", "  return success && success_a;\n}\n\nbool Trajectory::scaleSegmentTimes(")]),
    ('ok', 'x-sc-if', 'C19', [(T, VS, "    double violation_scaling = 1.0;\n    if (velocity_violation > violation_scaling) violation_scaling = velocity_violation;\n    const double root = sqrt(acceleration_violation);\n    if (root > violation_scaling) violation_scaling = root;\n")]),
    ('ok', 'x-sc-helper', 'C19', [(T, VS, "    double violation_scaling = stretchFactor(velocity_violation, acceleration_violation);\n"), (T, "bool Trajectory::scaleSegmentTimesToMeetConstraints(", "static double stretchFactor(double v, double a) {\n  return std::max({1.0, v, std::sqrt(a)});\n}\n\nbool Trajectory::scaleSegmentTimesToMeetConstraints(")]),
    ('ok', 'x-sc-ret', 'C19', [(T, "    if (within_range) {\n      break;\n    }\n", "    if (within_range) {\n      return true;\n    }\n"), (T, "  return within_range;\n}", "  return false;\n}")]),
    ('ok', 'x-sc-while', 'C19', [(T, "  for (size_t i = 0; i < kMaxCounter; i++) {\n    // From Liu", "  size_t counter = 0;\n  while (counter++ < kMaxCounter) {\n    // From Liu")]),
    ('ok', 'x-opt-push', 'C19', [(LI, "      if (candidates != nullptr) candidates->emplace_back(candidate);\n    }\n    ++segment_idx;", "      if (candidates) candidates->push_back(candidate);\n    }\n    segment_idx += 1;")]),
    ('ok', 'x-con-local', 'C19', [(NI, "  return max.value - constraint_data->value;", "  const double violation = max.value - constraint_data->value;\n  return violation;")]),
    ('ok', 'x-viol-switch', 'C19', [(NI, "    if (constraint->derivative == derivative_order::VELOCITY) {\n      v_max = constraint->value;\n    } else if (constraint->derivative == derivative_order::ACCELERATION) {\n      a_max = constraint->value;\n    }\n", "    switch (constraint->derivative) {\n      case derivative_order::VELOCITY:\n        v_max = constraint->value;\n        break;\n      case derivative_order::ACCELERATION:\n        a_max = constraint->value;\n        break;\n      default:\n        break;\n    }\n")]),
]
