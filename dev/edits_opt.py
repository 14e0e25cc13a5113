"""edits for C25"""
SUB = 'subpackages/mav_trajectory_generation/include/mav_trajectory_generation/'
L = SUB + 'impl/polynomial_optimization_linear_impl.h'
NL = SUB + 'impl/polynomial_optimization_nonlinear_impl.h'
LH = SUB + 'polynomial_optimization_linear.h'
NM = 'template <int _N>\nbool PolynomialOptimization<_N>::setupFromVertices(\n'


def e(kind, name, cs, *pairs):
    return (kind, name, cs, [(f, a, b) for f, a, b in pairs])


DIM = '''  for (const Vertex& vertex : vertices) {
    CHECK(vertex.D() == static_cast<int>(dimension_))
        << "Dimension of the vertices does not match the optimization.";
  }
'''
SIZE = '''  CHECK(vertices.size() == times.size() + 1)
      << "Size of times must be one less than positions.";
'''
DER = '''  CHECK(derivative_to_optimize >= 0 &&
        derivative_to_optimize <= kHighestDerivativeToOptimize)
'''
TM = '    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n\n    computeQ'
UPD = '''  CHECK(n_segment_times == n_segments_)
      << "Number of segment times (" << n_segment_times
      << ") does not match number of segments (" << n_segments_ << ")";
'''
BODY = '''    computeQuadraticCostJacobian(derivative_to_optimize_, segment_time,
                                 &cost_matrices_[i]);
    SquareMatrix A;
    setupMappingMatrix(segment_time, &A);
    invertMappingMatrix(A, &inverse_mapping_matrices_[i]);
'''
EDITS = [
    e('bug', 'o-ge', 'C25', (L, TM, TM.replace('_GT', '_GE'))),
    e('bug', 'o-ne', 'C25', (L, TM, TM.replace('CHECK_GT(segment_time, 0)', 'CHECK_NE(segment_time, 0)'))),
    e('bug', 'o-first', 'C25', (L, TM, TM.replace('    CHECK_GT', '    if (i == 0) CHECK_GT'))),
    e('bug', 'o-last', 'C25', (L, TM, TM.replace('    CHECK_GT', '    if (i + 1 == n_segments_) CHECK_GT'))),
    e('bug', 'o-abs', 'C25', (L, TM, TM.replace('segment_time, 0', 'std::abs(segment_time), 0'))),
    e('bug', 'o-warn', 'C25', (L, TM, '    if (segment_time <= 0) {\n      LOG(ERROR) << "bad";\n      continue;\n    }\n    computeQ')),
    e('bug', 'o-late', 'C25', (L, TM, '    computeQ'), (L, 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);', 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n    CHECK_GT(segment_time, 0);')),
    e('bug', 'o-none', 'C25', (L, TM, '    computeQ')),
    e('bug', 'o-sum', 'C25', (L, TM, TM.replace('segment_time, 0', 'segment_times[0] + segment_time, 0'))),
    e('bug', 'o-max', 'C25', (L, TM, '    computeQ'), (L, UPD, UPD + '  CHECK_GT(*std::max_element(segment_times.begin(), segment_times.end()), 0);\n')),
    e('bug', 'o-upd', 'C25', (L, UPD, '')),
    e('bug', 'o-upd-ge', 'C25', (L, UPD, UPD.replace('==', '>='))),
    e('bug', 'o-upd-le', 'C25', (L, UPD, UPD.replace('==', '<='))),
    e('bug', 'o-size', 'C25', (L, SIZE, ''), (L, UPD, UPD.replace('==', '>='))),
    e('bug', 'o-dim', 'C25', (L, DIM, '')),
    e('bug', 'o-dim-front', 'C25', (L, DIM, '  CHECK(vertices.front().D() == static_cast<int>(dimension_));\n')),
    e('bug', 'o-dim-ge', 'C25', (L, DIM, DIM.replace('==', '>='))),
    e('bug', 'o-dim-break', 'C25', (L, DIM, DIM.replace('polynomial', 'p').replace('  }\n', '    break;\n  }\n'))),
    e('bug', 'o-der-high', 'C25', (L, DER, DER.replace('<= kHighest', '<= 1 + kHighest'))),
    e('bug', 'o-der-neg', 'C25', (L, DER, DER.replace('derivative_to_optimize >= 0 &&\n', '')), ),
    e('bug', 'o-der-n', 'C25', (L, DER, DER.replace('kHighestDerivativeToOptimize', 'N'))),
    e('bug', 'o-der-kh', 'C25', (LH, 'kHighestDerivativeToOptimize = N / 2 - 1', 'kHighestDerivativeToOptimize = N / 2')),
    e('bug', 'o-der-strict', 'C25', (L, DER, DER.replace('<= kHighest', '< kHighest'))),
    e('bug', 'o-nl-clamp', 'C25', (NL, 'poly_opt_.setupFromVertices(vertices, segment_times,\n', 'poly_opt_.setupFromVertices(Vertex::Vector(vertices.begin(), vertices.begin() + segment_times.size() + 1), segment_times,\n')),
    e('keep', 'o-k-size-only-upd', 'C25', (L, 'Size of times must be one less than positions.', 'Number of times.')),
    e('keep', 'o-k-if', 'C25', (L, TM, '    if (!(segment_time > 0)) {\n      LOG(FATAL) << "bad";\n    }\n    computeQ')),
    e('keep', 'o-k-throw', 'C25', (L, TM, '    if (segment_time <= 0.0) throw std::invalid_argument("time");\n    computeQ')),
    e('keep', 'o-k-loop', 'C25', (L, TM, '    computeQ'), (L, UPD, UPD + '  for (const double t : segment_times) {\n    CHECK(t > 0.0) << "bad";\n  }\n')),
    e('keep', 'o-k-allof', 'C25', (L, DIM, '  CHECK(std::all_of(vertices.begin(), vertices.end(), [this](const Vertex& v) {\n    return v.D() == static_cast<int>(dimension_);\n  }));\n')),
    e('keep', 'o-k-index', 'C25', (L, DIM, '  for (size_t i = 0; i < vertices.size(); ++i) {\n    CHECK_EQ(static_cast<size_t>(vertices[i].D()), dimension_);\n  }\n')),
    e('keep', 'o-k-false', 'C25', (L, DIM, '  for (const Vertex& vertex : vertices) {\n    if (vertex.D() != static_cast<int>(dimension_)) {\n      LOG(ERROR) << "dim";\n      return false;\n    }\n  }\n'),
      (NL, '  size_t n_optimization_parameters;\n', '  if (!ret) return false;\n  size_t n_optimization_parameters;\n')),
    e('keep', 'o-k-flag', 'C25', (L, DIM, '  bool fits = true;\n  for (const Vertex& vertex : vertices) {\n    if (vertex.D() != static_cast<int>(dimension_)) fits = false;\n  }\n  CHECK(fits);\n')),
    e('keep', 'o-k-two', 'C25', (L, DER, '  CHECK_GE(derivative_to_optimize, 0);\n  CHECK(derivative_to_optimize < N / 2)\n')),
    e('keep', 'o-k-min', 'C25', (L, SIZE, '  CHECK(!vertices.empty());\n  CHECK_EQ(vertices.size() - 1, times.size());\n')),
    e('keep', 'o-k-helper', 'C25', (L, BODY, '    updateMatrices(i, segment_time);\n'), (LH, '  void setupConstraintReorderingMatrix();', '  void setupConstraintReorderingMatrix();\n  void updateMatrices(size_t i, double segment_time) {\n' + BODY + '  }\n')),
    e('keep', 'o-k-while', 'C25', (L, '  for (size_t i = 0; i < n_segments_; ++i) {\n    const double segment_time = segment_times[i];', '  size_t i = 0;\n  while (i < n_segments_) {\n    const double segment_time = segment_times[i];'),
      (L, 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n', 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n    ++i;\n')),
    e('keep', 'o-k-member', 'C25', (L, 'const double segment_time = segment_times[i];\n    CHECK_GT(segment_time, 0) <<', 'const double segment_time = segment_times_[i];\n    CHECK_LT(0.0, segment_time) <<')),

    # C24
    e('bug', 's-cost', 'C24', (L, '    computeQuadraticCostJacobian(derivative_to_optimize_, segment_time,\n                                 &cost_matrices_[i]);\n', '    if (cost_matrices_[i](0, 0) == 0) computeQuadraticCostJacobian(derivative_to_optimize_, segment_time,\n                                 &cost_matrices_[i]);\n')),
    e('bug', 's-cost-gone', 'C24', (L, '    computeQuadraticCostJacobian(derivative_to_optimize_, segment_time,\n                                 &cost_matrices_[i]);\n', '')),
    e('bug', 's-cache', 'C24', (L, '  segment_times_ = segment_times;\n\n  for (size_t i', '  std::vector<double> before = segment_times_;\n  segment_times_ = segment_times;\n\n  for (size_t i'),
      (L, TM, '    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n    if (std::abs(segment_time - before[i]) < 0.01) continue;\n\n    computeQ')),
    e('bug', 's-old-time', 'C24', (L, '    const double segment_time = segment_times[i];\n    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n\n    computeQ', '    const double segment_time = segment_times_[i];\n    CHECK_GT(segment_time, 0) << "Segment times need to be greater than zero";\n\n    computeQ'),
      (L, '  segment_times_ = segment_times;\n\n  for', '  for'), (L, 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n  };\n', 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n  };\n  segment_times_ = segment_times;\n')),
    e('bug', 's-first-map', 'C24', (L, '    setupMappingMatrix(segment_time, &A);\n', '    setupMappingMatrix(segment_times[0], &A);\n')),
    e('bug', 's-not-stored', 'C24', (L, '  segment_times_ = segment_times;\n\n  for', '  for')),
    e('bug', 's-solve-norefresh', 'C24', (L, '        solver.solve(df);  // dp = -Rpp^-1 * Rpf * df\n  }\n\n  updateSegmentsFromCompactConstraints();\n', '        solver.solve(df);  // dp = -Rpp^-1 * Rpf * df\n  }\n\n')),
    e('bug', 's-solve-full', 'C24', (L, 'fully constrained polynomial.";\n    updateSegmentsFromCompactConstraints();\n', 'fully constrained polynomial.";\n')),
    e('bug', 's-refresh-first', 'C24', (L, '        solver.solve(df);  // dp = -Rpp^-1 * Rpf * df\n  }\n\n  updateSegmentsFromCompactConstraints();\n', '        solver.solve(df);  // dp = -Rpp^-1 * Rpf * df\n  }\n\n'),
      (L, '  solver.compute(Rpp);\n', '  solver.compute(Rpp);\n  updateSegmentsFromCompactConstraints();\n')),
    e('bug', 's-solve-once', 'C24', (L, '        solver.solve(df);  // dp', '        dimension_idx > 0 ? Eigen::VectorXd(free_constraints_compact_[0]) : Eigen::VectorXd(solver.solve(df));  // dp')),
    e('bug', 's-setfree', 'C24', (L, '  free_constraints_compact_ = free_constraints;\n  updateSegmentsFromCompactConstraints();\n', '  free_constraints_compact_ = free_constraints;\n')),
    e('bug', 's-setfree-early', 'C24', (L, '  free_constraints_compact_ = free_constraints;\n  updateSegmentsFromCompactConstraints();\n', '  updateSegmentsFromCompactConstraints();\n  free_constraints_compact_ = free_constraints;\n')),
    e('bug', 's-inv0', 'C24', (L, '          inverse_mapping_matrices_[i] * new_d;', '          inverse_mapping_matrices_[0] * new_d;')),
    e('bug', 's-segtime', 'C24', (L, '      segment.setTime(segment_times_[i]);\n', '      if (segment.getTime() <= 0) segment.setTime(segment_times_[i]);\n')),
    e('bug', 's-obj-nosolve', 'C24', (NL, '  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  optimization_data->poly_opt_.solveLinear();\n  double cost_trajectory = optimization_data->poly_opt_.computeCost();', '  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  double cost_trajectory = optimization_data->poly_opt_.computeCost();\n  optimization_data->poly_opt_.solveLinear();')),
    e('bug', 's-obj-order', 'C24', (NL, '  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  optimization_data->poly_opt_.setFreeConstraints(free_constraints);\n', '  optimization_data->poly_opt_.setFreeConstraints(free_constraints);\n  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n')),
    e('bug', 's-mel-restore', 'C24', (NL, '    poly_opt_.updateSegmentTimes(segment_times);\n    poly_opt_.solveLinear();\n  }\n\n  // Compute cost', '    poly_opt_.updateSegmentTimes(segment_times);\n  }\n\n  // Compute cost')),
    e('bug', 's-mel-bigger', 'C24', (NL, '      poly_opt_.updateSegmentTimes(segment_times_bigger);\n      poly_opt_.solveLinear();\n', '      poly_opt_.updateSegmentTimes(segment_times_bigger);\n')),
    e('bug', 's-scale', 'C24', (NL, '  segment_times = traj.getSegmentTimes();\n  poly_opt_.updateSegmentTimes(segment_times);\n  poly_opt_.solveLinear();\n', '  segment_times = traj.getSegmentTimes();\n  poly_opt_.updateSegmentTimes(segment_times);\n')),
    e('bug', 's-setup-order', 'C24', (L, '  updateSegmentTimes(times);\n  setupConstraintReorderingMatrix();\n  return true;', '  updateSegmentTimes(times);\n  if (n_all_constraints_ != n_vertices_ * N / 2) setupConstraintReorderingMatrix();\n  return true;')),
    e('bug', 's-setup-early', 'C24', (L, '  derivative_to_optimize_ = derivative_to_optimize;\n  vertices_ = vertices;\n', '  updateSegmentTimes(times);\n  derivative_to_optimize_ = derivative_to_optimize;\n  vertices_ = vertices;\n'), (L, '  updateSegmentTimes(times);\n  setupConstraintReorderingMatrix();\n', '  setupConstraintReorderingMatrix();\n')),
    e('bug', 's-setup-der', 'C24', (L, '  derivative_to_optimize_ = derivative_to_optimize;\n', '  if (derivative_to_optimize_ < 0) derivative_to_optimize_ = derivative_to_optimize;\n')),
    e('bug', 's-obj-near', 'C24', (NL, '  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  optimization_data->poly_opt_.solveLinear();\n  double cost_trajectory = ', '  std::vector<double> now;\n  optimization_data->poly_opt_.getSegmentTimes(&now);\n  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  if (std::abs(now[0] - segment_times[0]) > 1e-3) optimization_data->poly_opt_.solveLinear();\n  double cost_trajectory = ')),
    e('keep', 's-k-helper', 'C24', (L, BODY, '    updateMatrices(i, segment_time);\n'), (LH, '  void setupConstraintReorderingMatrix();', '  void setupConstraintReorderingMatrix();\n  void updateMatrices(size_t i, double segment_time) {\n' + BODY + '  }\n')),
    e('keep', 's-k-order', 'C24', (L, BODY, '    SquareMatrix A;\n    setupMappingMatrix(segment_time, &A);\n    invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n    computeQuadraticCostJacobian(derivative_to_optimize_, segment_times_[i],\n                                 &cost_matrices_[i]);\n')),
    e('keep', 's-k-two', 'C24', (L, BODY, '    computeQuadraticCostJacobian(derivative_to_optimize_, segment_time,\n                                 &cost_matrices_[i]);\n  }\n  for (size_t i = 0; i < n_segments_; ++i) {\n    SquareMatrix A;\n    setupMappingMatrix(segment_times_[i], &A);\n    invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n')),
    e('keep', 's-k-setlate', 'C24', (L, '  segment_times_ = segment_times;\n\n  for', '  for'), (L, 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n  };\n', 'invertMappingMatrix(A, &inverse_mapping_matrices_[i]);\n  };\n  segment_times_ = segment_times;\n')),
    e('keep', 's-k-update', 'C24', (NL, '  optimization_data->poly_opt_.updateSegmentTimes(segment_times);\n  optimization_data->poly_opt_.solveLinear();\n  double cost_trajectory = optimization_data->poly_opt_.computeCost();', '  PolynomialOptimization<N>& opt = optimization_data->poly_opt_;\n  opt.updateSegmentTimes(segment_times);\n  opt.solveLinear();\n  double cost_trajectory = opt.computeCost();')),
    e('keep', 's-k-refresh', 'C24', (L, '''  for (size_t dimension_idx = 0; dimension_idx < dimension_; ++dimension_idx) {
    const Eigen::VectorXd& df = fixed_constraints_compact_[dimension_idx];
    const Eigen::VectorXd& dp_opt = free_constraints_compact_[dimension_idx];

    Eigen::VectorXd d_all(n_all_constraints);
    d_all << df, dp_opt;

    for (size_t i = 0; i < n_segments_; ++i) {
''', '''  for (size_t i = 0; i < n_segments_; ++i) {
    for (size_t dimension_idx = 0; dimension_idx < dimension_; ++dimension_idx) {
      Eigen::VectorXd d_all(n_all_constraints);
      d_all << fixed_constraints_compact_[dimension_idx], free_constraints_compact_[dimension_idx];
''')),
    e('keep', 's-k-solvehelper', 'C24', (L, '  // Compute dp_opt for every dimension.\n', '  if (dimension_ == 0) return true;\n')),
    e('keep', 's-k-inline', 'C24', (L, '    SquareMatrix A;\n    setupMappingMatrix(segment_time, &A);\n', '    SquareMatrix A;\n    for (int k = 0; k < N / 2; ++k) {\n      A.row(k) = Polynomial::baseCoeffsWithTime(N, k, 0.0);\n      A.row(k + N / 2) = Polynomial::baseCoeffsWithTime(N, k, segment_time);\n    }\n')),
    e('keep', 's-k-mel', 'C24', (NL, '      segment_times_bigger = segment_times;\n', '      segment_times_bigger.assign(segment_times.begin(), segment_times.end());\n')),
    e('keep', 's-k-setup', 'C24', (L, '  derivative_to_optimize_ = derivative_to_optimize;\n  vertices_ = vertices;\n  segment_times_ = times;\n', '  vertices_ = vertices;\n  derivative_to_optimize_ = derivative_to_optimize;\n')),
]
