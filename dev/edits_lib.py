W = 'src/dynamic_waypoint.cpp'
WH = 'include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
TSH = 'include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'
M = 'subpackages/mav_trajectory_generation/'
T = M + 'src/trajectory.cpp'
S = M + 'src/segment.cpp'
TH = M + 'include/mav_trajectory_generation/trajectory.h'
SH = M + 'include/mav_trajectory_generation/segment.h'
PH = M + 'include/mav_trajectory_generation/polynomial.h'
PC = M + 'src/polynomial.cpp'
LH = M + 'include/mav_trajectory_generation/polynomial_optimization_linear.h'
TM = 'include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'
DH = 'include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
LI = M + 'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h'
ORI = 'Eigen::Vector3d original_position_ = Eigen::Vector3d::Zero()'
CUR = 'Eigen::Vector3d current_position_ = Eigen::Vector3d::Zero()'
CP = """    modifiers_ = other.modifiers_;
    last_sigma_ = other.last_sigma_;
"""
CI = """      : vertex_(other.vertex_), original_position_(other.original_position_), current_position_(other.current_position_),
        t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
"""
SEQ = """  if (D_ != rhs.D_ || time_ != rhs.time_) {
    return false;
  } else {
    for (int i = 0; i < D(); i++) {
      if (polynomials_[i] != rhs[i]) {
        return false;
      }
    }
  }
  return true;
"""
TEQ = """  if (segments_.size() != rhs.segments_.size()) {
    // Different number of segments.
    return false;
  } else {
    for (int i = 0; i < K(); i++) {
      if (segments_ != rhs.segments_) {
        return false;
      }
    }
    return true;
  }
"""
CPA = """    this->reset(other.get());
    return *this;
"""
CPC = """    /* std::cout<<"ThreadSafeTrajectory copy constructor"<<std::endl; */
    this->reset(other.get());
"""
SC1 = '''  double new_max_time = 0.0;
  double scaling_inverse = 1.0 / scaling;
  for (size_t i = 0; i < segments_.size(); i++) {
    double new_time = segments_[i].getTime() * scaling;
    for (int d = 0; d < segments_[i].D(); d++) {
      (segments_[i])[d].scalePolynomialInTime(scaling_inverse);
    }
    segments_[i].setTime(new_time);
    new_max_time += new_time;
  }
  max_time_ = new_max_time;

'''
SC2 = '''    // First figure out how to stretch the trajectory in time.
    double violation_scaling_inverse = 1.0 / violation_scaling;

    // Scale the segment times of each segment.
    double new_max_time = 0.0;
    for (size_t i = 0; i < segments_.size(); i++) {
      double new_time = segments_[i].getTime() * violation_scaling;
      for (int d = 0; d < segments_[i].D(); d++) {
        (segments_[i])[d].scalePolynomialInTime(violation_scaling_inverse);
      }
      segments_[i].setTime(new_time);
      new_max_time += new_time;
    }
    max_time_ = new_max_time;
'''
MRG = '''  // Collect in a local trajectory: merged stays untouched on failure and may be
  // this trajectory.
  Trajectory result = *this;

  for (const Trajectory& t : trajectories) {
    // Check dimensions and coefficients.
    // TODO(rikba): Allow different number of coefficients.
    if (t.D() != D_ || t.N() != N_) {
      LOG(WARNING) << "Dimension to append: " << t.D()
                   << " this dimension: " << D_;
      LOG(WARNING) << "Number of coefficients to append: " << t.N()
                   << " this number of coefficients: " << N_;
      return false;
    }
    // Add segments.
    Segment::Vector segments;
    t.getSegments(&segments);
    result.addSegments(segments);
  }

  *merged = result;
  return true;
'''
EDITS = [
    # ---- C15
    ('bug', 'copy-no-sigma', 'C15', [(W, CP, "    modifiers_ = other.modifiers_;\n")]),
    ('bug', 'copy-no-modifiers', 'C15', [(W, CP, "    last_sigma_ = other.last_sigma_;\n")]),
    ('bug', 'copy-orig-twice', 'C15', [(W, "current_position_(other.current_position_),", "current_position_(other.original_position_),")]),
    ('bug', 'copy-no-index', 'C15', [(W, ", index_(other.index_)\n", "\n")]),
    ('bug', 'copy-last-modifier', 'C15', [(W, CP, "    if (!other.modifiers_.empty()) modifiers_.push_back(other.modifiers_.back());\n    last_sigma_ = other.last_sigma_;\n")]),
    ('bug', 'copy-cond-name', 'C15', [(W, CP, CP + "    if (index_ < 0) name_.clear();\n")]),
    ('bug', 'assign-empty', 'C15', [(TSH, CPA, "    if (trajectory_ptr_ == nullptr) this->reset(other.get());\n    return *this;\n")]),
    ('bug', 'copy-ts-deep', 'C15', [(TSH, CPC, "    auto p = other.get(); if (p) trajectory_ptr_ = std::make_shared<mav_trajectory_generation::Trajectory>();\n")]),
    ('bug', 'move-ts-nothing', 'C15', [(TSH, """move constructor"<<std::endl; */
    this->reset(other.get());""", """move constructor"<<std::endl; */""")]),
    ('bug', 'seg-eq-no-time', 'C15', [(S, "D_ != rhs.D_ || time_ != rhs.time_", "D_ != rhs.D_")]),
    ('bug', 'seg-eq-and', 'C15', [(S, "D_ != rhs.D_ || time_ != rhs.time_", "D_ != rhs.D_ && time_ != rhs.time_")]),
    ('bug', 'seg-eq-first', 'C15', [(S, SEQ, SEQ.replace("i < D();", "i < D() - 1;"))]),
    ('bug', 'seg-eq-from-1', 'C15', [(S, SEQ, SEQ.replace("int i = 0;", "int i = 1;"))]),
    ('bug', 'seg-eq-any', 'C15', [(S, SEQ, SEQ.replace("!= rhs[i]) {\n        return false", "== rhs[i]) {\n        return true"))]),
    ('bug', 'seg-eq-zero', 'C15', [(S, SEQ, SEQ.replace("!= rhs[i]", "!= rhs[0]"))]),
    ('bug', 'seg-eq-ndims', 'C15', [(S, "D_ != rhs.D_ || time_", "N_ != rhs.N_ || time_")]),
    ('bug', 'traj-eq-size', 'C15', [(T, TEQ, "  return segments_.size() == rhs.segments_.size() && max_time_ == rhs.max_time_;\n")]),
    ('bug', 'poly-eq-size', 'C15', [(PH, "coefficients_ == rhs.coefficients_", "coefficients_.size() == rhs.coefficients_.size()")]),
    ('bug', 'poly-eq-norm', 'C15', [(PH, "coefficients_ == rhs.coefficients_", "coefficients_.norm() == rhs.coefficients_.norm()")]),
    ('bug', 'seg-copy-no-time', 'C15', [(SH, "  Segment(const Segment& segment) = default;", "  Segment(const Segment& segment) : polynomials_(segment.polynomials_), time_(0.0), N_(segment.N_), D_(segment.D_) {}")]),
    ('bug', 'traj-assign-no-time', 'C15', [(TH, "  ~Trajectory() {}\n", "  ~Trajectory() {}\n  Trajectory(const Trajectory&) = default;\n  Trajectory& operator=(const Trajectory& o) { D_ = o.D_; N_ = o.N_; segments_ = o.segments_; return *this; }\n")]),
    ('ref', 'copy-all-init', 'C15', [(W, CI, CI.rstrip() + ", modifiers_(other.modifiers_), last_sigma_(other.last_sigma_)\n"), (W, CP, "")]),
    ('ref', 'copy-all-body', 'C15', [(W, CI, "      : vertex_(other.vertex_)\n"), (W, CP, CP + "    original_position_ = other.original_position_;\n    current_position_ = other.current_position_;\n    t_assigned_ = other.t_assigned_;\n    name_ = other.name_;\n    index_ = other.index_;\n")]),
    ('ref', 'copy-default', 'C15', [(W, "  DynamicWaypoint::DynamicWaypoint(const DynamicWaypoint &other)\n" + CI + "  {\n" + CP + "  }\n", "  DynamicWaypoint::DynamicWaypoint(const DynamicWaypoint &other) = default;\n")]),
    ('ref', 'copy-assign', 'C15', [(W, CI, "      : DynamicWaypoint()\n"), (W, CP, "    *this = other;\n")]),
    ('ref', 'copy-push', 'C15', [(W, CP, "    for (const auto &m : other.modifiers_) modifiers_.push_back(m);\n    last_sigma_ = other.last_sigma_;\n")]),
    ('ref', 'copy-insert', 'C15', [(W, CP, "    modifiers_.insert(modifiers_.end(), other.modifiers_.begin(), other.modifiers_.end());\n    last_sigma_ = other.last_sigma_;\n")]),
    ('ref', 'copy-std', 'C15', [(W, CP, "    modifiers_.reserve(other.modifiers_.size());\n    std::copy(other.modifiers_.begin(), other.modifiers_.end(), std::back_inserter(modifiers_));\n    last_sigma_ = other.last_sigma_;\n")]),
    ('ref', 'copy-pos-elem', 'C15', [(W, "current_position_(other.current_position_),", ""), (W, CP, CP + "    for (int i = 0; i < 3; i++) current_position_[i] = other.current_position_[i];\n")]),
    ('ref', 'assign-self', 'C15', [(TSH, CPA, "    if (this != &other)\n    {\n      this->reset(other.get());\n    }\n    return *this;\n")]),
    ('ref', 'assign-self-early', 'C15', [(TSH, CPA, "    if (&other == this) return *this;\n    auto p = other.get();\n    this->reset(p);\n    return *this;\n")]),
    ('ref', 'copy-delegate', 'C15', [(TSH, CPC, "    *this = other;\n")]),
    ('ref', 'move-std', 'C15', [(TSH, """move constructor"<<std::endl; */
    this->reset(other.get());""", """move constructor"<<std::endl; */
    this->reset(std::move(other.trajectory_ptr_));""")]),
    ('ref', 'seg-eq-early', 'C15', [(S, SEQ, """  if (D_ != rhs.D_) return false;
  if (time_ != rhs.time_) return false;
  for (int d = 0; d < D_; ++d) {
    const Polynomial& a = polynomials_[d];
    const Polynomial& b = rhs.polynomials_[d];
    if (!(a == b)) return false;
  }
  return true;
""")]),
    ('ref', 'seg-eq-vector', 'C15', [(S, SEQ, "  return D_ == rhs.D_ && time_ == rhs.time_ && polynomials_ == rhs.polynomials_;\n")]),
    ('ref', 'seg-eq-stdequal', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  return std::equal(polynomials_.begin(), polynomials_.end(), rhs.polynomials_.begin());
""")]),
    ('ref', 'seg-eq-flag', 'C15', [(S, SEQ, """  bool equal = D_ == rhs.D_ && time_ == rhs.time_;
  for (int i = 0; equal && i < D_; i++) {
    equal = polynomials_[i] == rhs.polynomials_[i];
  }
  return equal;
""")]),
    ('ref', 'seg-eq-flag2', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  bool equal = true;
  for (int i = 0; i < D_; i++) {
    equal = equal && polynomials_[i] == rhs.polynomials_[i];
  }
  return equal;
""")]),
    ('ref', 'seg-eq-flag3', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  bool equal = true;
  for (int i = 0; i < D_; i++) {
    if (polynomials_[i] != rhs.polynomials_[i]) { equal = false; break; }
  }
  return equal;
""")]),
    ('ref', 'seg-eq-while', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  int i = 0;
  while (i < D_) {
    if (polynomials_[i] != rhs.polynomials_[i]) return false;
    ++i;
  }
  return true;
""")]),
    ('ref', 'seg-eq-iter', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  size_t i = 0;
  for (const Polynomial& p : polynomials_) {
    if (p != rhs.polynomials_[i++]) return false;
  }
  return true;
""")]),
    ('ref', 'seg-eq-allof', 'C15', [(S, SEQ, """  if (D_ != rhs.D_ || time_ != rhs.time_) return false;
  auto same = [&](int i) { return polynomials_[i] == rhs.polynomials_[i]; };
  for (int i = D_ - 1; i >= 0; i--) {
    if (!same(i)) return false;
  }
  return true;
""")]),
    ('ref', 'traj-eq-direct', 'C15', [(T, TEQ, "  return segments_ == rhs.segments_;\n")]),
    ('ref', 'traj-eq-elem', 'C15', [(T, TEQ, TEQ.replace("segments_ != rhs.segments_)", "segments_[i] != rhs.segments_[i])"))]),
    ('ref', 'traj-eq-flip', 'C15', [(T, TEQ, """  if (rhs.segments_.size() == segments_.size()) {
    for (size_t i = 0; i < segments_.size(); ++i) {
      if (!(segments_[i] == rhs.segments_[i])) return false;
    }
    return true;
  }
  return false;
""")]),
    ('ref', 'poly-eq-if', 'C15', [(PH, "    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;", "    if (N_ != rhs.N_) return false;\n    return coefficients_ == rhs.coefficients_;")]),
    # ---- C16
    ('bug', 'no-init-increment', 'C16', [(TM, "double increment_ = 0;", "double increment_;")]),
    ('bug', 'no-init-mu', 'C16', [(TM, "double mu_ = 0;", "double mu_;")]),
    ('bug', 'no-init-tassigned', 'C16', [(WH, "double t_assigned_ = 0.0f;", "double t_assigned_;")]),
    ('bug', 'no-init-refs', 'C16', [(DH, "Eigen::Vector3d velocity = Eigen::Vector3d::Zero();", "Eigen::Vector3d velocity;")]),
    ('bug', 'no-init-param', 'C16', [(DH, "double t_offset = 0.0f;", "double t_offset;")]),
    ('bug', 'no-init-vehicle', 'C16', [(DH, "Eigen::Vector3d vehicle_position_ = Eigen::Vector3d::Zero();", "Eigen::Vector3d vehicle_position_;")]),
    ('bug', 'no-init-atomic', 'C16', [(DH, "std::atomic_bool stop_process_ = false;", "std::atomic_bool stop_process_;")]),
    ('bug', 'seg-no-time', 'C16', [(SH, "Segment(int N, int D) : time_(0.0), N_(N), D_(D) {", "Segment(int N, int D) : N_(N), D_(D) {")]),
    ('bug', 'traj-no-max', 'C16', [(TH, "Trajectory() : D_(0), N_(0), max_time_(0.0) {}", "Trajectory() : D_(0), N_(0) {}")]),
    ('bug', 'extremum-no-value', 'C16', [(M + 'include/mav_trajectory_generation/extremum.h', "Extremum() : time(0.0), value(0.0), segment_idx(0) {}", "Extremum() : time(0.0), segment_idx(0) {}")]),
    ('bug', 'extremum3-no-idx', 'C16', [(M + 'include/mav_trajectory_generation/extremum.h', "      : time(_time), value(_value), segment_idx(_segment_idx) {}", "      : time(_time), value(_value) { if (_segment_idx > 0) segment_idx = _segment_idx; }")]),
    ('bug', 'linear-no-dim', 'C16', [(LI, "n_vertices_(0),", "")]),
    ('bug', 'sigma-else', 'C16', [(W, "        sigma = last_sigma_ * SIGMA_COEFFICIENT;\n        last_sigma_ = sigma;\n", "        if (last_sigma_ > 0.0) { sigma = last_sigma_ * SIGMA_COEFFICIENT; last_sigma_ = sigma; }\n")]),
    ('bug', 'waypoint-pos-2', 'C16', [(W, "    original_position_[2] = pos[2];\n", ""), (WH, ORI, ORI.replace(" = Eigen::Vector3d::Zero()", ""))]),
    ('bug', 'waypoint-cur', 'C16', [(WH, CUR, CUR.replace(" = Eigen::Vector3d::Zero()", ""))]),
    ('ref', 'init-ctor', 'C16', [(TM, "double increment_ = 0;", "double increment_;"), (TM, "GaussianModifier(){};", "GaussianModifier() : increment_(0.0) {};")]),
    ('ref', 'init-ctor-body', 'C16', [(TM, "double increment_ = 0;", "double increment_;"), (TM, "GaussianModifier(){};", "GaussianModifier() { increment_ = 0.0; };")]),
    ('ref', 'seg-body', 'C16', [(SH, "Segment(int N, int D) : time_(0.0), N_(N), D_(D) {", "Segment(int N, int D) : N_(N), D_(D) {\n    setTime(0.0);")]),
    ('ref', 'traj-clear', 'C16', [(TH, "Trajectory() : D_(0), N_(0), max_time_(0.0) {}", "Trajectory() { clear(); }")]),
    ('ref', 'brace-init', 'C16', [(DH, "double t_offset = 0.0f;", "double t_offset{0.0};")]),
    ('ref', 'sigma-tern', 'C16', [(W, "      double sigma;\n", "      double sigma = 0.0;\n")]),
    # ---- C17
    ('bug', 'add-no-time', 'C17', [(TH, "      max_time_ += segment.getTime();\n", "")]),
    ('bug', 'set-no-reset', 'C17', [(TH, "    max_time_ = 0.0;\n    segments_.clear();\n\n    addSegments", "    segments_.clear();\n\n    addSegments")]),
    ('bug', 'set-no-clear', 'C17', [(TH, "    max_time_ = 0.0;\n    segments_.clear();\n\n    addSegments", "    max_time_ = 0.0;\n\n    addSegments")]),
    ('bug', 'clear-no-time', 'C17', [(TH, "    N_ = 0;\n    max_time_ = 0.0;\n  }", "    N_ = 0;\n  }")]),
    ('bug', 'clear-no-dim', 'C17', [(TH, "    segments_.clear();\n    D_ = 0;\n", "    segments_.clear();\n")]),
    ('bug', 'add-no-check-d', 'C17', [(TH, "      CHECK_EQ(segment.D(), D_);\n", "")]),
    ('bug', 'add-no-check-n', 'C17', [(TH, "      CHECK_EQ(segment.N(), N_);\n", "")]),
    ('bug', 'scale-no-max', 'C17', [(T, "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", "    new_max_time += new_time;\n  }\n\n  return true;")]),
    ('bug', 'scale-last-max', 'C17', [(T, "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", "    new_max_time = new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;")]),
    ('bug', 'scale-old-time', 'C17', [(T, "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", "    new_max_time += new_time * scaling_inverse;\n  }\n  max_time_ = new_max_time;\n\n  return true;")]),
    ('bug', 'meet-max-outside', 'C17', [(T, "    max_time_ = new_max_time;\n  }\n  return within_range;", "    if (i + 1 < kMaxCounter) max_time_ = new_max_time;\n  }\n  return within_range;")]),
    ('bug', 'meet-inverse', 'C17', [(T, "    max_time_ = new_max_time;\n  }\n  return within_range;", "    max_time_ *= violation_scaling_inverse;\n  }\n  return within_range;")]),
    ('bug', 'merge-segments', 'C17', [(T, "    result.addSegments(segments);\n", "    result.segments_.insert(result.segments_.end(), segments.begin(), segments.end());\n")]),
    ('bug', 'merge-no-n', 'C17', [(T, "    if (t.D() != D_ || t.N() != N_) {", "    if (t.D() != D_) {")]),
    ('bug', 'merge-partial', 'C17', [(T, "    result.addSegments(segments);\n", "    result.addSegments(segments);\n    *merged = result;\n")]),
    ('bug', 'merge-skip', 'C17', [(T, "      return false;\n    }\n    // Add segments.", "      continue;\n    }\n    // Add segments.")]),
    ('bug', 'append-false', 'C17', [(T, "            trajectory_to_append.segments()[k], &new_segment)) {\n      return false;\n    }\n    segments.push_back(new_segment);", "            trajectory_to_append.segments()[k], &new_segment)) {\n      new_trajectory->setSegments(segments);\n      return false;\n    }\n    segments.push_back(new_segment);")]),
    ('bug', 'append-dur', 'C17', [(T, "  new_trajectory->setSegments(segments);\n  return true;", "  new_trajectory->segments_ = segments;\n  new_trajectory->D_ = D_ + trajectory_to_append.D();\n  new_trajectory->N_ = segments.front().N();\n  return true;")]),
    ('bug', 'times-k', 'C17', [(T, "std::vector<double> segment_times(segments_.size());", "std::vector<double> segment_times(K() - 1);")]),
    ('bug', 'times-cum', 'C17', [(T, "    segment_times[i] = segments_[i].getTime();\n", "    segment_times[i] = segments_[i].getTime() + (i > 0 ? segment_times[i - 1] : 0.0);\n")]),
    ('bug', 'offset-time', 'C17', [(T, "    if (!s.offsetSegment(A_r_B)) return false;\n", "    if (!s.offsetSegment(A_r_B)) return false;\n    s.setTime(s.getTime() + A_r_B.norm() * 1e-6);\n")]),
    ('bug', 'nonconst-segments', 'C17', [(TH, "  double getMinTime() const", "  Segment::Vector& mutableSegments() { return segments_; }\n  double getMinTime() const")]),
    ('ref', 'add-sep-loop', 'C17', [(TH, "      max_time_ += segment.getTime();\n    }\n", "    }\n    for (size_t i = 0; i < segments.size(); ++i) max_time_ += segments[i].getTime();\n")]),
    ('ref', 'add-push', 'C17', [(TH, "      max_time_ += segment.getTime();\n    }\n    segments_.insert(segments_.end(), segments.begin(), segments.end());", "      max_time_ = max_time_ + segment.getTime();\n      segments_.push_back(segment);\n    }")]),
    ('ref', 'add-local', 'C17', [(TH, "  void addSegments(const Segment::Vector& segments) {\n    for", "  void addSegments(const Segment::Vector& segments) {\n    double added = 0.0;\n    for"), (TH, "      max_time_ += segment.getTime();\n    }\n", "      added += segment.getTime();\n    }\n    max_time_ += added;\n")]),
    ('ref', 'set-inline', 'C17', [(TH, "    max_time_ = 0.0;\n    segments_.clear();\n\n    addSegments(segments);", "    max_time_ = 0.0;\n    for (const Segment& s : segments) {\n      CHECK_EQ(s.D(), D_);\n      CHECK_EQ(s.N(), N_);\n      max_time_ += s.getTime();\n    }\n    segments_ = segments;")]),
    ('ref', 'set-clear', 'C17', [(TH, "    // Reset states.\n    D_ = segments.front().D();\n    N_ = segments.front().N();\n    max_time_ = 0.0;\n    segments_.clear();\n", "    clear();\n    D_ = segments[0].D();\n    N_ = segments[0].N();\n")]),
    ('ref', 'set-if-dims', 'C17', [(TH, "      CHECK_EQ(segment.D(), D_);\n", "      CHECK(segment.D() == D_);\n")]),
    ('ref', 'scale-mul', 'C17', [(T, "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", "  }\n  max_time_ *= scaling;\n\n  return true;"), (T, "  double new_max_time = 0.0;\n  double scaling_inverse", "  double scaling_inverse")]),
    ('ref', 'scale-range', 'C17', [(T, SC1, """  double total = 0.0;
  for (Segment& s : segments_) {
    s.setTime(s.getTime() * scaling);
    for (int d = 0; d < s.D(); ++d) s[d].scalePolynomialInTime(1.0 / scaling);
    total += s.getTime();
  }
  max_time_ = total;
""")]),
    ('ref', 'scale-member', 'C17', [(T, SC1, """  max_time_ = 0.0;
  for (size_t i = 0; i < segments_.size(); i++) {
    Segment& segment = segments_[i];
    for (int d = 0; d < segment.D(); d++) segment[d].scalePolynomialInTime(1.0 / scaling);
    segment.setTime(segment.getTime() * scaling);
    max_time_ += segment.getTime();
  }
""")]),
    ('ref', 'scale-two-loops', 'C17', [(T, SC1, """  for (size_t i = 0; i < segments_.size(); i++) {
    for (int d = 0; d < segments_[i].D(); d++) segments_[i][d].scalePolynomialInTime(1.0 / scaling);
    segments_[i].setTime(segments_[i].getTime() * scaling);
  }
  max_time_ = 0.0;
  for (const Segment& s : segments_) max_time_ += s.getTime();
""")]),
    ('ref', 'scale-local-copy', 'C17', [(T, SC1, """  Segment::Vector scaled = segments_;
  for (Segment& s : scaled) {
    for (int d = 0; d < s.D(); d++) s[d].scalePolynomialInTime(1.0 / scaling);
    s.setTime(s.getTime() * scaling);
  }
  setSegments(scaled);
""")]),
    ('ref', 'meet-helper', 'C17', [(T, SC2, "    scaleSegmentTimes(violation_scaling);\n")]),
    ('ref', 'merge-check-first', 'C17', [(T, MRG, """  for (size_t i = 0; i < trajectories.size(); ++i) {
    if (trajectories[i].D() != D_ || trajectories[i].N() != N_) return false;
  }
  Trajectory result = *this;
  for (const Trajectory& t : trajectories) result.addSegments(t.segments());
  *merged = result;
  return true;
""")]),
    ('ref', 'merge-collect', 'C17', [(T, MRG, """  Trajectory result(*this);
  for (const Trajectory& t : trajectories) {
    if (t.D() != D_) return false;
    if (t.N() != N_) return false;
    result.addSegments(t.segments_);
  }
  *merged = std::move(result);
  return true;
""")]),
    ('ref', 'times-push', 'C17', [(T, """  std::vector<double> segment_times(segments_.size());
  for (size_t i = 0; i < segment_times.size(); ++i) {
    segment_times[i] = segments_[i].getTime();
  }
""", """  std::vector<double> segment_times;
  segment_times.reserve(segments_.size());
  for (const Segment& s : segments_) segment_times.push_back(s.getTime());
""")]),
    ('ref', 'single-add', 'C17', [(T, "  Trajectory traj;\n  traj.setSegments(segments);\n  return traj;", "  Trajectory traj;\n  traj.setSegments(segments);\n  Trajectory copy = traj;\n  return copy;")]),
]
