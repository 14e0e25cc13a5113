import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from edits_lib import *
SCL = """  double scale = 1.0;
  for (int n = 0; n < N_; n++) {
    coefficients_[n] *= scale;
    scale *= scaling_factor;
  }
"""
PAD = """    Eigen::VectorXd coeffs = Eigen::VectorXd::Zero(new_N);
    coeffs.head(N_) = coefficients_;
    *new_polynomial = Polynomial(coeffs);
"""
SING = """  *new_segment = Segment(N_, 1);
  (*new_segment)[0] = polynomials_[dimension];
  new_segment->setTime(time_);
"""
SC_T = """  const double new_time = std::max(time_, segment_to_append.getTime());
  if (time_ < new_time && new_time > 0.0){
    for (int d = 0; d < D_; d++) {
      current_segment[d].scalePolynomialInTime(time_ / new_time);
    }
  } else if (segment_to_append.getTime() < new_time && new_time > 0.0) {
    for (int d = 0; d < segment_to_append.D(); d++) {
      segment_to_append_temp[d].scalePolynomialInTime(segment_to_append.getTime() / new_time);
    }
  }
"""
EQN = """    for (int i = 0; i < new_D; i++) {
      if (i < D_) {
        (*new_segment)[i] = current_segment[i];
      } else {
        (*new_segment)[i] = segment_to_append_temp[i - D_];
      }
    }
"""
NEQ = """      Polynomial polynomial_to_append(new_N);
      if (i < D_) {
        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                new_N, &polynomial_to_append)) {
          return false;
        }
      } else {
        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                new_N, &polynomial_to_append)) {
          return false;
        }
      }
      (*new_segment)[i] = polynomial_to_append;
"""
OFF = """  for (size_t i = 0; i < std::min(D_, 3); ++i) {
    polynomials_[i].offsetPolynomial(A_r_B(i));
  }
"""
TSG = """    Segment segment(N_, 1);
    segment[0] = (segments_[k])[dimension];
    segment.setTime(segments_[k].getTime());
    segments.push_back(segment);
"""
TAP = """    Segment new_segment(0, 0);
    if (!segments_[k].getSegmentWithAppendedDimension(
            trajectory_to_append.segments()[k], &new_segment)) {
      return false;
    }
    segments.push_back(new_segment);
"""
SST = """    double new_time = segments_[i].getTime() * scaling;
    for (int d = 0; d < segments_[i].D(); d++) {
      (segments_[i])[d].scalePolynomialInTime(scaling_inverse);
    }
    segments_[i].setTime(new_time);
"""
SSC = """      double new_time = segments_[i].getTime() * violation_scaling;
      for (int d = 0; d < segments_[i].D(); d++) {
        (segments_[i])[d].scalePolynomialInTime(violation_scaling_inverse);
      }
      segments_[i].setTime(new_time);
      new_max_time += new_time;
"""
TOF = """  for (Segment& s : segments_) {
    // Returns false if dimension check fails at segment level.
    if (!s.offsetSegment(A_r_B)) return false;
  }
"""
EDITS = [
    ('bug', 'sc-order', 'C18', [(PC, SCL, SCL.replace("    coefficients_[n] *= scale;\n    scale *= scaling_factor;", "    scale *= scaling_factor;\n    coefficients_[n] *= scale;"))]),
    ('bug', 'sc-from1', 'C18', [(PC, SCL, SCL.replace("int n = 0", "int n = 1"))]),
    ('bug', 'sc-short', 'C18', [(PC, SCL, SCL.replace("n < N_", "n < N_ - 1"))]),
    ('bug', 'sc-sq', 'C18', [(PC, SCL, SCL.replace("scale *= scaling_factor", "scale *= scaling_factor * scaling_factor"))]),
    ('bug', 'sc-add', 'C18', [(PC, SCL, SCL.replace("scale *= scaling_factor", "scale += scaling_factor"))]),
    ('bug', 'pad-tail', 'C18', [(PC, PAD, PAD.replace("coeffs.head(N_)", "coeffs.tail(N_)"))]),
    ('bug', 'pad-short', 'C18', [(PC, PAD, PAD.replace("coeffs.head(N_) = coefficients_", "coeffs.head(N_ - 1) = coefficients_.head(N_ - 1)"))]),
    ('bug', 'pad-const', 'C18', [(PC, PAD, PAD.replace("Zero(new_N)", "Constant(new_N, 1.0)"))]),
    ('bug', 'pad-shrink', 'C18', [(PC, "    *new_polynomial = *this;\n    return false;", "    *new_polynomial = *this;\n    return true;")]),
    ('bug', 'off-lin', 'C18', [(PC, "  coefficients_[0] += offset;", "  coefficients_[N_ > 1 ? 1 : 0] += offset;")]),
    ('bug', 'off-all', 'C18', [(PC, "  coefficients_[0] += offset;", "  coefficients_.array() += offset;")]),
    ('bug', 'off-set', 'C18', [(PC, "  coefficients_[0] += offset;", "  coefficients_[0] = offset;")]),
    ('bug', 'sing-time', 'C18', [(S, SING, SING.replace("  new_segment->setTime(time_);\n", ""))]),
    ('bug', 'sing-first', 'C18', [(S, SING, SING.replace("[dimension]", "[0]"))]),
    ('bug', 'sing-timeearly', 'C18', [(S, SING, "  new_segment->setTime(time_);\n" + SING.replace("  new_segment->setTime(time_);\n", ""))]),
    ('bug', 'sing-range', 'C18', [(S, "  if (dimension < 0 || dimension >= D_) {\n    LOG(WARNING)\n        << \"You", "  if (dimension < 0 || dimension > D_) {\n    LOG(WARNING)\n        << \"You")]),
    ('bug', 'app-noscale-own', 'C18', [(S, SC_T, SC_T.replace("current_segment[d].scalePolynomialInTime(time_ / new_time);", ";"))]),
    ('bug', 'app-noscale-app', 'C18', [(S, SC_T, SC_T.replace("segment_to_append_temp[d].scalePolynomialInTime(segment_to_append.getTime() / new_time);", ";"))]),
    ('bug', 'app-inverse', 'C18', [(S, SC_T, SC_T.replace("time_ / new_time)", "new_time / time_)"))]),
    ('bug', 'app-min', 'C18', [(S, SC_T, SC_T.replace("std::max(time_", "std::min(time_"))]),
    ('bug', 'app-swapd', 'C18', [(S, SC_T, SC_T.replace("d < segment_to_append.D()", "d < D_"))]),
    ('bug', 'app-notime', 'C18', [(S, "  new_segment->setTime(new_time);\n  return true;", "  return true;")]),
    ('bug', 'app-owntime', 'C18', [(S, "  new_segment->setTime(new_time);\n  return true;", "  new_segment->setTime(time_);\n  return true;")]),
    ('bug', 'app-eq-unscaled', 'C18', [(S, EQN, EQN.replace("= current_segment[i]", "= polynomials_[i]"))]),
    ('bug', 'app-eq-unscaled2', 'C18', [(S, EQN, EQN.replace("segment_to_append_temp[i - D_]", "segment_to_append[i - D_]"))]),
    ('bug', 'app-neq-unscaled', 'C18', [(S, NEQ, NEQ.replace("!current_segment[i]", "!polynomials_[i]"))]),
    ('bug', 'app-neq-unscaled2', 'C18', [(S, NEQ, NEQ.replace("!segment_to_append_temp[", "!segment_to_append["))]),
    ('bug', 'app-oldN', 'C18', [(S, "  const int new_N = std::max(segment_to_append.N(), N_);", "  const int new_N = N_;")]),
    ('bug', 'app-twice', 'C18', [(S, EQN, EQN.replace("    for (int i = 0; i < new_D; i++) {", "    for (int i = 0; i < new_D; i++) {\n      if (i < D_ && time_ < new_time) current_segment[i].scalePolynomialInTime(time_ / new_time);"))]),
    ('bug', 'app-empty', 'C18', [(S, "  if (N_ == 0 || D_ == 0) {\n    *new_segment = segment_to_append;", "  if (N_ == 0 || D_ == 0) {\n    *new_segment = *this;")]),
    ('bug', 'offs-four', 'C18', [(S, OFF, OFF.replace("std::min(D_, 3)", "std::min(D_, 4)"))]),
    ('bug', 'offs-all', 'C18', [(S, OFF, OFF.replace("std::min(D_, 3)", "std::min<int>(D_, A_r_B.size())"))]),
    ('bug', 'offs-first', 'C18', [(S, OFF, OFF.replace("A_r_B(i)", "A_r_B(0)"))]),
    ('bug', 'tsing-time', 'C18', [(T, TSG, TSG.replace("    segment.setTime(segments_[k].getTime());\n", ""))]),
    ('bug', 'tsing-first', 'C18', [(T, TSG, TSG.replace("segments_[k].getTime()", "segments_[0].getTime()"))]),
    ('bug', 'tsing-seg0', 'C18', [(T, TSG, TSG.replace("(segments_[k])[dimension]", "(segments_[0])[dimension]"))]),
    ('bug', 'tsing-skip', 'C18', [(T, "  for (size_t k = 0; k < segments_.size(); ++k) {\n" + TSG, "  for (size_t k = 1; k < segments_.size(); ++k) {\n" + TSG)]),
    ('bug', 'tapp-same', 'C18', [(T, TAP, TAP.replace("trajectory_to_append.segments()[k]", "trajectory_to_append.segments()[0]"))]),
    ('bug', 'tapp-ignore', 'C18', [(T, TAP, TAP.replace("    if (!segments_[k]", "    if (segments_[k]").replace("      return false;\n    }\n    segments.push_back(new_segment);", "    }\n    segments.push_back(new_segment);"))]),
    ('bug', 'tapp-count', 'C18', [(T, "  CHECK_EQ(static_cast<int>(segments_.size()), trajectory_to_append.K());\n", "")]),
    ('bug', 'sst-same', 'C18', [(T, SST, SST.replace("scalePolynomialInTime(scaling_inverse)", "scalePolynomialInTime(scaling)"))]),
    ('bug', 'sst-notime', 'C18', [(T, SST, SST.replace("    segments_[i].setTime(new_time);\n", ""))]),
    ('bug', 'sst-first3', 'C18', [(T, SST, SST.replace("d < segments_[i].D()", "d < std::min(3, segments_[i].D())"))]),
    ('bug', 'sst-twice', 'C18', [(T, SST, SST.replace("scalePolynomialInTime(scaling_inverse);", "scalePolynomialInTime(scaling_inverse);\n      if (d > 0) (segments_[i])[d].scalePolynomialInTime(scaling_inverse);"))]),
    ('bug', 'ssc-nopoly', 'C18', [(T, SSC, SSC.replace("(segments_[i])[d].scalePolynomialInTime(violation_scaling_inverse);", ";"))]),
    ('bug', 'ssc-wrong', 'C18', [(T, "    double violation_scaling_inverse = 1.0 / violation_scaling;", "    double violation_scaling_inverse = 1.0 / std::max(1.0, velocity_violation);")]),
    ('bug', 'tof-const', 'C18', [(T, TOF, TOF.replace("for (Segment& s", "for (Segment s"))]),
    ('bug', 'tof-notlast', 'C18', [(T, TOF, "  for (size_t i = 0; i + 1 < segments_.size(); ++i) {\n    if (!segments_[i].offsetSegment(A_r_B)) return false;\n  }\n")]),
    # refactorings
    ('ok', 'sc-pow', 'C18', [(PC, SCL, "  for (int n = 0; n < N_; n++) coefficients_[n] *= std::pow(scaling_factor, n);\n")]),
    ('ok', 'sc-from1ok', 'C18', [(PC, SCL, "  double scale = scaling_factor;\n  for (int n = 1; n < N_; n++) {\n    coefficients_[n] *= scale;\n    scale *= scaling_factor;\n  }\n")]),
    ('ok', 'sc-while', 'C18', [(PC, SCL, "  double scale = 1.0;\n  int n = 0;\n  while (n < N_) {\n    coefficients_(n) = coefficients_(n) * scale;\n    scale = scale * scaling_factor;\n    ++n;\n  }\n")]),
    ('ok', 'sc-size', 'C18', [(PC, SCL, SCL.replace("n < N_", "n < coefficients_.size()"))]),
    ('ok', 'pad-loop', 'C18', [(PC, PAD, "    Eigen::VectorXd coeffs = Eigen::VectorXd::Zero(new_N);\n    for (int i = 0; i < N_; ++i) coeffs[i] = coefficients_[i];\n    *new_polynomial = Polynomial(coeffs);\n")]),
    ('ok', 'pad-set', 'C18', [(PC, PAD, "    Eigen::VectorXd coeffs(new_N);\n    coeffs.setZero();\n    coeffs.segment(0, N_) = coefficients_;\n    Polynomial padded(coeffs);\n    *new_polynomial = padded;\n")]),
    ('ok', 'pad-two', 'C18', [(PC, PAD, "    Eigen::VectorXd coeffs(new_N);\n    coeffs.head(N_) = coefficients_;\n    coeffs.tail(new_N - N_).setZero();\n    *new_polynomial = Polynomial(coeffs);\n")]),
    ('ok', 'pad-order', 'C18', [(PC, "  if (new_N == N_) {\n    *new_polynomial = *this;\n    return true;\n  } else if (new_N < N_) {", "  if (N_ == new_N) {\n    *new_polynomial = *this;\n    return true;\n  }\n  if (N_ > new_N) {")]),
    ('ok', 'off-brace', 'C18', [(PC, "  if (coefficients_.size() == 0) return;\n\n  coefficients_[0] += offset;", "  if (coefficients_.size() > 0) {\n    coefficients_(0) = coefficients_(0) + offset;\n  }")]),
    ('ok', 'sing-temp', 'C18', [(S, SING, "  Segment result(N_, 1);\n  result.setTime(time_);\n  result[0] = polynomials_[dimension];\n  *new_segment = result;\n")]),
    ('ok', 'app-ternary', 'C18', [(S, EQN, EQN.replace("""      if (i < D_) {
        (*new_segment)[i] = current_segment[i];
      } else {
        (*new_segment)[i] = segment_to_append_temp[i - D_];
      }
""", "      (*new_segment)[i] = i < D_ ? current_segment[i] : segment_to_append_temp[i - D_];\n"))]),
    ('ok', 'app-two-loops', 'C18', [(S, EQN, "    for (int i = 0; i < D_; i++) (*new_segment)[i] = current_segment[i];\n    for (int i = 0; i < segment_to_append.D(); i++) (*new_segment)[D_ + i] = segment_to_append_temp[i];\n")]),
    ('ok', 'app-both-scaled', 'C18', [(S, SC_T, """  const double new_time = std::max(time_, segment_to_append.getTime());
  if (new_time > 0.0) {
    const double own = time_ / new_time;
    const double other = segment_to_append.getTime() / new_time;
    for (int d = 0; d < D_; d++) current_segment[d].scalePolynomialInTime(own);
    for (int d = 0; d < segment_to_append.D(); d++) segment_to_append_temp[d].scalePolynomialInTime(other);
  }
""")]),
    ('ok', 'app-ifmax', 'C18', [(S, SC_T, """  double new_time = time_;
  if (segment_to_append.getTime() > new_time) new_time = segment_to_append.getTime();
  if (time_ < new_time && new_time > 0.0) {
    const double ratio = time_ / new_time;
    for (int d = 0; d < D_; d++) current_segment[d].scalePolynomialInTime(ratio);
  }
  if (segment_to_append.getTime() < new_time && new_time > 0.0) {
    const double ratio = segment_to_append.getTime() / new_time;
    for (int d = 0; d < segment_to_append.D(); d++) segment_to_append_temp[d].scalePolynomialInTime(ratio);
  }
""")]),
    ('ok', 'app-pick', 'C18', [(S, NEQ, """      Polynomial polynomial_to_append(new_N);
      const Polynomial& source = i < D_ ? current_segment[i] : segment_to_append_temp[i - D_];
      if (!source.getPolynomialWithAppendedCoefficients(new_N, &polynomial_to_append)) {
        return false;
      }
      (*new_segment)[i] = polynomial_to_append;
""")]),
    ('ok', 'app-always-pad', 'C18', [(S, "  if (N_ == segment_to_append.N()) {\n" + EQN + "  } else {", "  {")]),
    ('ok', 'offs-int', 'C18', [(S, OFF, "  const int n = std::min(D_, 3);\n  for (int i = 0; i < n; i++) polynomials_[i].offsetPolynomial(A_r_B[i]);\n")]),
    ('ok', 'offs-helper', 'C18', [(S, "bool Segment::offsetSegment(", "static void shift(Polynomial* p, double by) { p->offsetPolynomial(by); }\n\nbool Segment::offsetSegment("), (S, OFF, OFF.replace("polynomials_[i].offsetPolynomial(A_r_B(i));", "shift(&polynomials_[i], A_r_B(i));"))]),
    ('ok', 'tsing-range', 'C18', [(T, "  for (size_t k = 0; k < segments_.size(); ++k) {\n" + TSG, "  for (const Segment& source : segments_) {\n" + TSG.replace("(segments_[k])[dimension]", "source[dimension]").replace("segments_[k].getTime()", "source.getTime()"))]),
    ('ok', 'tsing-reuse', 'C18', [(T, TSG, "    Segment segment(N_, 1);\n    segments_[k].getSegmentWithSingleDimension(dimension, &segment);\n    segments.push_back(segment);\n")]),
    ('ok', 'tsing-emplace', 'C18', [(T, TSG, "    segments.emplace_back(N_, 1);\n    segments.back()[0] = segments_[k][dimension];\n    segments.back().setTime(segments_[k].getTime());\n")]),
    ('ok', 'tapp-ok', 'C18', [(T, TAP, "    Segment new_segment(0, 0);\n    const bool ok = segments_[k].getSegmentWithAppendedDimension(trajectory_to_append.segments()[k], &new_segment);\n    if (!ok) return false;\n    segments.emplace_back(new_segment);\n")]),
    ('ok', 'sst-range', 'C18', [(T, "  for (size_t i = 0; i < segments_.size(); i++) {\n" + SST + "    new_max_time += new_time;\n  }\n  max_time_ = new_max_time;\n\n  return true;", """  for (Segment& segment : segments_) {
    const double new_time = scaling * segment.getTime();
    segment.setTime(new_time);
    for (int d = 0; d < segment.D(); ++d) segment[d].scalePolynomialInTime(1.0 / scaling);
    new_max_time += new_time;
  }
  max_time_ = new_max_time;

  return true;""")]),
    ('ok', 'ssc-reuse', 'C18', [(T, "      (segments_[i])[d].scalePolynomialInTime(violation_scaling_inverse);", "      segments_[i][d].scalePolynomialInTime(1.0 / violation_scaling);")]),
    ('ok', 'ssc-helper', 'C18', [(T, """    double new_max_time = 0.0;
    for (size_t i = 0; i < segments_.size(); i++) {
""" + SSC + """    }
    max_time_ = new_max_time;
  }
""", """    scaleSegmentTimes(violation_scaling);
  }
""")]),
    ('ok', 'tof-index', 'C18', [(T, TOF, "  for (size_t i = 0; i < segments_.size(); ++i) {\n    if (!segments_[i].offsetSegment(A_r_B)) {\n      return false;\n    }\n  }\n")]),
]
