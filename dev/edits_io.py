"""edits for C20 and C21"""
SUB = 'subpackages/mav_trajectory_generation/'
I = SUB + 'src/io.cpp'
H = SUB + 'include/mav_trajectory_generation/io.h'
SH = SUB + 'include/mav_trajectory_generation/segment.h'


def e(kind, name, cs, *pairs):
    return (kind, name, cs, [(f, a, b) for f, a, b in pairs])


KEYS = '  if (!node[kNumCoefficientsKey]) return false;\n'
TRY = """  try {
    if (!readSegments(filename, &result)) {
      return false;
    }
  } catch (const YAML::Exception& e) {
    LOG(WARNING) << "Cannot read " << filename << ": " << e.what();
    return false;
  }
"""
EDITS = [
    e('bug', 'i-key', 'C20', (I, 'segments_yaml[i][kNumCoefficientsKey].as<int>()', 'segments_yaml[i][kDimKey].as<int>()')),
    e('bug', 'i-unit-w', 'C20', (I, 'YAML::Value << segment.getTimeNSec()', 'YAML::Value << segment.getTime()')),
    e('bug', 'i-unit-node', 'C20', (I, 'node[kSegmentTimeKey] = segment.getTimeNSec();', 'node[kSegmentTimeKey] = segment.getTime();')),
    e('bug', 'i-unit-r', 'C20', (I, 'segment.setTimeNSec(t);', 'segment.setTime(t);')),
    e('bug', 'i-unit-const', 'C20', (SH, 'time_ = time_ns * kNumSecPerNsec;', 'time_ = time_ns * 1e-6;')),
    e('bug', 'i-dim', 'C20', (I, 'coefficientsToYaml(segment[i].getCoefficients())', 'coefficientsToYaml(segment[0].getCoefficients())')),
    e('bug', 'i-first-seg', 'C20', (I, 'segmentToYaml(segment));', 'segmentToYaml(segments.front()));')),
    e('bug', 'i-coeff', 'C20', (I, '      for (size_t j = 0; j < segment.N(); j++) {\n        out', '      for (size_t j = segment.N(); j-- > 0;) {\n        out')),
    e('bug', 'i-deriv', 'C20', (I, 'Eigen::VectorXd coefficients = segment[i].getCoefficients();', 'Eigen::VectorXd coefficients = segment[i].getCoefficients(1);')),
    e('bug', 'i-swap', 'C20', (I, '[kCoefficientsKey][j][k].as<double>()', '[kCoefficientsKey][k][j].as<double>()')),
    e('bug', 'i-notime', 'C20', (I, '  segment->setTimeNSec(node[kSegmentTimeKey].as<uint64_t>());\n', '')),
    e('bug', 'i-yaml-skip', 'C20', (I, '    if (!segmentFromYaml(node[i], &(*segments)[i])) return false;', '    if (!segmentFromYaml(node[0], &(*segments)[i])) return false;')),
    e('bug', 'i-names', 'C20', (I, '  out << YAML::Key << kSegmentsKey;', '  out << YAML::Key << "segment";')),
    e('bug', 'i-nd', 'C20', (I, 'Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());', 'Segment(node[kDimKey].as<int>(), node[kDimKey].as<int>());')),
    e('bug', 'i-lastseg', 'C20', (I, 'for (size_t i = 0; i < segments_yaml.size(); i++) {', 'for (size_t i = 0; i + 1 < segments_yaml.size(); i++) {')),
    e('bug', 'i-push-front', 'C20', (I, '        segments->push_back(segment);', '        segments->insert(segments->begin(), segment);')),
    e('bug', 'i-uint32', 'C20', (I, '        uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();', '        uint32_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>() / 1000 * 1000 + 1000000;')),
    e('bug', 'i-throw', 'C21', (I, '  } catch (const YAML::Exception& e) {', '  } catch (const YAML::ParserException& e) {')),
    e('bug', 'i-throw2', 'C21', (I, '  } catch (const YAML::Exception& e) {', '  } catch (const YAML::BadFile& e) {')),
    e('bug', 'i-direct', 'C21', (I, 'readSegments(filename, &result)', 'readSegments(filename, segments)')),
    e('bug', 'i-clear', 'C21', (I, '  mav_trajectory_generation::Segment::Vector result;\n  try', '  mav_trajectory_generation::Segment::Vector result;\n  segments->clear();\n  try')),
    e('bug', 'i-size-d', 'C21', (I, '        if (segments_yaml[i][kCoefficientsKey].size() != D) {\n          return false;  // Coefficients and dimensions do not coincide.\n        }\n', '')),
    e('bug', 'i-size-n', 'C21', (I, '[kCoefficientsKey][j].size() != N) {', '[kCoefficientsKey][j].size() < N) {')),
    e('bug', 'i-key-time', 'C21', (I, '          segments_yaml[i][kSegmentTimeKey] &&\n', '')),
    e('bug', 'i-nosegs', 'C21', (I, '    return false;  // No segments element.\n', '')),
    e('bug', 'i-skip', 'C21', (I, '        return false;  // Wrong format, missing elements.\n', '        continue;  // Wrong format, missing elements.\n')),
    e('bug', 'i-traj', 'C21', (H, '    return false;\n  }\n  trajectory->setSegments(segments);\n  return true;', '    trajectory->clear();\n    return false;\n  }\n  trajectory->setSegments(segments);\n  return true;')),
    e('bug', 'i-open', 'C21', (I, '  if (!fout) {\n    return false;\n  }\n', ''), (I, '  return fout.good();', '  return true;')),
    e('bug', 'i-write', 'C21', (I, '  return fout.good();', '  return true;')),
    e('bug', 'i-write2', 'C21', (I, '  return fs.good();', '  return true;')),
    e('bug', 'i-catch-true', 'C21', (I, '": " << e.what();\n    return false;', '": " << e.what();\n    return true;')),
    e('ok', 'i-all', 'C20 C21', (I, '  } catch (const YAML::Exception& e) {\n    LOG(WARNING) << "Cannot read " << filename << ": " << e.what();\n', '  } catch (...) {\n    LOG(WARNING) << "Cannot read " << filename;\n')),
    e('ok', 'i-std', 'C20 C21', (I, '  } catch (const YAML::Exception& e) {', '  } catch (const std::exception& e) {')),
    e('ok', 'i-two', 'C20 C21', (I, '  } catch (const YAML::Exception& e) {', '  } catch (const YAML::ParserException& e) {\n    return false;\n  } catch (const YAML::Exception& e) {')),
    e('ok', 'i-swapres', 'C20 C21', (I, '  *segments = result;\n', '  segments->swap(result);\n')),
    e('ok', 'i-flag', 'C20 C21', (I, TRY, """  bool ok = false;
  try {
    ok = readSegments(filename, &result);
  } catch (const YAML::Exception& e) {
    LOG(WARNING) << e.what();
  }
  if (!ok) return false;
""")),
    e('ok', 'i-noteq', 'C20 C21', (I, '  return fout.good();', '  return !fout.fail();')),
    e('ok', 'i-flush', 'C20 C21', (I, '  fout.close();\n\n  return fout.good();', '  fout.flush();\n  const bool written = fout.good();\n  fout.close();\n  return written;')),
    e('ok', 'i-isopen', 'C20 C21', (I, '  if (!fout) {\n    return false;\n  }\n', '  if (!fout.is_open()) {\n    return false;\n  }\n')),
    e('ok', 'i-locals', 'C20 C21', (I, '      if (segments_yaml[i][kNumCoefficientsKey] && segments_yaml[i][kDimKey] &&\n          segments_yaml[i][kSegmentTimeKey] &&\n          segments_yaml[i][kCoefficientsKey]) {', '      const YAML::Node& entry = segments_yaml[i];\n      if (entry[kNumCoefficientsKey] && entry[kDimKey] && entry[kSegmentTimeKey] &&\n          entry[kCoefficientsKey]) {')),
    e('ok', 'i-early', 'C20 C21', (I, '  if (node[kSegmentsKey]) {\n    const', '  if (!node[kSegmentsKey]) return false;\n  {\n    const'), (I, '  } else {\n    return false;  // No segments element.\n  }\n', '  }\n')),
    e('ok', 'i-const', 'C20 C21', (I, '  YAML::Node node = YAML::LoadFile(filename);', '  const YAML::Node node = YAML::LoadFile(filename);')),
    e('ok', 'i-chain', 'C20 C21', (I, '  out << YAML::BeginMap;\n  out << YAML::Key << kSegmentsKey;\n  out << YAML::BeginSeq;\n', '  out << YAML::BeginMap << YAML::Key << kSegmentsKey << YAML::BeginSeq;\n')),
    e('ok', 'i-ref', 'C20 C21', (I, '      Eigen::VectorXd coefficients = segment[i].getCoefficients();', '      const Eigen::VectorXd coefficients = segment[i].getCoefficients(0);')),
    e('ok', 'i-order', 'C20 C21', (I, '  node[kNumCoefficientsKey] = segment.N();\n  node[kDimKey] = segment.D();\n', '  node[kDimKey] = segment.D();\n  node[kNumCoefficientsKey] = segment.N();\n')),
    e('ok', 'i-poly', 'C20 C21', (I, '    (*segment)[i] = coeffs;', '    (*segment)[i] = Polynomial(coeffs);')),
    e('ok', 'i-helper', 'C20 C21', (I, 'YAML::Node segmentToYaml(const Segment& segment) {\n', 'namespace {\nYAML::Node listOfDimensions(const Segment& s) {\n  YAML::Node list;\n  for (int d = 0; d < s.D(); ++d) list.push_back(coefficientsToYaml(s[d].getCoefficients()));\n  return list;\n}\n}\nYAML::Node segmentToYaml(const Segment& segment) {\n'), (I, '  for (size_t i = 0; i < segment.D(); ++i)\n    node[kCoefficientsKey].push_back(\n        coefficientsToYaml(segment[i].getCoefficients()));\n', '  node[kCoefficientsKey] = listOfDimensions(segment);\n')),
    e('ok', 'i-whelper', 'C20 C21', (I, 'bool segmentsToFile(\n', 'static void emitCoefficients(YAML::Emitter& out, const Segment& segment, size_t i) {\n  out << YAML::Flow << YAML::BeginSeq;\n  const Eigen::VectorXd coefficients = segment[i].getCoefficients();\n  for (size_t j = 0; j < segment.N(); j++) out << coefficients(j);\n  out << YAML::EndSeq;\n}\n\nbool segmentsToFile(\n'), (I, '      out << YAML::Flow;  // List output format.\n      out << YAML::BeginSeq;\n      Eigen::VectorXd coefficients = segment[i].getCoefficients();\n      for (size_t j = 0; j < segment.N(); j++) {\n        out << coefficients(j);\n      }\n      out << YAML::EndSeq;\n', '      emitCoefficients(out, segment, i);\n')),
    e('ok', 'i-index', 'C20 C21', (I, '  for (const mav_trajectory_generation::Segment& segment : segments) {\n    out', '  for (size_t s = 0; s < segments.size(); ++s) {\n    const Segment& segment = segments[s];\n    out')),
    e('ok', 'i-rhelper', 'C20 C21', (I, '// Throws a YAML::Exception', 'bool readRow(const YAML::Node& row, int N, Eigen::VectorXd* coeffs) {\n  if (row.size() != N) return false;\n  coeffs->resize(N);\n  for (int k = 0; k < N; k++) (*coeffs)(k) = row[k].as<double>();\n  return true;\n}\n\n// Throws a YAML::Exception'), (I, """          if (segments_yaml[i][kCoefficientsKey][j].size() != N) {
            return false;  // Number of coefficients does no coincide.
          }
          Eigen::VectorXd coeffs(N);
          for (size_t k = 0; k < N; k++) {
            coeffs(k) = segments_yaml[i][kCoefficientsKey][j][k].as<double>();
          }
""", """          Eigen::VectorXd coeffs;
          if (!readRow(segments_yaml[i][kCoefficientsKey][j], N, &coeffs)) return false;
""")),
    e('ok', 'i-reserve', 'C20 C21', (I, '    for (size_t i = 0; i < segments_yaml.size(); i++) {\n', '    segments->reserve(segments_yaml.size());\n    for (size_t i = 0; i < segments_yaml.size(); i++) {\n')),
    e('ok', 'i-traj', 'C20 C21', (H, '  if (!segmentsFromFile(filename, &segments)) {\n    return false;\n  }\n  trajectory->setSegments(segments);\n  return true;', '  const bool success = segmentsFromFile(filename, &segments);\n  if (success) trajectory->setSegments(segments);\n  return success;')),
    e('ok', 'i-range', 'C20 C21', (I, '    for (size_t i = 0; i < segments_yaml.size(); i++) {\n      if (segments_yaml[i][kNumCoefficientsKey]', '    const size_t n_segments = segments_yaml.size();\n    for (size_t i = 0; i != n_segments; ++i) {\n      if (segments_yaml[i][kNumCoefficientsKey]')),
    e('ok', 'i-log', 'C20 C21', (I, '          return false;  // Coefficients and dimensions do not coincide.\n', '          LOG(WARNING) << "sizes";\n          return false;  // Coefficients and dimensions do not coincide.\n')),
    e('ok', 'i-ostr', 'C20 C21', (I, '  fout << out.c_str();\n', '  fout << out.c_str() << std::endl;\n')),
]
