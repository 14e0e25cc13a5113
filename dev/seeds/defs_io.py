SUB = 'subpackages/mav_trajectory_generation/'
I, SH, H = SUB + 'src/io.cpp', SUB + 'include/mav_trajectory_generation/segment.h', SUB + 'include/mav_trajectory_generation/io.h'
PRE = '#include "lib.hpp"\n#include <mav_trajectory_generation/io.h>\n#include <fstream>\n'
L = ['lib.hpp']
SEEDS = [
 dict(id='s30-node-time-in-seconds', property='C20', **{'with': L},
      subs=[(I, "  node[kSegmentTimeKey] = segment.getTimeNSec();", "  node[kSegmentTimeKey] = static_cast<uint64_t>(segment.getTime() + 0.5);")],
      needs='segments that go through YAML nodes, not through a file', breaks='the duration is written in seconds and read in nanoseconds',
      demo=PRE + '''int main()
{
  Trajectory a = traj({seg(3, 3, 2, {0, 1, 0, 0, 1, 0, 0, 1, 0}), seg(3, 3, 3, {0, 1, 0, 0, 1, 0, 0, 1, 0})}), b;
  bool ok = trajectoryFromYaml(trajectoryToYaml(a), &b);
  return done(ok && std::abs(b.getMaxTime() - 5.0) < 1e-6, "a trajectory keeps its duration as YAML");
}
'''),
 dict(id='s31-degree-from-row', property='C20', **{'with': L},
      subs=[(I, "      for (size_t j = 0; j < segment.N(); j++) {\n        out << coefficients(j);", "      for (size_t j = 0; j < segment.N(); j++) {\n        out << coefficients(i < 3 ? j : segment.N() - 1 - j);")],
      needs='segments of more than three dimensions', breaks='the coefficients of the yaw are written in descending order and read in ascending order',
      demo=PRE + '''int main()
{
  Segment a = seg(3, 4, 2, {0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 2, 3});
  Segment::Vector v(1, a), w;
  bool ok = segmentsToFile("a.yaml", v) && segmentsFromFile("a.yaml", &w) && w.size() == 1;
  return done(ok && (w[0].evaluate(1.5) - a.evaluate(1.5)).norm() < 1e-9, "segments are read as they were written");
}
'''),
 dict(id='s32-row-too-long', property='C21', **{'with': L},
      subs=[(I, "          if (segments_yaml[i][kCoefficientsKey][j].size() != N) {", "          if (segments_yaml[i][kCoefficientsKey][j].size() < N) {")],
      needs='a file whose coefficient lists are longer than the declared number', breaks='a file that contradicts itself is accepted',
      demo=PRE + '''int main()
{
  std::ofstream("a.yaml") << "segments:\\n  - N: 2\\n    D: 1\\n    time: 1000000000\\n    coefficients:\\n      - [1, 2, 3]\\n";
  Segment::Vector w;
  return done(!segmentsFromFile("a.yaml", &w), "a file with too many coefficients is refused");
}
'''),
 dict(id='s33-skip-incomplete', property='C21', **{'with': L},
      subs=[(I, "        return false;  // Wrong format, missing elements.", "        if (i == 0) return false;  // Wrong format, missing elements.\n        continue;")],
      needs='a file with an incomplete segment behind a complete one', breaks='the incomplete segment is left out silently',
      demo=PRE + '''int main()
{
  std::ofstream("a.yaml") << "segments:\\n  - N: 2\\n    D: 1\\n    time: 1000000000\\n    coefficients:\\n      - [1, 2]\\n  - N: 2\\n    D: 1\\n    coefficients:\\n      - [1, 2]\\n";
  Segment::Vector w;
  return done(!segmentsFromFile("a.yaml", &w), "a file with an incomplete segment is refused");
}
'''),
]
