"""edits for C29"""
SUB = 'subpackages/mav_trajectory_generation/'
TM = SUB + 'src/timing.cpp'
TH = SUB + 'include/mav_trajectory_generation/timing.h'
PH = SUB + 'include/mav_trajectory_generation/polynomial.h'
PC = SUB + 'src/polynomial.cpp'
SC = SUB + 'src/segment.cpp'
T = SUB + 'src/trajectory.cpp'
LI = SUB + 'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h'
D = 'src/dynamic_trajectory.cpp'
LK = '  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);\n'
HND = 'size_t Timing::GetHandle(std::string const& tag) {\n'
ADD = 'void Timing::AddTime(size_t handle, double seconds) {\n'
ADL = '  std::lock_guard<std::recursive_mutex> lock(mutex_);\n'
EV = 'Eigen::VectorXd Segment::evaluate(double t, int derivative) const {\n'
EDITS = [
    ('bug', 'g-handle', 'C29', [(TM, HND + LK, HND)]),
    ('bug', 'g-add', 'C29', [(TM, ADD + ADL, ADD)]),
    ('bug', 'g-local-mutex', 'C29', [(TM, ADD + ADL, ADD + '  std::recursive_mutex m;\n  std::lock_guard<std::recursive_mutex> lock(m);\n')]),
    ('bug', 'g-other-mutex', 'C29', [(TM, ADD + ADL, ADD + '  static std::recursive_mutex m;\n  std::lock_guard<std::recursive_mutex> lock(m);\n')]),
    ('bug', 'g-scope', 'C29', [(TM, HND + LK, HND + '  {\n' + LK + '  }\n')]),
    ('bug', 'g-seg-static', 'C29', [(SC, EV, EV + '  static Eigen::VectorXd scratch;\n  scratch.resize(D_);\n  scratch.setZero();\n')]),
    ('bug', 'g-seg-static2', 'C29', [(SC, EV + '  Eigen::VectorXd result(D_);\n', EV + '  static Eigen::VectorXd result;\n  result.resize(D_);\n')]),
    ('bug', 'g-print', 'C29', [(TM, 'void Timing::Print(std::ostream& out) {\n' + LK, 'void Timing::Print(std::ostream& out) {\n')]),
    ('bug', 'g-global', 'C29', [(T, 'bool Trajectory::scaleSegmentTimesToMeetConstraints(double v_max,', 'namespace {\nint g_rounds = 0;\n}\nbool Trajectory::scaleSegmentTimesToMeetConstraints(double v_max,'), (T, '    double v_max_actual, a_max_actual;\n', '    ++g_rounds;\n    double v_max_actual, a_max_actual;\n')]),
    ('bug', 'g-lazy', 'C29', [(PH, '    Eigen::VectorXd c(N);\n', '    if (base_coefficients_.rows() == 0) base_coefficients_ = Eigen::MatrixXd::Ones(kMaxConvolutionSize, kMaxConvolutionSize);\n    Eigen::VectorXd c(N);\n')]),
    ('bug', 'g-cache', 'C29', [(PC, 'bool Polynomial::getRoots(int derivative, Eigen::VectorXcd* roots) const {\n', 'bool Polynomial::getRoots(int derivative, Eigen::VectorXcd* roots) const {\n  static Eigen::VectorXd last;\n  last = getCoefficients(derivative);\n')]),
    ('bug', 'g-rand', 'C29', [(PC, 'bool Polynomial::getRoots(int derivative, Eigen::VectorXcd* roots) const {\n', 'bool Polynomial::getRoots(int derivative, Eigen::VectorXcd* roots) const {\n  const int noise = rand() % 2;\n  (void)noise;\n')]),
    ('bug', 'g-out', 'C29', [(PC, '  return findRootsJenkinsTraub(getCoefficients(derivative), roots);', '  static Eigen::VectorXcd found;\n  const bool ok = findRootsJenkinsTraub(getCoefficients(derivative), &found);\n  *roots = found;\n  return ok;')]),
    ('bug', 'g-vec', 'C29', [(SC, EV, EV + '  static std::vector<double> samples;\n  samples.push_back(t);\n')]),
    ('bug', 'g-ptr', 'C29', [(SC, EV, EV + '  static double last = 0.0;\n  double* p = &last;\n  *p = t;\n')]),
    ('ok', 'g-const', 'C29', [(SC, EV, EV + '  static const std::vector<double> weights{1.0, 2.0};\n  (void)weights.size();\n')]),
    ('ok', 'g-tls', 'C29', [(SC, EV, EV + '  thread_local int calls = 0;\n  ++calls;\n')]),
    ('ok', 'g-stls', 'C29', [(SC, EV, EV + '  static thread_local int calls = 0;\n  ++calls;\n')]),
    ('ok', 'g-atomic', 'C29', [(SC, '#include', '#include <atomic>\n#include'), (SC, EV, EV + '  static std::atomic<int> calls{0};\n  ++calls;\n  calls.fetch_add(1);\n')]),
    ('ok', 'g-locked', 'C29', [(SC, '#include', '#include <mutex>\n#include'), (SC, EV, EV + '  static std::mutex m;\n  static int calls = 0;\n  {\n    std::lock_guard<std::mutex> l(m);\n    ++calls;\n  }\n')]),
    ('ok', 'g-initonly', 'C29', [(SC, EV, EV + '  static int base = 7;\n  (void)base;\n')]),
    ('ok', 'g-unique', 'C29', [(TM, ADD + ADL, ADD + '  std::unique_lock<std::recursive_mutex> lock(mutex_);\n')]),
    ('ok', 'g-unique2', 'C29', [(TM, HND + LK, HND + '  Timing& self = Instance();\n  std::unique_lock<std::recursive_mutex> guard(self.mutex_);\n')]),
    ('ok', 'g-helper', 'C29', [(TM, ADD + ADL + '  timers_[handle].acc_.Add(seconds);\n', ADD + ADL + '  Record(handle, seconds);\n}\n\nvoid Timing::Record(size_t handle, double seconds) {\n  timers_[handle].acc_.Add(seconds);\n'), (TH, '  void AddTime(size_t handle, double seconds);\n', '  void AddTime(size_t handle, double seconds);\n  void Record(size_t handle, double seconds);\n')]),
    ('ok', 'g-field', 'C29', [(TM, 'void Timer::Stop() {\n', 'void Timer::Stop() {\n  Timing& registry = Timing::Instance();\n'), (TM, '  Timing::Instance().AddTime(handle_, dt);', '  registry.AddTime(handle_, dt);')]),
    ('ok', 'g-global-mutex', 'C29', [(TM, 'Timing& Timing::Instance() {', 'namespace {\nstd::recursive_mutex g_mutex;\n}\nTiming& Timing::Instance() {'), ] + [(TM, 'Instance().mutex_)', 'g_mutex)')] * 12 + [(TM, 'lock(mutex_)', 'lock(g_mutex)')]),
]
