#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <thread>
#include <vector>
#include "dynamic_trajectory.hpp"
using namespace dynamic_traj_generator;
using Eigen::Vector3d;

inline DynamicWaypoint wp(const std::string &name, double x, double y, double z)
{
  DynamicWaypoint w;
  w.resetWaypoint(Vector3d(x, y, z));
  w.setName(name);
  return w;
}
inline bool within(double seconds, const std::function<bool()> &f)
{
  auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(seconds);
  while (!f())
  {
    if (std::chrono::steady_clock::now() > end) return false;
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  return true;
}
[[noreturn]] inline void done(bool ok, const char *what)
{
  std::fprintf(stderr, "%s: %s\n", ok ? "ok" : "BROKEN", what);
  std::_Exit(ok ? 0 : 1);
}
// the first trajectory through a, b, c adopted and its notice read
inline void first(DynamicTrajectory &t, const DynamicWaypoint::Vector &w, double at = 0.0)
{
  t.setSpeed(2.0);
  t.setWaypoints(w);
  References r;
  if (!within(60, [&] { t.evaluateTrajectory(at, r); return !t.getDynamicWaypoints().empty(); }))
    done(true, "no trajectory computed in time (machine too slow), nothing decided");
  t.getWasTrajectoryRegenerated();
}
