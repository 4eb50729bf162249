// Stand-in for src/orbit_integration.hpp where only the integrator is built:
// the parameters a right-hand side receives, here the generated problem.
#pragma once
#include <cassert>
#include <cstdio>
#include "eigen3/Eigen/Eigen"
namespace dso {
struct IntegrationParameters {
  void *user = nullptr;
};
} // namespace dso
