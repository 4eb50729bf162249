// Stand-in for the gcem library (not installed here): GCC folds the builtins.
#ifndef VP_SHIM_GCEM_HPP
#define VP_SHIM_GCEM_HPP
namespace gcem {
constexpr double sin(double x) { return __builtin_sin(x); }
constexpr double cos(double x) { return __builtin_cos(x); }
constexpr double tan(double x) { return __builtin_tan(x); }
constexpr double asin(double x) { return __builtin_asin(x); }
constexpr double acos(double x) { return __builtin_acos(x); }
constexpr double sqrt(double x) { return __builtin_sqrt(x); }
} // namespace gcem
#endif
