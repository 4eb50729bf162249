// Stand-in for the iers2010 library's constants (not installed here).
#ifndef VP_SHIM_IERSC_HPP
#define VP_SHIM_IERSC_HPP
namespace iers2010 {
constexpr double DPI = 3.141592653589793238462643e0;
constexpr double D2PI = 6.283185307179586476925287e0;
constexpr double TURNAS = 1296000e0;
constexpr double DAS2R = 4.848136811095359935899141e-6;
constexpr double DMAS2R = DAS2R / 1e3;
constexpr double DR2AS = 206264.8062470963551564734e0;
constexpr double C = 299792458e0;
constexpr double AU = 149597870700e0;
constexpr double Re = 6378136.6e0;
constexpr double Rs = 695700000e0;
constexpr double GMe = 3.986004418e14;
constexpr double J2 = 1.0826359e-3;
constexpr double OmegaEarth = 7.292115e-5;
} // namespace iers2010
#endif
