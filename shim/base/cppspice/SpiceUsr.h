// Stand-in for the C header of NAIF's SPICE toolkit (not installed here); the
// harness says where the bodies are.
#ifndef VP_SHIM_SPICEUSR_H
#define VP_SHIM_SPICEUSR_H
#include <cstring>
#include <string>
#include <utility>
#include <vector>
typedef int SpiceInt;
typedef char SpiceChar;
typedef int SpiceBoolean;
typedef double SpiceDouble;
struct vp_spice {
  std::vector<std::pair<std::string, std::string>> kernels; // file, kind
  long calls = 0;
  double gm_sun = 132712440041.9394, gm_moon = 4902.800066;
  void (*position)(int target, double et, int observer, double *pos) = nullptr;
};
inline vp_spice &vp_spice_state() {
  static vp_spice s;
  return s;
}
inline const char *vp_spice_kind(const std::string &f) {
  auto ends = [&](const char *x) { return f.size() >= std::strlen(x) && f.compare(f.size() - std::strlen(x), std::string::npos, x) == 0; };
  if (ends(".bsp") || ends("de421"))
    return "spk";
  if (ends(".bpc"))
    return "pck";
  return "text";
}
inline void furnsh_c(const char *f) {
  ++vp_spice_state().calls;
  vp_spice_state().kernels.emplace_back(f, vp_spice_kind(f));
}
inline void ktotal_c(const char *kind, SpiceInt *n) {
  *n = 0;
  for (auto &k : vp_spice_state().kernels)
    *n += k.second == kind;
}
inline void kdata_c(SpiceInt which, const char *kind, SpiceInt nf, SpiceInt nt, SpiceInt ns, SpiceChar *file, SpiceChar *type, SpiceChar *source, SpiceInt *handle, SpiceBoolean *found) {
  *found = 0, *handle = 0;
  for (auto &k : vp_spice_state().kernels)
    if (k.second == kind && which-- == 0) {
      std::strncpy(file, k.first.c_str(), nf - 1), file[nf - 1] = 0;
      std::strncpy(type, kind, nt - 1), type[nt - 1] = 0;
      if (ns)
        source[0] = 0;
      *found = 1;
      return;
    }
}
// TT (JDTDT) to ephemeris time, the periodic terms left out
inline double unitim_c(double t, const char *, const char *) { return (t - 2451545e0) * 86400e0; }
inline void spkezp_c(SpiceInt target, double et, const char *, const char *, SpiceInt observer, double *pos, double *lt) {
  pos[0] = pos[1] = pos[2] = 0;
  *lt = 0;
  if (vp_spice_state().position)
    vp_spice_state().position(target, et, observer, pos);
}
inline void bodvrd_c(const char *body, const char *, SpiceInt, SpiceInt *n, double *v) {
  *n = 1;
  *v = std::strcmp(body, "SUN") ? vp_spice_state().gm_moon : vp_spice_state().gm_sun;
}
#endif
