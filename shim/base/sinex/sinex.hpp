// Stand-in for the ggsinex library (not installed here), written from the way
// the repository uses it: the "files" are tables the harness fills in.
#ifndef VP_SHIM_SINEX_HPP
#define VP_SHIM_SINEX_HPP
#include "datetime/dtcalendar.hpp"
#include <cstring>
#include <map>
#include <string>
#include <vector>
namespace dso {
namespace sinex {
struct SiteId {
  char m_site_code[5] = {0};
};
struct SolutionEstimate {
  char m_site_code[5] = {0};
  char m_param_type[7] = {0};
  char m_units[5] = {0};
  dso::datetime<dso::microseconds> m_epoch;
  double m_estimate{0};
};
} // namespace sinex
struct vp_sinex_file {
  std::vector<sinex::SiteId> sites;
  std::vector<sinex::SolutionEstimate> estimates;
  bool bad_sites{false}, bad_estimates{false};
};
inline std::map<std::string, vp_sinex_file> vp_sinex_files;
class Sinex {
  std::string fn_;

public:
  explicit Sinex(const char *fn) : fn_(fn) {}
  const std::string &filename() const noexcept { return fn_; }
  int parse_block_site_id(std::vector<sinex::SiteId> &v, int n, char **ids) const {
    v.clear();
    const auto it = vp_sinex_files.find(fn_);
    if (it == vp_sinex_files.end() || it->second.bad_sites)
      return 1;
    for (const auto &s : it->second.sites)
      for (int i = 0; i < n; i++)
        if (!std::strncmp(s.m_site_code, ids[i], 4)) {
          v.push_back(s);
          break;
        }
    return 0;
  }
  int parse_block_solution_estimate(std::vector<sinex::SolutionEstimate> &v, const std::vector<sinex::SiteId> &sites) const {
    v.clear();
    const auto it = vp_sinex_files.find(fn_);
    if (it == vp_sinex_files.end() || it->second.bad_estimates)
      return 1;
    for (const auto &e : it->second.estimates)
      for (const auto &s : sites)
        if (!std::strncmp(e.m_site_code, s.m_site_code, 4)) {
          v.push_back(e);
          break;
        }
    return 0;
  }
};
} // namespace dso
#endif
