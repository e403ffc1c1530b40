// Stand-in for the SATSentinel submodule (absent from this checkout): just the
// declarations NapSAT's sources use, so that they can be parsed and type-checked.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
struct Options {
  Options() = default;
  explicit Options(const std::vector<std::string>&) {}
  std::string commands_file;
  bool check_no_conflicts = false, check_trail_monotonicity = false, check_implied_levels = false,
       check_no_missed_implications = false, check_topological_order = false,
       check_assignment_coherence = false, check_weak_watched_literals = false,
       check_strong_watched_literals = false;
  bool check_only = false, gui = false, interactive = false;
  static std::string get_help_text() { return ""; }
};
}
