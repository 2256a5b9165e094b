// Runs part of a simulated execution in a process of its own, so that several executions can be compared from identical or deliberately
// different host states.
#pragma once
#include <functional>
#include <string>
#include "core/seams.hpp"
#include "core/sim.hpp"
namespace sim {
struct ChildResult { bool ok = false; std::string out, why; };
ChildResult InChild(const std::function<std::string()>& f, double limit_s = 50);
struct HostNoise {          // what the host looks like; must not influence results
  uint64_t seed = 0;        // 0: neutral host
  void Apply() const;       // call at the start of a child
};
std::string Bytes(const std::vector<double>& v);
std::vector<double> Doubles(const std::string& s);
void PutBlob(std::string& o, const std::string& b);
std::string GetBlob(const std::string& s, size_t& pos);
// log file content below dir (the file whose name ends in suffix), empty if none
std::string FindLog(const std::string& dir, const std::string& suffix = "default.csv");
std::string LogPlace(const std::string& log, size_t byte);  // "row R, column NAME" of a byte of a csv log
}  // namespace sim
