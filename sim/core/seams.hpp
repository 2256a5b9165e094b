// Seams between the code under test and the host: wall clock, sleeping, entropy, disk writes.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sim {
struct HostClock {
  bool active = false;            // false: real host
  int64_t wall_ns = 0;            // what CLOCK_REALTIME shows
  int64_t mono_ns = 0;            // what CLOCK_MONOTONIC shows
  int64_t slept_ns = 0;           // total time slept by the code under test
  long sleeps = 0;
  std::function<int64_t(int64_t req_ns)> on_sleep;   // returns how long the sleep really takes
  std::function<void()> on_read;                     // called before each clock read (may advance the clock)
  long reads = 0;
};
extern HostClock g_clock;
struct HostEntropy { bool active = false; uint64_t state = 1; long draws = 0; };
extern HostEntropy g_entropy;

// Disk: decides the fate of each write()/open() on files below the run's scratch directory.
struct DiskOp { enum Kind { kOpen, kWrite, kClose, kOpenRead, kRead } kind; std::string path; size_t size; long index; };  // index: number of the operation, for kRead the position in the file
struct DiskFate { int err = 0; size_t accept = (size_t)-1; bool lose = false; };  // err: errno; accept: short write; lose: reported ok, not stored
struct HostDisk {
  bool active = false;
  long writes = 0, opens = 0, reads = 0;
  std::function<DiskFate(const DiskOp&)> fate;
};
extern HostDisk g_disk;

std::string ScratchDir();         // per-run directory (current working directory of the run)
void WriteFile(const std::string& path, const std::string& content);
std::string ReadFile(const std::string& path);
bool FileExists(const std::string& path);
std::vector<std::string> ListTree(const std::string& dir);  // relative file paths, sorted
struct Real { Real(); ~Real(); bool c, d; };  // scope: harness' own I/O bypasses the seams
}  // namespace sim
