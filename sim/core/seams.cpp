#include "seams.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <random>

namespace sim {
HostClock g_clock;
HostEntropy g_entropy;
HostDisk g_disk;

static void Advance(int64_t ns) { g_clock.wall_ns += ns; g_clock.mono_ns += ns; }
static int SimSleep(const struct timespec* req) {
  if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) { errno = EINVAL; return -1; }
  int64_t ns = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec, took = ns;
  if (g_clock.on_sleep) took = g_clock.on_sleep(ns);
  g_clock.sleeps++; g_clock.slept_ns += took; Advance(took);
  if (took < ns) { errno = EINTR; return -1; }
  return 0;
}
Real::Real() { c = g_clock.active; d = g_disk.active; g_clock.active = false; g_disk.active = false; }
Real::~Real() { g_clock.active = c; g_disk.active = d; }

std::string ScratchDir() { char b[4096]; return getcwd(b, sizeof b) ? b : "."; }
static void MkParents(const std::string& path) {
  for (size_t i = 1; i < path.size(); i++) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
}
void WriteFile(const std::string& path, const std::string& c) {
  Real r; MkParents(path);
  int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { fprintf(stderr, "harness: cannot write %s\n", path.c_str()); _exit(97); }
  size_t o = 0; while (o < c.size()) { ssize_t n = syscall(SYS_write, fd, c.data() + o, c.size() - o); if (n <= 0) _exit(97); o += n; }
  syscall(SYS_close, fd);
}
std::string ReadFile(const std::string& path) {
  Real r; std::string s; int fd = ::open(path.c_str(), O_RDONLY); if (fd < 0) return s;
  char b[65536]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
  syscall(SYS_close, fd); return s;
}
bool FileExists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static void Walk(const std::string& d, const std::string& rel, std::vector<std::string>& out) {
  DIR* D = opendir(d.c_str()); if (!D) return;
  while (dirent* e = readdir(D)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string f = d + "/" + n, r = rel.empty() ? n : rel + "/" + n; struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) Walk(f, r, out); else out.push_back(r);
  }
  closedir(D);
}
std::vector<std::string> ListTree(const std::string& dir) { std::vector<std::string> v; Walk(dir, "", v); std::sort(v.begin(), v.end()); return v; }

static std::string g_fd_path[1024];
static bool Mine(const char* p) { return p && strstr(p, "/logs") != nullptr; }  // simulated disk = the log tree of the run
static std::string g_fd_read[1024];  // same for files that are only read: products of other services
static bool MineRead(const char* p) { return p && (strstr(p, "/products/") != nullptr || !strncmp(p, "products/", 9)); }
static bool g_busy = false;
}  // namespace sim

using namespace sim;
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!g_clock.active) return syscall(SYS_clock_gettime, id, ts);
  g_clock.reads++; if (g_clock.on_read) g_clock.on_read();
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_clock.wall_ns : g_clock.mono_ns;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (!g_clock.active) return syscall(SYS_gettimeofday, tv, tz);
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
  if (!g_clock.active) return syscall(SYS_nanosleep, req, rem);
  return SimSleep(req);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem) {
  if (!g_clock.active) return syscall(SYS_clock_nanosleep, id, flags, req, rem) ? errno : 0;
  if (flags & TIMER_ABSTIME) {
    int64_t now = id == CLOCK_REALTIME ? g_clock.wall_ns : g_clock.mono_ns, tgt = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
    if (tgt <= now) return 0;
    struct timespec d = {(tgt - now) / 1000000000, (tgt - now) % 1000000000}; return SimSleep(&d) ? errno : 0;
  }
  return SimSleep(req) ? errno : 0;
}
int usleep(useconds_t us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }

// ---- disk: libstdc++ file streams and stdio open through fopen, write through write/writev
static FILE* RealOpen(const char* p, const char* m) {
  static FILE* (*f)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  return f(p, m);
}
static FILE* SimFopen(const char* p, const char* m) {
  if (g_disk.active && !g_busy && Mine(p) && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) {
    g_busy = true; DiskFate ft; if (g_disk.fate) ft = g_disk.fate({DiskOp::kOpen, p, 0, g_disk.opens}); g_disk.opens++; g_busy = false;
    if (ft.err) { errno = ft.err; return nullptr; }
    FILE* f = RealOpen(p, m); if (f && fileno(f) < 1024) { g_fd_path[fileno(f)] = p; g_fd_read[fileno(f)].clear(); } return f;
  }
  bool rd = g_disk.active && !g_busy && MineRead(p);
  if (rd) { g_busy = true; DiskFate ft; if (g_disk.fate) ft = g_disk.fate({DiskOp::kOpenRead, p, 0, g_disk.opens}); g_disk.opens++; g_busy = false; if (ft.err) { errno = ft.err; return nullptr; } }
  FILE* f = RealOpen(p, m); if (f && fileno(f) >= 0 && fileno(f) < 1024) { g_fd_path[fileno(f)].clear(); g_fd_read[fileno(f)] = rd ? p : ""; } return f;
}
FILE* fopen(const char* p, const char* m) { return SimFopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return SimFopen(p, m); }
static ssize_t SimWrite(int fd, const void* b, size_t n) {
  if (g_disk.active && !g_busy && fd >= 0 && fd < 1024 && !g_fd_path[fd].empty()) {
    g_busy = true; DiskFate ft; if (g_disk.fate) ft = g_disk.fate({DiskOp::kWrite, g_fd_path[fd], n, g_disk.writes}); g_disk.writes++; g_busy = false;
    if (ft.err) { errno = ft.err; return -1; }
    if (ft.lose) return (ssize_t)n;
    if (ft.accept < n) n = ft.accept;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
  if (g_disk.active && !g_busy && fd >= 0 && fd < 1024 && !g_fd_read[fd].empty()) {
    g_busy = true; DiskFate ft; if (g_disk.fate) ft = g_disk.fate({DiskOp::kRead, g_fd_read[fd], n, (long)syscall(SYS_lseek, fd, 0, SEEK_CUR)}); g_disk.reads++; g_busy = false;
    if (ft.err) { errno = ft.err; return -1; }
    if (ft.accept < n) n = ft.accept;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) { return SimWrite(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!(g_disk.active && fd >= 0 && fd < 1024 && !g_fd_path[fd].empty())) return syscall(SYS_writev, fd, v, c);
  std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return SimWrite(fd, all.data(), all.size());
}
}

// ---- entropy: std::random_device
namespace std {
random_device::result_type random_device::_M_getval() {
  if (!g_entropy.active) { unsigned v; syscall(SYS_getrandom, &v, sizeof v, 0); return v; }
  g_entropy.draws++;
  uint64_t z = (g_entropy.state += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z ^= z >> 27;
  return (unsigned)z;
}
}  // namespace std
