#include "child.hpp"
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <ctime>
namespace sim {
static void Raw(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (n <= 0) _exit(96); o += n; } }
static int g_out = -1;
ChildResult InChild(const std::function<std::string()>& f, double) {
  ChildResult r; int p[2]; if (pipe(p)) { r.why = "pipe"; return r; }
  static int serial = 0; std::string ef = ScratchDir() + "/child" + std::to_string(serial++) + ".out";
  fflush(stdout); fflush(stderr); pid_t pid = fork();
  if (pid == 0) {
    int fe = ::open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fe, 1); dup2(fe, 2);
    syscall(SYS_close, p[0]); g_out = p[1]; std::string o; try { o = f(); } catch (const std::exception& e) { Raw(p[1], std::string("X") + e.what()); _exit(95); } catch (...) { Raw(p[1], "Xexception"); _exit(95); } Raw(p[1], "R" + o); _exit(0); }
  if (pid < 0) { r.why = "fork"; return r; }
  syscall(SYS_close, p[1]); std::string s; char b[65536]; ssize_t n; while ((n = syscall(SYS_read, p[0], b, sizeof b)) > 0) s.append(b, n);
  syscall(SYS_close, p[0]); int st = 0; waitpid(pid, &st, 0);
  r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.empty() && s[0] == 'R';
  if (!s.empty()) r.out = s.substr(1);
  if (!r.ok) r.why = WIFSIGNALED(st) ? Fmt("killed by signal %d", WTERMSIG(st)) : Fmt("ended with status %d %s", WEXITSTATUS(st), s.empty() ? "" : r.out.c_str());
  if (!r.ok) {
    std::string e = ReadFile(ef), t; size_t q = e.find("SUMMARY: "); t = q != std::string::npos ? e.substr(q, e.find('\n', q) - q) : e.substr(e.size() > 300 ? e.size() - 300 : 0);
    for (char& ch : t) if (ch == '\n' || ch == '\r') ch = ' ';
    r.why += ": " + t;
  }
  return r;
}
static __attribute__((noinline)) uint64_t DirtyStack(uint64_t seed) {
  Rng r(seed); volatile uint64_t a[32768]; for (auto& x : a) x = seed % 3 ? r.U64() : 0x3ff0000000000000ull + (r.U64() >> 12); uint64_t s = 0; for (auto& x : a) s ^= x; return s;
}
#if defined(__SANITIZE_ADDRESS__)
// the sanitizer fills fresh memory with one fixed byte; a host run fills it with its own
static int g_fill = -1;
}  // namespace sim
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t z) { if (sim::g_fill >= 0 && z <= 4096) memset((void*)p, sim::g_fill, z); }
namespace sim {
#endif
void HostNoise::Apply() const {
  Rng r(seed + 77); bool n = seed != 0;
  g_clock.active = true; g_clock.wall_ns = n ? (int64_t)r.Int(1000000000, 1900000000) * 1000000000ll + r.Int(0, 999999999) : 1577836800000000000ll; g_clock.mono_ns = n ? r.Int(1, 1000000000000) : 1000000000;
  int64_t drift = n ? r.Int(0, 50000000) : 1000; g_clock.on_read = [drift] { g_clock.wall_ns += drift; g_clock.mono_ns += drift; };
  if (n) {
    const std::vector<const char*> tz = {"UTC", "Asia/Tokyo", "EST5EDT", "XYZ-13", "ABC11:30"}; setenv("TZ", r.Pick(tz), 1); tzset();
    g_entropy.active = true; g_entropy.state = r.U64(); srand((unsigned)r.U64()); srandom((unsigned)r.U64()); srand48((long)r.U64());
    void* keep[64]; for (auto& k : keep) { size_t z = (size_t)r.LogUni(8, 60000); k = malloc(z); uint64_t v = r.U64(); for (size_t i = 0; i + 8 <= z; i += 8) memcpy((char*)k + i, &v, 8); }
    for (int i = 0; i < 64; i++) if (r.Chance(0.7)) free(keep[i]);
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, (int)r.Int(1, 255));
#else
    g_fill = (int)r.Int(0, 255);
#endif
    volatile uint64_t s = DirtyStack(r.U64()); (void)s;
  } else { g_entropy.active = true; g_entropy.state = 1; }
}
std::string Bytes(const std::vector<double>& v) { return std::string((const char*)v.data(), v.size() * 8); }
std::vector<double> Doubles(const std::string& s) { std::vector<double> v(s.size() / 8); memcpy(v.data(), s.data(), v.size() * 8); return v; }
void PutBlob(std::string& o, const std::string& b) { uint64_t n = b.size(); o.append((const char*)&n, 8); o += b; }
std::string GetBlob(const std::string& s, size_t& pos) { uint64_t n = 0; if (pos + 8 > s.size()) return ""; memcpy(&n, s.data() + pos, 8); pos += 8; std::string b = s.substr(pos, n); pos += n; return b; }
std::string FindLog(const std::string& dir, const std::string& suf) {
  for (auto& f : ListTree(dir)) if (f.size() >= suf.size() && f.compare(f.size() - suf.size(), suf.size(), suf) == 0) return ReadFile(dir + "/" + f);
  return "";
}
std::string LogPlace(const std::string& log, size_t byte) {
  if (byte > log.size()) byte = log.size();
  size_t row = (size_t)std::count(log.begin(), log.begin() + byte, '\n'), ls = byte ? log.rfind('\n', byte - 1) : std::string::npos; ls = ls == std::string::npos ? 0 : ls + 1;
  size_t col = (size_t)std::count(log.begin() + ls, log.begin() + byte, ','), p = 0; while (col-- && p != std::string::npos) { p = log.find(',', p); if (p != std::string::npos) p++; }
  return Fmt("row %zu, column %s", row, p == std::string::npos ? "?" : log.substr(p, log.find_first_of(",\n", p) - p).c_str());
}
}  // namespace sim
