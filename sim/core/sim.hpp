// Deterministic simulator core: scripts, seeded randomness, run context, property registry.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness of the simulator itself
class Rng {
 public:
  // the seed goes through the mixer twice: consecutive seeds must not give shifted copies of one stream
  explicit Rng(uint64_t s) : s_(s + 0x1234567ull) { uint64_t a = U64(); s_ = a ^ 0xD1B54A32D192ED03ull; s_ = U64(); for (int i = 0; i < 4; i++) U64(); }
  uint64_t U64() {
    uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double Uni() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  double Uni(double a, double b) { return a + (b - a) * Uni(); }
  double LogUni(double a, double b);
  long Int(long a, long b) { return a + (long)(U64() % (uint64_t)(b - a + 1)); }  // inclusive
  bool Chance(double p) { return Uni() < p; }
  double Sign() { return Chance(0.5) ? 1.0 : -1.0; }
  double Gauss();
  template <class T> const T& Pick(const std::vector<T>& v) { return v[U64() % v.size()]; }
 private:
  uint64_t s_;
};

// ---------------------------------------------------------------- script = one exactly repeatable execution
struct Event {
  long t = 0;
  std::string kind;
  std::vector<double> a;
  std::string s;
  double A(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; }
  long I(size_t i, long d = 0) const { return i < a.size() ? (long)a[i] : d; }
};
struct Script {
  std::string property;
  uint64_t seed = 0;
  std::map<std::string, double> p;        // numeric parameters
  std::map<std::string, std::string> sp;  // text parameters
  std::vector<Event> ev;
  double P(const std::string& k, double d = 0) const { auto i = p.find(k); return i == p.end() ? d : i->second; }
  long L(const std::string& k, long d = 0) const { auto i = p.find(k); return i == p.end() ? d : (long)i->second; }
  std::string S(const std::string& k, const std::string& d = "") const { auto i = sp.find(k); return i == sp.end() ? d : i->second; }
  Event& Add(long t, const std::string& kind, std::vector<double> a = {}, const std::string& s = "") {
    ev.push_back({t, kind, std::move(a), s}); return ev.back();
  }
  void SortEvents();
  std::string Text() const;
  static bool Parse(const std::string& text, Script& out, std::map<std::string, std::string>* meta = nullptr);
};

// ---------------------------------------------------------------- outcome of a run
struct Violation { std::string key, detail; };

class Ctx {
 public:
  // Report a violation: key = short stable class of the failure, then a printf-style detail.
  [[noreturn]] void Fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void Check(bool ok, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  void Near(double got, double want, double tol, const std::string& key, const std::string& what);  // |got-want|<=tol, NaN fails
  void Count(const std::string& k, double n = 1) { counts[k] += n; }        // faults and events injected
  void Probe(const std::string& k, double n = 1) { probes[k] += n; }        // predicate evaluations
  void State(uint64_t h) { if (states.size() < 4000) states.insert(h); }     // distinct states / interleavings reached
  void State(const std::string& s);
  void Hist(uint64_t v) { hash = (hash ^ v) * 0x100000001B3ull; hash ^= hash >> 29; }
  void Hist(double v) { uint64_t u; static_assert(sizeof u == sizeof v, ""); __builtin_memcpy(&u, &v, 8); Hist(u); }
  void Hist(const std::string& s) { for (unsigned char c : s) Hist((uint64_t)c); }
  void Trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)));    // shown on replay
  void AllowExit();  // from here on, exit() by the code under test is a legal, clean outcome
  uint64_t hash = 0xcbf29ce484222325ull;
  double sim_time_s = 0;
  bool nontrivial = false;
  bool tracing = false;
  long evaluated = 0;
  std::map<std::string, double> counts, probes;
  std::set<uint64_t> states;
};

struct Property {
  std::string id;
  std::function<Script(uint64_t seed, bool thorough)> generate;
  std::function<void(const Script&, Ctx&)> execute;
  long quick_runs = 2000;
  long thorough_runs = 50000;
  std::map<std::string, double> simple;        // parameter values tried by the minimiser
  std::string level_note, real, stub, states_measure;
  // optional: scripted scenarios that are always executed first
  std::function<std::vector<Script>()> fixed;
  double cpu_limit_s = 60;
  bool allow_exit = false;  // exit() of the program under test is a legal outcome (decided by execute via atexit hook)
};
void Register(Property p);
struct Registrar { Registrar(Property p) { Register(std::move(p)); } };
const std::vector<Property>& Properties();

uint64_t Hash64(const void* d, size_t n, uint64_t h = 0xcbf29ce484222325ull);
uint64_t Hash64(const std::string& s);
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Child re-execution in a fresh process (own memory garbage): used where the property is reproducibility itself.
// Returns history hash of the script executed with the given host noise.
int Main(int argc, char** argv);

}  // namespace sim
