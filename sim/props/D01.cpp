// Same configuration and seed, different host: everything the simulation produces must be identical.
#include <math_physics/randomization/global_randomization.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include "world/child.hpp"
#include "world/mission.hpp"
using namespace sim;
namespace {
Script Gen(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 2; o.max_steps = thorough ? 150 : 40; s.p["seedonly"] = r.Chance(0.3);
  if (s.p["seedonly"]) { o.noise = 1; o.parts_mask = kAllParts & ~(kRw | kMtq | kThr | kForce | kTorque | kInterf); }
  GenMission(r, s, o); s.p["host1"] = (double)r.Int(1, 1000000000); s.p["host2"] = (double)r.Int(1, 1000000000); s.p["seed2"] = (double)r.Int(1, 2000000000);
  return s;
}
struct Out { std::string names, log; std::vector<double> rows; size_t width = 0; };
ChildResult Fly1(const Script& s, const char* dir, uint64_t host, long seed, bool env_noise, bool preexisting) {
  return InChild([&] {
    mkdir(dir, 0755); if (chdir(dir)) _exit(94);
    Settings st = MissionSettings(s, AllDefs(s)); if (!env_noise) for (long i = 0; i < s.L("n"); i++) st.AllNoiseOff((int)i);
    if (preexisting) st.base.Enable("SIMULATION_SETTINGS", "save_initialize_files", true);
    st.Write(); WriteGravityFiles();
    if (preexisting) { WriteFile("logs/old.csv", std::string(5000, '7')); WriteFile("logs/satellite.ini", "[ORBIT]\ncalculation = DISABLE\n"); }
    HostNoise{host}.Apply();
    s2e::randomization::global_randomization.SetSeed(seed);
    std::vector<double> rows; std::vector<std::string> names; Mission m(s, AllDefs(s));
    m.after = [&](Case& c, long step) {
      Row w; std::vector<std::string> nn; if (step == 1) w.names = &nn;
      for (size_t i = 0; i < c.craft.size(); i++) {
        auto mark = [&](const char* cls) { for (size_t k = names.size(); k < nn.size(); k++) names.push_back(Fmt("%s:%zu:%s", cls, i, nn[k].c_str())); };
        SampleTruth(*c.craft[i], w); mark("truth"); SampleField(*c.craft[i], w); mark("field"); SampleParts(*m.kits[i], w); mark("part");
      }
      w.D("elapsed", c.Time().GetElapsedTime_s()); if (step == 1) names.push_back("truth:0:elapsed");
      rows.insert(rows.end(), w.v.begin(), w.v.end());
    };
    { Case c(m.Hooks(), true); c.Initialize(); c.Main(); }
    std::string o, nm; for (auto& n : names) nm += n + "\n"; PutBlob(o, nm); PutBlob(o, Bytes(rows)); { Real real; PutBlob(o, FindLog("logs", "_default.csv")); } return o;
  });
}
Out Take(Ctx& c, const ChildResult& r) {
  if (!r.ok) c.Fail("aborted", "the simulation %s", r.why.c_str());
  Out o; size_t p = 0; o.names = GetBlob(r.out, p); o.rows = Doubles(GetBlob(r.out, p)); o.log = GetBlob(r.out, p); o.width = (size_t)std::count(o.names.begin(), o.names.end(), '\n'); return o;
}
std::string Name(const Out& o, size_t k) { size_t p = 0; while (k--) p = o.names.find('\n', p) + 1; return o.names.substr(p, o.names.find('\n', p) - p); }
void Same(Ctx& c, const Out& a, const Out& b, const char* what, bool truth_only) {
  c.Check(a.names == b.names && a.rows.size() == b.rows.size() && a.width, "shape", "%s: the two runs have different lengths (%zu and %zu values)", what, a.rows.size(), b.rows.size());
  for (size_t i = 0; i < a.rows.size(); i++) {
    if (!memcmp(&a.rows[i], &b.rows[i], 8) || (std::isnan(a.rows[i]) && std::isnan(b.rows[i]))) continue;
    std::string n = Name(a, i % a.width); if (truth_only && n.compare(0, 4, "part") == 0) continue;
    c.Fail(truth_only ? "truth-differs" : "differs", "%s: step %zu, %s: %.17g and %.17g", what, i / a.width + 1, n.c_str(), a.rows[i], b.rows[i]);
  }
  c.Probe("values compared", (double)a.rows.size());
  if (truth_only) return;
  size_t k = 0; while (k < a.log.size() && k < b.log.size() && a.log[k] == b.log[k]) k++;
  c.Check(a.log == b.log && !a.log.empty(), "log-differs", "%s: the logs (%zu and %zu bytes) differ at byte %zu (%s): \"%s\" / \"%s\"", what, a.log.size(), b.log.size(), k, LogPlace(a.log, k).c_str(), a.log.substr(k, 30).c_str(), b.log.substr(k, 30).c_str());
}
void Run(const Script& s, Ctx& c) {
  bool so = s.P("seedonly"); long seed = s.L("seed", 1);
  Out a = Take(c, Fly1(s, "a", (uint64_t)s.P("host1"), seed, !so, false));
  c.Count("hosts simulated"); c.sim_time_s += s.P("dt", 1) * s.P("steps");
  if (!so) {
    Out b = Take(c, Fly1(s, "b", (uint64_t)s.P("host2"), seed, true, true)); c.Count("hosts simulated"); Same(c, a, b, "same seed, different host", false);
    c.sim_time_s += s.P("dt", 1) * s.P("steps");
  } else {
    Out b = Take(c, Fly1(s, "b", (uint64_t)s.P("host2"), s.L("seed2", 2), false, true)); c.Count("seed changes"); Same(c, a, b, "different seed, sensor noise only", true);
    if (s.L("seed2") != seed) {
      size_t steps = a.width ? a.rows.size() / a.width : 0; long comp = (long)s.P("m_comp", 1);
      for (const char* n : {"gyro[0]", "magnetometer[1]", "rate observer[2]", "attitude observer[0]", "orbit observer position[0]"})
        for (size_t k = 0; k < a.width; k++) {
          std::string nm = Name(a, k); if (nm.compare(0, 5, "part:") || nm.substr(nm.find(':', 5) + 1) != n) continue;
          bool cut = false; for (auto& e : s.ev) cut = cut || e.kind == "power"; if (cut || (long)steps < 4 * comp + 2) continue;
          bool moved = false, differ = false; for (size_t t = 0; t < steps; t++) { moved = moved || a.rows[t * a.width + k] != 0; differ = differ || a.rows[t * a.width + k] != b.rows[t * a.width + k]; }
          if (!moved) continue;  // never sampled, or outside its range
          c.Check(differ, "noise-frozen", "%s: changing the seed did not change the noise of this output", nm.c_str()); c.Probe("noise changed with seed");
        }
    }
  }
  for (double v : a.rows) c.Hist(v); c.Hist(a.log);
  uint64_t cfg = 0; for (long d = 0; d < s.L("n"); d++) cfg = cfg * 31 + (uint64_t)s.P(Fmt("s%ld.parts", d)) + 70000 * (uint64_t)(s.P(Fmt("s%ld.att", d)) * 4 + s.P(Fmt("s%ld.orb", d)));
  c.State(cfg); c.nontrivial = a.rows.size() > 100;
}
Registrar reg{[] { Property p; p.id = "D01"; p.generate = Gen; p.execute = Run; p.quick_runs = 500; p.thorough_runs = 20000;
  p.states_measure = "distinct combinations of installed components, attitude and orbit modes"; p.real = "SimulationCase, Spacecraft, environment, disturbances, dynamics, all listed components, Logger";
  p.stub = "ephemeris (SPICE) and NRLMSISE libraries"; p.level_note = "host state varied: wall clock value and drift, time zone, entropy, rand state, heap and stack contents, log directory contents"; return p; }()};
}  // namespace
