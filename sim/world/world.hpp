// A whole simulated mission in one process: settings written to the scratch directory, the real SimulationCase main loop,
// real spacecraft and ground stations, with hooks before and after every step.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <simulation/case/simulation_case.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/multiple_spacecraft/relative_information.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
#include "core/seams.hpp"
#include "core/sim.hpp"

namespace sim {
using V3 = s2e::math::Vector<3>;
using Quat = s2e::math::Quaternion;

class Ini {
 public:
  struct Item { std::string sec, key, val; };
  Ini() {}
  static Ini Load(const std::string& path);
  Ini& Set(const std::string& sec, const std::string& key, const std::string& val);
  Ini& Set(const std::string& sec, const std::string& key, const char* val) { return Set(sec, key, std::string(val)); }
  Ini& Set(const std::string& sec, const std::string& key, double val) { return Set(sec, key, Fmt("%.17g", val)); }
  Ini& Vec(const std::string& sec, const std::string& key, const std::vector<double>& v);
  Ini& Vec(const std::string& sec, const std::string& key, const V3& v) { return Vec(sec, key, std::vector<double>{v[0], v[1], v[2]}); }
  Ini& Enable(const std::string& sec, const std::string& key, bool on) { return Set(sec, key, on ? "ENABLE" : "DISABLE"); }
  Ini& Del(const std::string& sec, const std::string& key);
  Ini& Retarget(const std::string& from, const std::string& to);  // replace in every value
  std::string Get(const std::string& sec, const std::string& key) const;
  std::string Text() const;
  std::vector<Item> items;
};

// Settings tree of one mission: base file, one directory per spacecraft and ground station.
class Settings {
 public:
  explicit Settings(int spacecraft = 1, int ground_stations = 0);
  Ini base, gnss;
  std::vector<Ini> sat, local, disturb, structure, gs, gs_antenna, gs_calc;
  std::map<std::string, Ini> comp;            // "0/gyro_sensor" -> ini, loaded on first use
  Ini& Comp(int sc, const std::string& name);
  std::string CompFile(int sc, const std::string& name) const { return Fmt("settings/sat%d/components/%s.ini", sc, name.c_str()); }
  void Duration(double s) { base.Set("TIME", "simulation_duration_s", s); }
  void AllDisturbancesOff(int sc);
  void AllNoiseOff(int sc);
  void Quiet();                               // no log of settings files, small output
  void Write() const;                         // below the current directory
  static std::string BaseFile() { return "settings/base.ini"; }
  static const std::string& TemplateDir();
};

class Parts : public s2e::spacecraft::InstalledComponents {
 public:
  std::function<V3()> force, torque;
  std::function<void()> interference;
  std::function<void(s2e::logger::Logger&)> log;
  std::vector<std::shared_ptr<void>> owned;   // destroyed last-to-first
  V3 GenerateForce_b_N() override { return force ? force() : V3(0.0); }
  V3 GenerateTorque_b_Nm() override { return torque ? torque() : V3(0.0); }
  void ComponentInterference() override { if (interference) interference(); }
  void LogSetup(s2e::logger::Logger& l) override { if (log) log(l); }
  ~Parts() override { while (!owned.empty()) owned.pop_back(); }
};

class Craft : public s2e::spacecraft::Spacecraft {
 public:
  using Build = std::function<void(Craft&, Parts&)>;
  Craft(const s2e::simulation::SimulationConfiguration* conf, const s2e::environment::GlobalEnvironment* glo, int id,
        s2e::simulation::RelativeInformation* rel, const Build& build)
      : s2e::spacecraft::Spacecraft(conf, glo, id, rel), config(conf), global(glo) {
    parts = new Parts; components_ = parts; if (build) build(*this, *parts);
  }
  s2e::environment::ClockGenerator& Clock() { return clock_generator_; }
  s2e::dynamics::Dynamics& Dyn() { return *dynamics_; }
  s2e::environment::LocalEnvironment& Env() { return *local_environment_; }
  s2e::disturbances::Disturbances& Dist() { return *disturbances_; }
  s2e::spacecraft::Structure& Struct() { return *structure_; }
  Parts* parts;
  const s2e::simulation::SimulationConfiguration* config;
  const s2e::environment::GlobalEnvironment* global;
};

struct AbortCase {};

class Case : public s2e::simulation::SimulationCase {
 public:
  struct Hooks {
    Craft::Build build;                              // installs the components of a craft
    std::function<void(Case&)> ready;                // after construction of all objects
    std::function<void(Case&, long)> before, after;  // around the update of all objects of one step (1-based)
  };
  Case(const Hooks& h, bool relative = false) : SimulationCase(Settings::BaseFile()), hooks(h), use_relative(relative) {}
  Case(const Hooks& h, bool relative, const s2e::simulation::MonteCarloSimulationExecutor& mc, const std::string& log_path)
      : SimulationCase(Settings::BaseFile(), mc, log_path), hooks(h), use_relative(relative) {}
  ~Case() override { craft.clear(); }
  const s2e::environment::SimulationTime& Time() const { return global_environment_->GetSimulationTime(); }
  s2e::environment::GlobalEnvironment& Global() { return *global_environment_; }
  s2e::logger::Logger& Log() { return *simulation_configuration_.main_logger_; }
  s2e::simulation::SimulationConfiguration& Conf() { return simulation_configuration_; }
  Hooks hooks;
  bool use_relative, skip_ground = false;
  s2e::simulation::RelativeInformation relative;
  std::vector<std::unique_ptr<Craft>> craft;
  std::vector<std::unique_ptr<s2e::ground_station::GroundStation>> ground;
  long step = 0;
 protected:
  void InitializeTargetObjects() override;
  void UpdateTargetObjects() override;
};

// Writes the settings and runs the real main loop to its end. Returns number of steps.
long Fly(const Settings& s, const Case::Hooks& h, bool relative = false);

// ---- small helpers on vectors
inline V3 Vec(double x, double y, double z) { V3 v; v[0] = x; v[1] = y; v[2] = z; return v; }
inline double Norm(const V3& v) { return v.CalcNorm(); }
inline V3 RandDir(Rng& r) { V3 v = Vec(r.Gauss(), r.Gauss(), r.Gauss()); double n = Norm(v); if (n < 1e-9) return Vec(1, 0, 0); return (1.0 / n) * v; }
inline void Hist(Ctx& c, const V3& v) { for (int i = 0; i < 3; i++) c.Hist(v[i]); }
inline bool Finite(const V3& v) { return std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(v[2]); }
void NearV(Ctx& c, const V3& got, const V3& want, double tol, const std::string& key, const std::string& what);
// independent rotation: v_b from v_i by quaternion i2b (x,y,z,w), own formula
V3 RotI2B(const Quat& q, const V3& v);
V3 RotB2I(const Quat& q, const V3& v);
Quat RandQuat(Rng& r);
}  // namespace sim
