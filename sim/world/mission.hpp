// Generator of complete random missions: timing, spacecraft definitions (environment, dynamics, disturbances, real components), commands and
// power events. A definition "sK." is independent of the position the spacecraft gets in a run, so that crafts can be added, removed or permuted.
#pragma once
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include "world.hpp"
namespace sim {
enum KitBit { kGyro = 1, kMag = 2, kStar = 4, kSun = 8, kGnss = 16, kMtq = 32, kRw = 64, kThr = 128, kForce = 256, kTorque = 512, kRateObs = 1024, kAttObs = 2048, kOrbObs = 4096, kPower = 8192, kInterf = 16384, kTele = 32768, kAllParts = 65535 };

struct MissionOpt {
  int max_craft = 3; long min_steps = 8, max_steps = 60;
  int noise = -1;        // -1: choose per craft, 0: off, 1: on
  bool exotic = true;    // SGP4 and cantilever vibration among the modes
  bool gravity_files = true;
  int parts_mask = kAllParts;
  bool ground = true;
};
void GenTiming(Rng& r, Script& s, const MissionOpt& o);
void GenCraft(Rng& r, Script& s, int def, const MissionOpt& o);
void GenEvents(Rng& r, Script& s, const MissionOpt& o);
void GenMission(Rng& r, Script& s, const MissionOpt& o);  // p["n"] definitions

// Settings with crafts defs[0], defs[1], ... (definition numbers)
Settings MissionSettings(const Script& s, const std::vector<int>& defs, bool ground = true);
void SilenceComponents(Settings& st, int sc);  // noise, random walk and jitter of the components of one craft off
void WriteGravityFiles();                      // small synthetic gravity field coefficient files

// Real components of one craft.
struct Kit {
  Kit(Craft& c, Parts& p, int parts, const std::string& dir, int def);
  s2e::environment::ClockGenerator* clk;
  std::vector<std::unique_ptr<s2e::components::PowerPort>> port;
  std::unique_ptr<s2e::components::GyroSensor> gyro; std::unique_ptr<s2e::components::Magnetometer> mag; std::unique_ptr<s2e::components::StarSensor> star;
  std::unique_ptr<s2e::components::SunSensor> sun; std::unique_ptr<s2e::components::GnssReceiver> gnss; std::unique_ptr<s2e::components::Magnetorquer> mtq;
  std::unique_ptr<s2e::components::ReactionWheel> rw; std::unique_ptr<s2e::components::SimpleThruster> thr; std::unique_ptr<s2e::components::ForceGenerator> force;
  std::unique_ptr<s2e::components::TorqueGenerator> torque; std::unique_ptr<s2e::components::AngularVelocityObserver> rate_obs;
  std::unique_ptr<s2e::components::AttitudeObserver> att_obs; std::unique_ptr<s2e::components::OrbitObserver> orb_obs;
  std::unique_ptr<s2e::components::SolarArrayPanel> sap; std::unique_ptr<s2e::components::Battery> bat; std::unique_ptr<s2e::components::PcuInitialStudy> pcu;
  std::unique_ptr<s2e::components::MtqMagnetometerInterference> interf; std::unique_ptr<s2e::components::Telescope> tele;
  int def; int log_mask = kAllParts;
  V3 Force() const; V3 Torque() const;
  void Command(const Event& e);
  void LogSetup(s2e::logger::Logger& l);
};

// One sampled row of named values.
struct Row {
  std::vector<double> v; std::vector<std::string>* names = nullptr;
  void D(const char* n, double x) { if (names) names->push_back(n); v.push_back(x); }
  void V(const char* n, const V3& x) { for (int i = 0; i < 3; i++) { if (names) names->push_back(Fmt("%s[%d]", n, i)); v.push_back(x[i]); } }
  void Q(const char* n, const Quat& x) { for (int i = 0; i < 4; i++) { if (names) names->push_back(Fmt("%s[%d]", n, i)); v.push_back(x[i]); } }
};
void SampleTruth(Craft& c, Row& r);
void SampleField(Craft& c, Row& r);      // environment and disturbances
void SampleParts(const Kit& k, Row& r);  // component outputs

// Runs a mission: applies events, owns nothing beyond the case.
struct Mission {
  Mission(const Script& script, std::vector<int> defs) : s(script), order(std::move(defs)) {}
  const Script& s; std::vector<int> order; std::vector<Kit*> kits; std::string dir = "settings";
  std::function<void(Case&)> ready; std::function<void(Case&, long)> before, after;
  Case::Hooks Hooks();
};
std::vector<int> AllDefs(const Script& s);
}  // namespace sim
