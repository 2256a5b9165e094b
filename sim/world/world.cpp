#include "world.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <sstream>
#ifndef SIM_SETTINGS
#error SIM_SETTINGS
#endif
namespace sim {
const std::string& Settings::TemplateDir() { static std::string d = SIM_SETTINGS; return d; }

static std::string Trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
Ini Ini::Load(const std::string& path) {
  Ini ini; std::istringstream is(ReadFile(path)); std::string line, sec;
  while (std::getline(is, line)) {
    line = Trim(line);
    if (line.empty() || line[0] == ';' || line[0] == '#' || line.compare(0, 2, "//") == 0) continue;
    if (line[0] == '[') { sec = line.substr(1, line.find(']') - 1); continue; }
    size_t eq = line.find('='); if (eq == std::string::npos) continue;
    std::string k = Trim(line.substr(0, eq)), v = line.substr(eq + 1);
    for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == '/' && v[i + 1] == '/' && (i == 0 || v[i - 1] == ' ' || v[i - 1] == '\t')) { v = v.substr(0, i); break; }
    for (size_t i = 1; i < v.size(); i++) if (v[i] == ';' && (v[i - 1] == ' ' || v[i - 1] == '\t')) { v = v.substr(0, i); break; }
    ini.items.push_back({sec, k, Trim(v)});
  }
  return ini;
}
Ini& Ini::Set(const std::string& sec, const std::string& key, const std::string& val) {
  for (auto& i : items) if (i.sec == sec && i.key == key) { i.val = val; return *this; }
  items.push_back({sec, key, val}); return *this;
}
Ini& Ini::Vec(const std::string& sec, const std::string& key, const std::vector<double>& v) {
  for (size_t i = 0; i < v.size(); i++) Set(sec, key + "(" + std::to_string(i) + ")", v[i]);
  return *this;
}
Ini& Ini::Del(const std::string& sec, const std::string& key) {
  for (size_t i = 0; i < items.size(); i++) if (items[i].sec == sec && items[i].key == key) { items.erase(items.begin() + i); break; }
  return *this;
}
Ini& Ini::Retarget(const std::string& from, const std::string& to) {
  for (auto& i : items) { size_t p = 0; while ((p = i.val.find(from, p)) != std::string::npos) { i.val.replace(p, from.size(), to); p += to.size(); } }
  return *this;
}
std::string Ini::Get(const std::string& sec, const std::string& key) const {
  for (auto& i : items) if (i.sec == sec && i.key == key) return i.val;
  return "";
}
std::string Ini::Text() const {
  std::string o; std::vector<std::string> secs;
  for (auto& i : items) { bool f = false; for (auto& s : secs) f = f || s == i.sec; if (!f) secs.push_back(i.sec); }
  for (auto& s : secs) { o += "[" + s + "]\n"; for (auto& i : items) if (i.sec == s) o += i.key + " = " + i.val + "\n"; o += "\n"; }
  return o;
}

static const Ini& Template(const std::string& rel) {
  static std::map<std::string, Ini> cache; auto it = cache.find(rel);
  if (it == cache.end()) it = cache.emplace(rel, Ini::Load(Settings::TemplateDir() + "/" + rel)).first;
  return it->second;
}
static std::string SatDir(int i) { return "SETTINGS_DIR_FROM_EXE/sat" + std::to_string(i); }
Settings::Settings(int n, int g) {
  base = Template("sample_simulation_base.ini"); gnss = Template("environment/sample_gnss.ini");
  base.Set("SIMULATION_SETTINGS", "number_of_simulated_spacecraft", n).Set("SIMULATION_SETTINGS", "number_of_simulated_ground_station", g);
  base.Set("SIMULATION_SETTINGS", "log_file_save_directory", "logs/");
  base.Del("SIMULATION_SETTINGS", "spacecraft_file(0)").Del("SIMULATION_SETTINGS", "ground_station_file(0)");
  for (int i = 0; i < n; i++) {
    base.Set("SIMULATION_SETTINGS", Fmt("spacecraft_file(%d)", i), SatDir(i) + "/satellite.ini");
    auto load = [&](const char* f) { Ini x = Template(std::string("sample_satellite/") + f); x.Retarget("SETTINGS_DIR_FROM_EXE/sample_satellite", SatDir(i)); return x; };
    sat.push_back(load("satellite.ini")); local.push_back(load("local_environment.ini")); disturb.push_back(load("disturbance.ini")); structure.push_back(load("structure.ini"));
  }
  for (int i = 0; i < g; i++) {
    base.Set("SIMULATION_SETTINGS", Fmt("ground_station_file(%d)", i), Fmt("SETTINGS_DIR_FROM_EXE/gs%d/ground_station.ini", i));
    auto load = [&](const char* f) { Ini x = Template(std::string("sample_ground_station/") + f); x.Retarget("SETTINGS_DIR_FROM_EXE/sample_ground_station", Fmt("SETTINGS_DIR_FROM_EXE/gs%d", i)); return x; };
    gs.push_back(load("ground_station.ini")); gs_antenna.push_back(load("components/ground_station_antenna.ini")); gs_calc.push_back(load("components/ground_station_calculator.ini"));
  }
}
Ini& Settings::Comp(int sc, const std::string& name) {
  std::string k = std::to_string(sc) + "/" + name; auto it = comp.find(k);
  if (it == comp.end()) { Ini x = Template("sample_satellite/components/" + name + ".ini"); x.Retarget("SETTINGS_DIR_FROM_EXE/sample_satellite", SatDir(sc)); it = comp.emplace(k, x).first; }
  return it->second;
}
void Settings::AllDisturbancesOff(int i) {
  for (const char* s : {"GEOPOTENTIAL", "LUNAR_GRAVITY_FIELD", "MAGNETIC_DISTURBANCE", "AIR_DRAG", "SOLAR_RADIATION_PRESSURE_DISTURBANCE", "GRAVITY_GRADIENT", "THIRD_BODY_GRAVITY"})
    disturb[i].Set(s, "calculation", "DISABLE");
}
void Settings::AllNoiseOff(int i) {
  local[i].Set("MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_random_walk_standard_deviation_nT", 0.0).Set("MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_random_walk_limit_nT", 0.0)
      .Set("MAGNETIC_FIELD_ENVIRONMENT", "magnetic_field_white_noise_standard_deviation_nT", 0.0);
  local[i].Set("ATMOSPHERE", "air_density_standard_deviation", 0.0);
  structure[i].Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_speed_Am2", 0.0).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_random_walk_limit_Am2", 0.0).Set("RESIDUAL_MAGNETIC_MOMENT", "rmm_white_noise_standard_deviation_Am2", 0.0);
}
void Settings::Quiet() { base.Set("SIMULATION_SETTINGS", "save_initialize_files", "DISABLE"); }
void Settings::Write() const {
  WriteFile("settings/base.ini", base.Text()); WriteFile("settings/environment/sample_gnss.ini", gnss.Text());
  mkdir("logs", 0755); mkdir("settings/environment/magnetic_field", 0755);
  if (symlink((TemplateDir() + "/environment/magnetic_field/igrf13.coef").c_str(), "settings/environment/magnetic_field/igrf13.coef")) {}
  for (size_t i = 0; i < sat.size(); i++) {
    std::string d = "settings/sat" + std::to_string(i) + "/";
    WriteFile(d + "satellite.ini", sat[i].Text()); WriteFile(d + "local_environment.ini", local[i].Text());
    WriteFile(d + "disturbance.ini", disturb[i].Text()); WriteFile(d + "structure.ini", structure[i].Text());
    for (const char* t : {"orbit_files", "thermal_csv_files"}) if (!FileExists(d + t) && symlink((TemplateDir() + "/sample_satellite/" + t).c_str(), (d + t).c_str())) {}
    mkdir((d + "components").c_str(), 0755);
    for (const char* t : {"rw_disturbance_csv_files", "wings_command_sender_to_c2a"})
      if (!FileExists(d + "components/" + t) && symlink((TemplateDir() + "/sample_satellite/components/" + t).c_str(), (d + "components/" + t).c_str())) {}
  }
  for (size_t i = 0; i < gs.size(); i++) {
    std::string d = "settings/gs" + std::to_string(i) + "/";
    WriteFile(d + "ground_station.ini", gs[i].Text()); WriteFile(d + "components/ground_station_antenna.ini", gs_antenna[i].Text());
    WriteFile(d + "components/ground_station_calculator.ini", gs_calc[i].Text());
  }
  for (auto& kv : comp) { int sc = atoi(kv.first.c_str()); WriteFile(CompFile(sc, kv.first.substr(kv.first.find('/') + 1)), kv.second.Text()); }
}

void Case::InitializeTargetObjects() {
  for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_spacecraft_; i++)
    craft.emplace_back(new Craft(&simulation_configuration_, global_environment_, i, use_relative ? &relative : nullptr, hooks.build));
  for (unsigned i = 0; i < simulation_configuration_.number_of_simulated_ground_station_; i++)
    ground.emplace_back(new s2e::ground_station::GroundStation(&simulation_configuration_, i));
  for (auto& c : craft) c->LogSetup(Log());
  if (use_relative) relative.LogSetup(Log());
  for (auto& g : ground) g->LogSetup(Log());
  if (hooks.ready) hooks.ready(*this);
}
void Case::UpdateTargetObjects() {
  step++;
  if (hooks.before) hooks.before(*this, step);
  for (auto& c : craft) if (c) c->Update(&Time());
  if (use_relative) relative.Update();
  if (!skip_ground) for (auto& g : ground) for (auto& c : craft) if (c) g->Update(global_environment_->GetCelestialInformation().GetEarthRotation(), *c);
  if (hooks.after) hooks.after(*this, step);
}
long Fly(const Settings& s, const Case::Hooks& h, bool relative) {
  s.Write(); Case c(h, relative); c.Initialize(); c.Main(); return c.step;
}
void NearV(Ctx& c, const V3& got, const V3& want, double tol, const std::string& key, const std::string& what) {
  c.probes["evaluated"] += 1;
  double d = 0; for (int i = 0; i < 3; i++) d += (got[i] - want[i]) * (got[i] - want[i]);
  if (std::sqrt(d) <= tol) return;
  c.Fail(key, "%s: got (%.12g, %.12g, %.12g), expected (%.12g, %.12g, %.12g), difference %.6g > %.3g", what.c_str(), got[0], got[1], got[2], want[0], want[1], want[2], std::sqrt(d), tol);
}
V3 RotI2B(const Quat& q, const V3& v) {
  double x = q[0], y = q[1], z = q[2], w = q[3], n = x * x + y * y + z * z + w * w; V3 o;
  o[0] = ((w * w + x * x - y * y - z * z) * v[0] + 2 * (x * y + w * z) * v[1] + 2 * (x * z - w * y) * v[2]) / n;
  o[1] = (2 * (x * y - w * z) * v[0] + (w * w - x * x + y * y - z * z) * v[1] + 2 * (y * z + w * x) * v[2]) / n;
  o[2] = (2 * (x * z + w * y) * v[0] + 2 * (y * z - w * x) * v[1] + (w * w - x * x - y * y + z * z) * v[2]) / n;
  return o;
}
V3 RotB2I(const Quat& q, const V3& v) { Quat c(-q[0], -q[1], -q[2], q[3]); return RotI2B(c, v); }
Quat RandQuat(Rng& r) {
  double a[4], n = 0; for (double& x : a) { x = r.Gauss(); n += x * x; } n = std::sqrt(n);
  return Quat(a[0] / n, a[1] / n, a[2] / n, a[3] / n);
}
}  // namespace sim
