// The log: faithful record of the run (O01), and what is left of it when the disk misbehaves or the process dies (O02).
#include <errno.h>
#include <math_physics/randomization/global_randomization.hpp>
#include <simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "world/child.hpp"
#include "world/mission.hpp"
using namespace sim;
namespace {
// ---------------------------------------------------------------- O01
struct Snapshot : s2e::logger::ILoggable {
  std::function<void()> take;
  std::string GetLogHeader() const override { return ""; }
  std::string GetLogValue() const override { if (take) take(); return ""; }
};
struct Known { std::string col; int craft; double v; };  // expected value of a column (craft -1: global)
void Snap(Case& c, const std::vector<Kit*>& kits, std::vector<Known>& o, int nv) {
  auto D = [&](int i, const std::string& n, double v) { o.push_back({n, i, v}); };
  auto V = [&](int i, const std::string& n, const std::string& u, const V3& v) { const char* ax[] = {"_x", "_y", "_z"}; for (int k = 0; k < 3; k++) D(i, n + ax[k] + u, v[k]); };
  auto Q = [&](int i, const std::string& n, const Quat& q) { const char* ax[] = {"_x", "_y", "_z", "_w"}; for (int k = 0; k < 4; k++) D(i, n + ax[k], q[k]); };
  D(-1, "elapsed_time[s]", c.Time().GetElapsedTime_s()); (void)nv;
  auto& ci = c.Global().GetCelestialInformation(); for (const char* b : {"EARTH", "SUN", "MOON"}) { std::string l = b; for (char& ch : l) ch = tolower(ch); V(-1, l + "_position_i", "[m]", ci.GetPositionFromCenter_i_m(b)); V(-1, l + "_velocity_i", "[m/s]", ci.GetVelocityFromCenter_i_m_s(b)); }
  for (int i = 0; i < (int)c.craft.size(); i++) {
    Craft& x = *c.craft[i]; auto& a = x.Dyn().GetAttitude(); auto& ob = x.Dyn().GetOrbit(); auto& e = x.Env(); Kit& k = *kits[i]; std::string s = "spacecraft_";
    V(i, s + "angular_velocity_b", "[rad/s]", a.GetAngularVelocity_b_rad_s()); Q(i, s + "quaternion_i2b", a.GetQuaternion_i2b()); D(i, s + "total_angular_momentum[Nms]", a.GetTotalAngularMomentNorm_Nms()); D(i, s + "kinematic_energy[J]", a.GetKineticEnergy_J());
    V(i, s + "position_i", "[m]", ob.GetPosition_i_m()); V(i, s + "position_ecef", "[m]", ob.GetPosition_ecef_m()); V(i, s + "velocity_i", "[m/s]", ob.GetVelocity_i_m_s()); V(i, s + "velocity_b", "[m/s]", ob.GetVelocity_b_m_s());
    auto g = ob.GetGeodeticPosition(); D(i, s + "latitude[rad]", g.GetLatitude_rad()); D(i, s + "longitude[rad]", g.GetLongitude_rad()); D(i, s + "altitude[m]", g.GetAltitude_m());
    V(i, "geomagnetic_field_at_spacecraft_position_i", "[nT]", e.GetGeomagneticField().GetGeomagneticField_i_nT()); V(i, "geomagnetic_field_at_spacecraft_position_b", "[nT]", e.GetGeomagneticField().GetGeomagneticField_b_nT());
    D(i, "solar_radiation_pressure_at_spacecraft_position[N/m2]", e.GetSolarRadiationPressure().GetPressure_N_m2()); D(i, "shadow_coefficient_at_spacecraft_position", e.GetSolarRadiationPressure().GetShadowCoefficient()); D(i, "air_density_at_spacecraft_position[kg/m3]", e.GetAtmosphere().GetAirDensity_kg_m3());
    D(i, "earth_albedo_W_m2", e.GetEarthAlbedo().GetEarthAlbedoRadiationPower_W_m2()); D(i, "earth_infrared_W_m2", e.GetEarthInfrared().GetEarthInfraredRadiationPower_W_m2());
    for (const char* b : {"EARTH", "SUN", "MOON"}) { std::string l = b; for (char& ch : l) ch = tolower(ch); V(i, l + "_position_from_spacecraft_b", "[m]", e.GetCelestialInformation().GetPositionFromSpacecraft_b_m(b)); }
    auto th = x.Dyn().GetTemperature(); for (auto& nd : th.GetNodes()) if (nd.GetNodeType() != s2e::dynamics::thermal::NodeType::kBoundary) {
      std::string id = Fmt("_%zu (%s)", (size_t)nd.GetNodeId(), nd.GetNodeName().c_str()); D(i, "temp" + id + "[deg]", nd.GetTemperature_degC()); D(i, "solar" + id + "[W]", nd.GetSolarRadiation_W()); D(i, "albedo" + id + "[W]", nd.GetAlbedoRadiation_W()); D(i, "earthIR" + id + "[W]", nd.GetEarthInfraredRadiation_W());
    }
    if (k.gyro) V(i, "gyro_sensor1_measured_angular_velocity_c", "[rad/s]", k.gyro->GetMeasuredAngularVelocity_c_rad_s());
    if (k.mag) V(i, "magnetometer1_measured_magnetic_field_c", "[nT]", k.mag->GetMeasuredMagneticField_c_nT());
    if (k.star) { Q(i, "stt1_measured_quaternion_i2c", k.star->GetMeasuredQuaternion_i2c()); D(i, "stt1_error_flag", k.star->GetErrorFlag()); }
    if (k.sun) { V(i, "sun_sensor1_measured_sun_direction_c", "[-]", k.sun->GetMeasuredSunDirection_c()); D(i, "sun_sensor1_sun_detected_flag[-]", k.sun->GetSunDetectedFlag()); }
    if (k.gnss) { V(i, "gnss_receiver1_measured_position_ecef", "[m]", k.gnss->GetMeasuredPosition_ecef_m()); V(i, "gnss_receiver1_measured_velocity_ecef", "[m/s]", k.gnss->GetMeasuredVelocity_ecef_m_s()); auto q = k.gnss->GetMeasuredGeodeticPosition(); D(i, "gnss_receiver1_measured_latitude[rad]", q.GetLatitude_rad()); D(i, "gnss_receiver1_measured_longitude[rad]", q.GetLongitude_rad()); D(i, "gnss_receiver1_measured_altitude[m]", q.GetAltitude_m()); }
    if (k.mtq) V(i, "magnetorquer1_output_torque_b", "[Nm]", k.mtq->GetOutputTorque_b_Nm());
    if (k.rw) D(i, "rw1_angular_velocity[rad/s]", k.rw->GetAngularVelocity_rad_s());
    if (k.thr) { V(i, "simple_thruster1_output_thrust_b", "[N]", k.thr->GetOutputThrust_b_N()); V(i, "simple_thruster1_output_torque_b", "[Nm]", k.thr->GetOutputTorque_b_Nm()); }
    if (k.force) { V(i, "ideal_force_generator_generated_force_b", "[N]", k.force->GetGeneratedForce_b_N()); V(i, "ideal_force_generator_generated_force_i", "[N]", k.force->GetGeneratedForce_i_N()); V(i, "ideal_force_generator_generated_force_rtn", "[N]", k.force->GetGeneratedForce_rtn_N()); }
    if (k.torque) V(i, "ideal_torque_generator_generated_torque_b", "[Nm]", k.torque->GetGeneratedTorque_b_Nm());
    if (k.rate_obs) V(i, "angular_velocity_observer_measured_value_b", "[rad/s]", k.rate_obs->GetAngularVelocity_b_rad_s());
    if (k.att_obs) Q(i, "attitude_observer_quaternion_i2b", k.att_obs->GetQuaternion_i2b());
    if (k.orb_obs) { V(i, "orbit_observer_position_i", "[m]", k.orb_obs->GetPosition_i_m()); V(i, "orbit_observer_velocity_i", "[m/s]", k.orb_obs->GetVelocity_i_m_s()); }
    if (k.sap) { D(i, "sap1_generated_power[W]", k.sap->GetPowerGeneration_W()); D(i, "battery_voltage[V]", k.bat->GetVoltage_V()); }
    if (k.tele) { D(i, "telescope_sun_in_exclusion_angle[]", k.tele->GetIsSunInForbiddenAngle()); D(i, "telescope_earth_in_exclusion_angle[]", k.tele->GetIsEarthInForbiddenAngle()); D(i, "telescope_moon_in_exclusion_angle[]", k.tele->GetIsMoonInForbiddenAngle()); }
    for (int j = 0; j < i; j++) {
      std::string p = Fmt("satellite%d_", i), f = Fmt("_from_satellite%d", j);
      V(-1, p + "position" + f + "_i", "[m]", c.relative.GetRelativePosition_i_m(i, j)); V(-1, p + "velocity" + f + "_i", "[m/s]", c.relative.GetRelativeVelocity_i_m_s(i, j)); V(-1, p + "position" + f + "_rtn", "[m]", c.relative.GetRelativePosition_rtn_m(i, j)); V(-1, p + "velocity" + f + "_rtn", "[m/s]", c.relative.GetRelativeVelocity_rtn_m_s(i, j));
    }
    for (size_t q = 0; q < c.ground.size(); q++) D(-1, Fmt("ground_station%zu_sc%d_visible_flag", q, i), c.ground[q]->IsVisible(i));
  }
}
Script GenO01(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 3; o.max_steps = thorough ? 60 : 20; GenMission(r, s, o); for (long d = 0; d < s.L("n"); d++) { s.p[Fmt("s%ld.log", d)] = (double)r.Int(0, 0xfff); s.p[Fmt("s%ld.logparts", d)] = (double)r.Int(0, kAllParts); }
  s.p["m_log2"] = (double)r.Int(1, 6); s.p["cel"] = r.Chance(0.8);
  return s;
}
struct Run1 { std::vector<double> truth; std::string log; std::vector<Known> known; std::vector<size_t> at; };
// mode 0: logging as configured, 1: the complement, 2: every source, 3: no source, 4: as configured with another log period, 5: log switched off
Run1 FlyO01(const Script& s0, int mode, Ctx& c) {
  auto r = InChild([&] {
    std::string dir = Fmt("m%d", mode); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) _exit(94); Script s = s0;
    for (long d = 0; d < s.L("n"); d++) for (auto [k, all] : {std::pair<const char*, long>{"log", 0xfff}, {"logparts", kAllParts}}) { auto& m = s.p[Fmt("s%ld.%s", d, k)]; long v = (long)m; m = (double)(mode == 1 ? all & ~v : mode == 2 ? all : mode == 3 ? 0 : v); }
    if (mode == 4) s.p["m_log"] = s.P("m_log2");
    Settings st = MissionSettings(s, AllDefs(s)); st.base.Enable("CELESTIAL_INFORMATION", "logging", s.P("cel")); st.Write(); WriteGravityFiles(); HostNoise{0}.Apply(); s2e::randomization::global_randomization.SetSeed(s.L("seed", 1));
    Mission m(s, AllDefs(s)); std::vector<double> truth; Snapshot sn; std::vector<Known> known; std::vector<size_t> at;
    m.ready = [&](Case& cs) { Case* p = &cs; sn.take = [&, p] { at.push_back(known.size()); Snap(*p, m.kits, known, 0); }; if (mode == 0) cs.Log().AddLogList(&sn); };
    m.after = [&](Case& cs, long) { Row w; for (size_t i = 0; i < cs.craft.size(); i++) { SampleTruth(*cs.craft[i], w); SampleField(*cs.craft[i], w); SampleParts(*m.kits[i], w); } w.D("t", cs.Time().GetElapsedTime_s()); truth.insert(truth.end(), w.v.begin(), w.v.end()); };
    if (mode == 5) { s2e::simulation::MonteCarloSimulationExecutor mc(3); mc.SetSaveLogHistoryFlag(false); Case cs(m.Hooks(), true, mc, "logs/"); cs.Initialize(); cs.Main(); }
    else { Case cs(m.Hooks(), true); cs.Initialize(); cs.Main(); }
    std::string o; PutBlob(o, Bytes(truth)); { Real real; PutBlob(o, FindLog("logs", mode == 5 ? ".csv" : "_default.csv")); } std::vector<double> kv, a2; std::string kn; std::vector<double> kc;
    for (size_t a : at) a2.push_back((double)a); for (auto& k : known) { kv.push_back(k.v); kc.push_back(k.craft); kn += k.col + "\n"; } PutBlob(o, Bytes(a2)); PutBlob(o, Bytes(kv)); PutBlob(o, Bytes(kc)); PutBlob(o, kn); return o;
  });
  if (!r.ok) c.Fail("aborted", "the simulation %s", r.why.c_str());
  Run1 u; size_t p = 0; u.truth = Doubles(GetBlob(r.out, p)); u.log = GetBlob(r.out, p); for (double a : Doubles(GetBlob(r.out, p))) u.at.push_back((size_t)a); auto kv = Doubles(GetBlob(r.out, p)), kc = Doubles(GetBlob(r.out, p)); std::string kn = GetBlob(r.out, p); size_t q = 0;
  for (size_t i = 0; i < kv.size(); i++) { size_t e = kn.find('\n', q); u.known.push_back({kn.substr(q, e - q), (int)kc[i], kv[i]}); q = e + 1; }
  return u;
}
struct Table { std::vector<std::string> head; std::vector<std::vector<std::string>> rows; };
std::vector<std::string> Cells(const std::string& l) { std::vector<std::string> v; size_t p = 0, q; while ((q = l.find(',', p)) != std::string::npos) { v.push_back(l.substr(p, q - p)); p = q + 1; } if (p < l.size()) v.push_back(l.substr(p)); return v; }
Table Parse(Ctx& c, const std::string& log, const char* what) {
  Table t; size_t p = 0; c.Check(!log.empty() && log.back() == '\n', "truncated", "%s: the log (%zu bytes) does not end with a complete row", what, log.size());
  while (p < log.size()) { size_t e = log.find('\n', p); auto v = Cells(log.substr(p, e - p)); if (p == 0) t.head = v; else t.rows.push_back(v); p = e + 1; }
  for (size_t i = 0; i < t.rows.size(); i++) c.Check(t.rows[i].size() == t.head.size(), "rectangle", "%s: row %zu has %zu values, the header %zu columns", what, i + 1, t.rows[i].size(), t.head.size());
  c.Probe("rows", (double)t.rows.size()); return t;
}
void RunO01(const Script& s, Ctx& c) {
  Run1 base = FlyO01(s, 0, c); Table t = Parse(c, base.log, "log"); double dt = s.P("dt"); long ml = s.L("m_log"), steps = s.L("steps");
  c.Check((long)t.rows.size() == (steps + ml - 1) / ml, "row-count", "%zu rows were written, %ld logging instants passed in %ld steps with one log every %ld", t.rows.size(), (steps + ml - 1) / ml, steps, ml);
  c.Check(base.at.size() == t.rows.size(), "row-count", "%zu rows were written at %zu logging instants", t.rows.size(), base.at.size());
  c.Check(!t.head.empty() && t.head[0].compare(0, 12, "elapsed_time") == 0, "time-column", "the first column is %s", t.head.empty() ? "missing" : t.head[0].c_str());
  std::map<std::pair<int, std::string>, size_t> col; std::map<std::pair<int, std::string>, int> dup; int craft = -1; for (size_t i = 0; i < t.head.size(); i++) {
    if (t.head[i] == "spacecraft_angular_velocity_b_x[rad/s]") craft++;
    bool glob = craft < 0 || t.head[i].compare(0, 9, "satellite") == 0 || t.head[i].compare(0, 14, "ground_station") == 0; auto key = std::make_pair(glob ? -1 : craft, t.head[i]); col[key] = i; dup[key]++;
  }
  c.Check(craft + 1 == s.L("n"), "columns", "%d spacecraft appear in the header, %ld are simulated", craft + 1, s.L("n"));
  for (size_t i = 0; i < t.rows.size(); i++) {
    c.Near(atof(t.rows[i][0].c_str()), i * ml * dt, 1e-5 * (1 + i * ml * dt), "row-time", Fmt("time of row %zu", i + 1));
    size_t e = i + 1 < base.at.size() ? base.at[i + 1] : base.known.size();
    for (size_t k = base.at[i]; k < e; k++) {
      auto& w = base.known[k]; auto it = col.find({w.craft, w.col}); if (it == col.end() || dup[it->first] > 1) continue;
      const std::string& x = t.rows[i][it->second]; double g = atof(x.c_str()); c.Probe("values compared");
      c.Check((std::isnan(g) && std::isnan(w.v)) || g == w.v || std::fabs(g - w.v) <= 1e-5 * std::fabs(w.v) + 1e-300, "value", "row %zu, spacecraft %d, %s: logged %s, the value was %.9g", i + 1, w.craft, w.col.c_str(), x.c_str(), w.v);
    }
  }
  // the other ways of logging
  size_t cols[4] = {t.head.size()}; static const char* W[] = {"", "complementary log sources", "all log sources", "no optional log source", "another log period", "log switched off"};
  Table all; std::vector<Table> tab(6); tab[0] = t;
  for (int m = 1; m < 6; m++) {
    Run1 o = FlyO01(s, m, c); c.Check(o.truth.size() == base.truth.size(), "trajectory-length", "%s: %zu values instead of %zu", W[m], o.truth.size(), base.truth.size());
    for (size_t i = 0; i < o.truth.size(); i++) if (memcmp(&o.truth[i], &base.truth[i], 8) && !(std::isnan(o.truth[i]) && std::isnan(base.truth[i]))) c.Fail("logging-changes-run", "with %s the simulated state differs: value %zu is %.17g instead of %.17g", W[m], i, o.truth[i], base.truth[i]);
    if (m == 5) { c.Check(o.log.empty(), "log-off", "a log of %zu bytes was written although it is switched off", o.log.size()); continue; }
    tab[m] = Parse(c, o.log, W[m]); if (m < 4) cols[m] = tab[m].head.size();
  }
  c.Check(cols[2] - cols[3] == (cols[0] - cols[3]) + (cols[1] - cols[3]), "columns-of-source", "enabling log sources does not add exactly their columns: %zu with none, %zu and %zu with complementary sets, %zu with all", cols[3], cols[0], cols[1], cols[2]);
  auto sub = [&](const Table& small, const Table& big, const char* what, long ra, long rb) {  // columns of small are a subsequence of big with identical text; rows at multiples
    size_t j = 0; for (size_t i = 0; i < small.head.size(); i++) {
      bool found = false; for (; j < big.head.size() && !found; j++) {
        if (big.head[j] != small.head[i]) continue; bool eq = true; for (size_t r2 = 0; r2 < small.rows.size() && eq; r2++) { long inst = (long)r2 * ra; if (inst % rb) continue; size_t rr = inst / rb; if (rr < big.rows.size()) eq = small.rows[r2][i] == big.rows[rr][j]; }
        if (eq) found = true;
      }
      c.Check(found, "column-changed", "%s: column %s (number %zu) is not found with the same values and order in the fuller log", what, small.head[i].c_str(), i + 1); c.Probe("columns compared");
    }
  };
  {  // with every source enabled, every quantity which is known to be logged has its column
    std::map<std::pair<int, std::string>, int> have; int cr = -1; for (auto& h : tab[2].head) { if (h == "spacecraft_angular_velocity_b_x[rad/s]") cr++; bool glob = cr < 0 || h.compare(0, 9, "satellite") == 0 || h.compare(0, 14, "ground_station") == 0; have[{glob ? -1 : cr, h}]++; }
    size_t e = base.at.size() > 1 ? base.at[1] : base.known.size(); for (size_t k = 0; k < e; k++) { auto& w = base.known[k]; if (w.craft < 0 && !s.P("cel") && (w.col.find("_position_i_") != std::string::npos || w.col.find("_velocity_i_") != std::string::npos) && w.col.compare(0, 9, "satellite")) continue; c.Check(have.count({w.craft, w.col}), "missing-column", "spacecraft %d: %s is not in the log although every log source is enabled", w.craft, w.col.c_str()); }
    for (int i = 0; i <= cr; i++) for (const char* h : {"gravity_gradient_torque_b_x[Nm]", "spacecraft_magnetic_moment_b_x[Am2]", "magnetic_disturbance_torque_b_x[Nm]", "air_drag_torque_b_x[Nm]", "air_drag_force_b_x[N]", "srp_torque_b_x[Nm]", "srp_force_b_x[N]", "third_body_acceleration_i_x[m/s2]", "geopotential_acceleration_ecef_x[m/s2]"}) c.Check(have.count({i, h}), "missing-column", "spacecraft %d: %s is not in the log although every log source is enabled", i, h);
    c.Probe("columns required", (double)e);
  }
  for (int m : {0, 1, 3}) sub(tab[m], tab[2], W[m][0] ? W[m] : "configured log sources", ml, ml);
  sub(tab[4], tab[0], W[4], s.L("m_log2"), ml); c.Check(tab[4].head == tab[0].head, "column-changed", "another log period changes the columns");
  for (auto& r : t.rows) for (auto& x : r) c.Hist(x);
  c.sim_time_s += 6 * dt * steps; uint64_t st = 0; for (long d = 0; d < s.L("n"); d++) st = st * 1000003 + (uint64_t)s.P(Fmt("s%ld.log", d)) * 65536 + (uint64_t)s.P(Fmt("s%ld.logparts", d)); c.State(st); c.nontrivial = t.rows.size() > 1;
}
// ---------------------------------------------------------------- O02
Script GenO02(uint64_t seed, bool thorough) {
  Rng r(seed); Script s; MissionOpt o; o.max_craft = 2; o.min_steps = 20; o.max_steps = thorough ? 200 : 70; GenMission(r, s, o); s.p["m_log"] = r.Chance(0.8) ? 1 : 2;
  s.p["save"] = r.Chance(0.5); s.p["restart"] = (double)(r.Chance(0.5) ? r.Int(1, 3) : 0); s.p["gap"] = (double)r.Int(1, 100000); s.p["back"] = r.Chance(0.2); s.p["t0"] = (double)r.Int(1000000000, 1900000000); s.p["pre"] = r.Chance(0.3);
  int kind = (int)r.Int(0, 9), est = (int)s.p["steps"] / 3 + 2;
  auto at = [&] { return (long)r.Int(1, est); };
  if (kind == 0) s.Add(0, "open", {(double)r.Pick<int>({EACCES, ENOSPC, EMFILE, EIO, EROFS})});
  else if (kind <= 2) s.Add(at(), "err", {(double)r.Pick<int>({ENOSPC, EIO, EDQUOT}), (double)r.Int(0, 4000)});  // persistent, after accepting some bytes of the write
  else if (kind == 3) s.Add(at(), "once", {(double)r.Pick<int>({ENOSPC, EIO})});                                 // one write fails completely, later ones work
  else if (kind == 4) for (long i = r.Int(1, 6); i > 0; i--) s.Add(at(), "eintr", {});
  else if (kind == 5) for (long i = r.Int(1, 10); i > 0; i--) s.Add(at(), "short", {(double)r.Int(1, 3000)});
  else if (kind <= 7) s.Add((long)r.Int(1, s.L("steps")), "kill", {});
  else if (kind == 8) s.Add(at(), "killw", {(double)r.Int(0, 9000)});  // dies inside a write, after some bytes
  if (r.Chance(0.3) && kind != 0 && kind != 3) s.Add(at(), "short", {(double)r.Int(1, 5000)});
  s.SortEvents(); return s;
}
struct Res { std::vector<double> truth; bool ok = false; std::string why; long accepted = 0; };
// One process: starts the simulation at the given host time in the current scratch directory, with the faults of the script when asked.
Res Start(const Script& s, double wall, bool faults, const char* dir) {
  std::string note = ScratchDir() + "/accepted"; { Real real; WriteFile(note, "0"); }
  auto r = InChild([&] {
    if (chdir(dir)) _exit(94); g_clock.active = true; g_clock.wall_ns = (int64_t)wall * 1000000000ll + 5; g_entropy.active = true; setenv("TZ", "UTC", 1); tzset();
    s2e::randomization::global_randomization.SetSeed(s.L("seed", 1)); Mission m(s, AllDefs(s)); std::vector<double> truth; long nw = 0, accepted = 0; bool broken = false, any = false;
    auto save = [&] { Real real; WriteFile(note, Fmt("%ld", accepted)); };
    std::map<long, std::vector<const Event*>> at; for (auto& e : s.ev) at[e.t].push_back(&e); std::map<const Event*, bool> used;
    if (faults) {
      g_disk.active = true;
      g_disk.fate = [&](const DiskOp& op) {
        DiskFate f; if (op.path.find(".csv") == std::string::npos) return f;
        if (op.kind == DiskOp::kOpen) { for (auto& e : s.ev) if (e.kind == "open") f.err = (int)e.I(0); return f; }
        nw++; if (broken) { f.err = ENOSPC; return f; }
        for (auto& e : s.ev) if (e.t <= nw && !used[&e]) {
          if (e.kind == "err") { used[&e] = true; broken = any = true; size_t k = std::min<size_t>((size_t)e.A(1), op.size); if (k) f.accept = k; else f.err = (int)e.I(0); break; }
          if (e.kind == "once") { used[&e] = true; any = true; f.err = (int)e.I(0); break; }
          if (e.kind == "eintr") { used[&e] = true; f.err = EINTR; break; }
          if (e.kind == "short") { used[&e] = true; f.accept = std::min<size_t>((size_t)e.A(0), op.size); break; }
          if (e.kind == "killw") { used[&e] = true; any = true; broken = true; size_t k = std::min<size_t>((size_t)e.A(0), op.size); f.accept = k; break; }
        }
        if (!any) { accepted += f.err ? 0 : (long)std::min(op.size, f.accept); save(); }
        for (auto& e : s.ev) if (e.kind == "killw" && used[&e] && !f.accept) _exit(123);
        return f;
      };
    }
    m.after = [&](Case& c, long step) {
      Row w; for (size_t i = 0; i < c.craft.size(); i++) { SampleTruth(*c.craft[i], w); SampleField(*c.craft[i], w); SampleParts(*m.kits[i], w); } truth.insert(truth.end(), w.v.begin(), w.v.end());
      if (!faults) return; for (auto& e : s.ev) { if (e.kind == "kill" && e.t == step) _exit(123); if (e.kind == "killw" && used[&e]) _exit(123); }
    };
    { Case c(m.Hooks(), true); c.Initialize(); c.Main(); }
    if (faults) for (auto& e : s.ev) if (e.kind == "killw" && used[&e]) _exit(123);
    return Bytes(truth);
  });
  Res o; o.ok = r.ok; o.why = r.why; if (r.ok) o.truth = Doubles(r.out); { Real real; o.accepted = atol(ReadFile(note).c_str()); } return o;
}
std::map<std::string, std::string> Tree(const std::string& d) { std::map<std::string, std::string> m; Real real; for (auto& f : ListTree(d)) m[f] = ReadFile(d + "/" + f); return m; }
std::string Csv(const std::map<std::string, std::string>& t, const std::map<std::string, std::string>& before) { for (auto& f : t) if (f.first.size() > 12 && f.first.substr(f.first.size() - 12) == "_default.csv" && !before.count(f.first)) return f.second; return ""; }
void RunO02(const Script& s, Ctx& c) {
  for (const char* d : {"ref", "bad"}) {
    mkdir(d, 0755); if (chdir(d)) abort(); Settings st = MissionSettings(s, AllDefs(s)); st.base.Enable("SIMULATION_SETTINGS", "save_initialize_files", s.P("save")); st.base.Set("SIMULATION_SETTINGS", "log_file_save_directory", "./logs/"); mkdir("logs", 0755); st.Write(); WriteGravityFiles(); if (chdir("..")) abort();
  }
  double t0 = s.P("t0", 1.6e9); Res ref = Start(s, t0, false, "ref"); if (!ref.ok) c.Fail("aborted", "the undisturbed simulation %s", ref.why.c_str());
  auto T0 = Tree("ref/logs"); std::string L = Csv(T0, {}); c.Check(!L.empty(), "no-log", "the undisturbed simulation wrote no log");
  if (s.P("pre")) {  // settings already copied into the log directory by somebody else
    time_t tt = (time_t)t0; struct tm g; gmtime_r(&tt, &g); char b[64]; strftime(b, 64, "bad/logs/logs_%y%m%d_%H%M%S", &g); mkdir(b, 0755); WriteFile(std::string(b) + "/satellite.ini", "keep"); WriteFile(std::string(b) + "/base.ini", "keep"); c.Count("existing copies of settings");
  }
  // copies of the settings from which the run was configured
  auto copies = [&](const std::map<std::string, std::string>& t, const std::map<std::string, std::string>& old, const char* root, const char* what, bool pre) {
    std::string d; for (auto& x : t) if (x.first.size() > 12 && x.first.substr(x.first.size() - 12) == "_default.csv" && !old.count(x.first)) d = x.first.substr(0, x.first.rfind('/') + 1); if (d.empty()) return; long n = 0;
    for (auto& x : t) if (x.first.compare(0, d.size(), d) == 0 && x.first.size() > 4 && x.first.substr(x.first.size() - 4) == ".ini" && !old.count(x.first)) n++; if (!s.P("save")) { c.Check(!n, "copy", "%s: %ld copies of settings although they are switched off", what, n); return; }
    std::map<std::string, std::vector<std::string>> src; { Real real; std::string set = std::string(root) + "/settings"; for (auto& x : ListTree(set)) src[x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1)].push_back(ReadFile(set + "/" + x)); }
    std::vector<std::string> need = {"base.ini", "satellite.ini", "local_environment.ini", "disturbance.ini", "structure.ini"}; if (s.P("gs")) need.push_back("ground_station.ini");
    for (auto& nm : need) { if (pre && (nm == "base.ini" || nm == "satellite.ini")) continue; auto it = t.find(d + nm); c.Check(it != t.end(), "copy", "%s: no copy of %s in the log directory", what, nm.c_str()); bool same = false; for (auto& x : src[nm]) same = same || x == it->second; c.Check(same, "copy", "%s: the copy of %s differs from the settings of the run", what, nm.c_str()); c.Probe("copies of settings compared"); }
  };
  copies(T0, {}, "ref", "undisturbed run", false);
  bool open = false, fatal = false, killed = false, soft = true; for (auto& e : s.ev) { open = open || e.kind == "open"; if (e.kind == "err" || e.kind == "once" || e.kind == "open") soft = false, fatal = true; if (e.kind == "kill" || e.kind == "killw") killed = true, soft = false; c.Count("fault " + e.kind); }
  auto before = Tree("bad/logs"); Res bad = Start(s, t0, true, "bad"); auto after = Tree("bad/logs"); std::string B = Csv(after, before);
  if (bad.ok) copies(after, before, "bad", "run with disk faults", s.P("pre"));
  bool died = !bad.ok && bad.why.compare(0, 21, "ended with status 123") == 0;
  if (!bad.ok && !died) c.Fail("fault-fatal", "with disk faults the simulation %s", bad.why.c_str());
  c.Check(!died || killed, "died", "the simulation ended early");
  if (bad.ok) { c.Check(bad.truth.size() == ref.truth.size() && !memcmp(bad.truth.data(), ref.truth.data(), 8 * ref.truth.size()), "trajectory", "a disk fault changed the simulated trajectory"); c.Probe("runs completed under disk faults"); }
  c.Check(B.size() <= L.size() && L.compare(0, B.size(), B) == 0, "not-prefix", "the log left behind (%zu bytes) is not a prefix of the undisturbed log (%zu bytes)", B.size(), L.size());
  c.Check((long)B.size() >= bad.accepted, "lost", "%ld bytes had reached the disk before the fault, %zu are in the log", bad.accepted, B.size());
  if (soft) { c.Check(B == L, "incomplete", "interrupted and short writes lost part of the log: %zu of %zu bytes", B.size(), L.size()); c.Probe("short or interrupted writes survived"); }
  if (!open) for (auto& f : before) c.Check(after[f.first] == f.second, "overwritten", "the existing file %s was changed", f.first.c_str());
  if (s.P("save") && !died && s.P("pre")) c.Probe("existing settings copies kept");
  (void)fatal; c.Probe("prefix compared", (double)B.size());
  // restarts at other times
  double t = t0; auto have = after; for (long k = 0; k < s.L("restart"); k++) {
    t = s.P("back") ? t - s.P("gap") : t + s.P("gap"); Res again = Start(s, t, false, "bad"); if (!again.ok) c.Fail("restart", "after the fault the restarted simulation %s", again.why.c_str());
    auto now = Tree("bad/logs"); for (auto& f : have) c.Check(now.count(f.first) && now[f.first] == f.second, "restart-overwrites", "restart %ld changed %s of an earlier run", k + 1, f.first.c_str());
    c.Check(Csv(now, have) == L, "restart-log", "restart %ld: its log (%zu bytes) is not the complete log (%zu bytes)", k + 1, Csv(now, have).size(), L.size());
    c.Check(again.truth.size() == ref.truth.size() && !memcmp(again.truth.data(), ref.truth.data(), 8 * ref.truth.size()), "trajectory", "the restarted simulation has another trajectory"); copies(now, have, "bad", "restart", false); have = now; c.Count("restarts");
  }
  c.Hist(B); c.Hist((uint64_t)bad.accepted); c.sim_time_s += s.P("dt") * s.P("steps") * (2 + s.P("restart")); uint64_t st = B.size() * 16 + s.L("restart") * 4 + (s.P("save") != 0) * 2 + died; c.State(st); c.nontrivial = !s.ev.empty() || s.L("restart") > 0;
}
Registrar r1{[] { Property p; p.id = "O01"; p.generate = GenO01; p.execute = RunO01; p.quick_runs = 250; p.thorough_runs = 6000;
  p.states_measure = "distinct combinations of enabled log sources"; p.real = "Logger, log utilities, SimulationCase, Spacecraft, environment, disturbances, dynamics, components, RelativeInformation, GroundStation";
  p.stub = "ephemeris (SPICE) and NRLMSISE libraries"; p.level_note = "six runs per seed: configured, complementary, all and no log sources, another log period, log off"; return p; }()};
Registrar r2{[] { Property p; p.id = "O02"; p.generate = GenO02; p.execute = RunO02; p.quick_runs = 400; p.thorough_runs = 10000;
  p.states_measure = "distinct (bytes left on disk, restarts, settings copies, died) outcomes"; p.real = "Logger, SimulationCase, Spacecraft and everything below";
  p.stub = "ephemeris (SPICE) and NRLMSISE libraries; disk faults injected between the C++ stream and the kernel"; p.level_note = "process death keeps the bytes accepted by the simulated disk"; return p; }()};
}  // namespace
